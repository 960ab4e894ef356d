// C33: geometry and colour against an independent computation.
#include "mon.h"
using namespace mon;
using namespace mm;
using std::string; using std::vector;
typedef long double LD;
namespace {
double num(Rng& r)
{
    switch (r.below(12))
    {
        case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (double)r.range(-1000, 1000);
        case 4: return (r.unit() - 0.5) * 1e-6; case 5: return (r.unit() - 0.5) * 1e9; case 6: return (r.unit() - 0.5) * 1e40; case 7: return -0.0;
        default: return (r.unit() - 0.5) * 2000;
    }
}
double angle(Rng& r) { return r.chance(1, 2) ? (double)r.range(-8, 8) * M_PI / 2 : (r.unit() - 0.5) * 20; }
struct M6 { LD v[6]; };
M6 of(const Matrix& m) { M6 r; for (int i = 0; i < 6; i++) r.v[i] = m[i]; return r; }
// the affine map written as a 3x3 product with row vectors
M6 mul(const M6& a, const M6& b)
{
    LD A[3][3] = { {a.v[0], a.v[1], 0}, {a.v[2], a.v[3], 0}, {a.v[4], a.v[5], 1} }, B[3][3] = { {b.v[0], b.v[1], 0}, {b.v[2], b.v[3], 0}, {b.v[4], b.v[5], 1} }, C[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { C[i][j] = 0; for (int k = 0; k < 3; k++) C[i][j] += A[i][k] * B[k][j]; }
    return { { C[0][0], C[0][1], C[1][0], C[1][1], C[2][0], C[2][1] } };
}
M6 absm(M6 m) { for (auto& x : m.v) x = fabsl(x); return m; }
bool nearv(LD got, LD want, LD scale) { return fabsl(got - want) <= 1e-12L * scale + 1e-300L || (!std::isfinite((double)want)); }
string str(const Matrix& m) { string s = "["; for (int i = 0; i < 6; i++) s += fmtd(m[i]) + " "; return s + "]"; }
string str(const PdfRect& r) { return "(" + fmtd(r.GetLeft()) + " " + fmtd(r.GetBottom()) + " " + fmtd(r.GetWidth()) + " " + fmtd(r.GetHeight()) + ")"; }
void near6(Ctx& c, const char* key, const Matrix& m, const M6& want, const M6& scale, const string& in)
{
    for (int i = 0; i < 6; i++) if (!nearv(m[i], want.v[i], scale.v[i])) c.die(key, in + " gives " + str(m) + cat(", coefficient ", i, " should be ") + fmtd((double)want.v[i]));
    c.ev(key);
}
Matrix randM(Rng& r)
{
    switch (r.below(6))
    {
        case 0: return Matrix::CreateTranslation({ num(r), num(r) }); case 1: return Matrix::CreateScale({ num(r), num(r) }); case 2: return Matrix::CreateRotation(angle(r));
        case 3: return Matrix::CreateRotation({ num(r), num(r) }, angle(r)); default: return Matrix::FromCoefficients(num(r), num(r), num(r), num(r), num(r), num(r));
    }
}
void matrices(Ctx& c)
{
    Rng& r = c.rng; Matrix a = randM(r), b = randM(r), d = randM(r); double x = num(r), y = num(r);
    near6(c, "matrix product", a * b, mul(of(a), of(b)), mul(absm(of(a)), absm(of(b))), str(a) + " * " + str(b));
    {   // vectors: (v * a) * b against v * (a*b)
        Vector2 v(x, y); Vector2 w = v * a; LD wx = (LD)x * a[0] + (LD)y * a[2] + a[4], wy = (LD)x * a[1] + (LD)y * a[3] + a[5];
        LD sx = fabsl((LD)x * a[0]) + fabsl((LD)y * a[2]) + fabsl(a[4]), sy = fabsl((LD)x * a[1]) + fabsl((LD)y * a[3]) + fabsl(a[5]);
        if (!nearv(w.X, wx, sx) || !nearv(w.Y, wy, sy)) c.die("vector transform", "(" + fmtd(x) + "," + fmtd(y) + ")*" + str(a) + " = " + fmtd(w.X) + "," + fmtd(w.Y));
        Vector2 q = w * b, q2 = v * (a * b); M6 ab = mul(absm(of(a)), absm(of(b)));
        LD s1 = fabsl(x) * ab.v[0] + fabsl(y) * ab.v[2] + ab.v[4], s2 = fabsl(x) * ab.v[1] + fabsl(y) * ab.v[3] + ab.v[5];
        if (std::isfinite(q.X) && std::isfinite(q2.X) && std::isfinite(q.Y) && std::isfinite(q2.Y) && (!nearv(q.X, q2.X, s1) || !nearv(q.Y, q2.Y, s2))) c.die("composition", str(a) + str(b));
        c.ev("vector transform");
        Vector2 u(num(r), num(r)), s = v + u, t = v - u, p = v; p += u; c.require(p.X == s.X && p.Y == s.Y && s.X == x + u.X && s.Y == y + u.Y, "vector sum", ""); p -= u; c.require(t.X == x - u.X && t.Y == y - u.Y && p.X == s.X - u.X && p.Y == s.Y - u.Y, "vector difference", "");
        LD l2 = (LD)x * x + (LD)y * y; c.require(nearv(v.GetSquaredLength(), l2, l2) && nearv(v.GetLength(), sqrtl(l2), sqrtl(l2)), "vector length", fmtd(x) + "," + fmtd(y));
    }
    {   // translations: applied before the map
        Matrix t = a; Matrix& ref = t.Translate({ x, y }); M6 T{ { 1, 0, 0, 1, x, y } }; M6 w = mul(T, of(a)), s = mul(absm(T), absm(of(a)));
        c.require(&ref == &t && t == a.Translated({ x, y }), "translate in place", str(a)); near6(c, "translated", t, w, s, str(a) + " by " + fmtd(x) + "," + fmtd(y));
        Matrix tx = a, ty = a; tx.Apply<Tx>(x); ty.Apply<Ty>(y); M6 X{ { 1, 0, 0, 1, x, 0 } }, Y{ { 1, 0, 0, 1, 0, y } };
        near6(c, "translated along x", tx, mul(X, of(a)), mul(absm(X), absm(of(a))), str(a) + " by " + fmtd(x)); near6(c, "translated along y", ty, mul(Y, of(a)), mul(absm(Y), absm(of(a))), str(a) + " by " + fmtd(y));
        c.require(a.Get<Tx>() == a[4] && a.Get<Ty>() == a[5] && a.GetTranslationVector().X == a[4] && a.GetTranslationVector().Y == a[5], "translation parts", str(a));
        Matrix s2 = a; s2.Set<Tx>(x); s2.Set<Ty>(y); c.require(s2[4] == x && s2[5] == y && s2[0] == a[0] && s2[1] == a[1] && s2[2] == a[2] && s2[3] == a[3], "translation set", str(a));
        Matrix ct = Matrix::CreateTranslation({ x, y }), cs = Matrix::CreateScale({ x, y }); c.require(ct == Matrix::FromCoefficients(1, 0, 0, 1, x, y) && cs == Matrix::FromCoefficients(x, 0, 0, y, 0, 0) && Matrix() == Matrix::FromCoefficients(1, 0, 0, 1, 0, 0), "constructors", "");
        c.require(a * Matrix() == a && Matrix() * a == a, "identity", str(a));
    }
    {   // rotations: orthogonal, keep the centre, inverse turns back
        double th = angle(r); Vector2 ce(num(r), num(r)); Matrix R = Matrix::CreateRotation(ce, th); LD co = cosl(th), si = sinl(th); LD s = 4 * (fabsl(ce.X) + fabsl(ce.Y)) + 1;
        M6 w{ { co, si, -si, co, -ce.X * co + ce.Y * si + ce.X, -ce.X * si - ce.Y * co + ce.Y } }; near6(c, "rotation", R, w, { { 4, 4, 4, 4, s, s } }, fmtd(th)); Vector2 k = ce * R; c.require(nearv(k.X, ce.X, s) && nearv(k.Y, ce.Y, s), "rotation centre", fmtd(ce.X) + "," + fmtd(ce.Y));
        Matrix I = R * Matrix::CreateRotation(ce, -th); near6(c, "rotation inverse", I, { { 1, 0, 0, 1, 0, 0 } }, { { 4, 4, 4, 4, 4 * s, 4 * s } }, fmtd(th));
        // rotation then scaling splits again
        double sx = std::fabs((r.unit() + 0.01) * 50), sy = std::fabs((r.unit() + 0.01) * 50); Matrix RS = Matrix::CreateRotation(th) * Matrix::CreateScale({ sx, sy }) * Matrix::CreateTranslation({ num(r), num(r) }); Vector2 sv = RS.GetScaleVector();
        c.require(nearv(sv.X, sx, 10 * sx) && nearv(sv.Y, sy, 10 * sy), "scale parts", str(RS)); near6(c, "rotation part", RS.GetRotation(), { { co, si, -si, co, 0, 0 } }, { { 40, 40, 40, 40, 1, 1 } }, str(RS)); c.require(RS.GetScalingRotation() == Matrix::FromCoefficients(RS[0], RS[1], RS[2], RS[3], 0, 0), "scaling rotation", str(RS));
    }
    {   // arrays and equality
        double arr[6]; a.ToArray(arr); for (int i = 0; i < 6; i++) c.require(arr[i] == a[i], "to array", str(a)); c.require(Matrix::FromArray(arr) == a, "from array", str(a)); PdfArray pa; pa.Add(PdfObject((int64_t)3)); a.ToArray(pa); c.require(pa.size() == 6 && Matrix::FromArray(pa) == a, "array round trip", str(a));
        Matrix e = a; c.require(e == a && !(e != a), "equality", str(a)); arr[r.below(6)] += 1 + std::fabs(arr[0]) ; Matrix f = Matrix::FromArray(arr); bool diff = false; for (int i = 0; i < 6; i++) diff |= f[i] != a[i]; c.require((f != a) == diff && (f == a) == !diff, "inequality", str(a) + str(f));
        PdfArray shorter; for (unsigned i = 0; i < r.below(6); i++) shorter.Add(PdfObject(1.0)); if (shorter.size() < 6) { bool refused = false; try { (void)Matrix::FromArray(shorter); } catch (const std::exception&) { refused = true; } catch (...) { refused = true; } c.require(refused, "short array accepted", cat(shorter.size())); c.ev("short arrays refused"); }
        c.ev("array round trip");
    }
    c.state("m" + str(a) + str(b)); (void)d;
}

void rects(Ctx& c)
{
    Rng& r = c.rng;
    auto small = [&] { return r.chance(1, 3) ? (double)r.range(-20, 20) : (r.unit() - 0.5) * 1000; };
    double x1 = r.chance(1, 6) ? num(r) : small(), y1 = r.chance(1, 6) ? num(r) : small(), x2 = r.chance(1, 8) ? x1 : small(), y2 = r.chance(1, 8) ? y1 : small(); string in = fmtd(x1) + " " + fmtd(y1) + " " + fmtd(x2) + " " + fmtd(y2);
    PdfRect a = PdfRect::FromCorners(x1, y1, x2, y2); LD sc = fabsl(x1) + fabsl(x2) + fabsl(y1) + fabsl(y2);
    double L = std::min(x1, x2), R = std::max(x1, x2), B = std::min(y1, y2), T = std::max(y1, y2);
    auto same = [&](const PdfRect& q, double l, double b, double rr, double t, LD s) { return nearv(q.GetLeft(), l, s) && nearv(q.GetBottom(), b, s) && nearv(q.GetRight(), rr, s) && nearv(q.GetTop(), t, s) && q.GetWidth() >= 0 && q.GetHeight() >= 0 && nearv(q.GetWidth(), (LD)rr - l, s) && nearv(q.GetHeight(), (LD)t - b, s); };
    c.require(same(a, L, B, R, T, sc), "rect from corners", in + " gives " + str(a));
    {
        PdfArray arr; arr.Add(PdfObject(7.0)); a.ToArray(arr); c.require(arr.size() == 4, "rect array size", in); PdfRect q(arr), q2; q2.FromArray(arr); c.require(same(q, L, B, R, T, sc) && same(q2, L, B, R, T, sc), "rect array round trip", in + " gives " + str(q));
        PdfArray raw; for (double v : { x1, y1, x2, y2 }) raw.Add(PdfObject(v)); c.require(same(PdfRect(raw), L, B, R, T, sc), "rect from unordered array", in);
        PdfArray ints; int64_t iv[4]; for (auto& v : iv) { v = r.range(-1000, 1000); ints.Add(PdfObject(v)); } c.require(same(PdfRect(ints), (double)std::min(iv[0], iv[2]), (double)std::min(iv[1], iv[3]), (double)std::max(iv[0], iv[2]), (double)std::max(iv[1], iv[3]), 4000), "rect from integers", "");
        unsigned n = (unsigned)r.below(8); PdfArray odd; for (unsigned i = 0; i < n; i++) odd.Add(PdfObject(1.0)); bool bad = n != 4; if (n == 4 && r.chance(1, 2)) { odd[(unsigned)r.below(4)] = PdfObject(PdfName("x")); bad = true; } PdfRect keep = a; bool refused = false; try { keep.FromArray(odd); } catch (const PdfError&) { refused = true; }
        c.require(refused == bad, "rect array domain", cat("size ", n)); if (bad) { c.require(same(keep, L, B, R, T, sc), "rect changed by a refused array", str(keep)); c.ev("rect arrays refused"); }
        PdfVariant v; PdfTokenizer tok;
        if (std::fabs(sc) < 1e9) { string txt = a.ToString(); SpanStreamDevice d2(txt); tok.ReadNextVariant(d2, v); PdfRect back(v.GetArray()); c.require(fabsl(back.GetLeft() - L) < 1e-5 && fabsl(back.GetRight() - R) < 1e-5 && fabsl(back.GetBottom() - B) < 1e-5 && fabsl(back.GetTop() - T) < 1e-5, "rect as text", txt); c.ev("rects as text"); }
        c.ev("rect round trips");
    }
    PdfRect b = PdfRect::FromCorners(small(), small(), small(), small());
    if (r.chance(1, 3)) { double dx = r.chance(1, 2) ? R : L, dy = r.chance(1, 2) ? T : B; b = PdfRect::FromCorners(dx, dy, dx + small() / 8, dy + small() / 8); }
    bool zero = b.GetLeft() == 0 && b.GetBottom() == 0 && b.GetWidth() == 0 && b.GetHeight() == 0;
    if (!zero)
    {
        PdfRect i = a; i.Intersect(b); LD s = sc + fabsl(b.GetLeft()) + fabsl(b.GetRight()) + fabsl(b.GetBottom()) + fabsl(b.GetTop());
        double l = std::max(L, b.GetLeft()), rr = std::min(R, b.GetRight()), bo = std::max(B, b.GetBottom()), t = std::min(T, b.GetTop());
        string what = str(a) + " with " + str(b) + " gives " + str(i);
        c.require(i.GetWidth() >= 0 && i.GetHeight() >= 0, "intersection with a negative size", what);
        if (l < rr && bo < t) { c.require(same(i, l, bo, rr, t, s), "intersection", what); c.ev("overlapping rects"); }
        else { c.require((double)i.GetWidth() * i.GetHeight() <= 1e-9 * (double)s * (double)s, "intersection of disjoint rects", what); c.ev("disjoint rects"); }
        for (int k = 0; k < 6; k++)
        {
            double px = k < 2 ? small() : (k < 4 ? L + (R - L) * r.unit() : b.GetLeft() + b.GetWidth() * r.unit()), py = k < 2 ? small() : (k < 4 ? B + (T - B) * r.unit() : b.GetBottom() + b.GetHeight() * r.unit());
            double eps = 1e-9 * (double)(s + fabsl(px) + fabsl(py)); bool clear = true; for (double e : { L, R, b.GetLeft(), b.GetRight() }) clear &= std::fabs(px - e) > eps; for (double e : { B, T, b.GetBottom(), b.GetTop() }) clear &= std::fabs(py - e) > eps;
            if (!clear) continue; bool ina = px > L && px < R && py > B && py < T, inb = px > b.GetLeft() && px < b.GetRight() && py > b.GetBottom() && py < b.GetTop();
            c.require(a.Contains(px, py) == ina && b.Contains(px, py) == inb, "contains", str(a) + fmtd(px) + "," + fmtd(py)); c.require(i.Contains(px, py) == (ina && inb), "contained in the intersection", what + " point " + fmtd(px) + "," + fmtd(py)); c.ev("points classified");
        }
    }
    c.require(a.Contains(a.GetLeft(), a.GetBottom()) && a.Contains(a.GetRight(), a.GetTop()), "contains its corners", str(a));
    {
        Matrix m = randM(r); PdfRect q = a * m; LD xs[4], ys[4], S = 0; LD cx[4] = { L, R, R, L }, cy[4] = { B, B, T, T };
        for (int k = 0; k < 4; k++) { xs[k] = cx[k] * m[0] + cy[k] * m[2] + m[4]; ys[k] = cx[k] * m[1] + cy[k] * m[3] + m[5]; S = std::max(S, fabsl(cx[k] * m[0]) + fabsl(cy[k] * m[2]) + fabsl(m[4]) + fabsl(cx[k] * m[1]) + fabsl(cy[k] * m[3]) + fabsl(m[5])); }
        double l = (double)*std::min_element(xs, xs + 4), rr = (double)*std::max_element(xs, xs + 4), bo = (double)*std::min_element(ys, ys + 4), t = (double)*std::max_element(ys, ys + 4);
        if (std::isfinite((double)S * 4)) { c.require(same(q, l, bo, rr, t, S * 4), "rect transform", str(a) + "*" + str(m) + " = " + str(q)); c.ev("rect transforms"); }
    }
    if (std::fabs((double)sc) < 1e7)
    {
        double th = angle(r); Matrix F = GetFrameRotationTransform(a, th), G = GetFrameRotationTransformInverse(a, th); LD s = 16 * sc + 16; near6(c, "frame rotation inverse", F * G, { { 1, 0, 0, 1, 0, 0 } }, { { 8, 8, 8, 8, s, s } }, str(a) + fmtd(th)); near6(c, "frame rotation inverse", G * F, { { 1, 0, 0, 1, 0, 0 } }, { { 8, 8, 8, 8, s, s } }, str(a) + fmtd(th));
        int q = (int)r.range(-8, 8); Matrix Q = GetFrameRotationTransform(a, q * M_PI / 2); PdfRect f = a * Q; LD t = 64 * sc + 1; double w = q % 2 ? T - B : R - L, h = q % 2 ? R - L : T - B;
        c.require(nearv(f.GetLeft(), L, t) && nearv(f.GetBottom(), B, t) && nearv(f.GetWidth(), w, t) && nearv(f.GetHeight(), h, t), "frame rotation", str(a) + cat(" by ", q, " quarters: ") + str(f)); c.ev("frame rotations");
    }
    PdfRect g; g.SetLeft(x1); g.SetBottom(y1); g.SetWidth(3); g.SetHeight(4); c.require(g.GetLeft() == x1 && g.GetBottom() == y1 && g.GetWidth() == 3 && g.GetHeight() == 4 && g.GetRight() == x1 + 3 && g.GetTop() == y1 + 4, "rect setters", in);
    c.state("r" + in);
}

double comp(Rng& r)
{
    switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return (double)r.below(256) / 255; case 3: return std::nextafter(1.0, 0); case 4: return 5e-324; case 5: return r.below(11) / 10.0; default: return r.unit(); }
}
double outside(Rng& r)
{
    switch (r.below(7)) { case 0: return -1e-9; case 1: return std::nextafter(1.0, 2); case 2: return NAN; case 3: return INFINITY; case 4: return -INFINITY; case 5: return 255; default: return -r.unit() - 1e-12; }
}
template <class F> bool refuses(F f) { try { f(); return false; } catch (const PdfError&) { return true; } }
bool in01(double v) { return v >= 0 && v <= 1; }

void colours(Ctx& c)
{
    Rng& r = c.rng; double v[4] = { comp(r), comp(r), comp(r), comp(r) }; if (r.chance(1, 6)) v[1] = v[2] = v[0]; string in = fmtd(v[0]) + " " + fmtd(v[1]) + " " + fmtd(v[2]) + " " + fmtd(v[3]);
    auto eq = [&](double a, LD b) { return fabsl(a - b) < 1e-12L; };
    auto isRgb = [&](const PdfColor& q, LD a, LD b, LD d) { return q.IsRGB() && q.GetColorSpace() == PdfColorSpace::DeviceRGB && eq(q.GetRed(), a) && eq(q.GetGreen(), b) && eq(q.GetBlue(), d) && in01(q.GetRed()) && in01(q.GetGreen()) && in01(q.GetBlue()); };
    auto isCmyk = [&](const PdfColor& q, LD a, LD b, LD d, LD e) { return q.IsCMYK() && eq(q.GetCyan(), a) && eq(q.GetMagenta(), b) && eq(q.GetYellow(), d) && eq(q.GetBlack(), e) && in01(q.GetCyan()) && in01(q.GetMagenta()) && in01(q.GetYellow()) && in01(q.GetBlack()); };
    auto isGray = [&](const PdfColor& q, LD a) { return q.IsGrayScale() && eq(q.GetGrayScale(), a) && in01(q.GetGrayScale()); };
    auto toCmyk = [&](LD R, LD G, LD B, LD* o) { o[3] = std::min({ 1 - R, 1 - G, 1 - B }); for (int i = 0; i < 3; i++) o[i] = 0; if (o[3] < 1) { LD k = 1 - o[3]; o[0] = (k - R) / k; o[1] = (k - G) / k; o[2] = (k - B) / k; } };
    c.phase("colour conversions"); PdfColor gray(v[0]), rgb(v[0], v[1], v[2]), cmyk(v[0], v[1], v[2], v[3]); LD k[4];
    c.require(isGray(gray, v[0]) && isRgb(rgb, v[0], v[1], v[2]) && isCmyk(cmyk, v[0], v[1], v[2], v[3]), "colour constructors", in);
    c.require(isGray(gray.ConvertToGrayScale(), v[0]) && isRgb(gray.ConvertToRGB(), v[0], v[0], v[0]) && isCmyk(gray.ConvertToCMYK(), 0, 0, 0, 1 - (LD)v[0]), "gray conversions", in);
    toCmyk(v[0], v[1], v[2], k); bool deep = k[3] < 1 - 1e-9L;
    c.require(isGray(rgb.ConvertToGrayScale(), 0.299L * v[0] + 0.587L * v[1] + 0.114L * v[2]), "rgb to gray", in); c.require(isRgb(rgb.ConvertToRGB(), v[0], v[1], v[2]), "rgb to rgb", in);
    { PdfColor q = rgb.ConvertToCMYK(); c.require(q.IsCMYK() && in01(q.GetCyan()) && in01(q.GetMagenta()) && in01(q.GetYellow()) && in01(q.GetBlack()), "rgb to cmyk range", in); if (deep) c.require(fabsl(q.GetCyan() - k[0]) < 1e-6L && fabsl(q.GetMagenta() - k[1]) < 1e-6L && fabsl(q.GetYellow() - k[2]) < 1e-6L && eq(q.GetBlack(), k[3]), "rgb to cmyk", in); c.require(isRgb(q.ConvertToRGB(), v[0], v[1], v[2]), "rgb to cmyk to rgb", in); }
    LD R = 1 - (v[0] * (1 - (LD)v[3]) + v[3]), G = 1 - (v[1] * (1 - (LD)v[3]) + v[3]), B = 1 - (v[2] * (1 - (LD)v[3]) + v[3]);
    c.require(isRgb(cmyk.ConvertToRGB(), R, G, B), "cmyk to rgb", in); c.require(isGray(cmyk.ConvertToGrayScale(), 0.299L * R + 0.587L * G + 0.114L * B), "cmyk to gray", in); c.require(cmyk.ConvertToCMYK() == cmyk, "cmyk to cmyk", in); c.ev("colour conversions", 9);
    // arrays
    c.phase("colour arrays");
    for (const PdfColor* q : { &gray, &rgb, &cmyk }) { PdfArray arr = q->ToArray(); c.require(PdfColor::FromArray(arr) == *q && PdfColor::FromObject(PdfObject(arr)) == *q, "colour array round trip", in); PdfColor e = *q; c.require(e == *q && !(e != *q), "colour equality", in); c.ev("colour round trips"); }
    c.require(gray != rgb && rgb != cmyk && !(gray == cmyk), "colours of different spaces equal", in);
    { unsigned n = (unsigned)r.below(7); PdfArray arr; for (unsigned i = 0; i < n; i++) arr.Add(r.chance(1, 4) ? PdfObject((int64_t)r.below(2)) : PdfObject(comp(r))); bool ok = n == 0 || n == 1 || n == 3 || n == 4; if (n && r.chance(1, 3)) { arr[(unsigned)r.below(n)] = r.chance(1, 2) ? PdfObject(PdfName("x")) : PdfObject(outside(r)); ok = false; }
      PdfColor q; bool bad = refuses([&] { q = PdfColor::FromArray(arr); }); c.require(bad != ok, "colour array domain", cat("size ", n, bad ? " refused" : " accepted")); if (n == 0) c.require(q.IsTransparent(), "empty colour array", "not transparent"); if (bad) c.ev("colour arrays refused"); }
    // domain
    c.phase("colour domain"); double o = outside(r); unsigned at = (unsigned)r.below(4); double w[4] = { v[0], v[1], v[2], v[3] }; w[at] = o;
    c.require(refuses([&] { PdfColor q(o); }) && refuses([&] { PdfColor q(at == 0 ? o : v[0], at == 1 ? o : v[1], at >= 2 ? o : v[2]); }) && refuses([&] { PdfColor q(w[0], w[1], w[2], w[3]); }), "component outside its range accepted", fmtd(o) + cat(" as component ", at)); c.ev("components refused", 3);
    double l = r.unit() * 100, la = r.unit() * 255 - 128, lb = r.unit() * 255 - 128; if (r.chance(1, 4)) { l = r.chance(1, 2) ? 0 : 100; la = r.chance(1, 2) ? -128 : 127; lb = r.chance(1, 2) ? -128 : 127; }
    PdfColor lab = PdfColor::CreateCieLab(l, la, lb); c.require(lab.GetColorSpace() == PdfColorSpace::Lab && lab.GetCieL() == l && lab.GetCieA() == la && lab.GetCieB() == lb, "lab components", ""); c.require(lab.ToArray().size() == 3 && lab.ToArray()[0].GetReal() == l, "lab array", "");
    double bo = r.pick(vector<double>{ -0.001, 100.001, NAN, INFINITY }), ba = r.pick(vector<double>{ -128.001, 127.001, NAN, -INFINITY }); c.require(refuses([&] { PdfColor::CreateCieLab(bo, la, lb); }) && refuses([&] { PdfColor::CreateCieLab(l, ba, lb); }) && refuses([&] { PdfColor::CreateCieLab(l, la, ba); }), "lab value outside its range accepted", fmtd(bo) + fmtd(ba));
    c.require(refuses([&] { lab.ConvertToRGB(); }) && refuses([&] { lab.ConvertToCMYK(); }) && refuses([&] { lab.ConvertToGrayScale(); }), "undefined conversion accepted", "lab");
    c.require(refuses([&] { rgb.GetGrayScale(); }) && refuses([&] { gray.GetRed(); }) && refuses([&] { rgb.GetCyan(); }) && refuses([&] { cmyk.GetBlue(); }) && refuses([&] { cmyk.GetCieL(); }), "component of another space", in);
    // separations
    c.phase("separation"); double den = comp(r); unsigned alt = (unsigned)r.below(4); const PdfColor& ac = alt == 0 ? gray : alt == 1 ? rgb : alt == 2 ? cmyk : lab; string nm = cat("Spot", r.below(100)); PdfColor sep = PdfColor::CreateSeparation(nm, den, ac);
    c.require(sep.GetColorSpace() == PdfColorSpace::Separation && sep.GetName() == nm && sep.GetDensity() == den && sep.GetAlternateColorSpace() == ac.GetColorSpace() && sep.ToArray().size() == 1 && sep.ToArray()[0].GetReal() == den, "separation parts", in); c.require(refuses([&] { PdfColor::CreateSeparation(nm, o, ac); }), "separation density outside its range accepted", fmtd(o));
    if (alt == 2) c.require(isRgb(sep.ConvertToRGB(), R, G, B), "separation to rgb", in);
    if (r.chance(1, 20))
    {
        PdfMemDocument doc; PdfObject* cs = sep.BuildColorSpace(doc); c.require(cs != nullptr && cs->IsArray() && cs->GetArray().size() == 4, "separation colour space", ""); auto& arr = cs->GetArray(); unsigned nc = alt == 0 ? 1 : alt == 2 ? 4 : 3;
        c.require(arr[0].GetName().GetString() == "Separation" && arr[1].GetName().GetString() == nm, "separation colour space", "name"); if (alt == 3) { auto& la3 = doc.GetObjects().MustGetObject(arr[2].GetReference()).GetArray(); c.require(la3[0].GetName().GetString() == "Lab" && la3[1].GetDictionary().HasKey("WhitePoint"), "separation colour space", "lab"); } else c.require(arr[2].GetName().GetString() == (alt == 0 ? "DeviceGray" : alt == 1 ? "DeviceRGB" : "DeviceCMYK"), "separation colour space", "names");
        auto& fn = doc.GetObjects().MustGetObject(arr[3].GetReference()); charbuff d = fn.MustGetStream().GetCopy(); c.require(d.size() == nc * 2 && fn.GetDictionary().MustFindKey("Range").GetArray().size() == nc * 2, "separation function size", cat(d.size())); 
        double cv[4] = { v[0], v[1], v[2], v[3] }; if (alt == 3) { cv[0] = l / 100; cv[1] = (la + 128) / 255; cv[2] = (lb + 128) / 255; } auto dec = fn.GetDictionary().MustFindKey("Range").GetArray(); c.require(dec[1].GetReal() == (alt == 3 ? 100 : 1), "separation function", "range"); for (unsigned i = 0; i < nc; i++) c.require(std::fabs((unsigned char)d[nc + i] / 255.0 - cv[i]) <= 1.0 / 255, "separation function", cat("full density gives ", (int)(unsigned char)d[nc + i], " of 255 for ") + fmtd(cv[i])); c.ev("separation functions");
    }
    // text
    c.phase("colour text");
    { unsigned char h[4]; for (auto& x : h) x = (unsigned char)r.next(); char t[32]; bool up = r.chance(1, 2), four = r.chance(1, 2); snprintf(t, 32, four ? (up ? "#%02X%02X%02X%02X" : "#%02x%02x%02x%02x") : (up ? "#%02X%02X%02X" : "#%02x%02x%02x"), h[0], h[1], h[2], h[3]); size_t n = four ? 9 : 7; vector<char> buf(t, t + n); buf.shrink_to_fit(); PdfColor q = PdfColor::FromString(std::string_view(buf.data(), n));
      c.require(four ? isCmyk(q, h[0] / 255.0L, h[1] / 255.0L, h[2] / 255.0L, h[3] / 255.0L) : isRgb(q, h[0] / 255.0L, h[1] / 255.0L, h[2] / 255.0L), "hex colour", t); buf[1 + r.below(n - 1)] = r.pick(vector<char>{ 'g', 'G', ' ', '/', ':', '@', '`', (char)0xC3 }); c.require(refuses([&] { PdfColor::FromString(std::string_view(buf.data(), n)); }), "hex colour with other characters accepted", string(buf.begin(), buf.end())); c.ev("hex colours"); }
    { char t[40]; double g = r.chance(1, 4) ? (double)r.below(2) : r.unit(); int prec = (int)r.below(8); snprintf(t, 40, "%.*f", prec, g); string s = t; if (s.size() > 2 && s[0] == '0' && r.chance(1, 4)) s.erase(0, 1); vector<char> buf(s.begin(), s.end()); buf.shrink_to_fit(); PdfColor q; bool bad = refuses([&] { q = PdfColor::FromString(std::string_view(buf.data(), buf.size())); }); c.require(!bad && isGray(q, strtold(s.c_str(), nullptr)), "gray as text", s + (bad ? " refused" : "")); c.ev("gray texts");
      snprintf(t, 40, "%.*f", prec + 1, 1.1 + r.unit() * 300); c.require(refuses([&] { PdfColor::FromString(t); }), "gray text outside its range accepted", t); }
    { static const struct { const char* n; int h; } names[] = { { "aliceblue", 0xF0F8FF }, { "black", 0 }, { "white", 0xFFFFFF }, { "red", 0xFF0000 }, { "blue", 0xFF }, { "chocolate", 0xD2691E }, { "darkslategrey", 0x2F4F4F }, { "gold", 0xFFD700 }, { "goldenrod", 0xDAA520 }, { "lightgoldenrodyellow", 0xFAFAD2 }, { "navy", 0x80 }, { "tomato", 0xFF6347 }, { "yellow", 0xFFFF00 }, { "yellowgreen", 0x9ACD32 }, { "orange", 0xFFA500 }, { "orangered", 0xFF4500 } };
      auto& e = names[r.below(sizeof(names) / sizeof(*names))]; string s = e.n; for (auto& ch : s) if (r.chance(1, 6)) ch = (char)toupper(ch); vector<char> buf(s.begin(), s.end()); buf.shrink_to_fit(); PdfColor q = PdfColor::FromString(std::string_view(buf.data(), buf.size())); c.require(isRgb(q, (e.h >> 16) / 255.0L, ((e.h >> 8) & 255) / 255.0L, (e.h & 255) / 255.0L), "named colour", s); c.ev("named colours"); }
    { string s; gray.ToArray().ToString(s); PdfColor q = PdfColor::FromString(s); c.require(q.IsGrayScale() && std::fabs(q.GetGrayScale() - v[0]) < 1e-6, "array as text", s); cmyk.ToArray().ToString(s); q = PdfColor::FromString(s); c.require(q.IsCMYK() && std::fabs(q.GetCyan() - v[0]) < 1e-6 && std::fabs(q.GetBlack() - v[3]) < 1e-6, "array as text", s); c.ev("array texts"); }
    c.state("c" + in);
}
void c33(Ctx& c) { switch (c.rng.below(3)) { case 0: return matrices(c); case 1: return rects(c); default: return colours(c); } }
}
int main(int argc, char** argv) { modes()["c33"] = c33; return mon::main(argc, argv, c33); }
