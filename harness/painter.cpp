// C20: what is drawn with a painter is what the content of the canvas says, read by an independent interpreter.
#include "mon.h"
#include "model.h"
#include "raw.h"
#include "codec.h"
using namespace mon;
using namespace mm;
using std::string; using std::vector;
namespace {
//---- tokens
struct Tok { enum K { Num, Str, Name, ArrOpen, ArrClose, Op, End } k = End; double n = 0; string s; };
struct Lex
{
    const string& d; size_t p = 0; explicit Lex(const string& s) : d(s) { }
    static bool ws(unsigned char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
    static bool del(unsigned char c) { return strchr("()<>[]{}/%", c) && c; }
    static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    Tok next()
    {
        Tok t;
        while (p < d.size()) { if (ws(d[p])) p++; else if (d[p] == '%') { while (p < d.size() && d[p] != '\n' && d[p] != '\r') p++; } else break; }
        if (p >= d.size()) return t;
        char c = d[p];
        if (c == '[') { p++; t.k = Tok::ArrOpen; return t; } if (c == ']') { p++; t.k = Tok::ArrClose; return t; }
        if (c == '/') { p++; t.k = Tok::Name; while (p < d.size() && !ws(d[p]) && !del(d[p])) { if (d[p] == '#' && p + 2 < d.size() && hv(d[p + 1]) >= 0 && hv(d[p + 2]) >= 0) { t.s += (char)(hv(d[p + 1]) * 16 + hv(d[p + 2])); p += 3; } else t.s += d[p++]; } return t; }
        if (c == '(')
        {
            t.k = Tok::Str; int depth = 1; p++;
            for (;;)
            {
                if (p >= d.size()) throw Violation{ "unfinished string", vis(d.substr(d.size() > 60 ? d.size() - 60 : 0)) };
                c = d[p++];
                if (c == '\\')
                {
                    c = p < d.size() ? d[p++] : 0; static const char f[] = "nrtbf", g[] = "\n\r\t\b\f"; const char* q = c ? strchr(f, c) : nullptr;
                    if (q) t.s += g[q - f]; else if (c >= '0' && c <= '7') { int v = c - '0'; for (int i = 0; i < 2 && p < d.size() && d[p] >= '0' && d[p] <= '7'; i++) v = v * 8 + d[p++] - '0'; t.s += (char)v; }
                    else if (c == '\r') { if (p < d.size() && d[p] == '\n') p++; } else if (c != '\n') t.s += c;
                }
                else if (c == '(') { depth++; t.s += c; } else if (c == ')') { if (--depth == 0) return t; t.s += c; }
                else if (c == '\r') { if (p < d.size() && d[p] == '\n') p++; t.s += '\n'; } else t.s += c;
            }
        }
        if (c == '<')
        {
            p++; t.k = Tok::Str; int n = 0, v = 0;
            for (;;) { if (p >= d.size()) throw Violation{ "unfinished string", "" }; c = d[p++]; if (c == '>') break; int h = hv(c); if (h < 0) { if (ws(c)) continue; throw Violation{ "invalid hex string", string(1, c) }; } v = v * 16 + h; if (++n % 2 == 0) { t.s += (char)v; v = 0; } }
            if (n % 2) t.s += (char)(v * 16); return t;
        }
        string w; while (p < d.size() && !ws(d[p]) && !del(d[p])) w += d[p++];
        if (w.empty()) throw Violation{ "stray delimiter in the content", vis(d.substr(p > 40 ? p - 40 : 0, 80)) };
        bool numeric = true, digit = false; int dots = 0; for (size_t i = 0; i < w.size(); i++) { if (w[i] >= '0' && w[i] <= '9') digit = true; else if (w[i] == '.') dots++; else if (!((w[i] == '-' || w[i] == '+') && i == 0)) numeric = false; }
        if (numeric && digit && dots < 2) { t.k = Tok::Num; t.n = strtod(w.c_str(), nullptr); return t; }
        t.k = Tok::Op; t.s = w; return t;
    }
};
//---- what a drawing operation does
struct N { double v = 0, tol = 0; N() { } N(double d, double t = 0) : v(d), tol(t) { } };
bool same(const N& a, const N& b) { return std::fabs(a.v - b.v) <= a.tol + b.tol + 1e-9 * std::max(std::fabs(a.v), std::fabs(b.v)); }
typedef vector<N> Ns;
bool same(const Ns& a, const Ns& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
string show(const Ns& a) { string s; for (auto& n : a) s += fmtd(n.v) + " "; return s; }
struct Seg { char op; Ns v; };                 // m l c h r, and in expectations O (oval), R (rounded rectangle), A (arc)
typedef vector<Seg> Path;
string show(const Path& p) { string s; for (auto& g : p) s += show(g.v) + g.op + " "; return s; }
struct Color { string space = "Gray", info; Ns comps{ N(0) }; };
struct State
{
    vector<Ns> cms; vector<std::pair<Path, bool>> clips; N w{ 1 }, miter{ 10 }; int cap = 0, join = 0; string intent; Ns dash; N phase; Color fill, stroke; vector<string> gs; string font; N size, tc, tw, tz{ 100 }; int tr = 0;
};
struct Event { enum K { Paint, Text, XObj, Tag, EndTag } k = Paint; string op, bytes; Path path; N x, y; State st; bool anyText = false; };
double ev2(double a, double b, double c, double d, double t) { double u = 1 - t; return u * u * u * a + 3 * u * u * t * b + 3 * u * t * t * c + t * t * t * d; }
// compares a drawn path with one that may hold shapes
string comparePath(const Path& got, const Path& want)
{
    size_t i = 0; double cx = 0, cy = 0, sx = 0, sy = 0;
    auto step = [&](const Seg& g) { size_t n = g.v.size(); if (g.op == 'h') { cx = sx; cy = sy; } else if (g.op == 'r') { cx = sx = g.v[0].v; cy = sy = g.v[1].v; } else { cx = g.v[n - 2].v; cy = g.v[n - 1].v; if (g.op == 'm') { sx = cx; sy = cy; } } };
    for (auto& w : want)
    {
        if (w.op == 'O' || w.op == 'R')
        {   // closed outlines: centre, radii of the frame, radii of the corners
            double x0 = w.v[0].v, y0 = w.v[1].v, x1 = w.v[2].v, y1 = w.v[3].v, rx = w.v[4].v, ry = w.v[5].v, tol = 10 * w.v[0].tol + 1e-9 * (std::fabs(x0) + std::fabs(x1) + std::fabs(y0) + std::fabs(y1)), rel = 0.004;
            if (i >= got.size() || got[i].op != 'm') return "an outline should start";
            double minx = 1e300, maxx = -1e300, miny = 1e300, maxy = -1e300; string bad; double len = 0, px = 0, py = 0; bool first = true;
            auto point = [&](double x, double y) {
                minx = std::min(minx, x); maxx = std::max(maxx, x); miny = std::min(miny, y); maxy = std::max(maxy, y); if (!first) len += hypot(x - px, y - py); first = false; px = x; py = y;
                // distance from the outline: inside the corner boxes the corner ellipse, elsewhere an edge
                double dx = x < x0 + rx ? (x0 + rx - x) : x > x1 - rx ? x - (x1 - rx) : 0, dy = y < y0 + ry ? (y0 + ry - y) : y > y1 - ry ? y - (y1 - ry) : 0;
                double q = hypot(dx / rx, dy / ry); if (std::fabs(q - 1) > rel + tol / rx + tol / ry) bad = "point " + fmtd(x) + "," + fmtd(y) + " is off the outline"; };
            step(got[i]); point(cx, cy); i++;
            for (; i < got.size() && (got[i].op == 'c' || got[i].op == 'l' || got[i].op == 'h'); i++)
            {
                bool close = got[i].op == 'h'; double ox = cx, oy = cy; step(got[i]);
                for (int k = 1; k <= 8; k++) { double t = k / 8.0; if (got[i].op == 'c') { auto& v = got[i].v; point(ev2(ox, v[0].v, v[2].v, v[4].v, t), ev2(oy, v[1].v, v[3].v, v[5].v, t)); } else point(ox + (cx - ox) * t, oy + (cy - oy) * t); }
                if (!close && len > x1 - x0 && std::fabs(cx - sx) <= tol && std::fabs(cy - sy) <= tol && i + 1 < got.size() && got[i + 1].op != 'h') { i++; break; } // back at the start
                if (close) { i++; break; }
            }
            if (!bad.empty()) return bad;
            if (std::fabs(cx - sx) > tol || std::fabs(cy - sy) > tol) return "the outline does not return to its start";
            if (std::fabs(minx - x0) > tol || std::fabs(maxx - x1) > tol || std::fabs(miny - y0) > tol || std::fabs(maxy - y1) > tol) return "extent " + fmtd(minx) + " " + fmtd(miny) + " " + fmtd(maxx) + " " + fmtd(maxy);
            double straight = 2 * (x1 - x0 - 2 * rx) + 2 * (y1 - y0 - 2 * ry), per = M_PI * (3 * (rx + ry) - sqrt((3 * rx + ry) * (rx + 3 * ry)));
            if (std::fabs(len - straight - per) > 60 * tol + 0.03 * per) return "length " + fmtd(len) + " of the outline, not " + fmtd(straight + per);
            continue;
        }
        if (w.op == 'A')
        {   // elliptical arc as defined by SVG: end point, radii, rotation, large, sweep
            double x1 = cx, y1 = cy, x2 = w.v[0].v, y2 = w.v[1].v, rx = w.v[2].v, ry = w.v[3].v, ph = w.v[4].v; bool large = w.v[5].v != 0, sweep = w.v[6].v != 0; double tol = 10 * w.v[0].tol + 1e-9;
            double c = cos(ph), s = sin(ph), dx = (x1 - x2) / 2, dy = (y1 - y2) / 2, xp = c * dx + s * dy, yp = -s * dx + c * dy, lam = xp * xp / (rx * rx) + yp * yp / (ry * ry); if (lam > 1) { rx *= sqrt(lam); ry *= sqrt(lam); }
            double num = rx * rx * ry * ry - rx * rx * yp * yp - ry * ry * xp * xp, den = rx * rx * yp * yp + ry * ry * xp * xp, k = sqrt(std::max(0.0, num / den)) * (large == sweep ? -1 : 1), cxp = k * rx * yp / ry, cyp = -k * ry * xp / rx, ccx = c * cxp - s * cyp + (x1 + x2) / 2, ccy = s * cxp + c * cyp + (y1 + y2) / 2;
            double rmin = std::min(rx, ry), rmax = std::max(rx, ry), swept = 0, last = 0; bool firstA = true, arrived = false;
            auto ang = [&](double x, double y, double& q) { double ux = x - ccx, uy = y - ccy, a = (c * ux + s * uy) / rx, b = (-s * ux + c * uy) / ry; q = sqrt(a * a + b * b); return atan2(b, a); };
            double q; last = ang(x1, y1, q); (void)firstA; double slack = tol / rmin * 3 + 0.004;
            for (; i < got.size() && got[i].op == 'c'; i++)
            {
                auto& v = got[i].v; double ox = cx, oy = cy; step(got[i]);
                for (int j = 1; j <= 8; j++) { double a = ang(ev2(ox, v[0].v, v[2].v, v[4].v, j / 8.0), ev2(oy, v[1].v, v[3].v, v[5].v, j / 8.0), q); if (std::fabs(q - 1) > slack + (lam > 0.999 ? 0.01 : 0)) return "a point of the arc is at " + fmtd(q) + " radii of the ellipse"; double e = a - last; while (e > M_PI) e -= 2 * M_PI; while (e < -M_PI) e += 2 * M_PI; swept += e; last = a; }
                if (std::fabs(cx - x2) <= tol + 1e-9 * std::fabs(x2) && std::fabs(cy - y2) <= tol + 1e-9 * std::fabs(y2)) { arrived = true; i++; break; }
            }
            if (!arrived) return "the arc does not reach its end point";
            double a1 = ang(x1, y1, q), a2 = ang(x2, y2, q), e = a2 - a1; if (sweep) { while (e < 0) e += 2 * M_PI; } else while (e > 0) e -= 2 * M_PI;
            if (std::fabs(swept - e) > 0.02 + 20 * tol / rmin + (lam > 0.999 ? 0.2 : 0) && rmax > 0) { if (!(lam > 0.999 && std::fabs(std::fabs(swept) - M_PI) < 0.2)) return "the arc turns by " + fmtd(swept) + ", not " + fmtd(e); }
            continue;
        }
        if (i >= got.size()) return "segments are missing";
        if (got[i].op != w.op || !same(got[i].v, w.v)) return cat("segment ", i, ": ") + show({ got[i] }) + "should be " + show({ w });
        step(got[i]); i++;
    }
    if (i < got.size()) return "extra segments: " + show(Path(got.begin() + i, got.end()));
    return "";
}
string compareState(const State& g, const State& w, bool text)
{
    if (g.cms.size() != w.cms.size()) return cat(g.cms.size(), " matrices, not ", w.cms.size());
    for (size_t i = 0; i < g.cms.size(); i++) if (!same(g.cms[i], w.cms[i])) return "matrix " + show(g.cms[i]) + "should be " + show(w.cms[i]);
    if (g.clips.size() != w.clips.size()) return cat(g.clips.size(), " clipping paths, not ", w.clips.size());
    for (size_t i = 0; i < g.clips.size(); i++) { if (g.clips[i].second != w.clips[i].second) return "fill rule of a clipping path"; string e = comparePath(g.clips[i].first, w.clips[i].first); if (!e.empty()) return "clipping path: " + e; }
    if (!same(g.w, w.w)) return "line width " + fmtd(g.w.v) + ", not " + fmtd(w.w.v);
    if (!same(g.miter, w.miter)) return "miter limit " + fmtd(g.miter.v) + ", not " + fmtd(w.miter.v);
    if (g.cap != w.cap) return cat("line cap ", g.cap, ", not ", w.cap); if (g.join != w.join) return cat("line join ", g.join, ", not ", w.join);
    if (g.intent != w.intent) return "rendering intent " + vis(g.intent) + ", not " + vis(w.intent);
    if (!same(g.dash, w.dash) || !same(g.phase, w.phase)) return "dash " + show(g.dash) + ", not " + show(w.dash);
    for (int i = 0; i < 2; i++) { auto& a = i ? g.stroke : g.fill; auto& b = i ? w.stroke : w.fill; if (a.space != b.space || a.info != b.info || !same(a.comps, b.comps)) return string(i ? "stroke" : "fill") + " colour " + a.space + " " + vis(a.info) + " " + show(a.comps) + ", not " + b.space + " " + vis(b.info) + " " + show(b.comps); }
    if (g.gs != w.gs) return "external graphics states";
    if (text)
    {
        if (g.font != w.font) return "font " + g.font + ", not " + w.font; if (!same(g.size, w.size)) return "font size " + fmtd(g.size.v) + ", not " + fmtd(w.size.v);
        if (!same(g.tc, w.tc)) return "character spacing " + fmtd(g.tc.v) + ", not " + fmtd(w.tc.v); if (!same(g.tw, w.tw)) return "word spacing " + fmtd(g.tw.v) + ", not " + fmtd(w.tw.v);
        if (!same(g.tz, w.tz)) return "scaling " + fmtd(g.tz.v) + ", not " + fmtd(w.tz.v); if (g.tr != w.tr) return cat("rendering mode ", g.tr, ", not ", w.tr);
    }
    return "";
}
// resources: the name a content uses -> what it denotes
struct Res
{
    const PdfIndirectObjectList* objs; const PdfObject* dict;
    const PdfObject* find(const string& type, const string& name, string& id) const
    {
        if (!dict || !dict->IsDictionary()) return nullptr;
        auto t = derefIn(*objs, dict->GetDictionary().GetKey(type)); if (!t || !t->IsDictionary()) return nullptr;
        auto o = t->GetDictionary().GetKey(PdfName(name)); if (!o) return nullptr;
        id = o->IsReference() ? cat(o->GetReference().ObjectNumber(), " ", o->GetReference().GenerationNumber()) : o->ToString(); return derefIn(*objs, o);
    }
};
Res resourcesOf(const PdfIndirectObjectList& l, const PdfObject& canvas)
{
    const PdfObject* o = &canvas;
    for (int i = 0; i < 50 && o && o->IsDictionary(); i++) { auto r = derefIn(l, o->GetDictionary().GetKey("Resources")); if (r) return { &l, r }; o = derefIn(l, o->GetDictionary().GetKey("Parent")); }
    return { &l, nullptr };
}
string nameAt(const PdfArray& a, unsigned i, const PdfIndirectObjectList& l) { auto o = derefIn(l, &a[i]); return o && o->IsName() ? string(o->GetName().GetString()) : o && o->IsArray() ? nameAt(o->GetArray(), 0, l) : "?"; }
// the meaning of a colour space resource
string spaceInfo(const PdfObject* o, const PdfIndirectObjectList& l)
{
    if (!o || !o->IsArray() || !o->GetArray().GetSize()) return "?"; auto& a = o->GetArray(); string n = nameAt(a, 0, l);
    if (n == "Separation" && a.GetSize() == 4)
    {
        string s = n + " " + nameAt(a, 1, l) + " " + nameAt(a, 2, l); auto f = derefIn(l, &a[3]);
        if (f && f->GetStream()) { auto b = f->MustGetStream().GetCopy(); s += " " + hex(string(b.data(), b.size())); } return s;
    }
    return n;
}
vector<Event> interpret(const string& data, const Res& res)
{
    Lex lx(data); vector<Event> out; State st; vector<State> stack; vector<size_t> depthAtTag; Ns nums; vector<string> names, strs; bool arr = false, sawArr = false; Ns arrN; Path path; bool inPath = false, inText = false, clipPending = false, clipEO = false; vector<string> tags; Ns tlm{ 0, 0 }; N lineX, lineY;
    size_t opStart = 0;
    auto bad = [&](const string& w) { throw Violation{ "illegal content: " + w, vis(data.substr(opStart > 120 ? opStart - 120 : 0, 200)) }; };
    auto resolve = [&](const char* type, string& id) { if (names.empty()) bad("missing name"); auto o = res.find(type, names.back(), id); if (!o) throw Violation{ string("resource of type ") + type + " does not exist", vis(names.back()) }; return o; };
    auto need = [&](size_t n, size_t na = 0, size_t s = 0) { if (nums.size() != n || names.size() != na || strs.size() != s) bad("operands"); };
    auto general = [&] { if (inPath) bad("state operator inside a path"); };
    auto page = [&] { if (inPath || inText) bad("operator outside the page level"); };
    auto color = [&](Color& c, const string& op)
    {
        general(); string u = op; for (auto& ch : u) ch = (char)tolower(ch);
        if (u == "g" || u == "rg" || u == "k") { need(u == "g" ? 1 : u == "rg" ? 3 : 4); c.space = u == "g" ? "Gray" : u == "rg" ? "RGB" : "CMYK"; c.info = ""; c.comps = nums; for (auto& n : nums) if (n.v < -1e-9 || n.v > 1 + 1e-9) bad("colour component"); }
        else if (u == "cs") { need(0, 1); string id; if (names[0] == "DeviceGray" || names[0] == "DeviceRGB" || names[0] == "DeviceCMYK") { c.space = names[0]; c.info = ""; } else { c.info = spaceInfo(resolve("ColorSpace", id), *res.objs); c.space = c.info.substr(0, c.info.find(' ')); } c.comps.clear(); }
        else { size_t want = c.space == "Separation" ? 1 : c.space == "Lab" ? 3 : nums.size(); need(want); c.comps = nums; }
    };
    for (;;)
    {
        opStart = lx.p; Tok t = lx.next();
        if (t.k == Tok::End) { if (!nums.empty() || !names.empty() || !strs.empty() || arr) bad("operands at the end"); break; }
        if (t.k == Tok::Num) { (arr ? arrN : nums).push_back(N(t.n)); continue; } if (t.k == Tok::Name) { names.push_back(t.s); continue; } if (t.k == Tok::Str) { strs.push_back(t.s); continue; }
        if (t.k == Tok::ArrOpen) { if (arr) bad("nested array"); arr = sawArr = true; arrN.clear(); continue; } if (t.k == Tok::ArrClose) { if (!arr) bad("array end"); arr = false; continue; }
        const string& o = t.s; if (arr) bad("operator in an array"); if (sawArr && o != "d") bad("array operand");
        if (o == "q") { page(); need(0); stack.push_back(st); }
        else if (o == "Q") { page(); need(0); if (stack.empty()) bad("Q without q"); st = stack.back(); stack.pop_back(); }
        else if (o == "cm") { page(); need(6); st.cms.push_back(nums); }
        else if (o == "w") { general(); need(1); st.w = nums[0]; } else if (o == "M") { general(); need(1); st.miter = nums[0]; }
        else if (o == "J") { general(); need(1); st.cap = (int)nums[0].v; if (st.cap < 0 || st.cap > 2) bad("cap"); } else if (o == "j") { general(); need(1); st.join = (int)nums[0].v; if (st.join < 0 || st.join > 2) bad("join"); }
        else if (o == "ri") { general(); need(0, 1); st.intent = names[0]; } else if (o == "gs") { general(); need(0, 1); string id; resolve("ExtGState", id); st.gs.push_back(id); }
        else if (o == "d") { general(); if (!sawArr) bad("dash"); need(1); st.dash = arrN; st.phase = nums[0]; double sum = 0; for (auto& n : arrN) { if (n.v < 0) bad("negative dash"); sum += n.v; } if (arrN.size() && sum == 0) bad("dash of zeros"); }
        else if (o == "m" || o == "l" || o == "c" || o == "h" || o == "re")
        {
            if (inText || clipPending) bad("path operator"); need(o == "c" ? 6 : o == "re" ? 4 : o == "h" ? 0 : 2); if (!inPath && o != "m" && o != "re") bad("path without start");
            inPath = true; path.push_back({ o == "re" ? 'r' : o[0], nums });
        }
        else if (o == "W" || o == "W*") { need(0); if (!inPath || clipPending) bad("clip without path"); clipPending = true; clipEO = o == "W*"; }
        else if (o == "S" || o == "s" || o == "f" || o == "F" || o == "f*" || o == "B" || o == "B*" || o == "b" || o == "b*" || o == "n")
        {
            need(0); if (!inPath) bad("painting without path"); string p = o; if (p == "F") p = "f"; if (p == "s" || p[0] == 'b') { path.push_back({ 'h', {} }); p[0] = (char)toupper(p[0]); }
            Event e; e.k = Event::Paint; e.op = p; e.path = path; e.st = st; if (!(clipPending && p == "n")) out.push_back(e);
            if (clipPending) st.clips.push_back({ path, clipEO }); path.clear(); inPath = clipPending = false;
        }
        else if (o == "BT") { page(); need(0); inText = true; lineX = lineY = N(0); }
        else if (o == "ET") { need(0); if (!inText || inPath) bad("ET"); inText = false; if (depthAtTag.size() && depthAtTag.back() % 2) bad("marked content not closed in its text object"); }
        else if (o == "Tf") { general(); need(1, 1); string id; auto f = resolve("Font", id); if (!f->IsDictionary()) bad("font"); st.font = id; st.size = nums[0]; }
        else if (o == "Tc") { general(); need(1); st.tc = nums[0]; } else if (o == "Tw") { general(); need(1); st.tw = nums[0]; } else if (o == "Tz") { general(); need(1); st.tz = nums[0]; } else if (o == "Tr") { general(); need(1); st.tr = (int)nums[0].v; if (st.tr < 0 || st.tr > 7) bad("rendering mode"); }
        else if (o == "Td") { if (!inText) bad("Td outside text"); need(2); lineX.v += nums[0].v; lineY.v += nums[1].v; }
        else if (o == "Tj") { if (!inText) bad("Tj outside text"); need(0, 0, 1); if (st.font.empty()) bad("text without font"); Event e; e.k = Event::Text; e.bytes = strs[0]; e.x = lineX; e.y = lineY; e.st = st; out.push_back(e); }
        else if (o == "Do") { page(); need(0, 1); string id; auto x = resolve("XObject", id); if (!x->GetStream()) bad("XObject without stream"); Event e; e.k = Event::XObj; e.bytes = id; e.st = st; out.push_back(e); }
        else if (o == "BMC") { general(); need(0, 1); Event e; e.k = Event::Tag; e.bytes = names[0]; e.st = st; out.push_back(e); depthAtTag.push_back(stack.size() * 2 + (inText ? 1 : 0)); }
        else if (o == "EMC") { general(); need(0); if (depthAtTag.empty()) bad("EMC without BMC"); if (depthAtTag.back() % 2 != (inText ? 1u : 0u)) bad("marked content across a text object"); depthAtTag.pop_back(); Event e; e.k = Event::EndTag; e.st = st; out.push_back(e); }
        else if (o == "g" || o == "rg" || o == "k" || o == "cs" || o == "scn" || o == "sc") color(st.fill, o);
        else if (o == "G" || o == "RG" || o == "K" || o == "CS" || o == "SCN" || o == "SC") color(st.stroke, o);
        else bad("unknown operator " + o);
        nums.clear(); names.clear(); strs.clear(); sawArr = false;
    }
    opStart = data.size(); if (inPath || inText || stack.size() || depthAtTag.size()) bad("unfinished");
    return out;
}
string showEvent(const Event& e) { static const char* k[] = { "paint", "text", "XObject", "tag", "end of tag" }; return string(k[e.k]) + " " + e.op + " " + vis(e.bytes) + " " + show(e.path).substr(0, 300); }
void compareEvents(Ctx& c, const vector<Event>& got, const vector<Event>& want, const string& data, const string& where)
{
    size_t i = 0, j = 0; auto ctx = [&] { return where + cat(", event ", j, " of ", want.size(), "\n") + vis(data).substr(0, 600); };
    if (c.verbose) fprintf(stderr, "content of %s:\n%s\n", where.c_str(), data.c_str());
    for (; j < want.size(); j++)
    {
        auto& w = want[j];
        if (w.anyText) { while (i < got.size() && got[i].k == Event::Text) i++; continue; }
        if (i >= got.size()) c.die("drawing is missing", showEvent(w) + ", " + ctx());
        auto& g = got[i];
        if (g.k != w.k || g.op != w.op) c.die("drawing differs", showEvent(g) + ", expected " + showEvent(w) + ", " + ctx());
        if (g.bytes != w.bytes) c.die(g.k == Event::Text ? "text differs" : g.k == Event::XObj ? "another XObject is drawn" : "tag differs", vis(g.bytes) + ", expected " + vis(w.bytes) + ", " + ctx());
        if (g.k == Event::Text && (!same(g.x, w.x) || !same(g.y, w.y))) c.die("text position", fmtd(g.x.v) + " " + fmtd(g.y.v) + ", expected " + fmtd(w.x.v) + " " + fmtd(w.y.v) + ", " + ctx());
        string e = comparePath(g.path, w.path); if (!e.empty()) c.die("path differs", e + "; drawn " + show(g.path).substr(0, 400) + "; expected " + show(w.path).substr(0, 400) + ", " + ctx());
        e = compareState(g.st, w.st, g.k == Event::Text); if (!e.empty()) c.die("state of a drawing operation: " + e.substr(0, e.find_first_of("0123456789(")), e + ", " + showEvent(w) + ", " + ctx());
        i++; c.ev("drawing operations compared");
    }
    if (i < got.size()) c.die("additional drawing", showEvent(got[i]) + ", " + ctx());
}
//---- drawing
struct Canvas { PdfCanvas* cv = nullptr; PdfObject* obj = nullptr; bool form = false; vector<Event> events; unsigned page = 0; bool leaky = false; string name; PdfReference ref; };
double coord(Rng& r) { switch (r.below(6)) { case 0: return (double)r.range(-50, 600); case 1: return (r.unit() - 0.5) * 1e-3; case 2: return (r.unit() - 0.5) * 1e5; default: return (double)r.range(-10000, 60000) / 100; } }
struct Drawer
{
    Ctx& c; Rng& r; PdfMemDocument& doc; PdfPainter& p; vector<const PdfFont*> fonts; vector<PdfXObject*> xobjs; vector<PdfImage*> images; vector<PdfExtGState*> gss;
    State st; vector<State> stack; vector<Event>* out = nullptr; vector<int> open; // 0 Save, 1 tag
    double coarsest = 0; double tol() { double t = 0.5000001 * std::pow(10.0, -(double)p.GetPrecision()); coarsest = std::max(coarsest, t); return t; }
    N nt(double v) { tol(); return N(v, coarsest); } // text state may have been written before
    N n(double v) { return N(v, tol()); }
    string refOf(const PdfObject& o) { return cat(o.GetIndirectReference().ObjectNumber(), " ", o.GetIndirectReference().GenerationNumber()); }
    void getters(const char* when)
    {
        auto& g = p.GetGraphicsState(); auto bad = [&](const char* w) { c.die(string("reported state: ") + w, when); };
        if (std::fabs(g.GetLineWidth() - st.w.v) > 1e-12 * std::fabs(st.w.v)) bad("line width"); if (g.GetMiterLevel() != st.miter.v) bad("miter limit"); if ((int)g.GetLineCapStyle() != st.cap) bad("line cap"); if ((int)g.GetLineJoinStyle() != st.join) bad("line join");
        if (g.GetRenderingIntent() != st.intent) bad("rendering intent"); c.ev("reported states compared");
    }
    PdfColor color(Color& m)
    {
        auto u = [&] { return r.chance(1, 4) ? (double)r.below(2) : r.unit(); };
        switch (r.below(6))
        {
            case 0: case 1: { double g = u(); m.space = "Gray"; m.info = ""; m.comps = { n(g) }; return PdfColor(g); }
            case 2: { double a = u(), b = u(), d = u(); m.space = "RGB"; m.info = ""; m.comps = { n(a), n(b), n(d) }; return PdfColor(a, b, d); }
            case 3: { double a = u(), b = u(), d = u(), e = u(); m.space = "CMYK"; m.info = ""; m.comps = { n(a), n(b), n(d), n(e) }; return PdfColor(a, b, d, e); }
            case 4: { double l = r.unit() * 100, a = (r.unit() - 0.5) * 250, b = (r.unit() - 0.5) * 250; m.space = "Lab"; m.info = "Lab"; m.comps = { n(l), n(a), n(b) }; return PdfColor::CreateCieLab(l, a, b); }
            default:
            {   // the name decides the alternate colour
                static const char* names[] = { "Spot", "PANTONE 485 C", "Gr#u(n)", "X/Y", "All" }; unsigned k = (unsigned)r.below(5); double d = u(); m.space = "Separation"; m.comps = { n(d) };
                auto hexOf = [](std::initializer_list<double> v) { string s(v.size(), '\0'); for (double x : v) s += (char)(unsigned char)(x * 255); return hex(s); };
                if (k == 4) { m.info = "Separation All DeviceCMYK " + hexOf({ 1, 1, 1, 1 }); m.comps = { N(1) }; return PdfColor::CreateSeparationAll(); }
                double q[4] = { 0.2, 0.4, 0.6, 1 }; PdfColor alt; m.info = string("Separation ") + names[k] + " ";
                if (k == 0) { alt = PdfColor(q[0], q[1], q[2], q[3]); m.info += "DeviceCMYK " + hexOf({ q[0], q[1], q[2], q[3] }); }
                else if (k == 1) { alt = PdfColor(q[3], q[1], q[0]); m.info += "DeviceRGB " + hexOf({ q[3], q[1], q[0] }); }
                else if (k == 2) { alt = PdfColor(q[1]); m.info += "DeviceGray " + hexOf({ q[1] }); }
                else { alt = PdfColor(q[0], q[1]*0, q[2], q[3]); m.info += "DeviceCMYK " + hexOf({ q[0], 0, q[2], q[3] }); }
                return PdfColor::CreateSeparation(names[k], d, alt);
            }
        }
    }
    void stateOp(bool inText)
    {
        auto& g = p.GetGraphicsState();
        switch (r.below(inText ? 9 : 11))
        {
            case 0: { double v = r.chance(1, 4) ? (double)r.below(3) : r.unit() * 20; g.SetLineWidth(v); if (v != st.w.v) st.w = n(v); break; }
            case 1: { double v = r.chance(1, 3) ? 10 : 1 + r.unit() * 20; g.SetMiterLevel(v); if (v != st.miter.v) st.miter = n(v); break; }
            case 2: { int v = (int)r.below(3); g.SetLineCapStyle((PdfLineCapStyle)v); st.cap = v; break; }
            case 3: { int v = (int)r.below(3); g.SetLineJoinStyle((PdfLineJoinStyle)v); st.join = v; break; }
            case 4: { static const char* v[] = { "Perceptual", "Saturation", "RelativeColorimetric", "My intent", "A#B/C(" }; string s = v[r.below(5)]; g.SetRenderingIntent(s); st.intent = s; break; }
            case 5: { Color m; auto k = color(m); if (!(g.GetFillColor() == k)) st.fill = m; g.SetFillColor(k); break; }
            case 6: { Color m; auto k = color(m); if (!(g.GetStrokeColor() == k)) st.stroke = m; g.SetStrokeColor(k); break; }
            case 7: if (!gss.empty()) { auto x = r.pick(gss); p.SetExtGState(*x); st.gs.push_back(refOf(x->GetObject())); } break;
            case 8: dash(); break;
            case 9: { Matrix m = Matrix::FromCoefficients(coord(r) / 100, coord(r) / 1000, coord(r) / 1000, coord(r) / 100, coord(r), coord(r)); g.SetCurrentMatrix(m); st.cms.push_back({ n(m[0]), n(m[1]), n(m[2]), n(m[3]), n(m[4]), n(m[5]) }); break; }
            case 10: { double x = coord(r), y = coord(r), w = r.unit() * 400, h = r.unit() * 400; if (r.chance(1, 2)) p.SetClipRect(x, y, w, h); else p.SetClipRect(PdfRect(x, y, w, h)); st.clips.push_back({ { { 'r', { n(x), n(y), n(w), n(h) } } }, false }); break; }
        }
        c.ev("state operations");
    }
    void dash()
    {
        auto set = [&](std::initializer_list<double> v, bool exact) { st.dash.clear(); for (double d : v) st.dash.push_back(exact ? N(d) : n(d)); st.phase = N(0); };
        auto inv = [&](bool i) { if (i) { st.dash.insert(st.dash.begin(), N(0)); st.dash.push_back(N(0)); } };
        double s = r.chance(1, 2) ? 1.0 : 0.2 + r.unit() * 5; bool unit = s >= 1.0 - 1e-5 && s <= 1.0 + 1e-5, i = r.chance(1, 4), j = r.chance(1, 3); double z = j ? 0.001 : 1;
        switch (r.below(6))
        {
            case 0: p.SetStrokeStyle(PdfStrokeStyle::Solid, {}, i, s, j); st.dash.clear(); st.phase = N(0); break;
            case 1: p.SetStrokeStyle(PdfStrokeStyle::Dash, {}, i, s, j); if (unit) set({ 6, 2 }, true); else if (j) set({ 2 * s, 2 * s }, false); else set({ 3 * s, s }, false); inv(i); break;
            case 2: p.SetStrokeStyle(PdfStrokeStyle::Dot, {}, i, s, j); if (unit) set({ 2, 2 }, true); else if (j) set({ z, 2 * s, 0, 2 * s }, false); else set({ s, s }, false); inv(i); break;
            case 3: p.SetStrokeStyle(PdfStrokeStyle::DashDot, {}, i, s, j); if (unit) set({ 3, 2, 1, 2 }, true); else if (j) set({ 2 * s, 2 * s, 0, 2 * s }, false); else set({ 3 * s, s, s, s }, false); inv(i); break;
            case 4: p.SetStrokeStyle(PdfStrokeStyle::DashDotDot, {}, i, s, j); if (unit) set({ 3, 1, 1, 1, 1, 1 }, true); else if (j) set({ 2 * s, 2 * s, 0, 2 * s, 0, 2 * s }, false); else set({ 3 * s, s, s, s, s, s }, false); inv(i); break;
            default: p.SetStrokeStyle(PdfStrokeStyle::Custom, "[1 2.5 3] 0.5", i, s, j); set({ 1, 2.5, 3 }, true); st.phase = N(0.5); break;
        }
    }
    Path build(bool& anyH)
    {
        Path path; double cx = 0, cy = 0, sx = 0, sy = 0, qx = 0, qy = 0, rx = 0, ry = 0; int last = 0; bool open = false, shape = false; (void)anyH; unsigned k = 1 + (unsigned)r.below(6);
        auto seg = [&](char o, std::initializer_list<double> v) { Ns ns; for (double d : v) ns.push_back(n(d)); path.push_back({ o, ns }); };
        for (unsigned i = 0; i < k; i++)
        {
            unsigned w = open ? (unsigned)r.below(16) : (unsigned)r.below(5); double x = coord(r), y = coord(r); if (open && std::fabs(x - cx) < 1e-4) x = cx + 1;
            int kind = 0;
            if (w == 0 || (w == 1 && shape)) { p.MoveTo(x, y); seg('m', { x, y }); cx = sx = x; cy = sy = y; open = true; shape = false; }
            else if (w == 1) { double ww = 1 + r.unit() * 300, hh = 1 + r.unit() * 300; if (r.chance(1, 2)) p.Rectangle(x, y, ww, hh); else p.Rectangle(PdfRect(x, y, ww, hh)); seg('r', { x, y, ww, hh }); cx = sx = x; cy = sy = y; open = true; shape = false; c.ev("rectangles"); }
            else if (w == 2) { double ra = 1 + r.unit() * 200; p.Circle(x, y, ra); path.push_back({ 'O', { N(x - ra, tol()), N(y - ra), N(x + ra), N(y + ra), N(ra), N(ra) } }); shape = true; open = false; c.ev("circles"); }
            else if (w == 3) { double ww = 2 + r.unit() * 300, hh = 2 + r.unit() * 300; p.Ellipse(x, y, ww, hh); path.push_back({ 'O', { N(x, tol()), N(y), N(x + ww), N(y + hh), N(ww / 2), N(hh / 2) } }); shape = true; open = false; c.ev("ellipses"); }
            else if (w == 4) { double ww = 2 + r.unit() * 300, hh = 2 + r.unit() * 300, a = r.chance(1, 3) ? 0.5 : 0.1 + r.unit() * (ww / 2 - 0.1), b = r.chance(1, 3) ? a : 0.1 + r.unit() * (hh / 2 - 0.1); a = std::min(a, ww / 2); b = std::min(b, hh / 2); p.Rectangle(x, y, ww, hh, a, b); path.push_back({ 'R', { N(x, tol()), N(y), N(x + ww), N(y + hh), N(a), N(b) } }); shape = true; open = false; c.ev("rounded rectangles"); }
            else if (w < 7) { p.LineTo(x, y); seg('l', { x, y }); cx = x; cy = y; }
            else if (w == 7) { p.HorizontalLineTo(x); seg('l', { x, cy }); cx = x; c.ev("relative segments"); }
            else if (w == 8) { p.VerticalLineTo(y); seg('l', { cx, y }); cy = y; c.ev("relative segments"); }
            else if (w == 9) { double a = coord(r), b = coord(r), d = coord(r), e = coord(r); p.CubicBezierTo(a, b, d, e, x, y); seg('c', { a, b, d, e, x, y }); kind = 1; rx = d; ry = e; cx = x; cy = y; }
            else if (w == 10) { double a = last == 1 ? 2 * cx - rx : cx, b = last == 1 ? 2 * cy - ry : cy, d = coord(r), e = coord(r); p.SmoothCurveTo(d, e, x, y); seg('c', { a, b, d, e, x, y }); kind = 1; rx = d; ry = e; cx = x; cy = y; c.ev(last == 1 ? "smooth curves after curves" : "smooth curves after other segments"); }
            else if (w == 11 || w == 12)
            {
                double a, b; if (w == 11) { a = coord(r); b = coord(r); p.QuadCurveTo(a, b, x, y); c.ev("quadratic curves"); } else { a = last == 2 ? 2 * cx - qx : cx; b = last == 2 ? 2 * cy - qy : cy; p.SmoothQuadCurveTo(x, y); c.ev(last == 2 ? "smooth quadratic curves after curves" : "smooth quadratic curves after other segments"); }
                seg('c', { cx + 2 * (a - cx) / 3, cy + 2 * (b - cy) / 3, x + 2 * (a - x) / 3, y + 2 * (b - y) / 3, x, y }); kind = 2; qx = a; qy = b; cx = x; cy = y;
            }
            else if (w == 13)
            {
                if (p.GetPrecision() < 3 || std::fabs(cx) > 1000 || std::fabs(cy) > 1000) continue;
                double ex = cx + (r.unit() - 0.5) * 200, ey = cy + (r.unit() - 0.5) * 200, a = 5 + r.unit() * 200, b = 5 + r.unit() * 200, rot = r.chance(1, 3) ? 0 : (r.unit() - 0.5) * 6; bool la = r.chance(1, 2), sw = r.chance(1, 2); if (hypot(ex - cx, ey - cy) < 2) continue;
                if (r.chance(1, 12)) { p.ArcTo(cx, cy, a, b, rot, la, sw); c.ev("arcs without length"); continue; }
                if (r.chance(1, 12)) { p.ArcTo(ex, ey, 0, b, rot, la, sw); seg('l', { ex, ey }); cx = ex; cy = ey; last = 0; c.ev("arcs without radius"); continue; }
                p.ArcTo(ex, ey, r.chance(1, 8) ? -a : a, b, rot, la, sw); path.push_back({ 'A', { n(ex), n(ey), N(a), N(b), N(rot), N(la), N(sw) } }); cx = ex; cy = ey; c.ev("arcs");
            }
            else { if (r.chance(1, 2)) p.ClosePath(); else p.Close(); seg('h', {}); cx = sx; cy = sy; }
            last = kind;
        }
        if (path.empty()) { p.MoveTo(1, 2); seg('m', { 1, 2 }); }
        return path;
    }
    void paint()
    {
        bool h; Event e; e.k = Event::Paint;
        if (r.chance(1, 6)) { double a = coord(r), b = coord(r), d = coord(r), f = coord(r); p.DrawLine(a, b, d, f); e.path = { { 'm', { n(a), n(b) } }, { 'l', { n(d), n(f) } } }; e.op = "S"; e.st = st; out->push_back(e); c.ev("lines"); return; }
        e.path = build(h); bool eo = r.chance(1, 2);
        switch (r.below(5))
        {
            case 0: p.Stroke(); e.op = "S"; break; case 1: p.Fill(eo); e.op = eo ? "f*" : "f"; break; case 2: p.FillAndStroke(eo); e.op = eo ? "B*" : "B"; break;
            case 3: p.EndPath(); e.op = "n"; break;
            default: p.Clip(eo); st.clips.push_back({ e.path, eo }); c.ev("clipping paths"); return;
        }
        e.st = st; out->push_back(e); c.ev("paths painted");
    }
    void textState(bool force)
    {
        auto& t = p.GetTextState();
        if (force || r.chance(1, 3)) { auto f = r.pick(fonts); double s = r.chance(1, 2) ? (double)(6 + r.below(12)) : 0.5 + r.unit() * 40; t.SetFont(*f, s); }
        if (r.chance(1, 4)) t.SetFontScale(r.chance(1, 3) ? 1 : 0.3 + r.unit()); if (r.chance(1, 4)) t.SetCharSpacing(r.chance(1, 3) ? 0 : (r.unit() - 0.3) * 5); if (r.chance(1, 4)) t.SetWordSpacing(r.chance(1, 3) ? 0 : (r.unit() - 0.3) * 5); if (r.chance(1, 5)) t.SetRenderingMode((PdfTextRenderingMode)(1 + r.below(8)));
    }
    // the state of text is the one the painter reports
    void textEvent(Event& e)
    {
        auto& t = p.GetTextState(); e.st = st; e.st.font = refOf(t.GetFont()->GetObject()); e.st.size = nt(t.GetFontSize()); e.st.tc = nt(t.GetCharSpacing()); e.st.tw = nt(t.GetWordSpacing()); e.st.tz = nt(t.GetFontScale() * 100); e.st.tr = (int)t.GetRenderingMode() - 1; // the enumeration starts with Unknown
    }
    string text() { string s; unsigned k = (unsigned)r.below(14); for (unsigned i = 0; i < k; i++) s += r.chance(1, 10) ? '\t' : r.chance(1, 6) ? pickc(r, "()\\ <>/%") : (char)(33 + r.below(94)); if (!s.empty()) c.ev("texts with characters"); return s; }
    string expand(const string& s) { string o; for (char ch : s) if (ch == '\t') o += string(p.GetTabWidth(), ' '); else o += ch; return o; }
    string encoded(const string& s) { if (s.empty()) return ""; auto b = p.GetTextState().GetFont()->GetEncoding().ConvertToEncoded(s); return string(b.data(), b.size()); }
    void drawText()
    {
        textState(p.GetTextState().GetFont() == nullptr); Event e; e.k = Event::Text; string s = text(); double x = coord(r), y = coord(r); double tz = p.GetTextState().GetFontScale(); (void)tz;
        if (r.chance(1, 8)) { unsigned w = 1 + (unsigned)r.below(8); p.SetTabWidth((unsigned short)w); c.require(p.GetTabWidth() == w, "tab width", ""); }
        if (s.find('\t') != string::npos) c.ev("texts with tabs");
        if (r.chance(1, 4))
        {
            double w = 20 + r.unit() * 300; int a = (int)r.below(3); p.DrawTextAligned(s, x, y, w, a == 0 ? PdfHorizontalAlignment::Left : a == 1 ? PdfHorizontalAlignment::Center : PdfHorizontalAlignment::Right);
            double len = p.GetTextState().GetFont()->GetStringLength(s.find('\t') == string::npos ? s : s, p.GetTextState()); e.x = n(x + (a == 0 ? 0 : a == 1 ? (w - len) / 2 : w - len)); e.y = n(y);
            if (a && s.find('\t') != string::npos) { double l2 = p.GetTextState().GetFont()->GetStringLength(expand(s), p.GetTextState()); double t = std::fabs(l2 - len); e.x.tol += t; } c.ev("aligned texts");
        }
        else { p.DrawText(s, x, y); e.x = n(x); e.y = n(y); }
        textEvent(e); e.bytes = encoded(expand(s)); out->push_back(e); c.ev("texts drawn");
    }
    void textObject()
    {
        textState(p.GetTextState().GetFont() == nullptr); double x = coord(r), y = coord(r), t = tol(); p.BeginText(x, y); size_t tags = 0;
        for (unsigned k = (unsigned)r.below(7); k; k--)
        {
            switch (r.below(6))
            {
                case 0: case 1: { string s = text(); p.AddText(s); Event e; e.k = Event::Text; e.bytes = encoded(expand(s)); e.x = N(x, t); e.y = N(y, t); textEvent(e); out->push_back(e); c.ev("texts added"); break; }
                case 2: { double a = coord(r), b = coord(r); p.MoveTextPos(a, b); x += a; y += b; t += tol(); break; }
                case 3: textState(false); break;
                case 4: stateOp(true); break;
                default: if (tags && r.chance(1, 2)) { endTag(); tags--; } else { tag(); tags++; } break;
            }
            if (r.chance(1, 12)) misuse([&] { p.DrawText("x", 1, 1); }, "text inside text"); if (r.chance(1, 20)) misuse([&] { p.BeginText(1, 1); }, "text inside text");
        }
        while (tags--) endTag();
        p.EndText(); c.ev("text objects"); if (r.chance(1, 8)) { misuse([&] { p.AddText("x"); }, "text without object"); misuse([&] { p.MoveTextPos(1, 1); }, "text without object"); misuse([&] { p.EndText(); }, "text without object"); }
    }
    void misuse(std::function<void()> f, const char* what) { try { f(); } catch (const PdfError&) { c.ev("misuses refused"); return; } c.die("misuse accepted", what); }
    void tag() { static const char* v[] = { "Span", "P", "A tag", "x#y(", "", "\xC3\xA9" }; string s = v[r.below(6)]; p.BeginMarkedContext(s); Event e; e.k = Event::Tag; e.bytes = PdfName(s).GetRawData(); e.st = st; out->push_back(e); c.ev("tags"); }
    void endTag() { p.EndMarkedContext(); Event e; e.k = Event::EndTag; e.st = st; out->push_back(e); }
    void xobject()
    {
        Event e; e.k = Event::XObj; double x = coord(r), y = coord(r), sx = (r.unit() - 0.2) * 3, sy = (r.unit() - 0.2) * 3; e.st = st;
        if (!images.empty() && r.chance(1, 2)) { auto im = r.pick(images); p.DrawImage(*im, x, y, sx, sy); e.bytes = refOf(im->GetObject()); e.st.cms.push_back({ n(sx * im->GetWidth()), N(0), N(0), n(sy * im->GetHeight()), n(x), n(y) }); c.ev("images drawn"); }
        else if (!xobjs.empty()) { auto f = r.pick(xobjs); p.DrawXObject(*f, x, y, sx, sy); e.bytes = refOf(f->GetObject()); e.st.cms.push_back({ n(sx), N(0), N(0), n(sy), n(x), n(y) }); c.ev("forms drawn"); }
        else return;
        out->push_back(e);
    }
    void multi()
    {
        textState(p.GetTextState().GetFont() == nullptr); double x = coord(r), y = coord(r), w = 20 + r.unit() * 300, h = 20 + r.unit() * 300; string s = text(); 
        tag(); p.DrawMultiLineText(s, x, y, w, h, (PdfHorizontalAlignment)r.below(3), (PdfVerticalAlignment)r.below(3), r.chance(1, 2), r.chance(1, 2)); Event e; e.anyText = true; out->push_back(e); endTag(); c.ev("text blocks");
    }
    void session(vector<Event>& events, bool withForms)
    {
        out = &events; st = State(); stack.clear(); open.clear(); getters("new canvas");
        for (unsigned k = 1 + (unsigned)r.below(c.thorough ? 22 : 14); k; k--)
        {
            switch (r.below(16))
            {
                case 0: p.Save(); stack.push_back(st); open.push_back(0); c.ev("saves"); break;
                case 1: if (!open.empty()) close(); break;
                case 2: case 3: case 4: stateOp(false); break;
                case 5: case 6: case 7: case 8: paint(); break;
                case 9: case 10: drawText(); break; case 11: textObject(); break;
                case 12: if (withForms) xobject(); break;
                case 13: tag(); open.push_back(1); break;
                case 14: if (r.chance(1, 3)) { p.SetPrecision((unsigned short)(2 + r.below(8))); c.ev("precisions"); } break;
                default: if (r.chance(1, 3)) multi(); break;
            }
            if (r.chance(1, 10)) getters("drawing");
        }
        while (!open.empty()) close(); getters("end of drawing");
    }
    void close() { if (open.back() == 0) { p.Restore(); st = stack.back(); stack.pop_back(); c.ev("restores"); getters("after restoring"); } else endTag(); open.pop_back(); }
};
// content that exists before: every operation resolves its own resources, and the state at its end is the one at its start
string priorContent(Ctx& c, Rng& r, const vector<string>& fonts, const vector<string>& xo, const vector<string>& gs)
{
    string s = "q"; auto ws = [&] { return r.chance(1, 4) ? "\r\n" : r.chance(1, 3) ? "  " : "\n"; };
    for (unsigned k = 1 + (unsigned)r.below(6); k; k--)
    {
        s += ws();
        switch (r.below(7))
        {
            case 0: s += cat((long)r.below(9), " w 0.", (long)r.below(9), " g"); break; case 1: s += cat((long)r.below(500), " ", (long)r.below(500), " m 10 20 l S"); break;
            case 2: if (fonts.size()) s += "BT /" + r.pick(fonts) + " 9.5 Tf 1 2 Td (prior\\)) Tj ET"; break; case 3: if (xo.size()) s += "q 2 0 0 2 5 5 cm /" + r.pick(xo) + " Do Q"; break;
            case 4: if (gs.size()) s += "/" + r.pick(gs) + " gs"; break; case 5: s += "1 0 0 1 7 7 cm 2 Tc 3 Tr"; break; default: s += "0 0 100 100 re W n 1 0 0 RG [3 2]1 d"; break;
        }
    }
    s += ws(); s += "Q"; c.ev("prior contents"); return s;
}
void run(Ctx& c)
{
    Rng& r = c.rng; RawPdf f(r); std::unique_ptr<PdfMemDocument> docp; unsigned nLoaded = 0; vector<string> priors;
    bool loaded = r.chance(2, 3);
    if (loaded)
    {   // pages with content and resources whose names a painter may choose as well
        unsigned cat_ = f.alloc(), pages = f.alloc(); nLoaded = 1 + (unsigned)r.below(2); string kids;
        unsigned font = f.add("<</Type/Font/Subtype/Type1/BaseFont/Times-Roman>>"), form = f.add(f.stream("/Type/XObject/Subtype/Form/BBox[0 0 10 10]", "0 0 5 5 re f")), ext = f.add("<</Type/ExtGState/CA 0.5>>");
        // identifiers of new objects are made of their numbers
        auto many = [&](const char* pre, unsigned o, vector<string>& names) { string d; for (unsigned i = 1; i < 60; i++) if (r.chance(1, 3)) { names.push_back(cat(pre, i)); d += cat("/", pre, i, " ", o, " 0 R"); } names.push_back("Mine"); return "<<" + d + cat("/Mine ", o, " 0 R") + ">>"; };
        bool inherited = r.chance(1, 3); string shared; vector<string> sf, sx, sg;
        auto resources = [&](vector<string>& a, vector<string>& b, vector<string>& d) { return "<</Font " + f.maybe(many("Ft", font, a)) + "/XObject " + f.maybe(many(r.chance(1, 2) ? "XOb" : "Im", form, b)) + "/ExtGState " + f.maybe(many("ExtGS", ext, d)) + "/ProcSet[/PDF]>>"; };
        if (inherited) { shared = f.maybe(resources(sf, sx, sg)); c.ev("inherited resources"); }
        for (unsigned i = 0; i < nLoaded; i++)
        {
            vector<string> a, b, d; string res = inherited ? "" : "/Resources " + f.maybe(resources(a, b, d)); if (inherited) { a = sf; b = sx; d = sg; }
            unsigned parts = (unsigned)r.below(4); string cont;
            if (parts == 1) cont = "/Contents " + f.ref(f.add(f.stream("", priorContent(c, r, a, b, d))));
            else if (parts) { string arr; for (unsigned k = 0; k < parts; k++) { string s = priorContent(c, r, a, b, d); arr += f.ref(f.add(r.chance(1, 3) ? f.stream("/Filter/FlateDecode", codec::zEncode(r, s)) : f.stream("", s))) + " "; } cont = "/Contents " + f.maybe("[" + arr + "]"); }
            kids += f.ref(f.add("<</Type/Page/Parent " + f.ref(pages) + "/MediaBox[0 0 600 800]" + res + cont + ">>")) + " ";
        }
        f.objs[pages] = "<</Type/Pages/Kids[" + kids + "]/Count " + std::to_string(nLoaded) + (inherited ? "/Resources " + shared : "") + ">>"; f.objs[cat_] = "<</Type/Catalog/Pages " + f.ref(pages) + ">>";
        docp = loadDoc(f.file(cat_));
    }
    else docp.reset(new PdfMemDocument());
    auto& doc = *docp; auto& list = doc.GetObjects();
    vector<Canvas> cvs; vector<std::unique_ptr<PdfXObjectForm>> forms; vector<std::unique_ptr<PdfImage>> imgs; vector<std::unique_ptr<PdfExtGState>> gss;
    auto contentOf = [&](const PdfIndirectObjectList& l, const PdfObject& o, bool form) {
        string out; const PdfObject* k = form ? &o : derefIn(l, o.GetDictionary().GetKey("Contents")); if (!k) return out;
        auto one = [&](const PdfObject* s) { if (s && s->GetStream()) { auto b = s->MustGetStream().GetCopy(); out += string(b.data(), b.size()); out += '\n'; } };
        if (k->IsArray()) for (unsigned i = 0; i < k->GetArray().GetSize(); i++) one(derefIn(l, &k->GetArray()[i])); else one(k); return out; };
    for (unsigned i = 0; i < nLoaded; i++) { Canvas cv; auto& pg = doc.GetPages().GetPageAt(i); cv.cv = &pg; cv.obj = &pg.GetObject(); cv.page = i; cv.name = cat("loaded page ", i); string s = contentOf(list, *cv.obj, false); cv.events = interpret(s, resourcesOf(list, *cv.obj)); cvs.push_back(cv); }
    for (unsigned i = 0, k = (loaded ? 0 : 1) + (unsigned)r.below(2); i < k; i++) { Canvas cv; auto& pg = doc.GetPages().CreatePage(PdfRect(0, 0, 600, 800)); cv.cv = &pg; cv.obj = &pg.GetObject(); cv.page = nLoaded + i; cv.name = cat("new page ", i); cvs.push_back(cv); }
    vector<PdfXObject*> xs; vector<PdfImage*> is; vector<PdfExtGState*> gs;
    for (unsigned i = 0, k = (unsigned)r.below(3); i < k; i++) { auto& dummy = list.CreateDictionaryObject(); (void)dummy; forms.push_back(doc.CreateXObjectForm(PdfRect(0, 0, 100, 100))); Canvas cv; cv.form = true; cv.cv = forms.back().get(); cv.obj = &forms.back()->GetObject(); cv.name = cat("form ", i); forms.back()->GetObject().GetOrCreateStream(); xs.push_back(forms.back().get()); cvs.push_back(cv); }
    for (unsigned i = 0, k = (unsigned)r.below(3); i < k; i++) { imgs.push_back(doc.CreateImage()); unsigned w = 1 + (unsigned)r.below(5), h = 1 + (unsigned)r.below(5); string px(w * h * 3, 'x'); PdfImageInfo info; info.Width = w; info.Height = h; info.ColorSpace = PdfColorSpace::DeviceRGB; info.BitsPerComponent = 8; imgs.back()->SetDataRaw(bufferview(px.data(), px.size()), info); is.push_back(imgs.back().get()); }
    for (unsigned i = 0, k = (unsigned)r.below(3); i < k; i++) { gss.emplace_back(new PdfExtGState(doc)); gss.back()->SetFillOpacity(0.5); gs.push_back(gss.back().get()); }
    vector<const PdfFont*> fonts; fonts.push_back(doc.GetFonts().GetStandard14Font(r.chance(1, 2) ? PdfStandard14FontType::Helvetica : PdfStandard14FontType::TimesBold)); if (r.chance(1, 2)) fonts.push_back(doc.GetFonts().GetStandard14Font(PdfStandard14FontType::Courier));
    c.phase("drawing");
    auto check = [&](const char* when) { for (auto& cv : cvs) { string s = contentOf(list, *cv.obj, cv.form); compareEvents(c, interpret(s, resourcesOf(list, *cv.obj)), cv.events, s, cv.name + " " + when); c.ev("contents compared"); } };
    unsigned painters = 1 + (unsigned)r.below(3);
    for (unsigned q = 0; q < painters; q++)
    {
        int fl = 0; if (r.chance(1, 4)) fl |= 2; if (r.chance(1, 4)) fl |= 4; if (r.chance(1, 5)) { fl |= 1; fl &= ~4; } if (r.chance(1, 8)) fl |= 8;
        PdfPainter p((PdfPainterFlags)fl); Drawer d{ c, r, doc, p, fonts, xs, is, gs };
        if (r.chance(1, 6)) { d.misuse([&] { p.MoveTo(1, 1); }, "no canvas"); d.misuse([&] { p.Save(); }, "no canvas"); d.misuse([&] { p.BeginMarkedContext("x"); }, "no canvas");  }
        unsigned sessions = 1 + (unsigned)r.below(3); Canvas* last = nullptr;
        for (unsigned s = 0; s < sessions; s++)
        {
            auto& cv = cvs[r.below(cvs.size())]; if (&cv == last) { p.FinishDrawing(); }
            if ((fl & 2) && cv.leaky) { p.FinishDrawing(); last = nullptr; continue; }
            p.SetCanvas(*cv.cv); last = &cv; if (r.chance(1, 10)) p.SetCanvas(*cv.cv);
            if (p.GetTextState().GetFont() == nullptr && r.chance(1, 8)) { d.misuse([&] { p.DrawText("x", 1, 1); }, "no font"); d.misuse([&] { p.DrawTextAligned("x", 1, 1, 10, PdfHorizontalAlignment::Left); }, "no font"); }
            vector<Event> ev; d.session(ev, !cv.form); if ((fl & 4)) cv.leaky = true;
            if ((fl & 1) && !cv.form) { cv.events.insert(cv.events.begin(), ev.begin(), ev.end()); c.ev("sessions before the content"); } else cv.events.insert(cv.events.end(), ev.begin(), ev.end());
            if (cv.form) c.ev("sessions on forms"); else if (cv.page < nLoaded) c.ev("sessions on loaded pages"); else c.ev("sessions on new pages");
            if (s + 1 < sessions && r.chance(1, 2)) { c.ev("canvas switches without finishing"); } else { p.FinishDrawing(); last = nullptr; if (r.chance(1, 2)) check("after a session"); }
        }
        p.FinishDrawing();
    }
    check("after drawing");
    for (auto& cv : cvs) cv.ref = cv.obj->GetIndirectReference();
    c.phase("saving"); string saved = saveDoc(doc, r); c.state(saved);
    auto back = loadDoc(saved); auto& bl = back->GetObjects();
    for (auto& cv : cvs)
    {
        const PdfObject* o = cv.form ? bl.GetObject(cv.ref) : &back->GetPages().GetPageAt(cv.page).GetObject(); if (!o) continue; // a form drawn nowhere
        string s = contentOf(bl, *o, cv.form); compareEvents(c, interpret(s, resourcesOf(bl, *o)), cv.events, s, cv.name + " after saving"); c.ev("saved contents compared");
    }
    back->GetObjects(); c.ev(loaded ? "loaded documents" : "new documents");
}
}
int main(int argc, char** argv) { modes()["c20"] = run; return mon::main(argc, argv, run); }
