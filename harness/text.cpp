// C22: text that was drawn is extracted again where it was drawn
#define DOCS_NO_MAIN
#include "docs.cpp"
#include "raw.h"
#include <ft2build.h>
#include FT_FREETYPE_H
using std::vector;
struct M { double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0; };
static M mul(const M& x, const M& y) { return { x.a * y.a + x.b * y.c, x.a * y.b + x.b * y.d, x.c * y.a + x.d * y.c, x.c * y.b + x.d * y.d, x.e * y.a + x.f * y.c + y.e, x.e * y.b + x.f * y.d + y.f }; }
struct P { double x, y; };
static P at(const M& m, double x, double y) { return { m.a * x + m.c * y + m.e, m.b * x + m.d * y + m.f }; }
static double dist(P a, P b) { return hypot(a.x - b.x, a.y - b.y); }
static char32_t decode(const string& s) { unsigned char a = (unsigned char)s[0]; char32_t v = a < 0x80 ? a : a < 0xE0 ? a & 31 : a < 0xF0 ? a & 15 : a & 7; for (size_t i = 1; i < s.size(); i++) v = v << 6 | (s[i] & 0x3F); return v; }
struct Glyph { string s; P from, to; bool made = false; };
struct Line { vector<Glyph> g; };                    // an entry before tokens are told apart; soft gaps are marked
struct FontUse { PdfFont* font; string name; vector<char32_t> chars; bool word; double space; };
struct State { M ctm; const FontUse* font = nullptr; double size = 0, tc = 0, tw = 0, th = 1, tl = 0, w = 0, tcLo = 0, tcHi = 0, thLo = 1, thHi = 1; void wider() { tcLo = std::min(tcLo, tc); tcHi = std::max(tcHi, tc); thLo = std::min(thLo, th); thHi = std::max(thHi, th); } };
struct Gen
{
    Ctx& c; Rng& r; vector<FontUse>& fonts; vector<Line> lines; State s; vector<State> stack; M tm, tlm; bool open = false, any = false; double lastY = 0; P lastEnd{ 0, 0 }; unsigned level = 0; PdfMemDocument& doc; std::map<string, PdfObject*> forms; int ascii = 0;
    Gen(Ctx& c, vector<FontUse>& f, PdfMemDocument& d) : c(c), r(c.rng), fonts(f), doc(d) { }
    static double rnd(double v) { char b[40]; snprintf(b, 40, "%.3f", v); return atof(b); }
    static string nu(double v) { char b[40]; snprintf(b, 40, "%.3f", v); string t = b; if (r_) { while (t.size() > 1 && t.find('.') != string::npos && (t.back() == '0' || t.back() == '.')) { bool dot = t.back() == '.'; t.pop_back(); if (dot) break; } } return t; }
    static bool r_;
    M some(bool straight)
    {
        M m; double sx = rnd(r.chance(1, 2) ? 1 : 0.3 + r.unit() * 3), sy = r.chance(1, 2) ? sx : rnd(0.3 + r.unit() * 3); unsigned k = (unsigned)r.below(straight ? 2 : 4); m.a = sx; m.d = sy;
        if (k == 1 && r.chance(1, 4)) m.d = -sy; if (k == 2) { double t = r.unit() * 6.28; m.a = rnd(sx * cos(t)); m.b = rnd(sx * sin(t)); m.c = rnd(-sy * sin(t)); m.d = rnd(sy * cos(t)); } if (k == 3) { m.b = rnd(r.unit() - 0.5); m.c = rnd(r.unit() - 0.5); } m.e = rnd((r.unit() - 0.3) * 400); m.f = rnd((r.unit() - 0.3) * 400); return m;
    }
    static string nums(const M& m) { return cat(nu(m.a), " ", nu(m.b), " ", nu(m.c), " ", nu(m.d), " ", nu(m.e), " ", nu(m.f)); }
    string text()
    {
        string t; auto& ch = s.font->chars; unsigned words = 1 + (unsigned)r.below(4); if (r.chance(1, 8)) t += " "; for (unsigned w = 0; w < words; w++) { if (w) t += r.chance(1, 8) ? "  " : " "; for (unsigned i = 1 + (unsigned)r.below(6); i; i--) { char32_t x; if (ascii && r.chance(1, 3)) x = U"abcAB"[r.below(5)]; else do x = r.pick(ch); while (ascii && x > 126); appendUtf8(t, x); } } if (r.chance(1, 8)) t += " ";
        if (r.chance(1, 30)) t = " "; return t;
    }
    M trm() const { return mul(tm, s.ctm); }
    string enc(const string& t) { charbuff b; c.require(s.font->font->GetEncoding().TryConvertToEncoded(t, b), "not-encodable", vis(t)); string o; if (r.chance(1, 2) || !s.font->word) return "<" + hex(string(b.data(), b.size())) + ">"; o = "("; for (char x : string(b.data(), b.size())) { if (x == '(' || x == ')' || x == '\\') o += '\\'; if (x == '\r' || x == '\n') { char q[6]; snprintf(q, 6, "\\%03o", (unsigned char)x); o += q; } else o += x; } return o + ")"; }
    vector<Glyph> run(const string& t)
    {
        vector<Glyph> g; for (size_t i = 0; i < t.size();)
        {
            size_t n = 1; while (i + n < t.size() && ((unsigned char)t[i + n] & 0xC0) == 0x80) n++; Glyph x; x.s = t.substr(i, n); i += n; char32_t cp = 0; cp = decode(x.s);
            PdfTextState st; st.FontSize = 1; st.FontScale = 1; st.CharSpacing = 0; st.WordSpacing = 0; double w = s.font->font->GetCharLength(cp, st); w = std::round(w * 1000) / 1000; charbuff code; s.font->font->GetEncoding().TryConvertToEncoded(x.s, code); bool word = code.size() == 1 && code[0] == ' '; double adv = (w * s.size + s.tc + (word ? s.tw : 0)) * s.th; x.from = at(trm(), 0, 0); x.to = at(trm(), adv, 0); M m; m.e = adv; tm = mul(m, tm); g.push_back(x);
        }
        return g;
    }
    // the length of a space: character spacing and scaling may count as they were when the font was set, or as they are
    double space(bool hi) { M m = trm(); double v = s.w * s.size + (hi ? s.tcHi : s.tcLo); return v * (hi == (v > 0) ? s.thHi : s.thLo) * hypot(m.a, m.b); }
    // the text was shown: is it a part of the last entry?
    void shown(const string& t, P start, const vector<Glyph>& g)
    {
        bool joined = false; if (any && fabs(start.y - lastY) < 0.01) { double dd = dist(start, lastEnd), sp = sp0; if (dd + 1e-7 < sp) joined = true; else if (dd + 1e-7 <= sp * 6) { joined = true; auto& l = lines.back().g; string last = l.back().s; if (last != " " && t[0] != ' ') { l.push_back({ "\x01", lastEnd, start }); c.ev("texts joined with a space"); } else l.push_back({ "\x02", lastEnd, start }); } else c.ev("texts separated by a gap"); }
        if (!joined) lines.push_back({}); else c.ev("texts continued"); for (auto& x : g) lines.back().g.push_back(x); any = true; lastY = start.y; lastEnd = g.back().to; c.ev("texts drawn");
    }
    double sp0 = 0;
    bool clear(P p) const { return !any || fabs(p.y - lastY) > 0.1; }
    void show(string& out, const string& t, const char* op) { P st = at(trm(), 0, 0); sp0 = space(true); out += enc(t) + " " + op + "\n"; auto g = run(t); shown(t, st, g); }
    // can the next text be told from the last one, or be joined with it, without a doubt?
    bool certain() { P p = at(trm(), 0, 0); if (!any) return true; double dy = fabs(p.y - lastY); if (dy > 0.05) return true; if (dy > 0.001) return false; double dd = dist(p, lastEnd), lo = space(false), hi = space(true); if (lo < 1e-6) return false; return dd < 0.9 * lo || (dd > 1.1 * hi && dd < 5.8 * lo) || dd > 6.2 * hi; }
    static double spaceOf(const FontUse& f) { PdfTextState st; st.FontSize = 1; st.FontScale = 1; st.CharSpacing = 0; st.WordSpacing = 0; return f.font->GetCharLength(U' ', st); }
    void setFont(string& out) { s.font = &r.pick(fonts); s.size = rnd(2 + r.unit() * 20); out += cat("/", s.font->name, " ", nu(s.size), " Tf\n"); s.w = spaceOf(*s.font); s.tcLo = s.tcHi = s.tc; s.thLo = s.thHi = s.th; }
    void stateOp(string& out)
    {
        switch (r.below(6))
        {
            case 0: setFont(out); break; case 1: s.tc = rnd(r.chance(1, 2) ? 0 : r.unit() * 2 - 0.3); s.wider(); out += nu(s.tc) + " Tc\n"; c.ev("character spacing set"); break; case 2: s.tw = rnd(r.unit() * 4 - 0.5); out += nu(s.tw) + " Tw\n"; c.ev("word spacing set"); break;
            case 3: s.th = rnd(50 + r.unit() * 150) / 100; s.wider(); out += nu(s.th * 100) + " Tz\n"; c.ev("scaling set"); break; case 4: s.tl = rnd(r.unit() * 30 - 5); out += nu(s.tl) + " TL\n"; break; default: out += "0.5 g\n";
        }
    }
    void block(string& out)
    {
        out += "BT\n"; tm = tlm = M(); if (!s.font || r.chance(1, 2)) setFont(out); unsigned n = 1 + (unsigned)r.below(6);
        for (unsigned i = 0; i < n; i++)
        {
            while (r.chance(1, 3)) stateOp(out);
            string op = "Tj"; unsigned k = (unsigned)r.below(8); auto move = [&](double x, double y) { M m; m.e = x; m.f = y; tlm = mul(m, tlm); tm = tlm; };
            if (k == 0) { tm = tlm = some(r.chance(1, 2)); out += nums(tm) + " Tm\n"; c.ev("text matrices"); }
            else if (k == 1) { double x = rnd(r.unit() * 300), y = rnd(r.unit() * 300 - 100); out += cat(nu(x), " ", nu(y), " Td\n"); move(x, y); c.ev("moved with Td"); }
            else if (k == 2) { double x = rnd(r.unit() * 30), y = rnd(-r.unit() * 30); out += cat(nu(x), " ", nu(y), " TD\n"); move(x, y); s.tl = -y; c.ev("moved with TD"); }
            else if (k == 3) { out += "T*\n"; move(0, -s.tl); c.ev("moved with T*"); }
            else if (k == 4) { M keep = tm, keepL = tlm; move(0, -s.tl); s.tcHi = std::max(s.tcHi, 1.); if (certain()) { tm = keep; tlm = keepL; quote(out, move); continue; } tm = keep; tlm = keepL; }
            else if (k == 5 && i) { M m = trm(); if (fabs(m.b) * 1000 < 0.001 * fabs(m.a) || m.b == 0) array(out); continue; }
            else if (k == 6) { double x = rnd(r.unit() * 60); out += cat(nu(x), " 0 Td\n"); move(x, 0); }
            while (!certain()) { double y = rnd(1 + r.unit() * 7), x = rnd(r.unit() * 5); out += cat(nu(x), " ", nu(y), " Td\n"); move(x, y); }
            if (k == 7 && trm().b == 0) { array(out); continue; }
            show(out, text(), "Tj");
        }
        out += "ET\n"; tm = tlm = M();
    }
    template <class F> void quote(string& out, F move)
    {
        string t = text(); double aw = s.tw, ac = s.tc; bool two = r.chance(1, 2); if (two) { aw = rnd(r.unit() * 3); ac = rnd(r.unit()); } s.tw = aw; s.tc = ac; s.wider(); move(0, -s.tl); P st = at(trm(), 0, 0); sp0 = space(true); string e = enc(t);
        out += two ? cat(nu(aw), " ", nu(ac), " ", e, " \"\n") : e + " '\n"; auto g = run(t); shown(t, st, g); c.ev(two ? "shown with \"" : "shown with '");
    }
    void array(string& out)
    {
        if (!certain()) return; string o = "["; unsigned n = 1 + (unsigned)r.below(5); unsigned strings = 0;
        for (unsigned i = 0; i < n; i++)
        {
            if (strings && r.chance(2, 3)) { double k = (r.chance(1, 2) ? r.unit() * 0.6 - 0.3 : r.chance(1, 2) ? 1.5 + 3 * r.unit() : 8 + 5 * r.unit()), unit = space(true) / (s.size * s.th * std::max(1e-9, hypot(trm().a, trm().b))); double v = rnd(-k * unit * 1000); M m; m.e = -v / 1000 * s.size * s.th; M keep = tm; tm = mul(m, tm); if (!certain()) { tm = keep; continue; } o += " " + nu(v) + " "; c.ev("adjustments"); }
            if (strings && !certain()) break; string t = text(); P st = at(trm(), 0, 0); sp0 = space(true); o += enc(t); auto g = run(t); shown(t, st, g); strings++;
        }
        out += o + "] TJ\n"; c.ev("shown with TJ");
    }
    void canvas(string& out)
    {
        unsigned n = 1 + (unsigned)r.below(5); size_t base = stack.size();
        for (unsigned i = 0; i < n; i++)
        {
            unsigned k = (unsigned)r.below(8);
            if (k == 0) { out += "q\n"; stack.push_back(s); } else if (k == 1 && stack.size() > base) { out += "Q\n"; s = stack.back(); stack.pop_back(); } else if (k == 2) { M m = some(r.chance(1, 2)); s.ctm = mul(m, s.ctm); out += nums(m) + " cm\n"; c.ev("transformations"); }
            else if (k == 3) stateOp(out); else if (k == 4 && level < 2) form(out); else block(out);
        }
        while (stack.size() > base) { out += "Q\n"; s = stack.back(); stack.pop_back(); }
    }
    void form(string& out)
    {
        State keep = s; auto f = doc.CreateXObjectForm(PdfRect(0, 0, 500, 500)); M m; if (r.chance(1, 2)) { m = some(r.chance(1, 2)); f->SetMatrix(Matrix::FromCoefficients(m.a, m.b, m.c, m.d, m.e, m.f)); c.ev("forms with a matrix"); }
        s.ctm = mul(m, s.ctm); string name = cat("X", forms.size()); forms[name] = &f->GetObject(); level++; string in; M t = tm, tl = tlm; tm = tlm = M(); if (r.chance(1, 2)) s.font = nullptr; canvas(in); level--; tm = t; tlm = tl; s = keep; f->GetObject().GetOrCreateStream().SetData(bufferview(in.data(), in.size())); resources.push_back(&f->GetOrCreateResources()); inner.push_back(std::move(f)); out += "/" + name + " Do\n"; c.ev("forms");
    }
    vector<PdfResources*> resources; vector<std::unique_ptr<PdfXObjectForm>> inner;
};
bool Gen::r_ = true;
struct Want { string text; P pos; double length; P clip; };
static string lower(string s) { for (auto& x : s) if (x >= 'A' && x <= 'Z') x += 32; return s; }
static vector<Want> model(const vector<Line>& lines, PdfTextExtractFlags flags, const string& pattern, const PdfRect* clip, bool& doubt)
{
    auto on = [&](PdfTextExtractFlags f) { return (flags & f) != PdfTextExtractFlags::None; }; vector<Want> out; bool words = on(PdfTextExtractFlags::TokenizeWords), trim = words || !on(PdfTextExtractFlags::KeepWhiteTokens);
    for (auto& l : lines)
    {
        vector<vector<Glyph>> parts(1); for (auto& g : l.g) { if (g.s == "\x02") { if (words) parts.push_back({}); continue; } if (words && (g.s == " " || g.s == "\x01")) { parts.push_back({}); continue; } Glyph x = g; if (x.s == "\x01") { x.s = " "; x.made = true; } parts.back().push_back(x); }
        for (auto& p : parts)
        {
            size_t a = 0, b = p.size(); if (trim) { while (a < b && p[a].s == " ") a++; while (b > a && p[b - 1].s == " ") b--; } if (a == b) continue; string t; vector<size_t> pos; for (size_t i = a; i < b; i++) { pos.push_back(t.size()); t += p[i].s; } P first = p[a].from;
            if (clip) { double e[4] = { first.x - clip->GetLeft(), clip->GetRight() - first.x, first.y - clip->GetBottom(), clip->GetTop() - first.y }; bool in = true; for (double x : e) { if (fabs(x) < 0.05) doubt = true; if (x < 0) in = false; } if (!in) continue; }
            size_t from = a, to = b; if (!pattern.empty())
            {
                bool ic = on(PdfTextExtractFlags::IgnoreCase), whole = on(PdfTextExtractFlags::MatchWholeWord); string h = ic ? lower(t) : t, n = ic ? lower(pattern) : pattern; size_t f;
                if (on(PdfTextExtractFlags::ExtractSubstring))
                {
                    for (f = h.find(n); f != string::npos && whole; f = h.find(n, f + 1)) { if ((f == 0 || h[f - 1] == ' ') && (f + n.size() == h.size() || h[f + n.size()] == ' ')) break; } if (f == string::npos) continue;
                    t = t.substr(f, n.size()); size_t i = 0; while (pos[i] < f) i++; from = a + i; while (i < pos.size() && pos[i] < f + n.size()) i++; to = a + i;
                }
                else if (whole && !on(PdfTextExtractFlags::RegexPattern) ? h != n : h.find(n) == string::npos) continue;
            }
            if (p[from].made || p[to - 1].made) doubt = true; // how long a space is that nobody drew, is not specified
            out.push_back({ t, p[from].from, dist(p[from].from, p[to - 1].to), first });
        }
    }
    return out;
}
typedef vector<std::shared_ptr<FT_FaceRec_>> Faces;
static FT_Face faceOf(const char* path, Faces& faces)
{
    static FT_Library lib = [] { FT_Library l; FT_Init_FreeType(&l); return l; }(); static std::map<string, string> data; auto& s = data[path]; if (s.empty()) s = slurp(path); FT_Face f; if (FT_New_Memory_Face(lib, (const FT_Byte*)s.data(), (FT_Long)s.size(), 0, &f)) { fprintf(stderr, "no font %s\n", path); exit(2); } FT_Select_Charmap(f, FT_ENCODING_UNICODE); faces.emplace_back(f, FT_Done_Face); return f;
}
static vector<FontUse> makeFonts(Ctx& c, PdfMemDocument& d, string& how, Faces& faces)
{
    Rng& r = c.rng; vector<FontUse> out; static const char* paths[] = { "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSerif.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf" }; static const PdfStandard14FontType ty[] = { PdfStandard14FontType::Helvetica, PdfStandard14FontType::TimesRoman, PdfStandard14FontType::Courier, PdfStandard14FontType::HelveticaBold };
    for (unsigned i = 1 + (unsigned)r.below(3); i; i--)
    {
        FontUse f; f.name = cat("F", out.size()); PdfFontCreateParams p; bool std14 = r.chance(1, 2), simple = std14 || r.chance(1, 2); bool mac = r.chance(1, 4); if (simple) p.Encoding = mac ? PdfEncodingFactory::CreateMacRomanEncoding() : PdfEncodingFactory::CreateWinAnsiEncoding(); if (r.chance(1, 3)) p.Flags = PdfFontCreateFlags::DontSubset;
        f.font = std14 ? d.GetFonts().GetStandard14Font(r.pick(vector<PdfStandard14FontType>(ty, ty + 4)), p) : d.GetFonts().GetFont(faceOf(paths[r.below(3)], faces), p); c.require(f.font != nullptr, "font", "null"); how += cat(std14 ? " standard" : simple ? " simple" : " composite");
        c.ev(std14 ? "standard fonts" : simple ? "simple fonts" : "composite fonts"); auto map = mac ? PdfEncodingMapFactory::MacRomanEncodingInstance() : PdfEncodingMapFactory::WinAnsiEncodingInstance(); for (char32_t x = '0'; x < 0x250; x++) { if (!((x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || (x >= 0xC0 && x < 0x250 && x != 0xD7 && x != 0xF7))) continue; PdfCharCode code; unsigned gid; if (x > 126 && ((simple && !map->TryGetCharCode(x, code)) || !f.font->TryGetGID(x, PdfGlyphAccess::Width, gid))) continue; f.chars.push_back(x); }
        charbuff b; f.font->GetEncoding().TryConvertToEncoded(" ", b); f.word = !f.font->IsCIDKeyed(); f.space = 0; out.push_back(f);
    }
    return out;
}
static P viewed(P p, int rot, const PdfRect& m) { double l = m.GetLeft(), b = m.GetBottom(), w = m.GetWidth(), h = m.GetHeight(); P q{ p.x - l, p.y - b }; if (rot == 90) q = { q.y, w - q.x }; else if (rot == 180) q = { w - q.x, h - q.y }; else if (rot == 270) q = { h - q.y, q.x }; return { q.x + l, q.y + b }; }
static void compare(Ctx& c, const PdfPage& page, Gen& g, const string& when, int rot, const PdfRect& box, double tol)
{
    Rng& r = c.rng;
    for (unsigned q = 0; q < 4; q++)
    {
        PdfTextExtractParams prm; string pattern; PdfRect clip; bool clipped = false; unsigned fl = 0; if (q) { if (r.chance(1, 3)) fl |= 2; if (r.chance(1, 2)) fl |= 4; if (r.chance(1, 2)) fl |= 64; if (r.chance(1, 4)) fl |= 32; if (r.chance(1, 3)) { clipped = true; clip = PdfRect((double)r.range(-300, 300), (double)r.range(-300, 300), 50 + r.below(700), 50 + r.below(700)); prm.ClipRect = clip; c.ev("clipped extractions"); } }
        if (q > 1 && g.lines.size()) { auto& l = r.pick(g.lines).g; string t; for (auto& x : l) t += x.s == "\x01" ? " " : x.s == "\x02" ? "" : x.s; vector<size_t> cp; for (size_t i = 0; i <= t.size(); i++) if (i == t.size() || ((unsigned char)t[i] & 0xC0) != 0x80) cp.push_back(i); size_t a = r.below(cp.size() - 1), b = a + 1 + r.below(std::min<size_t>(cp.size() - 1 - a, 8)); pattern = t.substr(cp[a], cp[b] - cp[a]); if (r.chance(1, 2)) { size_t s = t.find_first_not_of(' '), e = t.find(' ', s == string::npos ? 0 : s); if (s != string::npos) pattern = t.substr(s, e == string::npos ? string::npos : e - s); }
            if (r.chance(1, 4)) fl |= 16; else { if (r.chance(1, 3)) fl |= 128; if (r.chance(1, 3)) fl |= 8; } if (g.ascii && r.chance(1, 2)) { fl |= 1; if (!(fl & 16)) for (auto& x : pattern) if (r.chance(1, 2)) x = (char)toupper(x); } c.ev((fl & 128) ? "substring extractions" : (fl & 16) ? "regex extractions" : (fl & 8) ? "whole word extractions" : "pattern extractions"); }
        prm.Flags = (PdfTextExtractFlags)fl; bool doubt = false; auto want = model(g.lines, prm.Flags, pattern, clipped ? &clip : nullptr, doubt); if (doubt) { c.ev("doubtful extractions"); continue; } vector<PdfTextEntry> got; string what = cat(when, " flags ", fl, " pattern ", vis(pattern), clipped ? " clipped" : ""); c.phase("extract " + what);
        try { if (pattern.empty() && r.chance(1, 2)) page.ExtractTextTo(got, prm); else page.ExtractTextTo(got, pattern, prm); } catch (const PdfError&) { c.die("extraction-refused", what + " " + excText()); }
        auto list = [&] { string o = "\nwanted:"; for (auto& w : want) o += cat(" ", vis(w.text)); o += "\ngot:"; for (auto& e : got) o += cat(" ", vis(e.Text)); return o; };
        for (size_t i = 0; i < want.size() && i < got.size(); i++)
        {
            auto& w = want[i]; auto& e = got[i]; c.require(e.Text == w.text, "text", cat(what, ": entry ", i, " ", vis(e.Text), " instead of ", vis(w.text), list())); P p = rot && !(fl & 64) ? viewed(w.pos, rot, box) : w.pos; double t = tol * (1 + dist(p, { 0, 0 }) + w.length);
            c.require(dist({ e.X, e.Y }, p) < t, "position", cat(what, ": entry ", i, " ", vis(w.text), " at ", e.X, ",", e.Y, " instead of ", p.x, ",", p.y)); c.require(fabs(e.Length - w.length) < t, "length", cat(what, ": entry ", i, " ", vis(w.text), " is ", e.Length, " long instead of ", w.length)); c.require(e.BoundingBox.has_value() == !!(fl & 32), "bounding-box", what); c.require(e.Page == (int)page.GetPageNumber() - 1, "page", what); c.ev("entries compared"); if (g.forms.size()) c.ev("entries with forms compared");
        }
        c.require(want.size() == got.size(), "count", cat(what, ": ", got.size(), " entries instead of ", want.size(), list())); c.ev("extractions");
    }
}
static void c22(Ctx& c)
{
    Rng& r = c.rng; Faces faces; PdfMemDocument d; string how; auto fonts = makeFonts(c, d, how, faces); int rot = r.chance(2, 3) ? 0 : 90 * (int)r.below(4); PdfRect box(r.chance(1, 2) ? 0 : (double)r.range(-50, 50), r.chance(1, 2) ? 0 : (double)r.range(-50, 50), 300 + r.below(400), 300 + r.below(400)); for (unsigned i = r.below(3); i; i--) d.GetPages().CreatePage(PdfRect(0, 0, 10, 10)); auto& page = d.GetPages().CreatePage(box); unsigned index = page.GetPageNumber() - 1; if (rot) { page.SetRotationRaw(rot); c.ev("rotated pages"); }
    Gen g(c, fonts, d); g.ascii = r.chance(1, 2); how += cat(" page ", box.GetLeft(), ",", box.GetBottom(), " ", box.GetWidth(), "x", box.GetHeight(), " rotated ", rot); string out; bool painter = r.chance(1, 3);
    if (!painter) { c.phase("content " + how); g.canvas(out); page.GetOrCreateContents().GetStreamForAppending().SetData(bufferview(out.data(), out.size())); how += "\n" + out; c.ev("raw contents"); }
    else
    {
        c.phase("painting " + how); PdfPainter p; p.SetCanvas(page); vector<State> st; State all; p.SetPrecision(6);
        for (unsigned n = 2 + (unsigned)r.below(8); n; n--)
        {
            unsigned k = (unsigned)r.below(9); auto& s = g.s;
            if (k == 0) { p.Save(); st.push_back(s); } else if (k == 1 && st.size()) { p.Restore(); s = st.back(); st.pop_back(); } else if (k == 2) { M m = g.some(r.chance(1, 2)); s.ctm = mul(m, s.ctm); p.GetGraphicsState().SetCurrentMatrix(Matrix::FromCoefficients(m.a, m.b, m.c, m.d, m.e, m.f)); c.ev("transformations"); }
            else if (k == 3) { s.tc = (double)r.below(20) / 10; p.GetTextState().SetCharSpacing(s.tc); } else if (k == 4) { s.tw = (double)r.below(20) / 10; p.GetTextState().SetWordSpacing(s.tw); } else if (k == 5) { s.th = 0.5 + (double)r.below(15) / 10; p.GetTextState().SetFontScale(s.th); }
            else
            {
                if (!s.font || r.chance(1, 2)) { s.font = &r.pick(fonts); s.size = 2 + (double)r.below(40) / 2; } p.GetTextState().SetFont(*s.font->font, s.size); { auto& t = p.GetTextState(); s.tc = t.GetCharSpacing(); s.tw = t.GetWordSpacing(); s.th = t.GetFontScale(); } s.w = Gen::spaceOf(*s.font); all.tc = s.tc; all.th = s.th; all.wider(); s.tcLo = all.tcLo; s.tcHi = all.tcHi; s.thLo = all.thLo; s.thHi = all.thHi;
                auto place = [&](double& x, double& y) { for (;;) { x = (double)r.range(0, 1000) / 2; y = (double)r.range(-100, 1000) / 2; g.tm = M(); g.tm.e = x; g.tm.f = y; g.tlm = g.tm; if (g.certain()) break; } }; double x, y; string t = g.text(); place(x, y); P b = at(g.trm(), 0, 0);
                if (r.chance(1, 2)) { p.DrawText(t, x, y); g.sp0 = g.space(true); auto run = g.run(t); g.shown(t, b, run); c.ev("drawn with DrawText"); }
                else { p.BeginText(x, y); g.sp0 = g.space(true); p.AddText(t); auto run = g.run(t); g.shown(t, b, run); for (unsigned i = r.below(3); i; i--) { double dx = (double)r.range(-100, 100) / 2, dy = (double)r.range(-100, 100) / 2; M m; m.e = dx; m.f = dy; M tl = mul(m, g.tlm), keep = g.tm; g.tm = tl; if (!g.certain()) { g.tm = keep; continue; } g.tlm = tl; p.MoveTextPos(dx, dy); t = g.text(); g.sp0 = g.space(true); b = at(g.trm(), 0, 0); p.AddText(t); auto run2 = g.run(t); g.shown(t, b, run2); } p.EndText(); c.ev("drawn with AddText"); }
            }
        }
        for (; st.size(); st.pop_back()) p.Restore(); p.FinishDrawing(); c.ev("painted pages");
    }
    auto provide = [&](PdfResources& res) { for (auto& f : fonts) res.AddResource("Font", f.name, f.font->GetObject()); for (auto& f : g.forms) res.AddResource("XObject", f.first, f.second->GetIndirectReference()); }; provide(page.GetOrCreateResources()); for (auto x : g.resources) provide(*x);
    c.phase("save " + how); string n; string file; try { file = saveToString(d, anyOptions(r, n)); } catch (const PdfError&) { c.die("save-refused", how + excText()); }
    if (c.verbose) spit("/tmp/c22.pdf", file); PdfMemDocument e; e.LoadFromBuffer(bufferview(file.data(), file.size())); compare(c, e.GetPages().GetPageAt(index), g, "after saving" + how, rot, box, painter ? 2e-4 : 1e-4); c.ev("documents");
    if (g.lines.empty()) c.ev("pages without text"); c.state(how.substr(0, 2000)); if (r.chance(1, 200)) c.sample(how);
}
int main(int argc, char** argv) { return (mon::modes()["c22"] = c22, mon::main(argc, argv, c22)); }
