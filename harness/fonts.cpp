// C24: embedded fonts carry the glyphs, the advances and the metrics of the fonts they were taken from
#include "mon.h"
#include "model.h"
#include "raw.h"
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_OUTLINE_H
using namespace mm; using namespace mon; using std::string; using std::vector; using std::map; using std::set;

static const char* dejavuPaths[] = { "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSerif.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf" };
static FT_Library ftLib() { static FT_Library l; if (!l) FT_Init_FreeType(&l); return l; }
static unsigned u16(const string& s, size_t o) { return o + 2 <= s.size() ? (unsigned char)s[o] << 8 | (unsigned char)s[o + 1] : 0; }
static uint32_t u32(const string& s, size_t o) { return (uint32_t)u16(s, o) << 16 | u16(s, o + 2); }
static void put16(string& s, size_t o, unsigned v) { s[o] = (char)(v >> 8); s[o + 1] = (char)v; }
static void put32(string& s, size_t o, uint32_t v) { put16(s, o, v >> 16); put16(s, o + 2, v & 0xFFFF); }
static void add16(string& s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
static void add32(string& s, uint32_t v) { add16(s, v >> 16); add16(s, v & 0xFFFF); }
static uint32_t checksum(const string& s) { uint32_t x = 0; for (size_t i = 0; i < s.size(); i += 4) { uint32_t w = 0; for (size_t k = 0; k < 4; k++) w = w << 8 | (i + k < s.size() ? (unsigned char)s[i + k] : 0); x += w; } return x; }
static string be(uint32_t tag) { string s; add32(s, tag); return s; }
static map<string, string> sfntTables(const string& f) { map<string, string> t; for (unsigned i = 0, n = u16(f, 4); i < n; i++) { size_t o = 12 + 16 * i; t[f.substr(o, 4)] = f.substr(std::min<size_t>(u32(f, o + 8), f.size()), u32(f, o + 12)); } return t; }
static string sfnt(map<string, string> t)
{
    t["head"].resize(54); put32(t["head"], 8, 0); unsigned n = (unsigned)t.size(), e = 0; while ((2u << e) <= n) e++; string f = be(0x00010000); add16(f, n); add16(f, 16u << e); add16(f, e); add16(f, 16 * n - (16u << e)); size_t at = 12 + 16 * n, head = 0; string body;
    for (auto& x : t) { if (x.first == "head") head = at + body.size(); f += x.first; add32(f, checksum(x.second)); add32(f, (uint32_t)(at + body.size())); add32(f, (uint32_t)x.second.size()); body += x.second; while (body.size() % 4) body += '\0'; }
    f += body; put32(f, head + 8, 0xB1B0AFBA - checksum(f)); return f;
}
struct Src { string data; map<string, string> t; bool longLoca; unsigned glyphs, metrics; FT_Face face; };
static Src& src(unsigned i)
{
    static Src* s[3]; if (s[i]) return *s[i]; s[i] = new Src(); auto& x = *s[i]; x.data = slurp(dejavuPaths[i]); if (x.data.empty()) { fprintf(stderr, "no font\n"); exit(3); } x.t = sfntTables(x.data); x.longLoca = u16(x.t["head"], 50) != 0; x.glyphs = u16(x.t["maxp"], 4); x.metrics = u16(x.t["hhea"], 34);
    FT_New_Memory_Face(ftLib(), (const FT_Byte*)x.data.data(), (FT_Long)x.data.size(), 0, &x.face); return x;
}
static string glyphData(const Src& s, unsigned g) { auto& l = s.t.at("loca"); uint32_t a = s.longLoca ? u32(l, 4 * g) : 2 * u16(l, 2 * g), b = s.longLoca ? u32(l, 4 * g + 4) : 2 * u16(l, 2 * g + 2); return s.t.at("glyf").substr(a, b - a); }
static vector<size_t> components(const string& g) { vector<size_t> v; if (g.size() < 12 || !(g[0] & 0x80)) return v; size_t o = 10; for (;;) { unsigned f = u16(g, o); v.push_back(o + 2); if (!(f & 0x20)) return v; o += f & 1 ? 8 : 6; o += f & 8 ? 2 : f & 0x40 ? 4 : f & 0x80 ? 8 : 0; } }
// A TrueType font with some glyphs of another one, in another order, with advances of its own
static string makeFont(Rng& r, string& how, vector<char32_t>& chars)
{
    auto& s = src((unsigned)r.below(3)); vector<unsigned> order{ 0 }; map<unsigned, unsigned> idx{ { 0, 0 } }; map<char32_t, unsigned> cmap; vector<char32_t> all; FT_UInt gi; FT_ULong cp = FT_Get_First_Char(s.face, &gi); while (gi) { if (cp > 32 && cp < 0x10000 && !(cp >= 0xD800 && cp < 0xE000)) all.push_back((char32_t)cp); cp = FT_Get_Next_Char(s.face, cp, &gi); }
    vector<unsigned> want; unsigned n = r.chance(1, 3) ? 1 + (unsigned)r.below(12) : 5 + (unsigned)r.below(250); vector<std::pair<char32_t, unsigned>> picks; bool accents = r.chance(1, 2);
    for (unsigned i = 0; i < n; i++) { char32_t c = accents && r.chance(1, 2) ? 0xC0 + (char32_t)r.below(0x130) : r.chance(1, 3) ? 0x21 + (char32_t)r.below(0x5E) : r.pick(all); unsigned g = FT_Get_Char_Index(s.face, c); if (g) picks.push_back({ c, g }); } if (r.chance(2, 3)) picks.push_back({ ' ', FT_Get_Char_Index(s.face, ' ') });
    set<unsigned> need; std::function<void(unsigned)> close = [&](unsigned g) { if (!g || !need.insert(g).second) return; auto d = glyphData(s, g); for (size_t o : components(d)) close(u16(d, o)); }; set<unsigned> used; for (auto& p : picks) if (used.insert(p.second).second) { close(p.second); cmap[p.first] = p.second; }
    vector<unsigned> v(need.begin(), need.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); for (unsigned g : v) { idx[g] = (unsigned)order.size(); order.push_back(g); }
    unsigned total = (unsigned)order.size(), hm = r.chance(1, 3) ? total : 1 + (unsigned)r.below(total); bool lng = r.chance(1, 2); vector<unsigned> adv; for (unsigned i = 0; i < total; i++) adv.push_back(r.chance(1, 2) && i ? adv.back() : (unsigned)r.below(3000)); unsigned upem = r.pick(vector<unsigned>{ 1000, 2048, 1024, 256, 4096 }); string glyf, loca, hmtx; unsigned compound = 0, placed = 0;
    // some simple glyphs are replaced with components placed, scaled and skewed in all ways
    vector<unsigned> leaves; std::map<unsigned, string> made; if (r.chance(1, 2)) { vector<unsigned> swap; for (unsigned i = 1; i < total; i++) { auto d = glyphData(s, order[i]); if (d.size() < 12 || (d[0] & 0x80)) continue; (r.chance(1, 5) ? swap : leaves).push_back(i); }
      for (unsigned i : leaves.empty() ? vector<unsigned>() : swap) { string d; add16(d, 0xFFFF); for (int k = 0; k < 4; k++) add16(d, k < 2 ? 0 : 1000); unsigned n = 1 + (unsigned)r.below(4); bool instr = r.chance(1, 3); for (unsigned k = 0; k < n; k++) { unsigned f = 2 | (k + 1 < n ? 0x20 : instr ? 0x100 : 0) | (r.chance(1, 2) ? 1 : 0) | r.pick(vector<unsigned>{ 0, 8, 0x40, 0x80, 0x80 }) | (r.chance(1, 4) ? 4 : 0) | (r.chance(1, 5) ? 0x200 : 0); add16(d, f); add16(d, r.pick(leaves)); for (int a = 0; a < 2; a++) if (f & 1) add16(d, (unsigned)r.range(-1500, 1500) & 0xFFFF); else d += (char)r.range(-128, 127); for (int a = f & 8 ? 1 : f & 0x40 ? 2 : f & 0x80 ? 4 : 0; a; a--) add16(d, (unsigned)r.range(-24000, 24000) & 0xFFFF); placed++; } if (instr) { unsigned k = (unsigned)r.below(5); add16(d, k); d += string(k, '\x4F'); } made[i] = d; } }
    for (unsigned i = 0; i < total; i++) { auto d = glyphData(s, order[i]); if (made.count(i)) { d = made[i]; compound++; } else for (size_t o : components(d)) { put16(d, o, idx.at(u16(d, o))); compound++; } if (d.size() % 2) d += '\0'; if (r.chance(1, 2)) while (d.size() % 4) d += '\0'; if (lng) add32(loca, (uint32_t)glyf.size()); else add16(loca, (unsigned)glyf.size() / 2); glyf += d; if (glyf.size() > 120000 && !lng) { } } if (lng) add32(loca, (uint32_t)glyf.size()); else add16(loca, (unsigned)glyf.size() / 2);
    if (!lng && glyf.size() > 131070) { lng = true; loca.clear(); size_t at = 0; return makeFont(r, how, chars); (void)at; }
    auto lsb = [&](unsigned g) { auto& h = s.t.at("hmtx"); return g < s.metrics ? u16(h, 4 * g + 2) : u16(h, 4 * s.metrics + 2 * (g - s.metrics)); }; for (unsigned i = 0; i < total; i++) { if (i < hm) add16(hmtx, adv[i]); add16(hmtx, lsb(order[i])); }
    map<string, string> t; t["glyf"] = glyf; t["loca"] = loca; t["hmtx"] = hmtx; for (auto k : { "head", "hhea", "maxp", "name", "OS/2" }) t[k] = s.t.at(k); if (r.chance(1, 2)) for (auto k : { "cvt ", "fpgm", "prep" }) if (s.t.count(k)) t[k] = s.t.at(k);
    put16(t["head"], 50, lng); put16(t["head"], 18, upem); put16(t["hhea"], 34, hm); put16(t["maxp"], 4, total); t["post"] = string(32, '\0'); put32(t["post"], 0, 0x00030000); int angle = r.chance(1, 2) ? 0 : (int)r.range(-20, 20); put32(t["post"], 4, (uint32_t)(angle * 65536)); put16(t["post"], 8, (unsigned)-200 & 0xFFFF); put16(t["post"], 10, 90); if (r.chance(1, 4)) put32(t["post"], 12, 1);
    vector<std::pair<char32_t, unsigned>> m; for (auto& e : cmap) m.push_back({ e.first, idx.at(e.second) }); string sub; if (r.chance(1, 2)) { add16(sub, 12); add16(sub, 0); add32(sub, (uint32_t)(16 + 12 * m.size())); add32(sub, 0); add32(sub, (uint32_t)m.size()); for (auto& e : m) { add32(sub, e.first); add32(sub, e.first); add32(sub, e.second); } }
    else { unsigned seg = (unsigned)m.size() + 1; add16(sub, 4); add16(sub, 16 + 8 * seg); add16(sub, 0); add16(sub, 2 * seg); unsigned e = 0; while ((2u << e) <= seg) e++; add16(sub, 2u << e); add16(sub, e); add16(sub, 2 * seg - (2u << e)); for (auto& x : m) add16(sub, x.first); add16(sub, 0xFFFF); add16(sub, 0); for (auto& x : m) add16(sub, x.first); add16(sub, 0xFFFF); for (auto& x : m) add16(sub, (x.second - x.first) & 0xFFFF); add16(sub, 1); for (unsigned i = 0; i < seg; i++) add16(sub, 0); }
    string cm; add16(cm, 0); add16(cm, 1); add16(cm, 3); add16(cm, u16(sub, 0) == 12 ? 10 : 1); add32(cm, 12); t["cmap"] = cm + sub; if (r.chance(1, 6)) t["GDEF"] = string("\0\1\0\0\0\0\0\0\0\0\0\0", 12);
    for (auto& e : m) chars.push_back(e.first); how += cat("font of ", total, " glyphs, ", hm, " metrics, ", compound, " components, ", placed, " placed, ", lng ? "long" : "short", " offsets, ", upem, " units"); return sfnt(t);
}
static bool sameGlyph(FT_Face a, unsigned ga, FT_Face b, unsigned gb, string& why, bool advance)
{
    const int fl = FT_LOAD_NO_SCALE | FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP; int e1 = FT_Load_Glyph(a, ga, fl); vector<FT_Vector> pts; vector<char> tags; vector<short> cont; FT_Pos adv = 0; if (!e1) { auto& o = a->glyph->outline; pts.assign(o.points, o.points + o.n_points); tags.assign(o.tags, o.tags + o.n_points); cont.assign(o.contours, o.contours + o.n_contours); adv = a->glyph->metrics.horiAdvance; }
    int e2 = FT_Load_Glyph(b, gb, fl); if (e1 || e2) { why = cat("load ", e1, " ", e2); return false; } auto& o = b->glyph->outline; if (o.n_points != (int)pts.size() || o.n_contours != (int)cont.size()) { why = cat(pts.size(), " points became ", o.n_points); return false; }
    for (size_t i = 0; i < pts.size(); i++) if (o.points[i].x != pts[i].x || o.points[i].y != pts[i].y || (o.tags[i] & 3) != (tags[i] & 3)) { why = cat("point ", i, ": ", pts[i].x, ",", pts[i].y, " became ", o.points[i].x, ",", o.points[i].y); return false; } for (size_t i = 0; i < cont.size(); i++) if (o.contours[i] != cont[i]) { why = "contours"; return false; }
    if (advance && b->glyph->metrics.horiAdvance != adv) { why = cat("advance ", adv, " became ", b->glyph->metrics.horiAdvance); return false; } return true;
}
static string streamOf(const PdfObject& o) { charbuff b; o.MustGetStream().CopyTo(b); return string(b.data(), b.size()); }
static map<unsigned, double> widthsOf(Ctx& c, const PdfDictionary& d, const string& how)
{
    map<unsigned, double> w; auto o = d.FindKey("W"); if (!o) return w; auto& a = o->GetArray(); auto num = [&](unsigned i) { c.require(i < a.size() && a.FindAt(i)->IsNumberOrReal(), "widths-array", how); return a.FindAt(i)->GetReal(); };
    auto put = [&](unsigned cid, double v) { auto x = w.insert({ cid, v }); c.require(x.second || x.first->second == v, "width-contradiction", how + cat(" CID ", cid)); }; 
    for (unsigned i = 0; i < a.size();) { unsigned first = (unsigned)num(i); c.require(i + 1 < a.size(), "widths-array", how); auto x = a.FindAt(i + 1); if (x->IsArray()) { auto& l = x->GetArray(); for (unsigned k = 0; k < l.size(); k++) put(first + k, l.FindAt(k)->GetReal()); i += 2; } else { unsigned last = (unsigned)num(i + 1); double v = num(i + 2); c.require(last >= first && last < 70000, "widths-array", how); for (unsigned k = first; k <= last; k++) put(k, v); i += 3; } } return w;
}
// the code to CID map of an encoding stream, written by pdfmm: only single entries
static map<string, unsigned> cidsOf(const string& s)
{
    map<string, unsigned> m; size_t at = 0; while ((at = s.find("begincidchar", at)) != string::npos) { size_t end = s.find("endcidchar", at); at += 12; while (true) { size_t lt = s.find('<', at); if (lt == string::npos || lt > end) break; size_t gt = s.find('>', lt); string h = s.substr(lt + 1, gt - lt - 1), code; for (size_t i = 0; i + 1 < h.size(); i += 2) code += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); m[code] = (unsigned)strtoul(s.c_str() + gt + 1, nullptr, 10); at = gt; } at = end; } return m;
}
static const unsigned short helvetica[] = { 278,278,355,556,556,889,667,191,333,333,389,584,278,333,278,278,556,556,556,556,556,556,556,556,556,556,278,278,584,584,584,556,1015,667,667,722,722,667,611,778,722,278,500,667,556,833,722,778,667,778,722,667,611,722,667,944,667,667,611,278,278,278,469,556,333,556,556,500,556,556,278,556,556,222,222,500,222,833,556,556,556,556,333,500,278,556,500,722,500,500,500,334,260,334,584 };
static const unsigned short times[] = { 250,333,408,500,500,833,778,180,333,333,500,564,250,333,250,278,500,500,500,500,500,500,500,500,500,500,278,278,564,564,564,444,921,722,667,667,722,611,556,722,722,333,389,722,611,889,722,722,556,722,667,556,611,722,722,944,722,722,611,333,278,333,469,500,333,444,500,444,500,444,333,500,500,278,278,500,278,778,500,500,500,500,333,389,278,500,500,722,500,500,444,480,200,480,541 };
static void c24s(Ctx& c)
{
    auto& r = c.rng; PdfMemDocument d; unsigned k = (unsigned)r.below(3); PdfFontCreateParams p; if (r.chance(1, 2)) p.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding(); static const unsigned fl[] = { 1, 5, 0, 2, 4, 6 }; p.Flags = (PdfFontCreateFlags)fl[r.below(6)]; static const PdfStandard14FontType ty[] = { PdfStandard14FontType::Helvetica, PdfStandard14FontType::TimesRoman, PdfStandard14FontType::Courier };
    auto& font = *d.GetFonts().GetStandard14Font(ty[k], p); PdfTextState st; st.Font = &font; st.FontSize = 1 + r.below(40); st.FontScale = r.chance(1, 2) ? 1 : 0.5 + r.below(100) / 50.0; st.CharSpacing = r.chance(1, 2) ? 0 : r.below(30) / 10.0; bool win = !p.Encoding.IsNull(); string text; double want = 0;
    for (unsigned n = (unsigned)r.below(30); n; n--) { unsigned ch = 32 + (unsigned)r.below(95); if (!win && (ch == '\'' || ch == '`')) continue; text += (char)ch; double w = k == 0 ? helvetica[ch - 32] : k == 1 ? times[ch - 32] : 600; want += (w / 1000 * st.FontSize + st.CharSpacing) * st.FontScale; double g = font.GetCharLength(ch, st); c.require(fabs(g - (w / 1000 * st.FontSize + st.CharSpacing) * st.FontScale) < 1e-6, "standard-width", cat("font ", k, " character ", ch, " is ", g, " wide instead of ", w)); c.ev("standard widths compared"); }
    string how = cat("standard font ", k, " ", win, ", flags ", (unsigned)p.Flags, " ", vis(text)); c.phase(how); double got = font.GetStringLength(std::string_view(text), st); c.require(fabs(got - want) < 1e-6, "standard-length", how + cat(": ", got, " instead of ", want)); charbuff enc; font.GetEncoding().TryConvertToEncoded(text, enc); got = font.GetStringLength(PdfString::FromRaw(enc), st); c.require(fabs(got - want) < 1e-6, "standard-length-encoded", how + cat(": ", got, " instead of ", want)); c.ev("standard lengths compared");
    unsigned no = font.GetObject().GetIndirectReference().ObjectNumber(); d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)).GetOrCreateResources().AddResource("Font", "F", font.GetObject()); string file = saveDoc(d, r); auto e = loadDoc(file); auto l = e->GetFonts().GetLoadedFont(e->GetObjects().MustGetObject(PdfReference(no, 0))); c.require(l != nullptr, "standard-loaded", how); st.Font = l; got = l->GetStringLength(PdfString::FromRaw(enc), st); c.require(fabs(got - want) < 1e-6, "standard-length-loaded", how + cat(": ", got, " instead of ", want)); c.ev("loaded lengths compared"); c.state(cat("standard ", k, win, (unsigned)p.Flags));
    if ((unsigned)p.Flags & 1) return; auto& fd = l->GetObject().GetDictionary(); bool cid = fd.MustFindKey("Subtype").GetName() == "Type0"; auto& df = cid ? fd.MustFindKey("DescendantFonts").GetArray().MustFindAt(0).GetDictionary() : fd; auto& ff = df.MustFindKey("FontDescriptor").GetDictionary().MustFindKey("FontFile3"); c.require(ff.GetDictionary().MustFindKey("Subtype").GetName() == (cid ? "CIDFontType0C" : "Type1C") && df.MustFindKey("Subtype").GetName() == (cid ? "CIDFontType0" : "Type1"), "standard-font-file", how); string emb = streamOf(ff); FT_Face ef; int rc = FT_New_Memory_Face(ftLib(), (const FT_Byte*)emb.data(), (FT_Long)emb.size(), 0, &ef); c.require(rc == 0, "standard-embedded", how + cat(" cannot be opened: ", rc)); std::shared_ptr<FT_FaceRec_> guard(ef, FT_Done_Face);
    map<string, unsigned> cids; bool identity = false; map<unsigned, double> w; if (cid) { auto& en = fd.MustFindKey("Encoding"); if (en.IsName()) identity = true; else cids = cidsOf(streamOf(en)); w = widthsOf(c, df, how); } size_t at = 0; string raw(enc.data(), enc.size());
    for (char ch : text) { double want = k == 0 ? helvetica[ch - 32] : k == 1 ? times[ch - 32] : 600; unsigned g = FT_Get_Char_Index(ef, (unsigned)ch); c.require(g != 0, "standard-glyph-missing", how); if (cid) { unsigned v; if (identity) { v = u16(raw, at); at += 2; } else { size_t len = cids.count(raw.substr(at, 1)) ? 1 : 2; auto i = cids.find(raw.substr(at, len)); c.require(i != cids.end(), "standard-code", how); v = i->second; at += len; } c.require(v == g, "standard-glyph", how + cat(" character ", (int)ch, " glyph ", g, " is CID ", v)); c.require(w.count(v) && fabs(w[v] - want) <= 0.51, "standard-cid-width", how + cat(" CID ", v)); } else { unsigned code = (unsigned char)raw[at++]; unsigned first = (unsigned)fd.MustFindKey("FirstChar").GetNumber(); double x = fd.MustFindKey("Widths").GetArray().MustFindAt(code - first).GetReal(); c.require(fabs(x - want) <= 0.51, "standard-simple-width", how + cat(" code ", code, ": ", x)); } c.ev("embedded standard glyphs"); }
}
// Fonts of other producers: widths, default widths and glyph maps as the file states them
static void c24w(Ctx& c)
{
    auto& r = c.rng; RawPdf f(r); unsigned kind = (unsigned)r.below(5); static const char* kinds[] = { "standard", "Type1", "TrueType", "Type3", "composite" }; string how = kinds[kind], font; map<unsigned, double> w; double missing = 0, unit = 0.001; bool have = true; map<unsigned, unsigned> gids; bool gidMap = false; static const char* std14[] = { "Helvetica", "Times-Roman", "Courier" }; unsigned k = (unsigned)r.below(3);
    string bbox = cat("[", (int)r.range(-200, 0), " ", (int)r.range(-300, 0), " ", 1000 + r.below(500), " ", 500 + r.below(800), "]"), descriptor = cat("<</Type/FontDescriptor/FontName/Foreign/Flags 4/FontBBox ", f.maybe(bbox), "/ItalicAngle ", (int)r.range(-20, 20), "/Ascent ", f.num(r.below(1000)), "/Descent -", f.num(r.below(300)), "/CapHeight 700/StemV 80"); auto width = [&] { return r.chance(1, 3) ? r.below(30000) / 8.0 : (double)r.below(1200); };
    if (kind < 4)
    {
        unsigned first = (unsigned)r.below(200), last = first + (unsigned)r.below(256 - first); string ws; have = kind || r.chance(1, 2); if (kind == 3) { unit = r.pick(vector<double>{ 0.001, 0.01, 0.5, 1 }); } for (unsigned i = first; i <= last; i++) { w[i] = width(); ws += (ws.empty() ? "" : " ") + f.maybe(f.num(w[i]), 1, 20); }
        if (kind && kind != 3 && r.chance(1, 2)) { missing = width(); descriptor += "/MissingWidth " + f.maybe(f.num(missing)); } font = cat("<</Type/Font/Subtype/", kind == 0 || kind == 1 ? "Type1" : kinds[kind]); if (have) font += cat("/FirstChar ", f.maybe(std::to_string(first)), "/LastChar ", f.maybe(std::to_string(last)), "/Widths ", f.maybe("[" + ws + "]")); if (kind == 3) font += cat("/FontMatrix ", f.maybe(cat("[", fmtd(unit), " 0 0 ", fmtd(unit), " 0 0]")), "/FontBBox ", bbox, "/CharProcs<<>>/Resources<<>>/Encoding<</Type/Encoding/Differences[0/a/b/c]>>"); else font += "/Encoding/WinAnsiEncoding/BaseFont/" + string(kind ? "Foreign" : std14[k]); if (kind == 0 || kind == 3) { } else font += "/FontDescriptor " + f.ref(f.add(descriptor + ">>")); font += ">>"; if (!have) { w.clear(); auto& t = k == 0 ? helvetica : times; for (unsigned i = 32; i < 127; i++) w[i] = k == 2 ? 600 : t[i - 32]; w[39] = k == 0 ? 191 : k == 1 ? 180 : 600; w[96] = k == 2 ? 600 : 333; }
        how += cat(have ? ", widths " : ", no widths ", first, "-", last, ", unit ", unit, ", missing ", missing);
    }
    else
    {
        string ws; missing = 1000; string dw; if (r.chance(2, 3)) { missing = width(); dw = "/DW " + f.num(missing); } unsigned at = (unsigned)r.below(300); for (unsigned q = (unsigned)r.below(12); q; q--) { if (r.chance(1, 2)) { string a; unsigned st = at; for (unsigned n = (unsigned)r.below(20); n; n--) { w[at] = width(); a += (a.empty() ? "" : " ") + f.maybe(f.num(w[at]), 1, 20); at++; } ws += cat(" ", st, " ", f.maybe("[" + a + "]")); } else { unsigned last = at + (unsigned)r.below(r.chance(1, 5) ? 3000 : 20); double x = width(); for (unsigned i = at; i <= last; i++) w[i] = x; ws += cat(" ", at, " ", last, " ", f.num(x)); at = last + 1; } at += (unsigned)r.below(r.chance(1, 3) ? 5000 : 4); }
        bool tt = r.chance(2, 3); string map; if (tt) { if (r.chance(1, 2)) { gidMap = true; string m; for (unsigned i = 0, n = (unsigned)r.below(600); i < n; i++) { unsigned g = (unsigned)r.below(r.chance(1, 2) ? 65536 : 400); gids[i] = g; add16(m, g); } map = "/CIDToGIDMap " + f.ref(f.add(f.stream("", m))); } else if (r.chance(1, 2)) map = "/CIDToGIDMap/Identity"; }
        string ff = f.ref(f.add(f.stream("/Length1 4", string("\0\1\0\0", 4)))); unsigned df = f.add(cat("<</Type/Font/Subtype/CIDFontType", tt ? 2 : 0, "/BaseFont/Foreign/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>/FontDescriptor ", f.ref(f.add(descriptor + (tt ? "/FontFile2 " + ff : "") + ">>")), map, dw, ws.empty() && r.chance(1, 2) ? "" : "/W " + f.maybe("[" + ws + "]"), ">>")); font = "<</Type/Font/Subtype/Type0/BaseFont/Foreign/Encoding/Identity-H/DescendantFonts " + f.maybe("[" + f.ref(df) + "]") + ">>"; how += dw + " " + map + ws;
    }
    unsigned no = f.add(font), pages = f.alloc(), page = f.add(cat("<</Type/Page/Parent ", pages, " 0 R/MediaBox[0 0 100 100]/Resources<</Font<</F ", no, " 0 R>>>>>>")); f.objs[pages] = cat("<</Type/Pages/Kids[", page, " 0 R]/Count 1>>"); string file = f.file(f.add(cat("<</Type/Catalog/Pages ", pages, " 0 R>>"))); c.phase("loading " + how); auto d = loadDoc(file); auto l = d->GetFonts().GetLoadedFont(d->GetObjects().MustGetObject(PdfReference(no, 0))); c.require(l != nullptr, "foreign-font", how);
    PdfTextState st; st.Font = l; st.FontSize = 1 + r.below(30); st.FontScale = r.chance(1, 2) ? 1 : 0.5 + r.below(100) / 50.0; st.CharSpacing = r.chance(1, 2) ? 0 : r.below(30) / 10.0;
    for (unsigned n = 12; n; n--)
    {
        string b; double want = 0; bool known = true; for (unsigned q = (unsigned)r.below(8); q; q--) { unsigned code; if (!w.empty() && r.chance(2, 3)) { auto i = w.begin(); std::advance(i, r.below(w.size())); code = i->first; } else code = (unsigned)r.below(kind == 4 ? 65536 : 256); if (kind == 0 && !w.count(code)) continue; if (kind == 4) add16(b, code); else b += (char)code; if (kind == 3 && !w.count(code)) known = false; double x = w.count(code) ? w[code] : missing; want += (x * unit * st.FontSize + st.CharSpacing) * st.FontScale; }
        if (!known) continue; double got = l->GetStringLength(PdfString::FromRaw(bufferview(b.data(), b.size())), st); c.require(fabs(got - want) < 1e-6 * (1 + fabs(want)), "foreign-length", how + " <" + hex(b) + cat(">: ", got, " instead of ", want)); c.ev("foreign lengths compared");
    }
    if (gidMap) { auto m = l->GetMetrics().GetCIDToGIDMap(); c.require(m != nullptr && m->GetSize() == gids.size(), "glyph-map", how); for (auto& e : gids) { unsigned g; c.require(m->TryMapCIDToGID(e.first, g) && g == e.second, "glyph-map", how + cat(" CID ", e.first, " is glyph ", g, " instead of ", e.second)); } c.ev("glyph maps compared"); }
    c.ev(cat("foreign ", kinds[kind]).c_str()); c.state(cat("foreign ", kind, have, gidMap, missing != 0, w.size() / 16)); 
}
static void c24f(Ctx& c)
{
    auto& r = c.rng; PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); string how, data; vector<char32_t> chars; FT_Face face = nullptr; bool made = r.chance(3, 4);
    if (made) { data = makeFont(r, how, chars); int e = FT_New_Memory_Face(ftLib(), (const FT_Byte*)data.data(), (FT_Long)data.size(), 0, &face); c.require(e == 0 && FT_Select_Charmap(face, FT_ENCODING_UNICODE) == 0, "made-font", how); if (r.chance(1, 300) && !c.artefacts.empty()) spill(c.artefacts + cat("/", c.caseNo, ".ttf"), data); }
    else { unsigned i = (unsigned)r.below(3); data = src(i).data; FT_New_Memory_Face(ftLib(), (const FT_Byte*)data.data(), (FT_Long)data.size(), 0, &face); how = dejavuPaths[i] + 32; map<unsigned, int> seen; FT_UInt gi; FT_ULong cp = FT_Get_First_Char(face, &gi); map<unsigned, char32_t> uniq; while (gi) { if (cp > 31 && !seen[gi]++) uniq[gi] = (char32_t)cp; cp = FT_Get_Next_Char(face, cp, &gi); } for (auto& e : uniq) if (seen[e.first] == 1) chars.push_back(e.second); }
    std::shared_ptr<FT_FaceRec_> guard(face, FT_Done_Face); const unsigned upem = face->units_per_EM;
    PdfFontCreateParams p; static const unsigned fl[] = { 0, 0, 0, 2, 2, 4, 6 }; p.Flags = (PdfFontCreateFlags)fl[r.below(7)]; bool simple = r.chance(1, 3) || ((unsigned)p.Flags & 4); map<char32_t, string> code; how += cat(", flags ", (unsigned)p.Flags);
    vector<char32_t> win; if (simple) { p.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding(); for (auto ch : chars) if (ch < 127 || (ch > 160 && ch < 256)) win.push_back(ch); chars = win; how += ", WinAnsi"; } if (chars.empty()) return;
    c.phase("creating " + how); auto font = d.GetFonts().GetFont(face, p); c.require(font != nullptr, "font", how); unsigned no = font->GetObject().GetIndirectReference().ObjectNumber(); page.GetOrCreateResources().AddResource("Font", "F", font->GetObject());
    struct Use { string bytes; vector<char32_t> text; }; vector<Use> uses; PdfTextState st; st.Font = font; st.FontSize = 1 + r.below(30); st.FontScale = r.chance(1, 2) ? 1 : 0.5 + r.below(100) / 50.0; st.CharSpacing = r.chance(1, 2) ? 0 : r.below(30) / 10.0;
    auto raw = [&](char32_t ch) { FT_Load_Glyph(face, FT_Get_Char_Index(face, ch), FT_LOAD_NO_SCALE); return face->glyph->metrics.horiAdvance / (double)upem; }; auto length = [&](const vector<char32_t>& t) { double x = 0; for (auto ch : t) x += (raw(ch) * st.FontSize + st.CharSpacing) * st.FontScale; return x; };
    for (unsigned n = 1 + (unsigned)r.below(5); n; n--)
    {
        Use u; string text; for (unsigned q = (unsigned)r.below(r.chance(1, 6) ? 150 : 20); q; q--) { u.text.push_back(r.pick(chars)); appendUtf8(text, u.text.back()); } charbuff out; c.phase("encoding " + vis(text) + " with " + how); bool ok = font->GetEncoding().TryConvertToEncoded(text, out); c.require(ok, "encode", how + " " + vis(text)); u.bytes.assign(out.data(), out.size()); uses.push_back(u);
        double want = length(u.text), got = font->GetStringLength(std::string_view(text), st); c.require(fabs(got - want) < 1e-6 * (1 + want), "string-length", how + " " + vis(text) + cat(": ", got, " instead of ", want)); c.ev("string lengths compared");
        got = font->GetStringLength(PdfString::FromRaw(out), st); c.require(fabs(got - want) < 1e-6 * (1 + want), "encoded-length", how + " " + vis(text) + cat(": ", got, " instead of ", want)); string s; vector<double> ls; vector<unsigned> pos; ok = font->TryScanString(PdfString::FromRaw(out), st, s, ls, pos); c.require(ok && s == text && ls.size() == u.text.size(), "scan-string", how + " " + vis(text) + " scanned as " + vis(s)); for (size_t i = 0; i < ls.size(); i++) { double w = (raw(u.text[i]) * st.FontSize + st.CharSpacing) * st.FontScale; c.require(fabs(ls[i] - w) < 1e-6 * (1 + w), "scan-length", how + " " + vis(text) + cat(" at ", i, ": ", ls[i], " instead of ", w)); } c.ev("encoded lengths compared");
    }
    c.phase("saving " + how); string file = saveDoc(d, r); auto e = loadDoc(file); c.phase("checking " + how); auto& fo = e->GetObjects().MustGetObject(PdfReference(no, 0)); auto& fd = fo.GetDictionary(); string sub = fd.MustFindKey("Subtype").GetName().GetString(), base = fd.MustFindKey("BaseFont").GetName().GetString(); bool cid = sub == "Type0"; const PdfDictionary* df = &fd; map<string, unsigned> cids; bool identity = false; map<unsigned, double> w; double dw = 1000;
    if (cid)
    {
        df = &fd.MustFindKey("DescendantFonts").GetArray().FindAt(0)->GetDictionary(); c.require(df->MustFindKey("BaseFont").GetName() == base, "base-font", how); auto& en = fd.MustFindKey("Encoding"); if (en.IsName()) { identity = true; c.require(en.GetName() == "Identity-H", "encoding-name", how); } else cids = cidsOf(streamOf(en)); auto m = df->FindKey("CIDToGIDMap"); c.require(df->MustFindKey("Subtype").GetName() == "CIDFontType2" && m && m->IsName() && m->GetName() == "Identity", "cid-to-gid", how); w = widthsOf(c, *df, how); if (df->HasKey("DW")) dw = df->MustFindKey("DW").GetReal();
    }
    auto& desc = df->MustFindKey("FontDescriptor").GetDictionary(); c.require(desc.MustFindKey("FontName").GetName() == base, "font-name", how); const PdfObject* ff = desc.FindKey("FontFile2"); if (!ff) { ff = desc.FindKey("FontFile3"); c.require(ff && ff->GetDictionary().MustFindKey("Subtype").GetName() == "OpenType", "font-file", how); } string emb = streamOf(*ff); if (desc.HasKey("FontFile2")) c.require(ff->GetDictionary().MustFindKey("Length1").GetNumber() == (int64_t)emb.size(), "font-length", how);
    bool subset = base.size() > 7 && base[6] == '+'; for (int i = 0; subset && i < 6; i++) subset = base[i] >= 'A' && base[i] <= 'Z'; c.require(subset == (cid && !((unsigned)p.Flags & 2)), "subset-name", how + " is called " + base); if (!subset) c.require(emb == data, "embedded-whole", how);
    else
    {
        // the subset is a valid font file
        unsigned n = u16(emb, 4), ex = 0; while ((2u << ex) <= n) ex++; c.require(u32(emb, 0) == 0x00010000 && u16(emb, 6) == 16u << ex && u16(emb, 8) == ex && u16(emb, 10) == 16 * n - (16u << ex), "sfnt-directory", how + cat(": ", n, " tables, range ", u16(emb, 6), " selector ", u16(emb, 8), " shift ", u16(emb, 10))); for (unsigned i = 0; i < n; i++) { size_t o = 12 + 16 * i; c.require(u32(emb, o + 8) % 4 == 0 && u32(emb, o + 8) + (size_t)u32(emb, o + 12) <= emb.size(), "sfnt-table", how); string t = emb.substr(u32(emb, o + 8), u32(emb, o + 12)); if (emb.substr(o, 4) == "head") put32(t, 8, 0); c.require(checksum(t) == u32(emb, o + 4), "sfnt-checksum", how + " table " + emb.substr(o, 4)); c.ev("tables checked"); } c.require(checksum(emb) == 0xB1B0AFBA, "sfnt-sum", how); c.ev("subsets");
    }
    FT_Face ef; int rc = FT_New_Memory_Face(ftLib(), (const FT_Byte*)emb.data(), (FT_Long)emb.size(), 0, &ef); c.require(rc == 0, "embedded-font", how + cat(" cannot be opened: ", rc)); std::shared_ptr<FT_FaceRec_> g2(ef, FT_Done_Face); c.require(ef->units_per_EM == upem, "units", how);
    auto bb = desc.MustFindKey("FontBBox").GetArray(); FT_Pos box[] = { face->bbox.xMin, face->bbox.yMin, face->bbox.xMax, face->bbox.yMax }; for (int i = 0; i < 4; i++) c.require(fabs(bb.FindAt(i)->GetReal() - box[i] * 1000.0 / upem) <= 0.51, "bounding-box", how); c.require(fabs(desc.MustFindKey("Ascent").GetReal() - face->ascender * 1000.0 / upem) <= 0.51 && fabs(desc.MustFindKey("Descent").GetReal() - face->descender * 1000.0 / upem) <= 0.51, "ascent", how); if (made) { auto post = sfntTables(data)["post"]; int a = (int)(int32_t)u32(post, 4) / 65536; c.require(fabs(desc.MustFindKey("ItalicAngle").GetReal() - a) < 0.51, "italic-angle", how + cat(": ", desc.MustFindKey("ItalicAngle").GetReal(), " instead of ", a)); c.require(((desc.MustFindKey("Flags").GetNumber() & 1) != 0) == (u32(post, 12) != 0), "fixed-pitch", how); }
    set<unsigned> usedCids; string set1; if (auto cs = desc.FindKey("CIDSet")) set1 = streamOf(*cs);
    for (auto& u : uses)
    {
        size_t at = 0; double sum = 0; for (auto ch : u.text)
        {
            unsigned gid = FT_Get_Char_Index(face, ch), cidv = 0; double want = raw(ch) * 1000; if (cid) { size_t len = 2; if (!identity) { auto i = cids.find(u.bytes.substr(at, 1)); len = 1; if (i == cids.end()) { i = cids.find(u.bytes.substr(at, 2)); len = 2; } c.require(i != cids.end(), "code-without-cid", how + " " + hex(u.bytes) + cat(" at ", at)); cidv = i->second; } else cidv = u16(u.bytes, at); at += len; usedCids.insert(cidv); string why;
                c.require(sameGlyph(face, gid, ef, cidv, why, true), "glyph", how + cat(" U ", (unsigned)ch, " glyph ", gid, " became ", cidv, ": ") + why); double got = w.count(cidv) ? w[cidv] : dw; c.require(fabs(got - want) <= 0.51, "width", how + cat(" CID ", cidv, ": ", got, " instead of ", want)); c.ev("glyphs compared"); sum += got; if (subset) { c.require(cidv / 8 < set1.size() && (set1[cidv / 8] & (0x80 >> cidv % 8)), "cid-set", how + cat(" CID ", cidv)); c.require(cidv > 0, "cid-zero", how); } }
            else { unsigned code1 = (unsigned char)u.bytes.at(at++); auto& ws = fd.MustFindKey("Widths").GetArray(); unsigned first = (unsigned)fd.MustFindKey("FirstChar").GetNumber(), last = (unsigned)fd.MustFindKey("LastChar").GetNumber(); c.require(code1 >= first && code1 <= last && ws.size() == last - first + 1 && fabs(ws.FindAt(code1 - first)->GetReal() - want) <= 0.51, "simple-width", how + cat(" code ", code1, ": ", ws.FindAt(code1 - first)->GetReal(), " instead of ", want)); c.ev("simple widths compared"); }
        }
        c.require(at == u.bytes.size(), "encoded-size", how + " " + hex(u.bytes));
    }
    if (subset) { for (unsigned i = 0; i < 8 * set1.size(); i++) if (i > 1 && (set1[i / 8] & (0x80 >> i % 8))) c.require(usedCids.count(i), "cid-set-extra", how + cat(" CID ", i)); c.require(usedCids.empty() || (unsigned)ef->num_glyphs > *usedCids.rbegin(), "glyph-count", how); }
    auto l = e->GetFonts().GetLoadedFont(fo); c.require(l != nullptr, "loaded", how); st.Font = l; for (auto& u : uses) { double want = length(u.text), got = l->GetStringLength(PdfString::FromRaw(bufferview(u.bytes.data(), u.bytes.size())), st); c.require(fabs(got - want) <= 0.00051 * u.text.size() * st.FontSize * st.FontScale + 1e-9 * want, "loaded-length", how + " " + hex(u.bytes) + cat(": ", got, " instead of ", want)); c.ev("loaded lengths compared"); }
    c.ev(made ? "made fonts" : "system fonts"); if (how.find(" placed,") != string::npos && how.find(" 0 placed,") == string::npos) c.ev("fonts with placed components"); c.ev(cid ? "composite fonts" : "simple fonts"); c.state(cat(made, cid, subset, identity, " ", chars.size() / 10, " ", usedCids.size() / 8)); c.sample(how);
}
// C02: hostile font programs
static string damagedFont(Rng& r, string s)
{
    auto be16 = [&](size_t p) { return p + 2 <= s.size() ? ((unsigned)(unsigned char)s[p] << 8) | (unsigned char)s[p + 1] : 0u; }; auto be32 = [&](size_t p) { return (be16(p) << 16) | be16(p + 2); }; auto put16 = [&](size_t p, unsigned v) { if (p + 2 <= s.size()) { s[p] = (char)(v >> 8); s[p + 1] = (char)v; } };
    static const unsigned v16[] = { 0, 1, 2, 3, 255, 256, 32767, 32768, 65534, 65535 };
    for (unsigned k = 1 + (unsigned)r.below(5); k; k--)
    {
        unsigned n = be16(4); if (!n || s.size() < 12 + 16 * n || n > 60) { if (s.empty()) return s; s[r.below(s.size())] ^= (char)(1 << r.below(8)); continue; }
        size_t e = 12 + 16 * r.below(n); string tag = s.substr(e, 4); static const std::vector<string> hot{ "glyf", "loca", "head", "maxp", "hhea", "hmtx", "cmap", "OS/2", "post", "name" }; if (r.chance(2, 3)) { string want = r.pick(hot); for (unsigned i = 0; i < n; i++) if (s.compare(12 + 16 * i, 4, want) == 0) { e = 12 + 16 * i; tag = want; } }
        size_t off = be32(e + 8), len = be32(e + 12); unsigned m = (unsigned)r.below(10);
        if (m == 0) put16(e + 8 + 2 * r.below(4), v16[r.below(10)]); else if (m == 1) s[e + r.below(16)] ^= (char)(1 << r.below(8)); else if (m == 2 && r.chance(1, 3)) s.resize(off < s.size() ? off + r.below(s.size() - off) : r.below(s.size())); else if (m == 3) { unsigned l = (unsigned)r.below(len + 2); s[e + 12] = (char)(l >> 24); s[e + 13] = (char)(l >> 16); put16(e + 14, l); }
        else if (off < s.size() && len && off + len <= s.size()) { for (unsigned q = 1 + (unsigned)r.below(4); q; q--) { size_t at = off + (r.chance(1, 2) ? r.below(std::min<size_t>(len, 64)) : r.below(len)); if (r.chance(1, 2)) put16(at & ~(size_t)1, r.chance(1, 2) ? v16[r.below(10)] : (unsigned)r.below(200)); else s[at] = (char)r.next(); } }
        // compound glyphs that name themselves or one another
        if (tag == "glyf" && off < s.size() && len > 40 && r.chance(1, 2)) { size_t loca = 0; for (unsigned i = 0; i < n; i++) if (s.compare(12 + 16 * i, 4, "loca") == 0) loca = be32(12 + 16 * i + 8); bool lng = false; for (unsigned i = 0; i < n; i++) if (s.compare(12 + 16 * i, 4, "head") == 0) lng = be16(be32(12 + 16 * i + 8) + 50) != 0; for (unsigned q = 1 + (unsigned)r.below(4); q && loca; q--) { unsigned gi = (unsigned)r.below(40); size_t go = off + (lng ? be32(loca + 4 * gi) : 2 * be16(loca + 2 * gi)); if (go + 30 < s.size()) { put16(go, 0xffff); put16(go + 10, r.chance(1, 2) ? 0x0023 : 0x0003); put16(go + 12, (unsigned)r.below(40)); put16(go + 14, 0); put16(go + 16, 0); put16(go + 18, 0x0003); put16(go + 20, r.chance(1, 2) ? gi : (unsigned)r.below(70000)); } } }
    }
    return s;
}
static void hostileFonts(Ctx& c)
{
    auto& r = c.rng; string how; vector<char32_t> chars; c.phase("make"); string data; if (r.chance(5, 6)) data = makeFont(r, how, chars); else { data = src((unsigned)r.below(3)).data; for (char32_t x = 33; x < 127; x++) chars.push_back(x); } if (chars.empty()) chars.push_back(65); data = damagedFont(r, data); std::unique_ptr<char[]> exact(new char[data.size() + 1]); memcpy(exact.get(), data.data(), data.size());
    auto g = [&](const char* what, auto fn) { c.phase(what); try { fn(); c.ev(cat(what, " done").c_str()); return true; } catch (const PdfError& e) { (void)e.what(); c.ev(cat(what, " refused").c_str()); c.state(cat(what, " ", (int)e.GetError())); return false; } };
    PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); FT_Face face = nullptr; std::shared_ptr<FT_FaceRec_> guard; const PdfFont* font = nullptr; PdfFontCreateParams p; static const unsigned fl[] = { 0, 0, 0, 2, 4, 6 }; p.Flags = (PdfFontCreateFlags)fl[r.below(6)]; if (r.chance(1, 4)) p.Encoding = PdfEncodingFactory::CreateWinAnsiEncoding();
    if (r.chance(1, 4)) { g("font metrics", [&] { auto b = std::make_shared<charbuff>(); b->assign(data.data(), data.size()); auto m = PdfFontMetricsFreetype::FromBuffer(b); if (!m) return; (void)m->GetFontName(); (void)m->GetAscent(); (void)m->GetFontFileType(); c.ev("metrics made"); for (unsigned q = 0; q < 10; q++) { double w; unsigned gid; m->TryGetGlyphWidth((unsigned)r.below(100), w); m->TryGetGID(r.pick(chars), gid); } }); }
    if (FT_New_Memory_Face(ftLib(), (const FT_Byte*)exact.get(), (FT_Long)data.size(), 0, &face) != 0) { c.ev("faces refused"); return; } guard.reset(face, FT_Done_Face); c.ev("faces opened");
    if (!g("font created", [&] { font = d.GetFonts().GetFont(face, p); if (!font) c.ev("fonts not given"); }) || !font) return; PdfPainter painter; painter.SetCanvas(page);
    for (unsigned n = 1 + (unsigned)r.below(4); n; n--) { string t; for (unsigned q = 1 + (unsigned)r.below(30); q; q--) appendUtf8(t, r.pick(chars)); g("text drawn", [&] { painter.GetTextState().SetFont(*font, 10); painter.DrawText(t, 10, 10); }); PdfTextState st; st.Font = font; st.FontSize = 10; g("text measured", [&] { (void)font->GetStringLength(t, st); }); }
    g("canvas finished", [&] { painter.FinishDrawing(); }); g("font saved", [&] { charbuff b; StringStreamDevice dev(b); d.Save(dev); string out(b.data(), b.size()); c.ev("fonts saved"); auto e = loadDoc(out); Rng s(r.next()); for (auto o : e->GetObjects()) { (void)o->ToString(); if (o->HasStream()) (void)o->MustGetStream().GetCopy(); } });
}
int main(int argc, char** argv) { modes()["c24f"] = c24f; modes()["c24w"] = c24w; modes()["c24s"] = c24s; modes()["c02f"] = hostileFonts; return mon::main(argc, argv, nullptr); }
