// C23: character code maps, character map streams, code tables, differences, glyph names and the encodings of fonts
#include "mon.h"
#include "model.h"
#include "raw.h"
#include "enctables.h"
#include <fstream>
#include <ft2build.h>
#include FT_FREETYPE_H
using namespace mm; using namespace mon; using std::string; using std::vector; using std::map; using std::set; using std::u32string;

typedef vector<char32_t> Cps;
static string toUtf8(const Cps& v) { string s; for (auto c : v) appendUtf8(s, c); return s; }
static string showCps(const Cps& v) { string s; for (auto c : v) { char b[16]; snprintf(b, 16, "%sU+%04X", s.empty() ? "" : " ", (unsigned)c); s += b; } return s.empty() ? "nothing" : s; }
static string codeBytes(unsigned code, unsigned size) { string s; for (unsigned i = size; i-- > 0; ) s += (char)(code >> 8 * i); return s; }
typedef std::pair<unsigned, unsigned> Code;   // size, value
typedef map<Code, Cps> CodeModel;
static string showCode(const Code& c) { return "<" + hex(codeBytes(c.second, c.first)) + ">"; }
static Cps randomCps(Rng& r, bool lig)
{
    Cps v; for (unsigned n = lig && r.chance(1, 3) ? 2 + (unsigned)r.below(3) : 1; n; n--)
    {
        static const vector<char32_t> pool{ 'f', 'i', 'l', 't', 'a' }; char32_t c = r.chance(1, 2) ? r.pick(pool) : r.chance(1, 4) ? 0x10000 + (char32_t)r.below(0x100000) : 1 + (char32_t)r.below(0xFFFF);
        if (c >= 0xD800 && c < 0xE000) c = 0xFFFD; v.push_back(c);
    }
    return v;
}
// longest sequence of the model the text begins with
struct Greedy { map<Cps, set<Code>> rev; size_t longest = 0; explicit Greedy(const CodeModel& m) { for (auto& e : m) { rev[e.second].insert(e.first); longest = std::max(longest, e.second.size()); } }
    const set<Code>* next(const Cps& t, size_t at, size_t& len) const { for (len = std::min(longest, t.size() - at); len; len--) { auto i = rev.find(Cps(t.begin() + at, t.begin() + at + len)); if (i != rev.end()) return &i->second; } return nullptr; } };
static Cps textOf(Rng& r, const CodeModel& m, unsigned n) { Cps t; for (; n; n--) { if (m.empty() || r.chance(1, 8)) { auto x = randomCps(r, false); t.insert(t.end(), x.begin(), x.end()); } else { auto i = m.begin(); std::advance(i, r.below(m.size())); size_t k = r.chance(1, 5) ? 1 + r.below(i->second.size()) : i->second.size(); t.insert(t.end(), i->second.begin(), i->second.begin() + k); } } return t; }

static void checkCharMap(Ctx& c, const PdfCharCodeMap& map, const CodeModel& m, const string& how)
{
    auto& r = c.rng; c.require(map.GetSize() == m.size(), "map-size", how + cat(": ", map.GetSize(), " instead of ", m.size()));
    size_t n = 0; for (auto& e : map) { auto i = m.find({ e.first.CodeSpaceSize, e.first.Code }); c.require(i != m.end() && i->second == e.second, "map-entries", how); n++; } c.require(n == m.size(), "map-entries", how);
    for (auto& e : m) { Cps v; c.require(map.TryGetCodePoints(PdfCharCode(e.first.second, (unsigned char)e.first.first), v) && v == e.second, "map-codepoints", how + " " + showCode(e.first) + " gives " + showCps(v) + " instead of " + showCps(e.second)); c.ev("codes looked up"); }
    for (int k = 0; k < 10; k++) { Code q{ 1 + r.below(4), (unsigned)r.below(300) }; if (m.count(q)) continue; Cps v; c.require(!map.TryGetCodePoints(PdfCharCode(q.second, (unsigned char)q.first), v), "map-codepoints-absent", how + " " + showCode(q)); c.ev("absent codes looked up"); }
    Greedy g(m); for (auto& e : g.rev)
    {
        PdfCharCode code; bool ok = map.TryGetCharCode(codepointview(e.first.data(), e.first.size()), code); c.require(ok && e.second.count({ code.CodeSpaceSize, code.Code }), "map-code", how + " " + showCps(e.first)); if (e.first.size() == 1) { ok = map.TryGetCharCode(e.first[0], code); c.require(ok && e.second.count({ code.CodeSpaceSize, code.Code }), "map-code-single", how + " " + showCps(e.first)); }
        for (size_t k = 1; k < e.first.size(); k++) { Cps p(e.first.begin(), e.first.begin() + k); if (g.rev.count(p)) continue; c.require(!map.TryGetCharCode(codepointview(p.data(), p.size()), code), "map-code-absent", how + " prefix " + showCps(p)); if (k == 1) c.require(!map.TryGetCharCode(p[0], code), "map-code-absent", how + " single " + showCps(p)); c.ev("prefixes of ligatures looked up"); }
        c.ev("sequences looked up");
    }
    for (int k = 0; k < 4; k++)
    {
        Cps t = textOf(r, m, 1 + (unsigned)r.below(10)); string s = toUtf8(t); std::string_view v(s); auto it = v.begin(), end = v.end(); size_t at = 0;
        while (it != end)
        {
            PdfCharCode code; auto before = it; bool ok = map.TryGetNextCharCode(it, end, code); size_t len; auto want = g.next(t, at, len); if (!want) len = 1; size_t bytes = toUtf8(Cps(t.begin() + at, t.begin() + at + len)).size();
            c.require(ok == (want != nullptr), "map-next", how + " in " + showCps(t) + cat(" at ", at)); if (ok) c.require(want->count({ code.CodeSpaceSize, code.Code }), "map-next-code", how + " in " + showCps(t) + cat(" at ", at) + " gives " + showCode({ code.CodeSpaceSize, code.Code }));
            c.require((size_t)(it - before) == bytes, "map-next-consumed", how + " in " + showCps(t) + cat(" at ", at)); at += len; c.ev("text steps compared");
        }
    }
}
static void c23m(Ctx& c)
{
    auto& r = c.rng; PdfCharCodeMap map; CodeModel m; unsigned n = (unsigned)r.below(r.chance(1, 4) ? 400 : 30); unsigned span = r.chance(1, 2) ? 40 : 70000; string how = cat(n, " mappings");
    for (unsigned i = 0; i < n; i++)
    {
        unsigned size = 1 + (unsigned)r.below(4), code = (unsigned)r.below(std::min<uint64_t>(span, 1ull << 8 * size)); if (r.chance(1, 20)) code = (unsigned)((1ull << 8 * size) - 1); Cps v = randomCps(r, true);
        if (v.size() == 1 && r.chance(1, 2)) map.PushMapping(PdfCharCode(code, (unsigned char)size), v[0]); else map.PushMapping(PdfCharCode(code, (unsigned char)size), codepointview(v.data(), v.size()));
        m[{ size, code }] = v; c.ev("mappings pushed"); if (r.chance(1, 40)) checkCharMap(c, map, m, how + cat(" after ", i + 1));
        if (r.chance(1, 60)) { PdfCharCodeMap other(std::move(map)); checkCharMap(c, other, m, how + " moved"); map = std::move(other); c.ev("maps moved"); }
    }
    checkCharMap(c, map, m, how); auto& l = map.GetLimits(); if (m.empty()) c.require(!l.AreValid(), "map-limits", "empty");
    else { unsigned mn = 9, mx = 0, lo = ~0u, hi = 0; for (auto& e : m) { mn = std::min(mn, e.first.first); mx = std::max(mx, e.first.first); lo = std::min(lo, e.first.second); hi = std::max(hi, e.first.second); } c.require(l.MinCodeSize == mn && l.MaxCodeSize == mx && l.FirstChar.Code == lo && l.LastChar.Code == hi, "map-limits", how); }
    c.state(cat("map ", std::min<size_t>(m.size(), 20), " ", m.empty() ? 0 : m.begin()->first.first, " ", m.empty() ? 0 : m.rbegin()->first.first)); c.sample(how);
}

// Writes a character map in the ways other producers do
struct CMapText
{
    Rng& r; string s; explicit CMapText(Rng& rng) : r(rng) { }
    string ws() { switch (r.below(8)) { case 0: return "\n"; case 1: return "\r\n"; case 2: return "\t "; case 3: return "  "; case 4: return r.chance(1, 4) ? " % comment <00> [ endbfchar\n" : " "; default: return " "; } }
    string gap() { return r.chance(1, 4) ? "" : ws(); }
    string hexs(const string& b) { string h = hex(b), o = "<"; bool low = r.chance(1, 3), sp = r.chance(1, 10); for (size_t i = 0; i < h.size(); i++) { o += low ? (char)tolower(h[i]) : (char)toupper(h[i]); if (sp && r.chance(1, 4)) o += r.chance(1, 2) ? " " : "\n"; } return o + ">"; }
    string code(const Code& c) { return hexs(codeBytes(c.second, c.first)); }
    string dst(const Cps& v) { return hexs(utf16be(v)); }
    unsigned count(unsigned n) { return r.chance(1, 8) ? (unsigned)r.below(200) : n; }
};
// runs of codes mapped to runs of characters
struct Run { Code first; unsigned n; vector<Cps> dst; bool consecutive; };
static vector<Run> randomRuns(Rng& r, bool cid, string& spaces, CMapText& w, unsigned& maxSize)
{
    struct Space { unsigned size, lo, hi; }; vector<Space> sp; switch (r.below(6)) { case 0: sp = { { 1, 0, 0xFF } }; break; case 1: sp = { { 2, 0, 0xFFFF } }; break; case 2: sp = { { 1, 0, 0x7F }, { 2, 0x8140, 0xFEFE } }; break; case 3: sp = { { 1, 0, 0x1F }, { 2, 0x8000, 0x9FFF }, { 3, 0xA00000, 0xFFFFFF } }; break; case 4: sp = { { 4, 0, 0xFFFFFFFF } }; break; default: sp = { { 2, 0, 0x0FFF }, { 3, 0x100000, 0x10FFFF } }; }
    maxSize = 0; spaces = ""; unsigned n = 0; for (auto& x : sp) { spaces += w.code({ x.size, x.lo }) + w.gap() + w.code({ x.size, x.hi }) + w.ws(); n++; maxSize = std::max(maxSize, x.size); } spaces = cat(w.count(n)) + " begincodespacerange" + w.ws() + spaces + "endcodespacerange" + w.ws();
    vector<Run> runs; set<Code> used; for (unsigned k = 1 + (unsigned)r.below(r.chance(1, 5) ? 60 : 8); k; k--)
    {
        auto& x = sp[r.below(sp.size())]; Run u; uint64_t room = (uint64_t)x.hi - x.lo + 1; unsigned lo = x.lo + (unsigned)r.below(r.chance(1, 2) ? std::min<uint64_t>(room, 600) : room); u.n = r.chance(1, 2) ? 1 : 1 + (unsigned)r.below(40); u.n = std::min(u.n, std::min(256 - (lo & 0xFF), (unsigned)std::min<uint64_t>((uint64_t)x.hi - lo + 1, 256))); u.first = { x.size, lo };
        bool clash = false; for (unsigned i = 0; i < u.n; i++) if (used.count({ x.size, lo + i })) clash = true; if (clash) continue; for (unsigned i = 0; i < u.n; i++) used.insert({ x.size, lo + i });
        u.consecutive = u.n > 1 && r.chance(2, 3);
        if (cid) { unsigned c0 = (unsigned)r.below(60000); for (unsigned i = 0; i < u.n; i++) u.dst.push_back({ (char32_t)(u.consecutive ? c0 + i : r.below(65000)) }); }
        else if (u.consecutive) { Cps b = randomCps(r, true); char32_t l = r.chance(1, 3) ? lo & 0xFFFF : b.back(); l = (l & ~(char32_t)0xFF) | std::min<char32_t>(l & 0xFF, 256 - u.n); if (l >= 0xD800 && l < 0xE000) l -= 0x1000; if (l == 0 ) l = 0x100; for (unsigned i = 0; i < u.n; i++) { b.back() = l + i; u.dst.push_back(b); } }
        else for (unsigned i = 0; i < u.n; i++) u.dst.push_back(randomCps(r, true));
        runs.push_back(u);
    }
    return runs;
}
static string cmapStream(Rng& r, const vector<Run>& runs, bool cid, const string& spaces, CMapText& w)
{
    string s; if (r.chance(2, 3)) s = "/CIDInit /ProcSet findresource begin\n12 dict begin" + w.ws() + "begincmap" + w.ws() + "/CIDSystemInfo <</Registry (Adobe)/Ordering (U\\)CS)/Supplement 0>> def\n/CMapName /Adobe-Identity-UCS def /CMapType 2 def\n"; if (r.chance(1, 4)) s = "%!PS-Adobe-3.0 Resource-CMap\n%%Title: (x)\n" + s; s += spaces;
    vector<string> chars, ranges; auto flush = [&](vector<string>& v, const char* what) { if (v.empty()) return; s += cat(w.count((unsigned)v.size())) + w.ws() + "begin" + what + w.ws(); for (auto& x : v) s += x + w.ws(); s += string("end") + what + w.ws(); v.clear(); };
    const char *nc = cid ? "cidchar" : "bfchar", *nr = cid ? "cidrange" : "bfrange";
    for (auto& u : runs)
    {
        Code last{ u.first.first, u.first.second + u.n - 1 };
        if ((u.n == 1 && r.chance(3, 4)) || (!u.consecutive && (cid || r.chance(1, 2)))) for (unsigned i = 0; i < u.n; i++) chars.push_back(w.code({ u.first.first, u.first.second + i }) + (cid ? " " + cat((unsigned)u.dst[i][0]) : w.gap() + w.dst(u.dst[i])));
        else if (cid) ranges.push_back(w.code(u.first) + w.gap() + w.code(last) + " " + cat((unsigned)u.dst[0][0]));
        else if (u.consecutive && r.chance(2, 3)) ranges.push_back(w.code(u.first) + w.gap() + w.code(last) + w.gap() + w.dst(u.dst[0]));
        else { string x = w.code(u.first) + w.gap() + w.code(last) + w.gap() + "["; for (auto& d : u.dst) x += w.gap() + w.dst(d); ranges.push_back(x + w.gap() + "]"); }
        if (r.chance(1, 6)) flush(chars, nc); if (r.chance(1, 6)) flush(ranges, nr);
    }
    if (r.chance(1, 2)) { flush(chars, nc); flush(ranges, nr); } else { flush(ranges, nr); flush(chars, nc); }
    if (r.chance(2, 3)) s += "endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend"; return s;
}
static void checkMap(Ctx& c, const PdfEncodingMap& map, const CodeModel& m, const string& how, bool text_)
{
    auto& r = c.rng; for (auto& e : m) { Cps v; c.require(map.TryGetCodePoints(PdfCharCode(e.first.second, (unsigned char)e.first.first), v) && v == e.second, "cmap-codepoints", how + " " + showCode(e.first) + " gives " + showCps(v) + " instead of " + showCps(e.second)); c.ev("codes looked up"); }
    auto next = [&](const Code& q, bool mapped) { string b = codeBytes(q.second, q.first); if (b.size() < 4) b += "\xFF"; std::string_view v(b); auto it = v.begin(); Cps got; bool ok = map.TryGetNextCodePoints(it, v.end(), got); if (mapped) { c.require(ok && got == m.at(q) && (size_t)(it - v.begin()) == q.first, "cmap-next", how + " " + showCode(q) + " gives " + showCps(got)); } else if (ok) c.require((size_t)(it - v.begin()) != q.first, "cmap-unmapped", how + " " + showCode(q) + " gives " + showCps(got)); };
    for (auto& e : m) { next(e.first, true); for (int d : { -1, 1 }) { Code q{ e.first.first, e.first.second + d }; if (q.first < 4) q.second &= (1u << 8 * q.first) - 1; if (!m.count(q)) { next(q, false); c.ev("unmapped codes read"); } } }
    string bytes; Cps text; unsigned n = (unsigned)r.below(30); vector<Cps> steps; for (unsigned i = 0; i < n; i++) { auto k = m.begin(); std::advance(k, r.below(m.size())); bytes += codeBytes(k->first.second, k->first.first); text.insert(text.end(), k->second.begin(), k->second.end()); steps.push_back(k->second); }
    std::string_view v(bytes); auto it = v.begin(); for (auto& st : steps) { Cps got; bool ok = map.TryGetNextCodePoints(it, v.end(), got); c.require(ok && got == st, "cmap-sequence", how + " " + hex(bytes) + cat(" at ", it - v.begin()) + ": " + showCps(got) + " instead of " + showCps(st)); c.ev("encoded steps compared"); } c.require(it == v.end(), "cmap-sequence", how);
    Greedy g(m); for (auto& e : g.rev) { PdfCharCode code; bool ok = map.TryGetCharCode(unicodeview(e.first.data(), e.first.size()), code); c.require(ok && e.second.count({ code.CodeSpaceSize, code.Code }), "cmap-code", how + " " + showCps(e.first)); c.ev("sequences looked up"); }
    if (!text_) return; Cps t = textOf(r, m, 1 + (unsigned)r.below(12)); string s = toUtf8(t); std::string_view tv(s); auto ti = tv.begin(); size_t at = 0;
    while (at < t.size()) { PdfCharCode code; auto before = ti; bool ok = map.TryGetNextCharCode(ti, tv.end(), code); size_t len; auto want = g.next(t, at, len); c.require(ok == (want != nullptr), "cmap-next-code", how + " in " + showCps(t) + cat(" at ", at)); if (!ok) break; c.require(want->count({ code.CodeSpaceSize, code.Code }) && (size_t)(ti - before) == toUtf8(Cps(t.begin() + at, t.begin() + at + len)).size(), "cmap-next-code", how + " in " + showCps(t) + cat(" at ", at)); at += len; c.ev("text steps compared"); }
}
static void c23c(Ctx& c)
{
    auto& r = c.rng; bool cid = r.chance(1, 4); CMapText w(r); string spaces; unsigned maxSize; auto runs = randomRuns(r, cid, spaces, w, maxSize); if (r.chance(1, 8)) spaces = ""; if (runs.empty()) return; string s = cmapStream(r, runs, cid, spaces, w);
    CodeModel m; for (auto& u : runs) for (unsigned i = 0; i < u.n; i++) m[{ u.first.first, u.first.second + i }] = u.dst[i];
    PdfMemDocument d; auto& obj = d.GetObjects().CreateDictionaryObject(); obj.GetOrCreateStream().SetData(bufferview(s.data(), s.size())); c.phase("reading " + vis(s).substr(0, 4000));
    auto map = PdfCMapEncoding::CreateFromObject(obj); checkMap(c, *map, m, vis(s).substr(0, 3000), !cid); auto& l = map->GetLimits(); unsigned mx = 0; for (auto& e : m) mx = std::max(mx, e.first.first); c.require(spaces.empty() ? l.MaxCodeSize == mx : l.MaxCodeSize == maxSize, "cmap-limits", cat(l.MinCodeSize, " ", l.MaxCodeSize, " ", mx, " ", maxSize, " ") + vis(s).substr(0, 2000));
    c.ev(cid ? "CID maps" : "Unicode maps"); if (runs.size() > 1) c.ev("maps of several runs"); for (auto& u : runs) { if (u.consecutive) c.ev("consecutive runs"); if (u.dst[0].size() > 1) c.ev("runs with ligatures"); }
    // as the text map of a font without further information
    if (!cid)
    {
        std::shared_ptr<PdfEncodingMap> sm(std::move(map)); PdfEncoding enc(std::make_shared<PdfIdentityEncoding>((unsigned char)mx), sm); string bytes; Cps text; for (unsigned n = (unsigned)r.below(20); n; n--) { auto k = m.begin(); std::advance(k, r.below(m.size())); bytes += codeBytes(k->first.second, k->first.first); text.insert(text.end(), k->second.begin(), k->second.end()); }
        string got; bool ok = enc.TryConvertToUtf8(PdfString::FromRaw(bufferview(bytes.data(), bytes.size())), got); c.require(ok && got == toUtf8(text), "cmap-convert", vis(s).substr(0, 2000) + " " + hex(bytes) + " gives " + vis(got)); c.ev("strings converted");
    }
    c.state(cat("cmap ", cid, " ", maxSize, " ", std::min<size_t>(runs.size(), 9), " ", runs[0].consecutive, runs[0].dst[0].size())); c.sample(vis(s).substr(0, 300));
}

// Code tables and differences
struct Base { const char* name; const char32_t* table; PdfEncodingMapConstPtr(*get)(); };
static const Base bases[] = { { "WinAnsiEncoding", tblWinAnsi, PdfEncodingMapFactory::WinAnsiEncodingInstance }, { "MacRomanEncoding", tblMacRoman, PdfEncodingMapFactory::MacRomanEncodingInstance }, { "MacExpertEncoding", tblMacExpert, PdfEncodingMapFactory::MacExpertEncodingInstance }, { "StandardEncoding", tblStandard, [] { return PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::Helvetica); } }, { "Symbol", tblSymbol, [] { return PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::Symbol); } }, { "ZapfDingbats", tblZapfDingbats, [] { return PdfEncodingMapFactory::GetStandard14FontEncodingMap(PdfStandard14FontType::ZapfDingbats); } } };
static const std::pair<const char*, char32_t> glyphs[] = { { "A", 'A' }, { "zero", '0' }, { "space", ' ' }, { "quotesingle", '\'' }, { "Euro", 0x20AC }, { "bullet", 0x2022 }, { "Aogonek", 0x104 }, { "alpha", 0x3B1 }, { "beta", 0x3B2 }, { "afii10017", 0x410 }, { "ydieresis", 0xFF }, { "germandbls", 0xDF }, { "fi", 0xFB01 }, { "ffi", 0xFB03 }, { "infinity", 0x221E }, { "uni20AC", 0x20AC }, { "uni0416", 0x416 }, { "uni4E2D", 0x4E2D }, { "u1F600", 0x1F600 }, { "u4E2D", 0x4E2D }, { "u10FFFD", 0x10FFFD }, { "uniFB01", 0xFB01 }, { "Lslash", 0x141 }, { "dotlessi", 0x131 }, { "florin", 0x192 }, { "onesuperior", 0xB9 }, { "hyphen", '-' }, { "emdash", 0x2014 }, { "udieresis", 0xFC }, { "umacron", 0x16B }, { "universal", 0x2200 }, { "union", 0x222A }, { "unknownglyphname", 0 }, { "unicorn", 0 }, { "uvwxyz", 0 }, { ".notdef", 0 } };
static void checkOneByte(Ctx& c, const PdfEncodingMap& map, const vector<char32_t>& table, const string& how)
{
    map.GetLimits(); std::map<char32_t, set<unsigned>> rev; for (unsigned i = 0; i < 256; i++) rev[table[i]].insert(i);
    for (unsigned i = 0; i < 256; i++)
    {
        Cps v; bool ok = map.TryGetCodePoints(PdfCharCode(i, 1), v); char32_t got = ok && v.size() == 1 ? v[0] : ok && v.size() > 1 ? 0xFFFFFFFF : 0; c.require(got == table[i], "table", how + cat(" code ", i) + " gives " + showCps(v) + " instead of " + showCps({ table[i] }));
        if (table[i]) { PdfCharCode code; c.require(map.TryGetCharCode(table[i], code) && code.CodeSpaceSize == 1 && rev[table[i]].count(code.Code), "table-reverse", how + " " + showCps({ table[i] }) + cat(" gives ", code.Code)); } c.ev("table codes compared");
    }
    for (int k = 0; k < 200; k++) { char32_t cp = k < 100 ? 1 + (char32_t)c.rng.below(0x2700) : 1 + (char32_t)c.rng.below(0x10FFFF); if (rev.count(cp)) continue; PdfCharCode code; c.require(!map.TryGetCharCode(cp, code), "table-foreign", how + " " + showCps({ cp }) + cat(" gives ", code.Code)); c.ev("foreign characters refused"); }
    PdfCharCode code; Cps v; c.require(!map.TryGetCodePoints(PdfCharCode(256 + (unsigned)c.rng.below(70000), 2), v), "table-long-code", how);
}
static PdfFont* loadedFont(PdfMemDocument& d, PdfReference ref) { auto& o = d.GetObjects().MustGetObject(ref); return d.GetFonts().GetLoadedFont(o); }
static void c23d(Ctx& c)
{
    auto& r = c.rng; auto& b = bases[r.below(6)]; vector<char32_t> table(b.table, b.table + 256); checkOneByte(c, *b.get(), table, b.name); c.ev("code tables compared");
    // differences set one by one
    PdfDifferenceList dl; std::map<unsigned, std::pair<string, char32_t>> diff; string how = b.name; bool unknown = false;
    for (unsigned n = (unsigned)r.below(20); n; n--)
    {
        unsigned code = (unsigned)r.below(r.chance(1, 2) ? 30 : 256); if (r.chance(1, 3)) code = 65 + (unsigned)r.below(10);
        if (r.chance(1, 2)) { auto& g = glyphs[r.below(std::size(glyphs))]; dl.AddDifference((unsigned char)code, PdfName(g.first), false); diff[code] = { g.first, g.second }; if (!g.second) unknown = true; }
        else { char32_t cp = r.chance(1, 2) ? 0x20 + (char32_t)r.below(0x60) : 0xA1 + (char32_t)r.below(0x500); static const vector<char32_t> more{ 0x1F600, 0x10FFFD, 0x4E2D, 0x20AC, 0xE000, 0x2126 }; if (r.chance(1, 5)) cp = r.pick(more); if (PdfDifferenceEncoding::NameToCodePoint(PdfDifferenceEncoding::CodePointToName(cp)) != cp) cp = 'A'; dl.AddDifference((unsigned char)code, cp); diff[code] = { "", cp }; }
        table[code] = diff[code].second; how += cat(" ", code, ":", (unsigned)table[code]);
    }
    c.require(dl.GetCount() == diff.size(), "difference-count", how); for (auto& e : diff) { const PdfName* n; char32_t cp; c.require(dl.TryGetMappedName((unsigned char)e.first, n, cp) && cp == e.second.second && (e.second.first.empty() || n->GetString() == e.second.first), "difference", how); }
    auto map = std::make_shared<PdfDifferenceEncoding>(dl, b.get()); checkOneByte(c, *map, table, how); c.ev("difference encodings compared");
    // as stored in a document by the library or by another producer, on a standard font
    bool sym = b.table == tblSymbol || b.table == tblZapfDingbats; PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); string file; unsigned fontNo = 0;
    std::map<char32_t, set<unsigned>> rev; for (unsigned i = 0; i < 256; i++) if (table[i]) rev[table[i]].insert(i);
    if (r.chance(1, 2))
    {
        RawPdf p(r); string arr; int prev = -2; for (auto& e : diff) { string nm = e.second.first; if (nm.empty()) nm = PdfDifferenceEncoding::CodePointToName(e.second.second).GetString(); if ((int)e.first != prev + 1 || r.chance(1, 4)) arr += cat(" ", e.first); arr += r.chance(1, 2) ? "/" : " /"; arr += nm; prev = (int)e.first; }
        string base = sym || (b.table == tblStandard) ? "" : string("/BaseEncoding/") + b.name; const char* bf = b.table == tblSymbol ? "Symbol" : sym ? "ZapfDingbats" : "Helvetica"; if (r.chance(1, 6)) arr = " 300" + arr.substr(0, 0) + arr, arr = arr.substr(4); string enc = "<</Type/Encoding" + base + "/Differences[" + arr + "]>>";
        if (diff.empty() && !base.empty() && r.chance(1, 2)) enc = string("/") + b.name; unsigned f = p.add("<</Type/Font/Subtype/Type1/BaseFont/" + string(bf) + "/Encoding " + p.maybe(enc, 1, 2) + ">>"); fontNo = f; unsigned pages = p.alloc(), pg = p.add("<</Type/Page/Parent " + p.ref(pages) + "/MediaBox[0 0 9 9]/Resources<</Font<</F " + p.ref(f) + ">>>>>>"); p.objs[pages] = "<</Type/Pages/Count 1/Kids[" + p.ref(pg) + "]>>"; unsigned cat0 = p.add("<</Type/Catalog/Pages " + p.ref(pages) + ">>"); file = p.file(cat0); c.ev("differences of other producers");
    }
    else if (!sym)
    {
        PdfFontCreateParams fp; fp.Encoding = PdfEncoding(map); fp.Flags = PdfFontCreateFlags::DontEmbed | PdfFontCreateFlags::PreferNonCID; auto font = d.GetFonts().GetStandard14Font(PdfStandard14FontType::Helvetica, fp); c.require(font != nullptr, "font", how); page.GetOrCreateResources().AddResource("Font", "F", font->GetObject()); string text; bool enc = true; if (unknown) { }
        bool own = r.chance(2, 3); for (unsigned i = 0; i < 10; i++) { char32_t cp = (own || r.chance(3, 4)) && !rev.empty() ? std::next(rev.begin(), r.below(rev.size()))->first : 1 + (char32_t)r.below(0x500); appendUtf8(text, cp); if (!rev.count(cp)) enc = false; }
        charbuff out; bool ok = font->GetEncoding().TryConvertToEncoded(text, out); if (!enc) { c.require(!ok, "font-foreign", how + " " + vis(text)); c.ev("foreign texts refused"); }
        else if (ok) { string back; bool full = font->GetEncoding().TryConvertToUtf8(PdfString::FromRaw(out), back); c.require(full && back == text, "font-round-trip", how + " " + vis(text) + " returns as " + vis(back)); c.ev("font texts converted"); }
        fontNo = font->GetObject().GetIndirectReference().ObjectNumber(); file = saveDoc(d, r); c.ev("encodings saved"); if (!c.artefacts.empty()) spill(c.artefacts + cat("/enc", c.caseNo, ".pdf"), file);
    }
    if (!file.empty())
    {
        auto e = loadDoc(file); auto font = loadedFont(*e, PdfReference(fontNo, 0)); c.require(font != nullptr, "font-loaded", how); auto& enc = font->GetEncoding(); string bytes, want; bool complete = true;
        for (unsigned k = 0; k < 30; k++) { unsigned code = (unsigned)r.below(256); bytes += (char)code; if (table[code]) appendUtf8(want, table[code]); else complete = false; } string got; bool ok = enc.TryConvertToUtf8(PdfString::FromRaw(bufferview(bytes.data(), bytes.size())), got); c.require(got == want && (ok || !complete), "font-decode", how + " " + hex(bytes) + " gives " + vis(got) + " instead of " + vis(want)); c.ev("loaded encodings compared");
        vector<char32_t> cps; for (auto& x : rev) cps.push_back(x.first); string text; string expect; if (!cps.empty()) for (unsigned k = 0; k < 10; k++) appendUtf8(text, r.pick(cps)); charbuff out; ok = enc.TryConvertToEncoded(text, out); string back; if (ok) back = enc.ConvertToUtf8(PdfString::FromRaw(out)); c.require(ok && back == text, "font-loaded-round-trip", how + " " + vis(text) + " returns as " + vis(back)); c.ev("loaded encodings round trip");
        char32_t f = 0x530 + (char32_t)r.below(0x500); if (!rev.count(f)) { string s; appendUtf8(s, f); c.require(!enc.TryConvertToEncoded(s, out), "font-loaded-foreign", how + " " + vis(s)); c.ev("foreign texts refused"); }
    }
    c.state(cat(b.name, " ", std::min<size_t>(diff.size(), 12), " ", unknown, " ", file.empty())); c.sample(how);
}

// Glyph names against the list the font engine has: a Type 1 font with one glyph for each name
static string encrypt(const string& s, unsigned short key, unsigned skip) { string o, in = string(skip, 'x') + s; for (unsigned char ch : in) { unsigned char e = (unsigned char)(ch ^ (key >> 8)); key = (unsigned short)(((unsigned)e + key) * 52845u + 22719u); o += (char)e; } return o; }
static string type1(const vector<string>& names)
{
    string cs = encrypt(string("\x8b\xf8\x88\x0d\x0e", 5), 4330, 4), priv = "dup /Private 8 dict dup begin\n/RD {string currentfile exch readstring pop} executeonly def\n/ND {noaccess def} executeonly def\n/NP {noaccess put} executeonly def\n/BlueValues [] def\n/MinFeature {16 16} def\n/password 5839 def\n/lenIV 4 def\n2 index /CharStrings " + cat(names.size() + 1) + " dict dup begin\n";
    auto add = [&](const string& n) { priv += "/" + n + cat(" ", cs.size()) + " RD " + cs + " ND\n"; }; add(".notdef"); for (auto& n : names) add(n);
    priv += "end\nend\nreadonly put\nnoaccess put\ndup /FontName get exch definefont pop\nmark currentfile closefile\n";
    return "%!PS-AdobeFont-1.0: Mon 1.0\n11 dict begin\n/FontInfo 2 dict dup begin\n/FullName (Mon) readonly def\nend readonly def\n/FontName /Mon def\n/PaintType 0 def\n/FontType 1 def\n/FontMatrix [0.001 0 0 0.001 0 0] readonly def\n/Encoding StandardEncoding def\n/FontBBox {0 0 1000 1000} readonly def\ncurrentdict end\ncurrentfile eexec\n" + encrypt(priv, 55665, 4) + "\n" + string(512, '0') + "\ncleartomark\n";
}
static void c23n(Ctx& c)
{
    auto& r = c.rng; vector<string> names; vector<char32_t> cps; set<string> seen; unsigned blocks = 64, k = (unsigned)(c.caseNo % blocks);
    auto add = [&](char32_t cp) { string n = PdfDifferenceEncoding::CodePointToName(cp).GetString(); c.require(!n.empty(), "name-empty", showCps({ cp })); char32_t back = PdfDifferenceEncoding::NameToCodePoint(std::string_view(n)); c.ev("characters named"); if (back == cp) c.ev("names returning the character"); if (seen.insert(n).second) { names.push_back(n); cps.push_back(back); } if (back != cp && !(cp >= 0xE000 && cp < 0xF900) && PdfDifferenceEncoding::CodePointToName(back).GetString() != n) c.die("name-round-trip", showCps({ cp }) + " is named " + n + ", which is " + showCps({ back })); };
    for (unsigned i = 0; i < 1024; i++) { char32_t cp = (char32_t)(k * 1024 + i); if (cp && !(cp >= 0xD800 && cp < 0xE000)) add(cp); } for (int i = 0; i < 50; i++) add(0x10000 + (char32_t)r.below(0x100000));
    for (auto& g : glyphs) { char32_t v = PdfDifferenceEncoding::NameToCodePoint(std::string_view(g.first)); c.require(v == g.second, "name", string(g.first) + " is " + showCps({ v })); }
    for (int i = 0; i < 30; i++) { string n; for (unsigned q = 1 + (unsigned)r.below(9); q; q--) n += "uniUNI0123456789ABCDEFabcdefgxyz._"[r.below(34)]; if (r.chance(1, 2)) n = "uni" + n; (void)PdfDifferenceEncoding::NameToCodePoint(std::string_view(n)); c.ev("arbitrary names"); }
    FT_Library lib; FT_Init_FreeType(&lib); string f = type1(names); FT_Face face; int rc = FT_New_Memory_Face(lib, (const FT_Byte*)f.data(), (FT_Long)f.size(), 0, &face); c.require(rc == 0, "reference-font", cat(rc)); c.require(FT_Select_Charmap(face, FT_ENCODING_UNICODE) == 0, "reference-charmap", "");
    std::map<string, char32_t> agl; FT_UInt gi; FT_ULong cp = FT_Get_First_Char(face, &gi); std::map<string, set<char32_t>> all; while (gi) { char nb[100]; FT_Get_Glyph_Name(face, gi, nb, 100); all[nb].insert((char32_t)cp); cp = FT_Get_Next_Char(face, cp, &gi); }
    for (size_t i = 0; i < names.size(); i++) { auto w = all.find(names[i]); if (w == all.end()) { c.ev("names unknown to the font engine"); if (c.verbose) fprintf(stderr, "unknown %s %x\n", names[i].c_str(), (unsigned)cps[i]); continue; } if (!w->second.count(cps[i]) && !(*w->second.begin() >= 0xE000 && *w->second.begin() < 0xF900)) c.die("name-list", names[i] + " is " + showCps({ cps[i] }) + " but the font engine has " + showCps({ *w->second.begin() })); c.ev("names compared with the font engine"); }
    FT_Done_Face(face); FT_Done_FreeType(lib); c.state(cat("block ", k)); c.sample(cat("block ", k, ": ", names.size(), " names"));
}

// Encodings of imported fonts: before and after saving
static const char* fontNames[] = { "DejaVu Sans", "DejaVu Serif", "DejaVu Sans Mono" };
struct FtFont { FT_Face face; std::map<FT_UInt, vector<char32_t>> glyphs; vector<char32_t> single; };
static FtFont& ftFont(unsigned i)
{
    static FT_Library lib; static FtFont* f[3]; if (!lib) FT_Init_FreeType(&lib); if (f[i]) return *f[i]; f[i] = new FtFont();
    static const char* paths[] = { "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSerif.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf" }; if (FT_New_Face(lib, paths[i], 0, &f[i]->face)) { fprintf(stderr, "no font\n"); exit(3); }
    FT_UInt gi; FT_ULong cp = FT_Get_First_Char(f[i]->face, &gi); while (gi) { f[i]->glyphs[gi].push_back((char32_t)cp); cp = FT_Get_Next_Char(f[i]->face, cp, &gi); } for (auto& e : f[i]->glyphs) if (e.second.size() == 1) f[i]->single.push_back(e.second[0]); return *f[i];
}
static void c23f(Ctx& c)
{
    auto& r = c.rng; PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); struct Use { unsigned no; string bytes, text; bool notEmbedded; }; vector<Use> uses; string how; std::ofstream exp; unsigned nf = 1 + (unsigned)r.below(2);
    for (unsigned k = 0; k < nf; k++)
    {
        unsigned fi = (unsigned)r.below(3); auto& ft = ftFont(fi); PdfFontCreateParams p; string kind; vector<char32_t> chars; std::map<char32_t, int> allowed; static const unsigned fl[] = { 0, 0, 2 }; p.Flags = (PdfFontCreateFlags)fl[r.below(3)]; if (r.chance(1, 40)) p.Flags = PdfFontCreateFlags::DontEmbed; CodeModel cm;
        switch (r.below(6))
        {
        case 0: case 1: kind = "dynamic"; p.Flags = r.chance(1, 2) ? PdfFontCreateFlags::None : PdfFontCreateFlags::DontSubset; break;
        case 2: { auto& b = bases[r.below(2)]; kind = b.name; p.Encoding = b.table == tblWinAnsi ? PdfEncodingFactory::CreateWinAnsiEncoding() : PdfEncodingFactory::CreateMacRomanEncoding(); for (unsigned i = 0; i < 256; i++) if (b.table[i] > 31) allowed[b.table[i]] = 1; if (r.chance(1, 2)) p.Flags = p.Flags | PdfFontCreateFlags::PreferNonCID; break; }
        case 3: { kind = "differences"; PdfDifferenceList dl; vector<char32_t> t(tblWinAnsi, tblWinAnsi + 256); for (unsigned i = 0; i < 20; i++) { unsigned code = (unsigned)r.below(256); char32_t cp = r.pick(ft.single); if (cp < 0x21) continue; string n = PdfDifferenceEncoding::CodePointToName(cp).GetString(); if (PdfDifferenceEncoding::NameToCodePoint(std::string_view(n)) != cp) continue; dl.AddDifference((unsigned char)code, cp); t[code] = cp; } p.Encoding = PdfEncoding(std::make_shared<PdfDifferenceEncoding>(dl, PdfEncodingMapFactory::WinAnsiEncodingInstance())); for (auto cp : t) if (cp > 31) allowed[cp] = 1; if (r.chance(1, 2)) p.Flags = p.Flags | PdfFontCreateFlags::PreferNonCID; break; }
        case 4: { kind = "map"; PdfCharCodeMap gids, uni; unsigned n = 5 + (unsigned)r.below(40), code = 1 + (unsigned)r.below(300), size = r.chance(1, 2) ? 2 : code + 3 * n < 256 ? 1 : 2; for (unsigned i = 0; i < n; i++, code += 1 + (unsigned)r.below(3)) { char32_t cp = r.pick(ft.single); gids.PushMapping(PdfCharCode(code, (unsigned char)size), (codepoint)FT_Get_Char_Index(ft.face, cp)); uni.PushMapping(PdfCharCode(code, (unsigned char)size), cp); allowed[cp] = 1; } p.Encoding = PdfEncoding(std::make_shared<PdfCMapEncoding>(std::move(gids)), std::make_shared<PdfCMapEncoding>(std::move(uni))); break; }
        default: { kind = "identity with text map"; PdfCharCodeMap uni; for (unsigned i = 0; i < 60; i++) { char32_t cp = r.pick(ft.single); uni.PushMapping(PdfCharCode(FT_Get_Char_Index(ft.face, cp), 2), cp); allowed[cp] = 1; } p.Encoding = PdfEncoding(std::make_shared<PdfIdentityEncoding>(r.chance(1, 2) ? PdfIdentityOrientation::Horizontal : PdfIdentityOrientation::Vertical), std::make_shared<PdfCMapEncoding>(std::move(uni))); p.Flags = PdfFontCreateFlags::DontSubset; }
        }
        how = how + (k ? " | " : "") + fontNames[fi] + " " + kind + cat(" flags ", (int)p.Flags); c.phase("creating " + how);
        auto font = d.GetFonts().GetFont(fontNames[fi], p); c.require(font != nullptr, "font", how); unsigned no = font->GetObject().GetIndirectReference().ObjectNumber(); page.GetOrCreateResources().AddResource("Font", cat("F", no), font->GetObject()); auto& enc = font->GetEncoding();
        if (allowed.empty()) chars = ft.single; else for (auto& a : allowed) { FT_UInt g = FT_Get_Char_Index(ft.face, a.first); if (g && ft.glyphs[g].size() == 1) chars.push_back(a.first); } if (chars.empty()) continue;
        unsigned texts = 1 + (unsigned)r.below(6); bool big = allowed.empty() && r.chance(1, 6); if (big) { texts = 12; c.ev("fonts with many characters"); }
        for (unsigned t = 0; t < texts; t++)
        {
            string text; for (unsigned q = big ? 60 : (unsigned)r.below(15); q; q--) appendUtf8(text, r.pick(chars)); charbuff out; c.phase("encoding " + vis(text) + " with " + how); bool ok = enc.TryConvertToEncoded(text, out); c.require(ok, "encode", how + " " + vis(text));
            string back; ok = enc.TryConvertToUtf8(PdfString::FromRaw(out), back); c.require(ok && back == text, "encode-round-trip", how + " " + vis(text) + " returns as " + vis(back) + " from " + hex(string(out.data(), out.size()))); uses.push_back({ no, string(out.data(), out.size()), text, (p.Flags & PdfFontCreateFlags::DontEmbed) != PdfFontCreateFlags::None && font->GetType() == PdfFontType::CIDTrueType }); c.ev("texts encoded");
        }
        char32_t foreign = 0; for (int q = 0; q < 50 && !foreign; q++) { char32_t x = q < 25 ? r.pick(ft.single) : 1 + (char32_t)r.below(0x10FFFF); if (x >= 0xD800 && x < 0xE000) continue; if (!FT_Get_Char_Index(ft.face, x) || (!allowed.empty() && !allowed.count(x))) foreign = x; }
        if (foreign) { string s = uses.empty() ? "" : uses.back().text; appendUtf8(s, foreign); charbuff out; bool taken = false; try { taken = enc.TryConvertToEncoded(s, out); } catch (PdfError&) { } c.require(!taken, "encode-foreign", how + " " + showCps({ foreign })); c.ev("foreign texts refused"); }
        c.ev(("fonts: " + kind).c_str());
    }
    c.phase("saving " + how); string file = saveDoc(d, r);
    auto e = loadDoc(file); for (auto& u : uses) { c.phase(cat("reading font ", u.no, " ") + how); auto font = loadedFont(*e, PdfReference(u.no, 0)); c.require(font != nullptr, u.notEmbedded ? "font-not-embedded" : "font-loaded", how); string back; bool ok = font->GetEncoding().TryConvertToUtf8(PdfString::FromRaw(bufferview(u.bytes.data(), u.bytes.size())), back); c.require(ok && back == u.text, "saved-text", how + cat(" font ", u.no) + " " + hex(u.bytes) + " returns as " + vis(back) + " instead of " + vis(u.text)); c.ev("saved texts compared");
        if (u.text.empty()) continue; charbuff out; ok = font->GetEncoding().TryConvertToEncoded(u.text, out); string b2; if (ok) b2 = font->GetEncoding().ConvertToUtf8(PdfString::FromRaw(out)); c.require(ok && b2 == u.text, "saved-encode", how + cat(" font ", u.no) + " " + vis(u.text) + " returns as " + vis(b2)); }
    if (!c.artefacts.empty()) { string x; for (auto& u : uses) if (!u.notEmbedded) x += cat(u.no, " ") + (u.bytes.empty() ? "-" : hex(u.bytes)) + " " + (u.text.empty() ? "-" : hex(u.text)) + "\n"; spill(c.artefacts + cat("/f", c.caseNo, ".pdf"), file); spill(c.artefacts + cat("/f", c.caseNo, ".exp"), x); }
    c.state(how.substr(0, 60)); c.sample(how);
}
int main(int argc, char** argv) { modes()["c23m"] = c23m; modes()["c23c"] = c23c; modes()["c23d"] = c23d; modes()["c23n"] = c23n; modes()["c23f"] = c23f; return mon::main(argc, argv, nullptr); }
