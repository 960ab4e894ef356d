// C28: dates and document metadata.
#include "mon.h"
#include "model.h"
#include <ctime>
using namespace mon;
using namespace mm;
using std::string; using std::vector;
namespace {
// ---- civil time, computed independently (days counted from a table of month lengths) -------------------------------
bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int64_t daysBeforeYear(int64_t y) { int64_t p = y - 1; auto fl = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }; return 365 * y + fl(p, 4) - fl(p, 100) + fl(p, 400); }
const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
int monthLen(int64_t y, int m) { return m == 2 && leap(y) ? 29 : ML[m - 1]; }
int64_t civil(int64_t y, int m, int d, int h, int mi, int s)
{
    int64_t days = daysBeforeYear(y) - daysBeforeYear(1970); for (int k = 1; k < m; k++) days += monthLen(y, k);
    return (days + d - 1) * 86400 + h * 3600 + mi * 60 + s;
}
struct D { bool has = false, off = false; int64_t secs = 0; int min = 0; bool operator==(const D& o) const { return has == o.has && (!has || (off == o.off && secs == o.secs && (!off || min == o.min))); } };
PdfDate toDate(const D& d) { return d.off ? PdfDate(std::chrono::seconds(d.secs), std::chrono::minutes(d.min)) : PdfDate(std::chrono::seconds(d.secs), { }); }
D ofDate(const PdfDate& p) { D d; d.has = true; d.secs = p.GetSecondsFromEpoch().count(); auto o = p.GetMinutesFromUtc(); d.off = o.has_value(); if (d.off) d.min = (int)o->count(); return d; }
D ofDate(const nullable<PdfDate>& p) { return p.has_value() ? ofDate(*p) : D(); }
string show(const D& d) { return d.has ? cat("(", d.secs, d.off ? cat(" offset ", d.min) : string(" no offset"), ")") : string("(none)"); }
struct Civil { int y, m, d, h, mi, s; };
Civil randCivil(Rng& r)
{
    Civil c; c.y = r.chance(1, 4) ? (int)r.range(0, 9999) : (int)r.range(1950, 2100); if (r.chance(1, 10)) { int ys[] = { 0, 1, 999, 1000, 1600, 1900, 1970, 2000, 2004, 2100, 9999 }; c.y = ys[r.below(11)]; }
    c.m = (int)r.range(1, 12); if (r.chance(1, 6)) c.m = 2; c.d = r.chance(1, 5) ? monthLen(c.y, c.m) : (int)r.range(1, monthLen(c.y, c.m)); c.h = (int)r.below(24); c.mi = (int)r.below(60); c.s = (int)r.below(60);
    if (r.chance(1, 8)) { c.h = 23; c.mi = 59; c.s = 59; } if (r.chance(1, 8)) { c.h = c.mi = c.s = 0; } return c;
}
int randOff(Rng& r) { int v[] = { 0, 60, -60, 90, -210, 345, 720, 765, 840, -720, 1, -1, 59, -59, 1439, -1439, 719 }; return r.chance(1, 2) ? v[r.below(17)] : (int)r.range(-1439, 1439); }
string f(const char* fmt, int a) { char b[40]; snprintf(b, 40, fmt, a); return b; }
PdfDate exactParse(Ctx& c, const string& s, bool w3c, bool& ok)
{
    // the text sits at the end of a heap block of its own: reading behind it is seen by the sanitizer
    std::unique_ptr<char[]> buf(new char[s.size() ? s.size() : 1]); memcpy(buf.get(), s.data(), s.size()); PdfDate d;
    ok = w3c ? PdfDate::TryParseW3C(std::string_view(buf.get(), s.size()), d) : PdfDate::TryParse(std::string_view(buf.get(), s.size()), d);
    bool threw = false; try { PdfDate e = w3c ? PdfDate::ParseW3C(std::string_view(buf.get(), s.size())) : PdfDate::Parse(std::string_view(buf.get(), s.size())); if (ok && !(e == d)) c.die("date-parsers", s); } catch (const PdfError&) { threw = true; }
    c.require(threw == !ok, "date-parsers", s); return d;
}
void dates(Ctx& c)
{
    Rng& r = c.rng;
    for (int k = 0; k < 20; k++)
    {
        Civil t = randCivil(r); bool off = r.chance(3, 4); int o = off ? randOff(r) : 0; char z[40];
        int64_t want = civil(t.y, t.m, t.d, t.h, t.mi, t.s) - o * 60; D d; d.has = true; d.secs = want; d.off = off; d.min = o; PdfDate date = toDate(d);
        string ofsP = !off ? "" : o == 0 ? "Z" : (o < 0 ? "-" : "+") + f("%02d", abs(o) / 60) + "'" + f("%02d", abs(o) % 60) + "'", ofsW = !off ? "" : o == 0 ? "Z" : (o < 0 ? "-" : "+") + f("%02d", abs(o) / 60) + ":" + f("%02d", abs(o) % 60);
        snprintf(z, 40, "D:%04d%02d%02d%02d%02d%02d", t.y, t.m, t.d, t.h, t.mi, t.s); string pdf = z; snprintf(z, 40, "%04d-%02d-%02dT%02d:%02d:%02d", t.y, t.m, t.d, t.h, t.mi, t.s); string w3c = z;
        string gp = date.ToString().GetString(), gw = date.ToStringW3C().GetString();
        if (gp != pdf + ofsP) c.die("pdf-notation", show(d) + " is written " + gp + " not " + pdf + ofsP); if (gw != w3c + ofsW) c.die("w3c-notation", show(d) + " is written " + gw + " not " + w3c + ofsW);
        bool ok; PdfDate b = exactParse(c, gp, false, ok); if (!ok || !(ofDate(b) == d)) c.die("pdf-round-trip", gp + " reads " + show(ok ? ofDate(b) : D())); b = exactParse(c, gw, true, ok); if (!ok || !(ofDate(b) == d)) c.die("w3c-round-trip", gw + " reads " + show(ok ? ofDate(b) : D()));
        c.ev("dates through both notations"); c.require(date == b && !(date != b), "date-equality", gp);
        // spellings allowed by the two standards
        int prec = (int)r.below(6); Civil p = t; if (prec < 1) p.m = 1; if (prec < 2) p.d = 1; if (prec < 3) p.h = 0; if (prec < 4) p.mi = 0; if (prec < 5) p.s = 0; string head = (r.chance(4, 5) ? pdf : pdf.substr(2)); head = head.substr(0, head.size() - 2 * (5 - prec)); int zo = o; string zs;
        switch (r.below(6)) { case 0: zs = ""; zo = 0; break; case 1: zs = "Z"; zo = 0; break; case 2: zs = "Z00'00'"; zo = 0; break; case 3: zs = string(o < 0 ? "-" : "+") + f("%02d", abs(o) / 60); zo = o / 60 * 60; break; case 4: zs = string(o < 0 ? "-" : "+") + f("%02d", abs(o) / 60) + "'" + f("%02d", abs(o) % 60); break; default: zs = string(o < 0 ? "-" : "+") + f("%02d", abs(o) / 60) + "'" + f("%02d", abs(o) % 60) + "'"; }
        int64_t w = civil(p.y, p.m, p.d, p.h, p.mi, p.s) - zo * 60; b = exactParse(c, head + zs, false, ok); if (!ok || ofDate(b).secs != w) c.die("pdf-spelling", head + zs + " reads " + show(ok ? ofDate(b) : D()) + cat(" not ", w)); c.ev("partial PDF dates");
        // W3C profile: year, month, day, minutes with zone, seconds with zone, fractions
        int wp = (int)r.below(6); p = t; string ws = w3c; zo = 0; zs = "";
        if (wp < 3) { ws = w3c.substr(0, wp == 0 ? 4 : wp == 1 ? 7 : 10); p.h = p.mi = p.s = 0; if (wp < 2) p.d = 1; if (wp < 1) p.m = 1; }
        else { if (r.chance(1, 3)) zs = "Z"; else { zo = o; zs = string(o < 0 ? "-" : "+") + f("%02d", abs(o) / 60) + ":" + f("%02d", abs(o) % 60); } if (wp == 3) { ws = w3c.substr(0, 16); p.s = 0; } if (wp == 5) { ws += "."; int n = (int)r.range(1, 8); while (n--) ws += (char)('0' + r.below(10)); } }
        w = civil(p.y, p.m, p.d, p.h, p.mi, p.s) - zo * 60; b = exactParse(c, ws + zs, true, ok); if (!ok || ofDate(b).secs != w) c.die("w3c-spelling", ws + zs + " reads " + show(ok ? ofDate(b) : D()) + cat(" not ", w)); c.ev("W3C dates of each precision"); c.state(cat("d", prec, wp, zs.size(), ":", o));
        // strings that are no dates are refused or read as something, with the two parsers agreeing
        string bad = r.chance(1, 2) ? pdf + ofsP : w3c + ofsW; for (int q = 0, n = (int)r.range(1, 3); q < n; q++) { if (bad.empty()) break; size_t i = r.below(bad.size()); if (r.chance(1, 2)) bad[i] = (char)r.below(256); else if (r.chance(1, 2)) bad.erase(i, 1); else bad.resize(i); }
        exactParse(c, bad, false, ok); if (ok) { string s1 = exactParse(c, bad, false, ok).ToString().GetString(); } exactParse(c, bad, true, ok); c.ev("damaged dates");
        int which = (int)r.below(5); string out; switch (which) { case 0: out = f("D:%04d1301", t.y); break; case 1: out = f("D:%04d0132", t.y); break; case 2: out = f("D:%04d010124", t.y); break; case 3: out = f("D:%04d01010060", t.y); break; default: out = f("D:%04d0101000060", t.y); } exactParse(c, out, false, ok); if (ok) c.die("range", out + " is accepted"); c.ev("out of range fields refused");
    }
    static const char* const zones[] = { "UTC", "Europe/Rome", "America/New_York", "Asia/Kolkata", "XXX-13:45", "YYY+9:30", "ZZZ3", "AAA-5:45BBB,M3.2.0,M11.1.0" };
    setenv("TZ", zones[r.below(8)], 1); tzset(); time_t t0 = time(nullptr); PdfDate now = PdfDate::LocalNow(), utc = PdfDate::UtcNow(); time_t t1 = time(nullptr); struct tm l; localtime_r(&t0, &l); D dn = ofDate(now), du = ofDate(utc);
    c.require(dn.secs >= t0 - 1 && dn.secs <= t1 + 1 && du.secs >= t0 - 1 && du.secs <= t1 + 1, "now", show(dn)); struct tm l1; localtime_r(&t1, &l1); if (l.tm_gmtoff == l1.tm_gmtoff) c.require(dn.off && dn.min == l.tm_gmtoff / 60, "local-offset", cat(getenv("TZ"), ": ", show(dn), " not ", l.tm_gmtoff / 60));
    bool ok; c.require(ofDate(exactParse(c, now.ToString().GetString(), false, ok)) == dn, "now-round-trip", now.ToString().GetString()); c.ev("current time"); setenv("TZ", "UTC", 1); tzset();
}
// ---- metadata ------------------------------------------------------------------------------------------------------
string xmlFilter(const string& s) { vector<char32_t> cps; decodeUtf8(s, cps); string o; for (auto ch : cps) if (ch >= 0x20 ? ch != 0xFFFE && ch != 0xFFFF : ch == 9 || ch == 10 || ch == 13) appendUtf8(o, ch); return o; }
string text(Rng& r, bool lines = true)
{
    static const char* const fixed[] = { "", "A & B", "<title>", "&amp;", "]]>", "\"quoted\" 'text'", " leading and trailing ", "\xE2\x82\xAC and \xC3\xA9", "&#65; &lt;", "%s%n", "(paren) \\ back", "\xF0\x9F\x98\x80", "a\xC2\xA0z", "D:20200101" };
    if (r.chance(1, 3)) { string s = fixed[r.below(14)]; return s; }
    string s; int n = (int)r.below(r.chance(1, 20) ? 400 : 20); while (n--) switch (r.below(9)) { case 0: appendUtf8(s, (char32_t)r.range(0xA1, 0xFF)); break; case 1: appendUtf8(s, (char32_t)r.range(0x100, 0xD7FF)); break; case 2: appendUtf8(s, (char32_t)r.range(0x10000, 0x10FFFD)); break; case 3: s += "&<>\"'"[r.below(5)]; break; case 4: if (lines) s += "\t\n\r"[r.below(3)]; break; case 5: if (r.chance(1, 10)) s += (char)r.range(1, 8); break; default: s += (char)r.range(0x20, 0x7e); }
    return s;
}
string esc(const string& s, bool attr) { string o; for (char ch : s) if (ch == '&') o += "&amp;"; else if (ch == '<') o += "&lt;"; else if (ch == '>') o += "&gt;"; else if (ch == '"') o += "&quot;"; else if (ch == '\r' || (attr && (ch == '\n' || ch == '\t'))) o += cat("&#", (int)ch, ";"); else o += ch; return o; }
struct Meta
{
    nullable<string> v[5]; vector<string> keywords; bool hasKw = false; D create, mod; string trapped = "Unknown"; PdfALevel level = PdfALevel::Unknown;
};
const char* const NM[] = { "Title", "Author", "Subject", "Creator", "Producer" };
// a packet as other producers write it, with content the library knows nothing about
string packet(Rng& r, Meta& m)
{
    string body[2], attrs[2]; int n = (int)r.range(1, 2); auto put = [&](const string& x) { body[r.below(n)] += x + (r.chance(1, 2) ? "\n   " : ""); };
    auto t = [&]() { string s; do s = xmlFilter(text(r, false)); while (s.find_first_not_of(' ') == string::npos); return s; };
    auto simple = [&](const char* name, const string& v) { if (r.chance(1, 2)) put(string("<") + name + ">" + esc(v, false) + "</" + name + ">"); else attrs[r.below(n)] += string(" ") + name + "=\"" + esc(v, true) + "\""; };
    auto list = [&](const char* name, const char* kind, const vector<string>& v) { string s = string("<") + name + "><rdf:" + kind + ">"; for (auto& x : v) s += string("<rdf:li") + (string(kind) == "Alt" ? " xml:lang=\"x-default\"" : "") + ">" + esc(x, false) + "</rdf:li>"; put(s + "</rdf:" + kind + "></" + name + ">"); };
    if (r.chance(1, 2)) { m.v[0] = t(); list("dc:title", "Alt", { *m.v[0] }); } if (r.chance(1, 2)) { m.v[1] = t(); vector<string> a = { *m.v[1] }; if (r.chance(1, 3)) a.push_back(t()); list("dc:creator", "Seq", a); } if (r.chance(1, 3)) { m.v[2] = t(); list("dc:description", "Alt", { *m.v[2] }); }
    if (r.chance(1, 3)) { m.v[3] = t(); simple("xmp:CreatorTool", *m.v[3]); } if (r.chance(1, 3)) { m.v[4] = t(); simple("pdf:Producer", *m.v[4]); } if (r.chance(1, 4)) { m.keywords = { t() }; m.hasKw = true; simple("pdf:Keywords", m.keywords[0]); }
    auto date = [&](D& d, const char* name) { Civil q = randCivil(r); int o = randOff(r); d.has = true; d.off = true; d.min = o; d.secs = civil(q.y, q.m, q.d, q.h, q.mi, q.s) - o * 60; char z[60]; snprintf(z, 60, "%04d-%02d-%02dT%02d:%02d:%02d%s%c%02d:%02d", q.y, q.m, q.d, q.h, q.mi, q.s, r.chance(1, 4) ? ".25" : "", o < 0 ? '-' : '+', abs(o) / 60, abs(o) % 60); simple(name, z); };
    if (r.chance(1, 2)) date(m.create, "xmp:CreateDate"); if (r.chance(1, 3)) date(m.mod, "xmp:ModifyDate"); if (r.chance(1, 6)) simple("xmp:MetadataDate", "not a date");
    if (r.chance(1, 3)) { static const char* const L[] = { "1B", "1A", "2B", "2A", "2U", "3B", "3A", "3U", "4E", "4F" }; int k = (int)r.below(10); m.level = (PdfALevel)(k + 1); simple("pdfaid:part", string(1, L[k][0])); simple("pdfaid:conformance", string(1, L[k][1])); if (k > 7) simple("pdfaid:rev", "2020"); }
    // unrelated
    if (r.chance(1, 2)) list("dc:rights", "Alt", { t() }); if (r.chance(1, 2)) list("dc:subject", "Bag", { t(), t(), t() }); if (r.chance(1, 2)) simple("xmpMM:DocumentID", "uuid:" + t()); if (r.chance(1, 2)) simple("v:own", t());
    if (r.chance(1, 3)) put("<xmpMM:DerivedFrom rdf:parseType=\"Resource\"><v:instanceID>" + esc(t(), false) + "</v:instanceID><v:other>" + esc(t(), false) + "</v:other></xmpMM:DerivedFrom>");
    if (r.chance(1, 3)) put("<xmpMM:RenditionOf v:instanceID=\"" + esc(t(), true) + "\" v:documentID=\"" + esc(t(), true) + "\"/>");
    if (r.chance(1, 3)) put("<xmpMM:History><rdf:Seq><rdf:li rdf:parseType=\"Resource\"><v:action>" + esc(t(), false) + "</v:action></rdf:li><rdf:li v:action=\"" + esc(t(), true) + "\" v:when=\"2001\"/></rdf:Seq></xmpMM:History>");
    if (r.chance(1, 4)) put("<v:struct><rdf:Description><v:a>" + esc(t(), false) + "</v:a><v:b><rdf:Bag><rdf:li>1</rdf:li></rdf:Bag></v:b></rdf:Description></v:struct>"); if (r.chance(1, 4)) put("<v:link rdf:resource=\"http://example.org/?a=1&amp;b=2\"/>"); if (r.chance(1, 4)) simple("dc:date", "2010-01-01"); if (r.chance(1, 4)) put("<v:lang xml:lang=\"it\">" + esc(t(), false) + "</v:lang>");
    string ns = " xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:pdf=\"http://ns.adobe.com/pdf/1.3/\" xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\" xmlns:pdfaid=\"http://www.aiim.org/pdfa/ns/id/\" xmlns:xmpMM=\"http://ns.adobe.com/xap/1.0/mm/\" xmlns:v=\"urn:other\"";
    bool top = r.chance(1, 2); string s = "<?xpacket begin=\"\xEF\xBB\xBF\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n<x:xmpmeta xmlns:x=\"adobe:ns:meta/\" x:xmptk=\"other\">\n <rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"" + (top ? ns : "") + ">\n";
    for (int k = 0; k < n; k++) s += "  <rdf:Description rdf:about=\"\"" + (top ? string() : ns) + attrs[k] + ">" + body[k] + "</rdf:Description>\n"; return s + " </rdf:RDF>\n</x:xmpmeta>\n" + string(r.below(200), ' ') + "<?xpacket end=\"w\"?>";
}
nullable<string> str(const nullable<PdfString>& s) { nullable<string> o; if (s.has_value()) o = s->GetString(); return o; }
string showv(const nullable<string>& s) { return s.has_value() ? "\"" + *s + "\"" : string("none"); }
string kwJoin(const vector<string>& k) { string s; for (auto& x : k) s += (s.empty() ? "" : "\r\n") + x; return s; }
void compare(Ctx& c, PdfDocument& doc, const Meta& m, bool all, const string& when)
{
    auto& md = doc.GetMetadata(); nullable<string> g[5] = { str(md.GetTitle()), str(md.GetAuthor()), str(md.GetSubject()), str(md.GetCreator()), str(md.GetProducer()) };
    for (int k = 0; k < 5; k++) if (all || m.v[k].has_value()) { if (g[k].has_value() != m.v[k].has_value() || (g[k].has_value() && *g[k] != *m.v[k])) c.die(string("value:") + NM[k], when + ": " + showv(g[k]) + " should be " + showv(m.v[k])); c.ev("values compared"); }
    if (all || m.hasKw) { auto kw = md.GetKeywords(); if (kw != m.keywords) c.die("value:Keywords", when + ": " + kwJoin(kw) + " should be " + kwJoin(m.keywords)); auto raw = str(md.GetKeywordsRaw()); c.require(raw.has_value() == m.hasKw, "value:KeywordsRaw", when + showv(raw)); }
    if (all || m.create.has) { D d = ofDate(md.GetCreationDate()); if (!(d == m.create)) c.die("value:CreationDate", when + ": " + show(d) + " should be " + show(m.create)); } if (all || m.mod.has) { D d = ofDate(md.GetModifyDate()); if (!(d == m.mod)) c.die("value:ModDate", when + ": " + show(d) + " should be " + show(m.mod)); }
    c.require(md.GetTrapped() == m.trapped, "value:Trapped", when + ": " + md.GetTrapped() + " should be " + m.trapped); if (all) c.require(md.GetPdfALevel() == m.level, "value:PdfALevel", when + cat(": ", (int)md.GetPdfALevel(), " should be ", (int)m.level));
}
void hx(string& o, const string& k, const string& v) { o += k + " "; for (unsigned char ch : v) { char b[3]; snprintf(b, 3, "%02x", ch); o += b; } o += "\n"; }
void meta(Ctx& c)
{
    Rng& r = c.rng; Meta m; string pk, hist; bool hasPacket = false, synced = false; std::unique_ptr<PdfMemDocument> doc(new PdfMemDocument()); doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100)); string out;
    {   // the fresh document states what it states: take it as the start of the model
        auto& md = doc->GetMetadata(); m.v[4] = str(md.GetProducer()); m.create = ofDate(md.GetCreationDate()); m.mod = ofDate(md.GetModifyDate());
    }
    auto load = [&](const string& s) { doc.reset(new PdfMemDocument()); out = s; doc->LoadFromBuffer(bufferview(out.data(), out.size())); };
    if (r.chance(1, 2))
    {   // a document of another producer: packet, and an information dictionary that may be missing or partly there
        Meta x; pk = packet(r, x); auto& cat0 = doc->GetCatalog(); cat0.SetMetadataStreamValue(pk); bool partial = r.chance(1, 2);
        auto& tr = doc->GetTrailer().GetDictionary(); auto inf = tr.FindKey("Info"); if (inf == nullptr) { auto& o = doc->GetObjects().CreateDictionaryObject(); tr.AddKeyIndirect("Info", o); inf = &o; } inf->GetDictionary().Clear(); Meta y = x; y.trapped = "Unknown";
        synced = true; if (partial) { static const char* const K[] = { "Title", "Author", "Subject", "Creator", "Producer" }; for (int k = 0; k < 5; k++) if (r.chance(1, 3)) { string s = text(r); if (r.chance(1, 3) && x.v[k].has_value()) s = *x.v[k]; inf->GetDictionary().AddKey(K[k], PdfString(s)); y.v[k] = s; if (!x.v[k].has_value() || *x.v[k] != s) synced = false; }
            if (r.chance(1, 3)) { Civil q = randCivil(r); D d; d.has = true; d.secs = civil(q.y, q.m, q.d, q.h, q.mi, q.s); d.off = r.chance(1, 2); y.create = d; inf->GetDictionary().AddKey("CreationDate", toDate(d).ToString()); if (!(d == x.create)) synced = false; } else if (r.chance(1, 4)) { inf->GetDictionary().AddKey("CreationDate", PdfString("yesterday")); c.ev("invalid date in the file"); } }
        { // the state is the file's
            bufferview bv; string s; doc->Save(*std::make_unique<StringStreamDevice>(s), PdfSaveOptions::NoModifyDateUpdate); load(s); }
        m = y; hasPacket = true; c.ev("documents with a packet of another producer"); hist += "packet "; c.phase("load packet"); compare(c, *doc, m, true, "as loaded");
    }
    int saves = 0;
    for (int step = 0, n = (int)r.range(3, 14); step < n; step++)
    {
        auto& md = doc->GetMetadata(); bool sync = r.chance(1, 2); auto changed = [&]() { synced = sync && hasPacket; };
        int op = (int)r.below(15); string what;
        switch (op)
        {
            case 0: case 1: case 2: case 3: case 4: case 5:
            {
                int k = (int)r.below(5); nullable<string> v; if (r.chance(4, 5)) v = text(r); if (r.chance(1, 12) && m.v[k].has_value()) v = *m.v[k]; what = cat("set ", NM[k], " ", showv(v), sync ? " sync" : ""); c.phase(hist + what);
                bool same = v.has_value() == m.v[k].has_value() && (!v.has_value() || *v == *m.v[k]);
                auto go = [&](nullable<const PdfString&> p) { switch (k) { case 0: md.SetTitle(p, sync); break; case 1: md.SetAuthor(p, sync); break; case 2: md.SetSubject(p, sync); break; case 3: md.SetCreator(p, sync); break; default: md.SetProducer(p, sync); } };
                if (v.has_value()) { PdfString ps(*v); go(ps); } else go(nullptr); m.v[k] = v; if (!same) changed(); c.ev("text values set"); break;
            }
            case 6: { vector<string> kw; for (int q = 0, nn = (int)r.below(5); q < nn; q++) { string s = text(r, false); if (!s.empty()) kw.push_back(s); } what = "keywords"; c.phase(hist + what); bool same = (kw.size() != 0) == m.hasKw && kwJoin(kw) == kwJoin(m.keywords); md.SetKeywords(kw, sync); m.keywords = kw; m.hasKw = kw.size() != 0; if (!same) changed(); c.ev("keywords set"); break; }
            case 7: case 8: { D d; if (r.chance(5, 6)) { Civil q = randCivil(r); d.has = true; d.off = r.chance(3, 4); d.min = d.off ? randOff(r) : 0; d.secs = civil(q.y, q.m, q.d, q.h, q.mi, q.s) - d.min * 60; } nullable<PdfDate> p; if (d.has) p = toDate(d); what = string("date ") + (op == 7 ? "create " : "mod ") + show(d) + (sync ? " sync" : ""); c.phase(hist + what); D& t = op == 7 ? m.create : m.mod; bool same = t == d; if (op == 7) md.SetCreationDate(p, sync); else md.SetModifyDate(p, sync); t = d; if (!same) changed(); c.ev("dates set"); break; }
            case 9: { static const char* const N[] = { "True", "False", "Unknown", "Maybe" }; int k = (int)r.below(5); what = cat("trapped ", k); c.phase(hist + what); if (k == 4) { md.SetTrapped(nullptr); m.trapped = "Unknown"; } else { PdfName nm(N[k]); md.SetTrapped(nm); m.trapped = k < 2 ? N[k] : "Unknown"; } break; }
            case 10: { PdfALevel l = (PdfALevel)r.below(11); what = cat("level ", (int)l, sync ? " sync" : ""); c.phase(hist + what); bool same = l == m.level; md.SetPdfALevel(l, sync); if (!same) { if (l != PdfALevel::Unknown) hasPacket = true; changed(); } m.level = l; c.ev("conformance set"); break; }
            case 11: { bool force = r.chance(1, 2); what = force ? "force sync" : "sync"; c.phase(hist + what); md.SyncXMPMetadata(force); if (hasPacket || force) { hasPacket = true; synced = true; } c.ev("synchronisations"); break; }
            case 12: { what = "ensure"; c.phase(hist + what); md.EnsureXMPMetadata(); hasPacket = true; c.ev("packets ensured"); break; }
            default:
            {
                bool upd = r.chance(1, 2); what = upd ? "save" : "save as is"; c.phase(hist + what); string s; { StringStreamDevice dev(s); time_t t0 = time(nullptr); doc->Save(dev, upd ? PdfSaveOptions::None : PdfSaveOptions::NoModifyDateUpdate); time_t t1 = time(nullptr);
                    if (upd) { D d = ofDate(md.GetModifyDate()); if (!d.has || d.secs < t0 - 1 || d.secs > t1 + 1) c.die("modify-date", hist + what + ": " + show(d)); if (!(d == m.mod)) { synced = hasPacket; m.mod = d; } } }
                compare(c, *doc, m, true, hist + what + ", after saving"); load(s); bool before = synced; compare(c, *doc, m, before, hist + what + ", reloaded"); c.ev(before ? "synchronised documents reloaded" : "unsynchronised documents reloaded");
                if (!c.artefacts.empty())
                {
                    string facts; char nm[40]; snprintf(nm, 40, "/m%06llu%c", (unsigned long long)c.caseNo, 'a' + saves++); facts += cat("synced ", before ? 1 : 0, "\npacket0 ", hasPacket ? 1 : 0, "\n"); if (!pk.empty()) hx(facts, "original", pk); for (int k = 0; k < 5; k++) if (m.v[k].has_value()) hx(facts, NM[k], *m.v[k]); if (m.hasKw) hx(facts, "Keywords", kwJoin(m.keywords)); if (m.create.has) facts += cat("CreationDate ", m.create.secs, " ", m.create.off ? m.create.min : 9999, "\n"); if (m.mod.has) facts += cat("ModDate ", m.mod.secs, " ", m.mod.off ? m.mod.min : 9999, "\n"); facts += "Trapped " + m.trapped + "\n" + cat("level ", (int)m.level, "\n"); hx(facts, "history", hist + what);
                    spill(c.artefacts + nm + ".pdf", s); spill(c.artefacts + nm + ".txt", facts);
                }
                if (!before)
                {   // values that were cleared without synchronising may come back from the packet: adopt what is reported
                    auto& q = doc->GetMetadata(); m.v[0] = str(q.GetTitle()); m.v[1] = str(q.GetAuthor()); m.v[2] = str(q.GetSubject()); m.v[3] = str(q.GetCreator()); m.v[4] = str(q.GetProducer()); m.keywords = q.GetKeywords(); m.hasKw = q.GetKeywordsRaw().has_value(); m.create = ofDate(q.GetCreationDate()); m.mod = ofDate(q.GetModifyDate()); m.level = q.GetPdfALevel(); hasPacket = doc->GetCatalog().GetMetadataStreamValue().size() != 0;
                }
            }
        }
        hist += what + "; "; if (r.chance(1, 2)) compare(c, *doc, m, true, hist); c.state(cat("m", op, hasPacket ? 1 : 0, synced ? 1 : 0, sync ? 1 : 0, what));
    }
}
}
int main(int argc, char** argv) { modes()["c28d"] = dates; modes()["c28"] = meta; return mon::main(argc, argv, meta); }
