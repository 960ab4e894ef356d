// C01 and C02: hostile files and payloads.
#include "mon.h"
#include "hostile.h"
#include "hostile_make.h"
using namespace mon;
using namespace mm;
using std::string; using std::vector;
namespace {
vector<string>& corpus(Ctx& c) { static vector<string> v; static bool done = false; if (!done) { done = true; if (!c.artefacts.empty()) { v = readDir(c.artefacts, ".pdf", 60000, 400); auto w = readDir(c.artefacts + "/crypt", ".pdf", 60000, 200); v.insert(v.end(), w.begin(), w.end()); } } return v; }
struct Buf { std::unique_ptr<char[]> p; size_t n; explicit Buf(const string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); } };
// evs need stable names
const char* intern(const char* s) { return s; }
struct EmptyDoc : PdfDocument { EmptyDoc() : PdfDocument(true) { } ~EmptyDoc() { } const PdfEncrypt* GetEncrypt() const override { return nullptr; } PdfVersion GetPdfVersion() const override { return PdfVersion::V1_7; } void SetPdfVersion(PdfVersion) override { } void init(const PdfParser& p) { SetTrailer(std::make_unique<PdfObject>(p.GetTrailer())); Init(); } };
void openAndVisit(Ctx& c, Rng& r, const string& file, bool canSave = true)
{
    Visitor v(r.next(), [&](const char* e) { c.ev(intern(e)); }, [&](const string& p) { c.phase(p); }); Buf b(file); static const vector<string> pws{ "", "", "", "user", "owner", "x", "\xC3\xA9", string(200, 'a') }; string pw = r.pick(pws); unsigned how = (unsigned)r.below(5); bool loaded = false;
    if (how == 4)
    {
        v.g("eager load", [&] { SpanStreamDevice dev(b.p.get(), b.n); EmptyDoc doc; auto& l = doc.GetObjects(); PdfParser p(l); p.SetPassword(pw); p.SetStrictParsing(r.chance(1, 3)); p.Parse(dev, false); doc.init(p); c.ev("eager loads"); unsigned n = 0; for (auto o : l) if (n++ < 2000) v.object(*o); loaded = true; });
    }
    else
    {
        PdfMemDocument d; std::shared_ptr<InputStreamDevice> dev;
        v.g("load", [&] { if (how == 3) { dev.reset(new SpanStreamDevice(b.p.get(), b.n)); d.LoadFromDevice(dev, pw); } else d.LoadFromBuffer(bufferview(b.p.get(), b.n), pw); loaded = true; });
        if (loaded) { c.ev("files loaded"); v.document(d); if (canSave && r.chance(1, 3)) v.save(d); if (r.chance(1, 10)) v.document(d); }
        else if (r.chance(1, 4)) { v.g("load again", [&] { d.LoadFromBuffer(bufferview(b.p.get(), b.n), ""); }); c.ev("loads tried again"); }
    }
    c.ev(loaded ? "files opened" : "files refused"); c.ev("steps with a result", v.ok); c.ev("steps refused", v.refused); c.state(cat("how ", how, " ", loaded, " ", v.lastRefusal, " ", std::min<uint64_t>(v.refused, 8)));
    if (!loaded) { c.state("refusal " + v.lastRefusal); c.ev(("refusal " + v.lastRefusal).c_str()); }
}
string rich(Rng& r) { Rich m(r); return m.build(); }
// a rich document after a pass through the library, sometimes protected or updated
string libraryFile(Ctx& c, Rng& r)
{
    auto& k = keptFiles(); k.clear(); string out;
    try { auto d = loadDoc(rich(r)); if (r.chance(1, 3)) { PdfEncryptAlgorithm al[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3, PdfEncryptAlgorithm::AESV3R6 }; unsigned i = (unsigned)r.below(5); d->SetEncrypted(r.chance(1, 2) ? "" : "user", "owner", PdfPermissions::Print, al[i], i == 0 ? PdfKeyLength::L40 : i < 3 ? PdfKeyLength::L128 : PdfKeyLength::L256); } out = saveDoc(*d, r); }
    catch (const PdfError&) { out = rich(r); }
    return out;
}
void c01(Ctx& c)
{
    auto& r = c.rng; auto& cs = corpus(c); string s; unsigned k = (unsigned)r.below(10); bool fromCorpus = false; c.phase("make");
    if (k < 4 && !cs.empty()) { s = r.pick(cs); fromCorpus = true; } else if (k < 8) s = rich(r); else s = libraryFile(c, r);
    vector<string> others{ s }; if (!cs.empty()) others.push_back(r.pick(cs)); string f; unsigned m = (unsigned)r.below(8);
    if (m == 0 && r.chance(1, 3)) { f = s; c.ev("files left alone"); } else if (m <= 3) { f = mutateBytes(r, s, others, 1 + (unsigned)r.below(r.chance(1, 4) ? 30 : 5)); c.ev("bytes mutated"); if (r.chance(2, 3)) { Pieces p = pieces(f); if (p.objs.size() > 3 && p.trailer.find("/Root") != string::npos) { f = assemble(p); c.ev("files put together again"); } } }
    else if (m == 4) { f = s; f.resize(r.below(s.size() + 1)); if (r.chance(1, 2)) f = f.substr(r.below(f.size() + 1)); c.ev("files cut"); } else if (m == 5 && r.chance(1, 2)) { f = r.chance(1, 2) ? "%PDF-1.4\n" : ""; for (unsigned q = (unsigned)r.below(60); q; q--) f += r.pick(tokensToInsert()) + (r.chance(1, 2) ? " " : "") + (r.chance(1, 3) ? r.pick(interestingNumbers()) : string()); f += "\nstartxref\n" + cat(r.below(60)) + "\n%%EOF"; c.ev("token soups"); }
    else { Pieces p = pieces(s); f = mutateObjects(r, p, others); if (r.chance(1, 4)) f = mutateBytes(r, f, others, 1); c.ev("objects mutated"); }
    c.ev(fromCorpus ? "from generated files" : "from rich files"); if (!c.artefacts.empty() && c.verbose) spill("/tmp/hostile.pdf", f); openAndVisit(c, r, f);
}
// ---- C02: payloads ---------------------------------------------------------------------------------------------
const vector<string>& samples(Rng& r)
{
    static const vector<string> names{ "Registry", "begincodespacerange", "endcodespacerange", "beginbfchar", "beginbfrange", "endbfrange", "endbfchar", "begincidrange", "usecmap", "def", "<0000> <FFFF>", "<00> <FF>", "<00000000> <FFFFFFFF>", "<>", "<0", "BI", "ID", "EI", "Tf", "Tj", "TJ", "'", "\"", "cm", "q Q", "BT", "ET", "Do", "/X1 Do", "gs", "sc", "scn", "/F1 1e30 Tf", "/F2 -1 Tf", "/F3 0 Tf", "0 0 0 0 0 0 cm", "99999999999999999999 0 0 1 0 0 Tm", "<?xpacket", "<rdf:li>", "</rdf:li>", "<rdf:Alt>", "<rdf:Seq>", "<rdf:Bag>", "xmlns:", "rdf:about=\"\"", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "&a;", "&#0;", "&#x1F600;", "<![CDATA[", "<x:xmpmeta>", "rdf:parseType=\"Resource\"", "\xFF\xFE", "\xC0\x80", "\xED\xA0\x80" }; (void)r; return names;
}
string change(Rng& r, const string& s, unsigned rounds)
{
    vector<string> others{ s, contentText(r, 5), cmapText(r, true) }; string o = mutateBytes(r, s, others, rounds); if (r.chance(1, 3)) { string t = r.pick(samples(r)); if (r.chance(1, 2)) t = " " + t + " "; o.insert(r.below(o.size() + 1), t); } return o;
}
void rawReader(Ctx& c, Rng& r, const string& s)
{
    Visitor v(r.next(), [&](const char* e) { c.ev(e); }, [&](const string& p) { c.phase(p); });
    v.g("content read", [&] { auto dev = std::make_shared<SpanStreamDevice>(s.data(), s.size()); PdfContentsReader rd(dev); PdfContent k; uint64_t n = 0; while (rd.TryReadNext(k)) { if (++n > 10 * s.size() + 100) c.die("endless-content", vis(s.substr(0, 300))); for (auto& x : k.Stack) (void)x.ToString(); if (k.InlineImageData.size() > s.size()) c.die("image data larger than content", vis(s.substr(0, 300))); } c.ev("content items read", n); });
}
void filterPayload(Ctx& c, Rng& r)
{
    Visitor v(r.next(), [&](const char* e) { c.ev(e); }, [&](const string& p) { c.phase(p); }); static const PdfFilterType types[] = { PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode, PdfFilterType::LZWDecode, PdfFilterType::FlateDecode, PdfFilterType::RunLengthDecode }; auto t = types[r.below(5)]; string plain = r.chance(1, 2) ? contentText(r, (unsigned)r.below(60)) : r.bytes(r.below(3000)), enc;
    auto f = PdfFilterFactory::Create(t); charbuff e; if (f->CanEncode()) { f->EncodeTo(e, bufferview(plain.data(), plain.size())); enc.assign(e.data(), e.size()); } else enc = codec::lzwEncode(r, plain, r.chance(1, 2));
    enc = r.chance(1, 4) ? r.bytes(r.below(300)) : mutateBytes(r, enc, { enc }, (unsigned)r.below(4)); PdfDictionary parms; bool has = r.chance(2, 3); auto num = [&] { string n = r.chance(1, 2) ? std::to_string(r.below(40)) : r.pick(interestingNumbers()); return (int64_t)strtoll(n.c_str(), nullptr, 10); };
    if (has) { if (r.chance(3, 4)) parms.AddKey("Predictor", PdfObject((int64_t)(r.chance(3, 4) ? 10 + r.below(6) : r.chance(1, 2) ? 2 : num()))); if (r.chance(1, 2)) parms.AddKey("Columns", PdfObject(num())); if (r.chance(1, 2)) parms.AddKey("Colors", PdfObject(r.chance(1, 2) ? (int64_t)r.below(6) : num())); if (r.chance(1, 2)) parms.AddKey("BitsPerComponent", PdfObject(r.chance(2, 3) ? (int64_t)(1 << r.below(6)) : num())); if (r.chance(1, 3)) parms.AddKey("EarlyChange", PdfObject((int64_t)r.below(3))); if (r.chance(1, 10)) parms.AddKey("Columns", PdfObject(PdfString("x"))); }
    string out; bool ok = v.g("filter decoded", [&] { charbuff b; if (r.chance(1, 2)) f->DecodeTo(b, bufferview(enc.data(), enc.size()), has ? &parms : nullptr); else { StringStreamDevice dev(b); f->BeginDecode(dev, has ? &parms : nullptr); for (size_t at = 0; at < enc.size();) { size_t n = std::min<size_t>(enc.size() - at, 1 + r.below(60)); f->DecodeBlock(bufferview(enc.data() + at, n)); at += n; } f->EndDecode(); } out.assign(b.data(), b.size()); }); c.ev(ok ? "filter payloads decoded" : "filter payloads refused"); c.state(cat("filter ", (int)t, ok, has));
}
void strings(Ctx& c, Rng& r)
{
    Visitor v(r.next(), [&](const char* e) { c.ev(e); }, [&](const string& p) { c.phase(p); }); string s = change(r, dateText(r), 1 + (unsigned)r.below(4)), w = change(r, "2020-01-02T03:04:05+01:00", 1 + (unsigned)r.below(4)); if (s.size() > 2000) s.resize(2000); c.phase("dates " + vis(s));
    v.g("date", [&] { PdfDate d; if (PdfDate::TryParse(s, d)) { c.ev("dates read"); (void)d.ToString(); (void)d.ToStringW3C(); (void)d.GetSecondsFromEpoch(); } }); v.g("date", [&] { (void)PdfDate::Parse(s); }); v.g("W3C date", [&] { PdfDate d; if (PdfDate::TryParseW3C(w, d)) { c.ev("dates read"); (void)d.ToString(); (void)d.ToStringW3C(); } }); v.g("W3C date", [&] { (void)PdfDate::ParseW3C(w); });
    string b = (r.chance(1, 3) ? "\xFE\xFF" : r.chance(1, 2) ? "\xFF\xFE" : r.chance(1, 2) ? "\xEF\xBB\xBF" : "") + r.bytes(r.below(20)); v.g("text of bytes", [&] { auto x = PdfString::FromRaw(bufferview(b.data(), b.size())); (void)x.GetString(); (void)x.ToString(); }); v.g("name of bytes", [&] { auto x = PdfName::FromRaw(bufferview(b.data(), b.size())); (void)x.GetString(); (void)x.ToString(); }); v.g("name of escaped bytes", [&] { auto x = PdfName::FromEscaped(s); (void)x.GetString(); }); v.g("colour", [&] { (void)PdfColor::FromString(r.chance(1, 2) ? s : "#" + hex(r.bytes(r.below(6)))); });
    v.g("colour array", [&] { PdfArray a; for (unsigned q = (unsigned)r.below(6); q; q--) a.Add(r.chance(1, 5) ? PdfObject(PdfName("x")) : PdfObject(r.unit() * 4 - 1)); PdfColor k; (void)PdfColor::TryCreateFromArray(a, k); }); c.ev("strings tried");
}
void metadataText(Ctx& c, Rng& r)
{
    string s = change(r, xmpText(r), (unsigned)r.below(6)); Visitor v(r.next(), [&](const char* e) { c.ev(e); }, [&](const string& p) { c.phase(p); });
    v.g("packet", [&] { auto p = PdfXMPPacket::Create(s); if (p) { c.ev("packets read"); (void)p->ToString(); } });
    v.g("metadata", [&] { PdfMemDocument d; d.GetCatalog().SetMetadataStreamValue(s); auto& m = d.GetMetadata(); (void)m.GetTitle(); (void)m.GetKeywords(); (void)m.GetPdfALevel(); if (r.chance(1, 2)) m.SetTitle(PdfString("t")); if (r.chance(1, 2)) m.SetCreationDate(PdfDate()); if (r.chance(1, 2)) m.SetPdfALevel(PdfALevel::L2B); m.SyncXMPMetadata(r.chance(1, 2)); charbuff b; StringStreamDevice dev(b); d.Save(dev); c.ev("metadata saved"); });
}
void c02(Ctx& c)
{
    auto& r = c.rng; c.phase("make"); unsigned k = (unsigned)r.below(12);
    if (k < 2) { for (unsigned n = 1 + (unsigned)r.below(10); n; n--) rawReader(c, r, change(r, contentText(r, (unsigned)r.below(30)), 1 + (unsigned)r.below(6))); return; }
    if (k == 2) { for (unsigned n = 30; n; n--) filterPayload(c, r); return; } if (k == 3) { for (unsigned n = 20; n; n--) strings(c, r); return; } if (k == 4) { for (unsigned n = 3; n; n--) metadataText(c, r); return; }
    Rich m(r); unsigned some = 1 + (unsigned)r.below(4); m.change = [&](const string& s) { if (r.below(4) >= some) return s; c.ev("payloads changed"); if (s.size() > 3000 && r.chance(2, 3)) { string o = s; for (unsigned q = 1 + (unsigned)r.below(8); q; q--) { size_t at = r.chance(1, 2) ? r.below(400) : r.below(o.size()); o[at] = r.chance(1, 2) ? (char)r.next() : (char)(r.chance(1, 2) ? 0 : 255); } return o; } return change(r, s, 1 + (unsigned)r.below(4)); };
    string f = m.build(); m.change = nullptr; static const vector<string> roles{ "font0", "font1", "font2", "font3", "font4", "descriptor", "cidfont", "image", "resources", "form", "ap", "page" };
    for (auto& x : roles) if (m.payload.count(x) && r.chance(1, 5)) { auto& o = m.p.objs[m.payload[x]]; size_t e = o.find("stream"); string head = o.substr(0, e), tail = e == string::npos ? "" : o.substr(e); o = mutateBytes(r, head, { head, "/Widths[1 2]", "/W[1[2] 3 4 5]", "/Differences[1/a 255/b/c 300/d]", "/Decode[0 0]", "/DecodeParms<</Columns 0/Predictor 12>>" }, 1 + (unsigned)r.below(3), 100000) + tail; c.ev("dictionaries changed"); }
    f = m.p.file(m.root, m.trailer); if (!c.artefacts.empty() && c.verbose) spill("/tmp/hostile.pdf", f); openAndVisit(c, r, f);
}
}
int main(int argc, char** argv)
{
    modes()["c01"] = c01; modes()["c02"] = c02; return mon::main(argc, argv, c01);
}
