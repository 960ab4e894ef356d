// C03/C04: save and reload;  C05: incremental updates;  C08: files of every layout
#include "mon.h"
#include "model.h"
#include <sstream>
#include <functional>
using namespace mon; using namespace mm; using std::string;
typedef std::map<string, string> Canon;

static string diffCanon(const Canon& want, const Canon& got)
{
    string s; int n = 0;
    for (auto& w : want) { auto it = got.find(w.first); if (it == got.end()) s += cat("missing ", w.first, " (", w.second.substr(0, 150), "); "); else if (it->second != w.second) { size_t i = 0; while (i < w.second.size() && i < it->second.size() && w.second[i] == it->second[i]) i++; i = i > 30 ? i - 30 : 0; s += cat("object ", w.first, ": expected ...", w.second.substr(i, 160), " got ...", it->second.substr(i, 160), "; "); } else continue; if (++n > 2) return s; }
    for (auto& g : got) if (!want.count(g.first)) { s += cat("unexpected ", g.first, " (", g.second.substr(0, 150), "); "); if (++n > 4) return s; }
    return s;
}
static bool isHelper(const PdfObject& o)
{
    if (!o.IsDictionary()) return false; auto t = o.GetDictionary().GetKey("Type");
    return t && t->IsName() && (t->GetName() == "XRef" || t->GetName() == "ObjStm") && o.GetStream();
}
// canonical text of all objects, visited in random order
static Canon canonList(const PdfIndirectObjectList& l, Rng* r = nullptr)
{
    std::vector<PdfObject*> v; for (auto o : l) v.push_back(o);
    if (r) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r->below(i)]);
    Canon m;
    for (auto o : v) { if (isHelper(*o)) continue; auto ref = o->GetIndirectReference(); m[cat(ref.ObjectNumber(), ".", ref.GenerationNumber())] = canonObj(*o); }
    return m;
}

// ---------------------------------------------------------------- C08
struct Exp { Canon objs; std::map<string, string> facts; };
static Exp readExp(const string& path)
{
    Exp e; string t = slurp(path); size_t p = 0;
    while (p < t.size()) { size_t q = t.find('\n', p); string l = t.substr(p, q - p); p = q + 1; size_t s = l.find(' '); if (isdigit((unsigned char)l[0])) e.objs[l.substr(0, s)] = l.substr(s + 1); else e.facts[l.substr(0, s)] = l.substr(s + 1); }
    return e;
}
struct SlowDevice : StandardStreamDevice   // a device over an ordinary stream
{
    SlowDevice(std::istream& s) : StandardStreamDevice(s) { }
};
static void c08(Ctx& c)
{
    char nm[32]; snprintf(nm, 32, "/g%06llu", (unsigned long long)c.caseNo); string base = c.artefacts + nm; if (access((base + ".pdf").c_str(), R_OK)) { fprintf(stderr, "no %s\n", base.c_str()); exit(2); }
    string file = slurp(base + ".pdf"); Exp e = readExp(base + ".exp"); Rng& r = c.rng; string kinds = e.facts["kinds"];
    auto cmp = [&](const Canon& got, const char* how) { string d = diffCanon(e.objs, got); if (!d.empty()) c.die(cat("graph-", how), cat(kinds, " ", d)); c.ev("objects compared", got.size()); };
    string root = e.facts["trailer"].substr(5);
    for (int how = 0; how < 4; how++)
    {
        try
        {
            if (how == 0) { c.phase("on demand"); PdfMemDocument d; d.LoadFromBuffer(bufferview(file.data(), file.size())); cmp(canonList(d.GetObjects(), &r), "demand"); auto rr = d.GetCatalog().GetObject().GetIndirectReference(); if (cat(rr.ObjectNumber(), ".", rr.GenerationNumber()) != root) c.die("catalog", kinds);
                // what is gone stays invisible, whichever way it is asked for
                unsigned maxn = 0; for (auto& o : e.objs) maxn = std::max(maxn, (unsigned)std::stoul(o.first));
                for (unsigned k = 0; k < 30; k++) { unsigned n = 1 + r.below(maxn + 3), g = r.below(4); auto o = d.GetObjects().GetObject(PdfReference(n, (uint16_t)g)); if (o && isHelper(*o)) continue; if ((o != nullptr) != (e.objs.count(cat(n, ".", g)) != 0)) c.die("visibility", cat(kinds, " object ", n, ".", g, o ? " visible" : " not visible")); c.ev("lookups"); } }
            else if (how == 1) { c.phase("eager"); PdfMemDocument owner; auto& l = owner.GetObjects(); l.Clear(); PdfParser p(l); SpanStreamDevice dev(file.data(), file.size()); p.Parse(dev, false); cmp(canonList(l, &r), "eager"); }
            else if (how == 2 && r.chance(1, 4)) { c.phase("file"); PdfMemDocument d; d.Load(base + ".pdf"); cmp(canonList(d.GetObjects(), &r), "file"); c.ev("loads from a file"); }
            else if (how == 3 && r.chance(1, 4)) { c.phase("stream"); std::istringstream is(file); auto dev = std::make_shared<SlowDevice>(is); PdfMemDocument d; d.LoadFromDevice(dev); PdfMemDocument copy(d); cmp(canonList(copy.GetObjects(), &r), "copy"); cmp(canonList(d.GetObjects(), &r), "stream"); c.ev("loads from a stream"); }
            else continue;
        }
        catch (PdfError&) { c.die(cat("refused-", how), cat(kinds, " ", excText())); }
        c.ev("loads"); if (how == 1) c.ev("eager loads");
    }
    c.ev("files"); size_t nrev = 1 + std::count(kinds.begin(), kinds.end(), ','); c.ev("revisions", nrev); if (kinds.find("hybrid") != string::npos) c.ev("files with hybrid sections"); if (kinds.find("stream") != string::npos) c.ev("files with cross-reference streams"); if (kinds.find("table") != string::npos) c.ev("files with tables");
    c.state(cat(kinds, e.objs.size())); if (r.chance(1, 200)) c.sample(kinds);
}

// ---------------------------------------------------------------- documents under edit
typedef std::pair<unsigned, unsigned> Ref;
static string rs(Ref r) { return cat(r.first, ".", r.second); }
static Ref refOf(const PdfObject& o) { return { o.GetIndirectReference().ObjectNumber(), o.GetIndirectReference().GenerationNumber() }; }
static PdfReference pr(Ref r) { return PdfReference(r.first, (uint16_t)r.second); }
struct Edit
{
    Ctx& c; Rng& r; PdfMemDocument* d = nullptr; Canon model; std::set<string> touched; std::vector<Ref> mine; std::map<string, Val> vals; std::map<string, string> data;
    Edit(Ctx& c) : c(c), r(c.rng) { }
    PdfIndirectObjectList& l() { return d->GetObjects(); }
    GenOpt opt() { GenOpt o; for (int k = 0; k < 4 && mine.size(); k++) o.refs.push_back(mine[r.below(mine.size())]); o.refs.push_back({ (unsigned)(1 + r.below(60)), 0 }); return o; }
    string want(const string& k) { string s = canon(vals[k]); auto it = data.find(k); if (it != data.end()) s += cat(" stream ", it->second.size(), " ", md5hex(it->second)); return s; }
    void put(const string& k) { model[k] = want(k); touched.insert(k); }
    static bool reserved(const string& k) { return k == "Length" || k == "Filter" || k == "DecodeParms" || k == "F" || k == "FFilter" || k == "FDecodeParms" || k == "DL" || k == "Type" || k == "Parent" || k == "MonLinks"; }
    // names are built from text: characters without a PDFDocEncoding code are refused
    static void clean(string& n) { for (auto& ch : n) if ((ch >= 0x16 && ch < 0x20) || ch == 0x7F) ch = '#'; }
    static void clean(Val& v) { if (v.k == Val::Name) clean(v.s); for (auto& x : v.a) clean(x); std::map<string, Val> d; for (auto& x : v.d) { string n = x.first; clean(n); clean(x.second); d[n] = x.second; } v.d = d; }
    string name(bool key) { string n = genName(r, opt(), key); clean(n); return n; }
    Val gen(int depth, bool dict) { Val v; do v = genVal(r, opt(), depth); while (dict && v.k != Val::Dict); clean(v); for (auto it = v.d.begin(); it != v.d.end();) if (reserved(it->first)) it = v.d.erase(it); else ++it; return v; }
    string bytesOf() { string s = r.chance(1, 4) ? r.bytes(r.below(5000)) : r.chance(1, 3) ? string("BT /F1 12 Tf (endstream endobj) Tj\nendstream\n") : genBytes(r, 300); if (r.chance(1, 6)) s += r.chance(1, 2) ? "\r" : "\n"; return s; }
    void setStream(PdfObject& o, const string& k)
    {
        string s = data[k] = bytesOf(); auto& st = o.GetOrCreateStream(); unsigned how = r.below(5); bufferview b(s.data(), s.size());
        static const std::vector<PdfFilterType> fs{ PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode, PdfFilterType::FlateDecode, PdfFilterType::RunLengthDecode, PdfFilterType::LZWDecode };
        if (how == 0) st.SetData(b);
        else if (how == 1) { PdfFilterList f; unsigned n = r.below(4); for (unsigned i = 0; i < n; i++) f.push_back(fs[r.below(3)]); st.SetData(b, f); }
        else if (how == 2) { auto os = st.GetOutputStream(); for (size_t p = 0; p < s.size();) { size_t n = std::min<size_t>(s.size() - p, 1 + r.below(700)); os.Write(s.data() + p, n); p += n; } }
        else if (how == 3) { SpanStreamDevice dev(s.data(), s.size()); st.SetData(dev); }
        else { { auto os = st.GetOutputStream(PdfFilterList{}); size_t h = s.size() / 2; if (h) os.Write(s.data(), h); } { auto os = st.GetOutputStream(PdfFilterList{}, true); if (s.size() > s.size() / 2) os.Write(s.data() + s.size() / 2, s.size() - s.size() / 2); } }
        c.ev("stream contents set");
    }
    void create()
    {
        bool str = r.chance(1, 3); Val v = gen(3, str || r.chance(1, 2)); PdfObject* o;
        if (v.k == Val::Dict && r.chance(1, 2)) { o = &l().CreateDictionaryObject(); for (auto& x : v.d) o->GetDictionary().AddKey(PdfName(x.first), toObj(x.second)); }
        else o = &l().CreateObject(toObj(v));
        Ref ref = refOf(*o); string k = rs(ref); vals[k] = v; data.erase(k); if (str) setStream(*o, k);
        mine.push_back(ref); put(k); c.ev("objects created");
    }
    // a random place inside a value: returns the model value and the library object
    void change()
    {
        if (mine.empty()) return create(); Ref ref = mine[r.below(mine.size())]; string k = rs(ref); PdfObject* o = l().GetObject(pr(ref)); c.require(o != nullptr, "object-lost", k);
        Val* v = &vals[k]; PdfObject* at = o; string path; unsigned deep = 0;
        if (o->HasStream() && r.chance(1, 3)) { setStream(*o, k); put(k); c.ev("changes of a stream"); return; }
        while (r.chance(3, 4))
        {
            if (v->k == Val::Dict && v->d.size()) { auto it = v->d.begin(); std::advance(it, r.below(v->d.size())); PdfObject* n = r.chance(1, 2) ? at->GetDictionary().GetKey(PdfName(it->first)) : &at->GetDictionary().MustGetKey(PdfName(it->first)); c.require(n != nullptr, "key-lost", k + path); at = n; v = &it->second; path += "/" + it->first; }
            else if (v->k == Val::Arr && v->a.size()) { size_t i = r.below(v->a.size()); at = r.chance(1, 2) ? &at->GetArray()[(unsigned)i] : &*(at->GetArray().begin() + i); v = &v->a[i]; path += cat("[", i, "]"); }
            else break;
            deep++;
        }
        c.ev(cat("change at depth ", std::min(deep, 4u)).c_str());
        bool top = at == o;
        if (v->k == Val::Dict)
        {
            auto& dd = at->GetDictionary(); unsigned how = r.below(5);
            if (how == 0 && v->d.size()) { auto it = v->d.begin(); std::advance(it, r.below(v->d.size())); dd.RemoveKey(PdfName(it->first)); v->d.erase(it); }
            else if (how == 1 && !(top && o->HasStream())) { dd.Clear(); v->d.clear(); }
            else { string n = name(true); if (reserved(n)) n = "Mon"; Val x = gen(1, false); if (x.k == Val::Null) x = Val::integer(3); if (how == 2) dd.AddKey(PdfName(n), toObj(x)); else if (how == 3) { auto y = toObj(x); dd.AddKey(PdfName(n), std::move(y)); } else dd.AddKeyIndirectSafe(PdfName(n), toObj(x)); v->d[n] = x; }
        }
        else if (v->k == Val::Arr)
        {
            auto& aa = at->GetArray(); unsigned how = r.below(8); Val x = gen(1, false); size_t n = v->a.size();
            if (how == 0 && n) { size_t i = r.below(n); aa.RemoveAt((unsigned)i); v->a.erase(v->a.begin() + i); }
            else if (how == 1) { aa.Clear(); v->a.clear(); }
            else if (how == 2 && n) { size_t i = r.below(n); aa.erase(aa.begin() + i); v->a.erase(v->a.begin() + i); }
            else if (how == 3) { size_t i = r.below(n + 1); aa.insert(aa.begin() + i, toObj(x)); v->a.insert(v->a.begin() + i, x); }
            else if (how == 4 && n) { size_t i = r.below(n); aa.SetAt((unsigned)i, toObj(x)); v->a[i] = x; }
            else if (how == 5) { size_t m = r.below(8); aa.Resize((unsigned)m); v->a.resize(m, Val::dict()); }
            else if (how == 6 && n) { size_t i = r.below(n); Val y = Val::integer(genInt(r)); aa[(unsigned)i] = PdfObject(y.i); v->a[i] = y; }
            else { aa.Add(toObj(x)); v->a.push_back(x); }
        }
        else if (v->k == Val::Bool && r.chance(1, 2)) { v->b = !v->b; at->SetBool(v->b); }
        else if (v->k == Val::Int && r.chance(1, 2)) { v->i = genInt(r); at->SetNumber(v->i); }
        else if (v->k == Val::Real && r.chance(1, 2)) { v->r = genReal(r); at->SetReal(v->r); }
        else if (v->k == Val::Name && r.chance(1, 2)) { v->s = name(false); at->SetName(PdfName(v->s)); }
        else if (v->k == Val::Str && r.chance(1, 2)) { v->s = genBytes(r, 30); at->SetString(PdfString::FromRaw(bufferview(v->s.data(), v->s.size()))); }
        else if (v->k == Val::Ref && r.chance(1, 2)) { v->i = 1 + (int64_t)r.below(50); v->g = 0; at->SetReference(PdfReference((unsigned)v->i, 0)); }
        else if (!(top && o->HasStream())) { Val x = gen(2, false); *at = toObj(x); *v = x; if (top && refOf(*o) != ref) c.die("assignment-changed-identity", k); if (path.size() && v->k == Val::Null) { Val y = Val::integer(5); *at = toObj(y); *v = y; } }
        put(k); c.ev("changes");
    }
    void remove()
    {
        if (mine.empty()) return; size_t i = r.below(mine.size()); Ref ref = mine[i]; string k = rs(ref); auto o = l().RemoveObject(pr(ref)); c.require(o != nullptr, "remove", k);
        mine.erase(mine.begin() + i); vals.erase(k); data.erase(k); model.erase(k); touched.erase(k); c.ev("objects removed");
    }
    // all live objects of mine become reachable
    void link()
    {
        PdfArray a; for (auto m : mine) a.Add(PdfObject(pr(m))); auto& cat = d->GetCatalog().GetObject(); cat.GetDictionary().AddKey("MonLinks", a); touch(cat);
    }
    void touch(const PdfObject& o) { string k = rs(refOf(o)); model[k] = canonObj(o); touched.insert(k); }
    PdfMetadata& meta() { return d->GetMetadata(); }
    void step() { unsigned op = r.below(10); c.phase("edit"); if (op < 4) create(); else if (op < 8) change(); else remove(); }
    void adoptAll() { model = canonList(l()); }
};
static PdfVersion anyVersion(Rng& r) { static const PdfVersion v[] = { PdfVersion::V1_0, PdfVersion::V1_1, PdfVersion::V1_2, PdfVersion::V1_3, PdfVersion::V1_4, PdfVersion::V1_5, PdfVersion::V1_6, PdfVersion::V1_7, PdfVersion::V2_0 }; return v[r.below(9)]; }
static PdfSaveOptions anyOptions(Rng& r, string& name)
{
    PdfSaveOptions o = PdfSaveOptions::None;
    if (r.chance(1, 2)) { o |= PdfSaveOptions::NoFlateCompress; name += " nocompress"; }
    if (r.chance(1, 2)) { o |= PdfSaveOptions::NoCollectGarbage; name += " nogc"; }
    if (r.chance(1, 2)) { o |= PdfSaveOptions::NoModifyDateUpdate; name += " nodate"; }
    if (r.chance(1, 2)) { o |= PdfSaveOptions::Clean; name += " clean"; }
    return o;
}
static bool has(PdfSaveOptions o, PdfSaveOptions f) { return (o & f) != PdfSaveOptions::None; }
static string saveSomewhere(Ctx& c, PdfMemDocument& d, PdfSaveOptions o, string& dev)
{
    unsigned how = (unsigned)c.rng.below(5); string out;
    if (how == 0) { dev = "string"; StringStreamDevice s(out); d.Save(s, o); }
    else if (how == 1) { dev = "vector"; std::vector<char> v; VectorStreamDevice s(v); d.Save(s, o); out.assign(v.begin(), v.end()); }
    else if (how == 2) { dev = "file"; string p = c.scratch + "/out.pdf"; d.Save(p, o); out = slurp(p); unlink(p.c_str()); }
    else if (how == 3) { dev = "ostream"; std::ostringstream os; StandardStreamDevice s(os); d.Save(s, o); out = os.str(); }
    else { dev = "buffer"; charbuff b; BufferStreamDevice s(b); d.Save(s, o); out.assign(b.data(), b.size()); }
    return out;
}
static void writeFile(const string& p, const string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { perror(p.c_str()); exit(2); } }
static void artefact(Ctx& c, const string& tag, const string& file, const Canon& want, const string& facts)
{
    if (c.artefacts.empty()) return; char nm[40]; snprintf(nm, 40, "/s%06llu%s", (unsigned long long)c.caseNo, tag.c_str()); string b = c.artefacts + nm;
    writeFile(b + ".pdf", file); string t = facts; for (auto& w : want) { string v = w.second; for (size_t p; (p = v.find("/636166c3a9")) != string::npos;) v.replace(p, 11, "/636166e9"); t += w.first + " " + v + "\n"; } /* names are stored in PDFDocEncoding */ writeFile(b + ".exp", t); c.ev("files for the strict reader");
}
static string versionName(PdfVersion v) { static const char* n[] = { "?", "1.0", "1.1", "1.2", "1.3", "1.4", "1.5", "1.6", "1.7", "2.0" }; static const PdfVersion v_[] = { PdfVersion::V1_0, PdfVersion::V1_1, PdfVersion::V1_2, PdfVersion::V1_3, PdfVersion::V1_4, PdfVersion::V1_5, PdfVersion::V1_6, PdfVersion::V1_7, PdfVersion::V2_0 }; for (int i = 0; i < 9; i++) if (v_[i] == v) return n[i + 1]; return n[0]; }
static bool corpusFile(Ctx& c, string& file)
{
    char nm[32]; snprintf(nm, 32, "/g%06llu.pdf", (unsigned long long)c.caseNo); string p = c.artefacts + nm; if (c.artefacts.empty() || access(p.c_str(), R_OK)) return false; file = slurp(p); return true;
}
static void c03(Ctx& c)
{
    Rng& r = c.rng; PdfMemDocument doc; Edit e(c); e.d = &doc; string src = "new", image;
    if (r.chance(1, 3) && corpusFile(c, image)) { c.phase("load"); doc.LoadFromBuffer(bufferview(image.data(), image.size())); src = "loaded"; c.ev("loaded documents"); }
    else if (r.chance(1, 4)) { doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); }
    e.adoptAll(); if (r.chance(1, 6)) doc.GetObjects().SetCanReuseObjectNumbers(false);
    unsigned n = r.chance(1, 40) ? 400 + r.below(400) : r.below(60); for (unsigned i = 0; i < n; i++) e.step();
    if (r.chance(1, 2)) { auto v = anyVersion(r); e.meta().SetPdfVersion(v); e.touch(doc.GetCatalog().GetObject()); c.ev("versions chosen"); }
    e.link(); c.phase("model"); string df = diffCanon(e.model, canonList(doc.GetObjects(), &r)); c.require(df.empty(), "memory-model", df);
    unsigned saves = 1 + r.below(3); string how;
    for (unsigned k = 0; k < saves; k++)
    {
        string on, dev; auto o = anyOptions(r, on); c.phase("save" + on); string out;
        string version = versionName(e.meta().GetPdfVersion());
        try { out = saveSomewhere(c, doc, o, dev); } catch (PdfError&) { c.die("save-refused", src + on + " " + excText()); }
        how = src + on + " to " + dev; c.ev("saves"); c.ev(("save to " + dev).c_str()); c.phase("after " + how);
        Canon after = canonList(doc.GetObjects(), &r), expect = e.model;
        // a save with a new date touches the Info and metadata objects; garbage may have been removed
        if (!has(o, PdfSaveOptions::NoModifyDateUpdate)) { auto info = doc.GetTrailer().GetDictionary().FindKey("Info"); c.require(info != nullptr, "no-info", how); e.touch(*info); e.touch(doc.GetCatalog().GetObject()); if (auto m = doc.GetCatalog().GetDictionary().FindKey("Metadata")) e.touch(*m); expect = e.model; }
        if (!has(o, PdfSaveOptions::NoCollectGarbage)) { for (auto it = expect.begin(); it != expect.end();) if (!after.count(it->first) && std::none_of(e.mine.begin(), e.mine.end(), [&](Ref q) { return rs(q) == it->first; })) { c.ev("collected"); it = expect.erase(it); } else ++it; e.model = expect; }
        df = diffCanon(expect, after); c.require(df.empty(), "save-changed-memory", how + ": " + df);
        c.phase("reload " + how); PdfMemDocument d2;
        try { d2.LoadFromBuffer(bufferview(out.data(), out.size())); df = diffCanon(expect, canonList(d2.GetObjects(), &r)); } catch (PdfError&) { c.die("reload-refused", how + " " + excText()); }
        c.require(df.empty(), "reloaded-graph", how + ": " + df); c.ev("objects compared", expect.size());
        auto root = [](PdfMemDocument& d, const char* k) { auto o = d.GetTrailer().GetDictionary().GetKey(k); return o ? canonObj(*o) : string("-"); };
        for (auto k : { "Root", "Info" }) c.require(root(doc, k) == root(d2, k), cat("trailer-", k), how);
        c.require(out.compare(0, 8, "%PDF-" + version) == 0, "header-version", cat(how, " expected ", version, " have ", out.substr(0, 8)));
        c.require(versionName(d2.GetMetadata().GetPdfVersion()) == version, "reloaded-version", cat(how, " saved ", version, " reloaded ", versionName(d2.GetMetadata().GetPdfVersion())));
        artefact(c, string(1, (char)('a' + k)), out, expect, "version " + version + "\ntrailer Root " + root(doc, "Root") + "\nhow " + how + "\n");
        if (k + 1 < saves) { unsigned m = r.below(6); for (unsigned i = 0; i < m; i++) e.step(); e.link(); }
        c.state(cat(how, e.model.size()));
    }
    c.ev("documents"); if (r.chance(1, 400)) c.sample(how);
}

// ---------------------------------------------------------------- C05
static Canon loadCanon(const string& file, Rng* r = nullptr) { PdfMemDocument d; d.LoadFromBuffer(bufferview(file.data(), file.size())); return canonList(d.GetObjects(), r); }
static void c05(Ctx& c)
{
    Rng& r = c.rng; string file, src; Edit e(c); std::unique_ptr<PdfMemDocument> doc; std::vector<std::pair<size_t, Canon>> revs;
    if (r.chance(2, 3) && corpusFile(c, file)) { size_t h = file.find("%PDF-"); src = h ? "corpus file with leading bytes" : "corpus file"; }
    else
    {
        c.phase("first save"); PdfMemDocument d; Edit b(c); b.d = &d; b.adoptAll(); for (unsigned i = r.below(20); i; i--) b.step(); b.link(); if (r.chance(1, 2)) b.meta().SetPdfVersion(anyVersion(r)); string n; file = saveToString(d, anyOptions(r, n)); src = "saved file";
        if (r.chance(1, 8)) { file = "junk\n" + file; src += " with leading bytes"; }
    }
    c.ev(src.c_str());
    std::vector<PdfMemDocument*> kept; unsigned rounds = 1 + r.below(4); string hist = src; bool fresh = true;
    for (unsigned k = 0; k < rounds; k++)
    {
        if (fresh)
        {
            c.phase("load " + hist); string path = c.scratch + "/u.pdf"; doc.reset(new PdfMemDocument());
            try { doc->LoadFromBuffer(bufferview(file.data(), file.size())); } catch (PdfError&) { c.die("load-refused", hist + " " + excText()); }
            e.d = doc.get(); e.mine.clear(); e.vals.clear(); e.data.clear(); e.adoptAll(); if (revs.empty()) revs.push_back({ file.size(), e.model });
            else { string df = diffCanon(revs.back().second, e.model); c.require(df.empty(), "chain-load", hist + " " + df); }
            if (r.chance(1, 8)) e.l().SetCanReuseObjectNumbers(false);
        }
        string base = file; e.touched.clear(); Canon start = e.model; std::set<string> before; for (auto& m : e.model) before.insert(m.first);
        // reading must not count as changing
        if (r.chance(1, 2)) { for (auto o : e.l()) { if (o->IsDictionary()) for (auto& x : o->GetDictionary()) { x.second.GetDataType(); o->GetDictionary().FindKey(x.first); o->GetDictionary().GetKey(x.first); } o->ToString(); if (r.chance(1, 3)) { if (auto s = o->GetStream()) s->GetCopySafe(); } } c.ev("read before an update"); }
        std::set<Ref> support; PdfMemDocument probe; probe.LoadFromBuffer(bufferview(file.data(), file.size())); for (auto o : probe.GetObjects()) if (o->IsDictionary()) for (auto k : { "Length", "Filter", "DecodeParms" }) if (auto v = o->GetDictionary().GetKey(k)) { std::function<void(const PdfObject&)> f = [&](const PdfObject& x) { if (x.IsReference()) { auto y = probe.GetObjects().GetObject(x.GetReference()); if (y && support.insert(refOf(*y)).second) f(*y); } else if (x.IsArray()) for (auto& z : x.GetArray()) f(z); else if (x.IsDictionary()) for (auto& z : x.GetDictionary()) f(z.second); }; f(*v); }
        // values of loaded objects become editable too
        std::vector<PdfObject*> loaded; for (auto o : e.l()) if (!isHelper(*o) && !support.count(refOf(*o))) loaded.push_back(o);
        unsigned n = r.chance(1, 8) ? 0 : r.below(14);
        for (unsigned i = 0; i < n; i++)
        {
            if (loaded.size() && r.chance(1, 3))
            {
                c.phase("edit loaded"); auto o = loaded[r.below(loaded.size())]; Ref ref = refOf(*o); if (!e.l().GetObject(pr(ref)) || e.l().GetObject(pr(ref)) != o) continue; string key = rs(ref); bool root = o == &doc->GetCatalog().GetObject();
                PdfObject* at = o; int depth = 0;
                while (r.chance(4, 5)) { if (at->IsDictionary() && at->GetDictionary().GetSize()) { auto it = at->GetDictionary().begin(); std::advance(it, r.below(at->GetDictionary().GetSize())); if (!Edit::reserved(string(it->first.GetString())) && (it->second.IsDictionary() || it->second.IsArray())) at = &it->second; else break; } else if (at->IsArray() && at->GetArray().GetSize()) { auto& x = at->GetArray()[r.below(at->GetArray().GetSize())]; if (x.IsDictionary() || x.IsArray()) at = &x; else break; } else break; depth++; }
                if (o->HasStream() && r.chance(1, 4)) { string s = e.bytesOf(); o->GetOrCreateStream().SetData(bufferview(s.data(), s.size())); c.ev("loaded stream replaced"); }
                else if (at->IsDictionary()) { at->GetDictionary().AddKey("MonEdit", PdfObject((int64_t)r.below(1000000))); }
                else if (at->IsArray()) { unsigned how = r.below(3); auto& a = at->GetArray(); if (how == 0 || !a.GetSize()) a.Add(PdfObject((int64_t)r.below(1000000))); else if (how == 1) a.RemoveAt(r.below(a.GetSize())); else a.begin()->operator=(PdfObject((int64_t)r.below(1000000))); }
                else if (!root) { *at = PdfObject((int64_t)r.below(1000000)); }
                else continue;
                e.touch(*o); e.mine.erase(std::remove(e.mine.begin(), e.mine.end(), ref), e.mine.end()); c.ev("loaded objects changed"); if (depth) c.ev("loaded objects changed in depth");
            }
            else if (loaded.size() && r.chance(1, 12))
            {
                c.phase("remove loaded"); size_t x = r.below(loaded.size()); auto o = loaded[x]; Ref ref = refOf(*o); string key = rs(ref); auto isRef = [&](const char* k) { auto v = doc->GetTrailer().GetDictionary().GetKey(k); return v && v->IsReference() && v->GetReference() == pr(ref); };
                if (isRef("Root") || isRef("Info") || e.l().GetObject(pr(ref)) != o) continue; bool busy = false; if (auto m = doc->GetCatalog().GetDictionary().GetKey("Metadata")) busy = m->IsReference() && m->GetReference() == pr(ref); if (auto m = doc->GetCatalog().GetDictionary().GetKey("Pages")) busy |= m->IsReference() && m->GetReference() == pr(ref); if (busy) continue;
                loaded.erase(loaded.begin() + x); e.l().RemoveObject(pr(ref)); e.model.erase(key); e.touched.erase(key); e.mine.erase(std::remove(e.mine.begin(), e.mine.end(), ref), e.mine.end()); c.ev("loaded objects removed");
            }
            else { e.step(); loaded.erase(std::remove_if(loaded.begin(), loaded.end(), [&](PdfObject* o) { for (auto x : e.l()) if (x == o) return false; return true; }), loaded.end()); }
        }
        string name; auto o = anyOptions(r, name); bool gc = !has(o, PdfSaveOptions::NoCollectGarbage);
        if (gc) e.link();
        if (r.chance(1, 8)) { auto v = anyVersion(r); if (v <= PdfVersion::V1_7) { auto had = e.meta().GetPdfVersion(); if (v > had) { e.meta().SetPdfVersion(v); name += " raise version"; e.touch(doc->GetCatalog().GetObject()); c.ev("version raised"); } } }
        hist += cat(" | update", fresh ? "" : " again", name); c.phase("update " + hist); string out; unsigned dev = r.below(3); bool catalogKnown = e.touched.count(rs(refOf(doc->GetCatalog().GetObject())));
        string df = diffCanon(e.model, canonList(e.l())); c.require(df.empty(), "memory-model", hist + " " + df);
        try
        {
            if (dev == 0) { string p = c.scratch + "/u.pdf"; writeFile(p, base); doc->SaveUpdate(p, o); out = slurp(p); unlink(p.c_str()); c.ev("updates of a file"); }
            else if (dev == 1) { out = base; StringStreamDevice s(out); doc->SaveUpdate(s, o); }
            else { std::vector<char> v(base.begin(), base.end()); VectorStreamDevice s(v); doc->SaveUpdate(s, o); out.assign(v.begin(), v.end()); }
        }
        catch (PdfError&) { c.die("update-refused", hist + " " + excText()); }
        c.ev("updates"); if (!fresh) c.ev("updates of an updated document");
        c.phase("after " + hist); c.require(out.size() > base.size() && out.compare(0, base.size(), base) == 0, "old-bytes-changed", hist);
        Canon after = canonList(e.l());
        auto changedNow = [&](const PdfObject* x) { if (x && canonObj(*x) != e.model[rs(refOf(*x))]) e.touch(*x); };
        if (!has(o, PdfSaveOptions::NoModifyDateUpdate)) { auto info = doc->GetTrailer().GetDictionary().FindKey("Info"); c.require(info != nullptr, "no-info", hist); changedNow(info); changedNow(doc->GetCatalog().GetDictionary().FindKey("Metadata")); }
        { auto& cat = doc->GetCatalog().GetObject(); string key = rs(refOf(cat)); if (after.count(key) && after[key] != e.model[key]) e.touch(cat); }
        if (gc) { for (auto it = e.model.begin(); it != e.model.end();) if (!after.count(it->first) && std::none_of(e.mine.begin(), e.mine.end(), [&](Ref q) { return rs(q) == it->first; })) { c.ev("collected"); e.touched.erase(it->first); it = e.model.erase(it); } else ++it; }
        df = diffCanon(e.model, after); c.require(df.empty(), "save-changed-memory", hist + ": " + df);
        revs.push_back({ out.size(), e.model });
        for (size_t v = revs.size(); v-- > 0;)
        {
            if (v + 2 < revs.size() && !r.chance(1, 4)) continue; string cut = out.substr(0, revs[v].first); Canon got;
            try { got = loadCanon(cut, &r); } catch (PdfError&) { if (c.verbose) writeFile(c.scratch + "/fail.pdf", cut); c.die(cat(v + 1 == revs.size() ? "updated-file-refused" : "old-revision-refused"), hist + " " + excText()); }
            df = diffCanon(revs[v].second, got); c.require(df.empty(), v + 1 == revs.size() ? "updated-graph" : "old-revision-graph", hist + ": " + df); c.ev(v + 1 == revs.size() ? "updated graphs compared" : "old revisions compared");
        }
        string changed = "changed"; for (auto& t : e.model) if (!start.count(t.first) || start[t.first] != t.second) changed += " " + t.first; changed += "\nedited"; for (auto& t : e.touched) changed += " " + t;
        if (src.find("leading") == string::npos) artefact(c, string(1, (char)('a' + k)), out, e.model, changed + "\nhow " + hist + "\n");
        c.state(hist + cat(e.model.size())); file = out; fresh = r.chance(1, 2);
    }
    c.ev("documents"); if (r.chance(1, 300)) c.sample(hist);
}
#ifndef DOCS_NO_MAIN
static void none(Ctx&) { }
int main(int argc, char** argv) { mon::modes()["c08"] = c08; mon::modes()["c03"] = c03; mon::modes()["c05"] = c05; return mon::main(argc, argv, none); }
#endif
