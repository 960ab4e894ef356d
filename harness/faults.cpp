// C31: devices and signers that fail at any operation
#define DOCS_NO_MAIN
#include "docs.cpp"
#include "raw.h"
#include <fstream>
#include <csignal>
#include <sys/resource.h>
#include <sanitizer/allocator_interface.h>
struct DeviceFault : std::runtime_error { DeviceFault() : std::runtime_error("injected") { } };
// A device over a string that fails at one operation, or from that operation on
struct FaultDevice : StreamDevice
{
    string* s; size_t pos = 0; mutable long ops = 0, failAt = -1; bool sticky = false, partial = false, foreign = false; mutable unsigned hits = 0;
    FaultDevice(string& s, DeviceAccess a) : StreamDevice(a), s(&s) { }
    void arm(long at) { ops = 0; failAt = at; hits = 0; } void heal() { failAt = -1; }
    bool due() const { long n = ops++; return failAt >= 0 && (n == failAt || (sticky && n > failAt)); }
    void raise() const { hits++; if (foreign) throw DeviceFault(); throw PdfError(PdfErrorCode::InvalidDeviceOperation, __FILE__, __LINE__, "injected"); }
    void op() const { if (due()) raise(); }
    size_t GetLength() const override { op(); return s->size(); }
    size_t GetPosition() const override { op(); return pos; }
    bool CanSeek() const override { return true; }
    bool Eof() const override { return pos >= s->size(); }
protected:
    void seek(ssize_t o, SeekDirection d) override { op(); pos = SeekPosition(pos, s->size(), o, d); }
    size_t readBuffer(char* b, size_t n, bool& eof) override { op(); size_t k = std::min(n, s->size() - pos); memcpy(b, s->data() + pos, k); pos += k; eof = pos == s->size(); return k; }
    bool readChar(char& ch) override { op(); if (pos >= s->size()) { ch = 0; return false; } ch = (*s)[pos++]; return true; }
    bool peek(char& ch) const override { op(); if (pos >= s->size()) { ch = 0; return false; } ch = (*s)[pos]; return true; }
    void put(const char* b, size_t n) { if (pos + n > s->size()) s->resize(pos + n); memcpy(&(*s)[pos], b, n); pos += n; }
    void writeBuffer(const char* b, size_t n) override { if (due()) { if (partial) put(b, n / 2); raise(); } put(b, n); }
    void flush() override { op(); }
};
static string note;
struct Try { bool threw = false, pdf = false; string what; };
template <class F> static Try attempt(F f)
{
    Try t;
    try { f(); } catch (const PdfError&) { t.threw = t.pdf = true; t.what = excText(); } catch (const DeviceFault&) { t.threw = true; t.what = "injected"; } catch (const std::exception& x) { t.threw = true; t.what = cat(typeid(x).name(), " ", x.what()); }
    return t;
}
static long place(Rng& r, long n) { if (n < 1) return 0; if (r.chance(1, 4)) return (long)r.below(std::min(n, 40l)); if (r.chance(1, 4)) return n - 1 - (long)r.below(std::min(n, 40l)); return (long)r.below(n); }
static string setup(FaultDevice& d, Rng& r, long n) { d.sticky = r.chance(1, 2); d.partial = r.chance(1, 2); d.foreign = r.chance(1, 3); d.arm(place(r, n)); return cat(" fails", d.sticky ? " from" : "", " at ", d.failAt, " of ", n, d.partial ? " partially" : "", d.foreign ? " foreign" : ""); }
static Canon canonOf(const string& f, const string& pw) { PdfMemDocument d; d.LoadFromBuffer(bufferview(f.data(), f.size()), pw); return canonList(d.GetObjects()); }
// the encryption dictionary is no object of the document
static string baseFile(Ctx& c, string& src, string& pw)
{
    Rng& r = c.rng; string file;
    if (r.chance(1, 2) && corpusFile(c, file)) { src = "corpus file"; c.ev("corpus files"); return file; }
    PdfMemDocument d; Edit b(c); b.d = &d; b.adoptAll(); for (unsigned i = r.below(20); i; i--) b.step(); b.link(); for (unsigned i = 1 + r.below(3); i; i--) d.GetPages().CreatePage(PdfRect(0, 0, 200, 200)); string n; auto o = anyOptions(r, n);
    if (r.chance(1, 3)) { unsigned k = (unsigned)r.below(4); pw = "user"; d.SetEncrypted(pw, "owner", PdfPermissions::Print, k == 0 ? PdfEncryptAlgorithm::RC4V2 : k == 1 ? PdfEncryptAlgorithm::AESV2 : k == 2 ? PdfEncryptAlgorithm::AESV3 : PdfEncryptAlgorithm::RC4V1, k == 3 ? PdfKeyLength::L40 : k == 2 ? PdfKeyLength::L256 : PdfKeyLength::L128); c.ev("encrypted files"); }
    src = pw.empty() ? "saved file" : "encrypted file"; return saveToString(d, o);
}
static void touchAll(PdfMemDocument& d, Rng& r)
{
    if (r.chance(1, 2)) d.GetPages().GetCount(); if (r.chance(1, 2)) canonList(d.GetObjects()); if (r.chance(1, 3)) d.GetMetadata().GetTitle(); if (r.chance(1, 3)) for (unsigned i = 0; i < d.GetPages().GetCount(); i++) d.GetPages().GetPageAt(i).GetMediaBox();
}
static void loading(Ctx& c)
{
    Rng& r = c.rng; string src, pw, file = baseFile(c, src, pw); Canon want = canonOf(file, pw); auto dev = std::make_shared<FaultDevice>(file, DeviceAccess::Read); long n;
    { PdfMemDocument d; dev->arm(-1); d.LoadFromDevice(dev, pw); n = dev->ops; if (r.chance(1, 3)) { canonList(d.GetObjects()); n = dev->ops; } dev->pos = 0; }
    bool lib = r.chance(1, 2); PdfMemDocument d; string other; PdfMemDocument first;
    if (r.chance(1, 3)) { d.LoadFromBuffer(bufferview(file.data(), file.size()), pw); touchAll(d, r); lib = false; c.ev("document used before"); }
    string how = "load " + src + setup(*dev, r, n); c.phase(how); auto t = attempt([&] { d.LoadFromDevice(dev, pw); });
    if (!t.threw)
    {
        bool lazy = dev->hits == 0; if (!lazy) c.ev("loaded in spite of a fault"); c.phase("read " + how); Canon got; auto u = attempt([&] { if (lazy && r.chance(1, 2)) touchAll(d, r); got = canonList(d.GetObjects()); });
        if (!u.threw) { string df = diffCanon(want, got); c.require(df.empty(), "silent-loss", how + ": " + df); }
        else { c.require(dev->hits > 0, "refused-without-fault", how + " " + u.what); c.ev("failed readings"); }
        dev->heal(); c.phase("read again " + how); u = attempt([&] { got = canonList(d.GetObjects()); }); c.require(!u.threw, "not-readable-again", how + " " + u.what); string df = diffCanon(want, got); c.require(df.empty(), "reading-again", how + ": " + df); c.ev("read again");
        if (r.chance(1, 2)) { string out; u = attempt([&] { StringStreamDevice s(out); d.Save(s, PdfSaveOptions::NoCollectGarbage | PdfSaveOptions::NoModifyDateUpdate); }); c.require(!u.threw, "save-after-fault", how + " " + u.what); df = diffCanon(want, canonOf(out, pw)); c.require(df.empty(), "saved-after-fault", how + ": " + df); c.ev("saved after a fault while reading"); }
        note = how; return;
    }
    c.require(dev->hits > 0, "refused-without-fault", how + " " + t.what); c.ev("failed loads"); if (lib) { c.phase("use after " + how); attempt([&] { canonList(d.GetObjects()); }); attempt([&] { d.GetPages().GetCount(); }); }
    c.phase("load again " + how); dev->heal(); dev->pos = 0;
    if (r.chance(1, 4)) { c.ev("failed loads before destruction"); note = how; return; }
    t = attempt([&] { if (r.chance(1, 2)) d.LoadFromDevice(dev, pw); else d.LoadFromBuffer(bufferview(file.data(), file.size()), pw); }); c.require(!t.threw, "not-loadable-again", how + " " + t.what); string df = diffCanon(want, canonList(d.GetObjects())); c.require(df.empty(), "loading-again", how + ": " + df); c.ev("loaded again");
    string out; t = attempt([&] { StringStreamDevice s(out); d.Save(s, PdfSaveOptions::NoCollectGarbage | PdfSaveOptions::NoModifyDateUpdate); }); c.require(!t.threw, "save-after-load", how + " " + t.what); df = diffCanon(want, canonOf(out, pw)); c.require(df.empty(), "saved-after-load", how + ": " + df); note = how;
}
// a document with changes, new or loaded
struct Work
{
    string src, pw, file; std::unique_ptr<PdfMemDocument> doc; Edit e; std::shared_ptr<FaultDevice> source; Rng& r;
    Work(Ctx& c, bool loaded, bool faulty) : e(c), r(c.rng)
    {
        doc.reset(new PdfMemDocument());
        if (loaded) { file = baseFile(c, src, pw); if (faulty) { source = std::make_shared<FaultDevice>(file, DeviceAccess::Read); doc->LoadFromDevice(source, pw); } else doc->LoadFromBuffer(bufferview(file.data(), file.size()), pw); } else src = "new document";
        e.d = doc.get(); if (!faulty) { e.adoptAll(); edit(c); }
        else for (unsigned i = r.below(4); i; i--) { auto& o = doc->GetObjects().CreateDictionaryObject(); o.GetDictionary().AddKey("Mon", PdfObject((int64_t)i)); if (r.chance(1, 2)) { string s = r.bytes(r.below(3000)); o.GetOrCreateStream().SetData(bufferview(s.data(), s.size())); } doc->GetCatalog().GetDictionary().AddKey(PdfName(cat("MonK", i)), PdfObject(o.GetIndirectReference())); }
        if (!loaded && r.chance(1, 3)) { doc->SetEncrypted(pw = "user", "owner", PdfPermissions::Print, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128); c.ev("new encrypted documents"); }
    }
    void edit(Ctx& c)
    {
        for (unsigned i = r.below(10); i; i--) e.step(); std::vector<PdfObject*> all; for (auto o : e.l()) if (o->IsDictionary() && !isHelper(*o)) all.push_back(o);
        for (unsigned i = r.below(4); i && all.size(); i--) { auto o = r.pick(all); o->GetDictionary().AddKey("MonEdit", PdfObject((int64_t)r.below(1000000))); if (o->HasStream() && r.chance(1, 2)) { string s = r.bytes(r.below(5000)); o->GetOrCreateStream().SetData(bufferview(s.data(), s.size())); c.ev("loaded streams replaced"); } }
        if (r.chance(1, 2)) { auto& o = doc->GetObjects().CreateDictionaryObject(); string s = r.bytes(r.below(8000)); o.GetOrCreateStream().SetData(bufferview(s.data(), s.size())); doc->GetCatalog().GetDictionary().AddKey("MonBig", PdfObject(o.GetIndirectReference())); }
    }
};
static PdfSaveOptions quiet(Rng& r, string& n) { auto o = PdfSaveOptions::NoModifyDateUpdate; if (r.chance(2, 3)) { o |= PdfSaveOptions::NoCollectGarbage; n += " nogc"; } if (r.chance(1, 2)) { o |= PdfSaveOptions::NoFlateCompress; n += " nocompress"; } if (r.chance(1, 2)) { o |= PdfSaveOptions::Clean; n += " clean"; } return o; }
static void writing(Ctx& c, bool update)
{
    Rng& r = c.rng; Work w(c, update || r.chance(1, 2), false); string n; auto o = quiet(r, n); bool gc = !has(o, PdfSaveOptions::NoCollectGarbage);
    if (gc) { auto t = attempt([&] { w.doc->CollectGarbage(); }); c.require(!t.threw, "collect", t.what); } Canon before = canonList(w.doc->GetObjects()); string hist = cat(update ? "update " : "save ", w.src, n); Rng rr = r; long ops = 400;
    unsigned fails = 0, rounds = 1 + r.below(3);
    for (unsigned k = 0; k <= rounds; k++)
    {
        string out = update ? w.file : ""; FaultDevice dev(out, DeviceAccess::ReadWrite); string how; if (k < rounds) how = setup(dev, r, k ? ops : 300); if (r.chance(1, 3) && k < rounds && dev.failAt > 60) dev.failAt = (long)r.below(60);
        hist += " |" + (how.empty() ? string(" good") : how); c.phase(hist); auto t = attempt([&] { if (update) w.doc->SaveUpdate(dev, o); else w.doc->Save(dev, o); });
        Canon after = canonList(w.doc->GetObjects()); string df = diffCanon(before, after); c.require(df.empty(), t.threw ? "failed-save-changed-document" : "save-changed-document", hist + ": " + df);
        if (t.threw) { c.require(dev.hits > 0, "refused-without-fault", hist + " " + t.what); c.ev(update ? "failed updates" : "failed saves"); ops = std::max(ops, dev.ops); fails++; continue; }
        c.require(dev.hits == 0, "fault-swallowed", hist); if (update) c.require(out.compare(0, w.file.size(), w.file) == 0, "old-bytes-changed", hist);
        Canon got; t = attempt([&] { got = canonOf(out, w.pw); }); c.require(!t.threw, "written-file-refused", hist + " " + t.what); df = diffCanon(before, got); c.require(df.empty(), "written-graph", hist + ": " + df);
        c.ev(fails ? (update ? "updated after failures" : "saved after failures") : "written without fault"); break;
    }
    note = hist;
}
static void sourceFails(Ctx& c)
{
    Rng& r = c.rng; Work w(c, true, true); string n; auto o = quiet(r, n) | PdfSaveOptions::NoCollectGarbage; bool update = r.chance(1, 2); PdfMemDocument ref; ref.LoadFromBuffer(bufferview(w.file.data(), w.file.size()), w.pw);
    Canon want = canonList(ref.GetObjects()); for (auto obj : w.doc->GetObjects()) { string k = rs(refOf(*obj)); if (!want.count(k) || obj == &w.doc->GetCatalog().GetObject()) { if (!isHelper(*obj)) want[k] = canonObj(*obj); } }
    string hist = cat(update ? "update" : "save", " with a source that fails, ", w.src, n, setup(*w.source, r, (long)w.file.size() / 8 + 50)); c.phase(hist); string out = update ? w.file : "";
    auto write = [&] { StringStreamDevice s(out); if (update) w.doc->SaveUpdate(s, o); else w.doc->Save(s, o); }; auto t = attempt(write); unsigned hits = w.source->hits; w.source->heal();
    auto same = [&](const char* key) { string df; auto u = attempt([&] { df = diffCanon(want, canonOf(out, w.pw)); }); c.require(!u.threw, cat(key, "-refused"), hist + " " + u.what); c.require(df.empty(), key, hist + ": " + df); };
    if (!t.threw) { same(hits ? "swallowed-source-fault" : "written-from-source"); c.ev(hits ? "written in spite of a source fault" : "written without source fault"); }
    else
    {
        c.require(hits > 0, "refused-without-fault", hist + " " + t.what); c.ev("failed by the source"); c.phase("again " + hist); string df; t = attempt([&] { df = diffCanon(want, canonList(w.doc->GetObjects())); }); c.require(!t.threw, "not-readable-again", hist + " " + t.what); c.require(df.empty(), "document-changed", hist + ": " + df);
        out = update ? w.file : ""; t = attempt(write); c.require(!t.threw, "not-writable-again", hist + " " + t.what); same("written-again"); c.ev("written after source failures");
    }
    note = hist;
}
struct Sig : PdfSigner
{
    string seen; size_t reserve = 100; int failAt = -1, step = 0; void hit() { if (step++ == failAt) throw DeviceFault(); }
    string GetSignatureSubFilter() const override { return "adbe.pkcs7.detached"; } string GetSignatureType() const override { return "Sig"; }
    void Reset() override { hit(); seen.clear(); } void AppendData(const bufferview& d) override { hit(); seen.append(d.data(), d.size()); } void ComputeSignature(charbuff& b, bool) override { hit(); b.assign(reserve, 'S'); }
};
static void signing(Ctx& c)
{
    Rng& r = c.rng; Work w(c, true, false); string n; auto o = quiet(r, n) | PdfSaveOptions::NoCollectGarbage; std::set<string> known; for (auto obj : w.doc->GetObjects()) known.insert(rs(refOf(*obj))); auto& f = w.doc->GetOrCreateAcroForm().CreateField<PdfSignature>("monsig"); f.EnsureValueObject(); Ref value = refOf(*f.GetValueObject()), field = refOf(f.GetObject());
    Canon before = canonList(w.doc->GetObjects()); auto strip = [&](Canon m) { for (auto it = m.begin(); it != m.end();) { if (known.count(it->first)) ++it; else it = m.erase(it); } m.erase(rs(value)); m.erase(rs(field)); m.erase(rs(refOf(w.doc->GetCatalog().GetObject()))); m.erase(rs(refOf(w.doc->GetAcroForm()->GetObject()))); return m; }; before = strip(before);
    string out = w.file, hist = "sign " + w.src + n; unsigned rounds = 1 + r.below(2); bool threw = false; FaultDevice dev(out, DeviceAccess::ReadWrite);
    for (unsigned k = 0; k <= rounds; k++)
    {
        Sig g; dev.heal(); dev.hits = 0; if (k < rounds) { if (r.chance(1, 5)) { g.failAt = (int)r.below(4); hist += cat(" signer fails at ", g.failAt); } else hist += setup(dev, r, 350); } else hist += " good"; c.phase(hist);
        size_t old = out.size(); string prefix = out; auto t = attempt([&] { SignDocument(*w.doc, dev, g, f, o); }); string df = diffCanon(before, strip(canonList(w.doc->GetObjects()))); c.require(df.empty(), "signing-changed-document", hist + ": " + df); c.require(out.size() >= w.file.size() && out.compare(0, w.file.size(), w.file) == 0, "old-bytes-changed", hist);
        if (t.threw) { c.require(dev.hits > 0 || g.failAt >= 0, "refused-without-fault", hist + " " + t.what); c.ev("failed signings"); threw = true; dev.heal(); continue; }
        c.require(dev.hits == 0 && (g.failAt < 0 || g.step <= g.failAt), "fault-swallowed", hist); size_t p = out.rfind("/ByteRange"); c.require(p != string::npos && p >= old, "no-byterange", hist); long long b[4]; c.require(sscanf(out.c_str() + out.find('[', p), "[ %lld %lld %lld %lld", b, b + 1, b + 2, b + 3) == 4, "byterange", hist);
        c.require(b[0] == 0 && b[2] > b[1] && b[2] + b[3] == (long long)out.size(), "byterange", hist); c.require(g.seen == out.substr(0, b[1]) + out.substr(b[2]), "signed-bytes", hist); string hexed = out.substr(b[1], b[2] - b[1]); string want = "<"; for (unsigned i = 0; i < 100; i++) want += "53"; want += ">"; c.require(hexed == want, "contents", hist + " " + vis(hexed.substr(0, 20)));
        Canon got; t = attempt([&] { got = strip(canonOf(out, w.pw)); }); c.require(!t.threw, "signed-file-refused", hist + " " + t.what); df = diffCanon(before, got); c.require(df.empty(), "signed-graph", hist + ": " + df); c.ev(threw ? "signed after failures" : "signed without fault"); break;
    }
    note = hist;
}
static void fileLimits(Ctx& c)
{
    Rng& r = c.rng; bool update = r.chance(1, 2); Work w(c, update, false); string n; auto o = quiet(r, n) | PdfSaveOptions::NoCollectGarbage; Canon before = canonList(w.doc->GetObjects()); string path = c.scratch + "/lim.pdf", hist = cat(update ? "update" : "save", " of a file, ", w.src, n); struct rlimit was; getrlimit(RLIMIT_FSIZE, &was);
    unsigned how = update ? 1 + (unsigned)r.below(2) : (unsigned)r.below(3); size_t limit = (update ? w.file.size() : 0) + r.below(r.chance(1, 2) ? 600 : 6000); string target = how == 0 ? "/dev/full" : path; if (how) { spit(path, w.file); hist += cat(" limited to ", limit, how == 2 ? " through a device" : ""); } else hist += " to a full device"; c.phase(hist);
    signal(SIGXFSZ, SIG_IGN); if (how) { struct rlimit l = was; l.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &l); }
    auto t = attempt([&] { if (how == 2) { FileStreamDevice d(path, update ? FileMode::Append : FileMode::Create, DeviceAccess::Write); if (update) w.doc->SaveUpdate(d, o); else w.doc->Save(d, o); } else if (update) w.doc->SaveUpdate(target, o); else w.doc->Save(target, o); }); setrlimit(RLIMIT_FSIZE, &was);
    string out = how ? slurp(path) : ""; Canon got; if (!t.threw) { Canon back; auto u = attempt([&] { back = canonOf(out, w.pw); }); c.require(!u.threw, "lost-write-not-reported", cat(hist, ": ", out.size(), " bytes ", u.what)); string df = diffCanon(before, back); c.require(df.empty(), "lost-write-not-reported", hist + ": " + df); c.ev("files that fit"); }
    else
    {
        c.ev("files that did not fit"); string df = diffCanon(before, canonList(w.doc->GetObjects())); c.require(df.empty(), "failed-save-changed-document", hist + ": " + df); if (update) c.require(out.compare(0, w.file.size(), w.file) == 0, "old-bytes-changed", hist); spit(path, w.file);
        c.phase("again " + hist); t = attempt([&] { if (update) w.doc->SaveUpdate(path, o); else w.doc->Save(path, o); }); c.require(!t.threw, "not-writable-again", hist + " " + t.what); out = slurp(path); t = attempt([&] { got = canonOf(out, w.pw); }); c.require(!t.threw, "written-file-refused", hist + " " + t.what); df = diffCanon(before, got); c.require(df.empty(), "written-graph", hist + ": " + df); c.ev("files written again");
    }
    unlink(path.c_str()); note = hist;
}
static void c31(Ctx& c)
{
    unsigned k = (unsigned)c.rng.below(10); auto body = [&] { if (k < 3) loading(c); else if (k < 4) writing(c, false); else if (k < 6) writing(c, true); else if (k < 7) sourceFails(c); else if (k < 8) signing(c); else fileLimits(c); };
    if (!c.rng.chance(1, 4)) { body(); c.ev("cases"); c.state(note); return; }
    // the same history again must not need more memory
    Rng start = c.rng; size_t used[4] = { 0, 0, 0, 0 }; for (unsigned i = 0; i < 4; i++) { note = string(4000, 0); c.rng = start; body(); used[i] = __sanitizer_get_current_allocated_bytes(); }
    c.state(note); c.ev("cases"); c.ev("cases checked for leaks"); c.require(!(used[1] < used[2] && used[2] < used[3]), "leak", cat("kind ", k, ": ", used[0], " ", used[1], " ", used[2], " ", used[3]));
}
#ifndef FAULTS_NO_MAIN
int main(int argc, char** argv) { return (mon::modes()["c31"] = c31, mon::main(argc, argv, c31)); }
#endif
