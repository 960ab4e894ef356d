// C29: a signature covers the whole file and changes nothing else
#define DOCS_NO_MAIN
#include "docs.cpp"
#include "raw.h"
#include <iostream>
struct Fault { };
// the bytes of a file behind one of the devices
struct Store
{
    unsigned kind; string path, str; charbuff buf; std::vector<char> vec; std::stringstream ss; std::shared_ptr<StreamDevice> dev;
    Store(Ctx& c, const string& bytes) : kind((unsigned)c.rng.below(5)), path(c.scratch + "/signed.pdf")
    {
        if (kind == 0) { str = bytes; dev.reset(new StringStreamDevice(str)); } else if (kind == 1) { vec.assign(bytes.begin(), bytes.end()); dev.reset(new VectorStreamDevice(vec)); } else if (kind == 2) { buf.assign(bytes.begin(), bytes.end()); dev.reset(new BufferStreamDevice(buf)); }
        else if (kind == 3) { spit(path, bytes); dev.reset(new FileStreamDevice(path, FileMode::Open, DeviceAccess::ReadWrite)); } else { ss.str(bytes); dev.reset(new StandardStreamDevice((std::iostream&)ss)); }
        static const char* n[] = { "signed in a string", "signed in a vector", "signed in a buffer", "signed in a file", "signed in a stream" }; c.ev(n[kind]);
    }
    ~Store() { dev.reset(); if (kind == 3) unlink(path.c_str()); }
    string bytes() { if (kind == 0) return str; if (kind == 1) return string(vec.begin(), vec.end()); if (kind == 2) return string(buf.data(), buf.size()); if (kind == 3) { dev->Flush(); return slurp(path); } return ss.str(); }
};
struct MonSigner : PdfSigner
{
    string seen, sig, filter = "Adobe.PPKLite", sub, type; size_t reserve = 0; int failAt = -1, step = 0; unsigned resets = 0, dry = 0, final = 0; bool own = false;
    void hit() { if (step++ == failAt) throw Fault(); }
    void Reset() override { hit(); resets++; seen.clear(); }
    void AppendData(const bufferview& d) override { hit(); seen.append(d.data(), d.size()); }
    void ComputeSignature(charbuff& b, bool dryrun) override { hit(); if (dryrun) { dry++; b.assign(reserve, 'x'); } else { final++; b.assign(sig.begin(), sig.end()); } }
    string GetSignatureFilter() const override { return own ? filter : PdfSigner::GetSignatureFilter(); } string GetSignatureSubFilter() const override { return sub; } string GetSignatureType() const override { return type; }
};
struct Done { string field; long long br[4]; string padded, seen, name, reason, location, date; bool has[4]; Ref value, fieldRef; };
static string strOf(nullable<const PdfString&> s) { return s.has_value() ? "+" + s->GetString() : "-"; }
static PdfSignature* findSig(PdfMemDocument& d, Ref ref, std::unique_ptr<PdfField>& hold) { auto o = d.GetObjects().GetObject(pr(ref)); if (!o || !PdfField::TryCreateFromObject(*o, hold)) return nullptr; return dynamic_cast<PdfSignature*>(hold.get()); }
static void checkAll(Ctx& c, const string& out, const std::vector<Done>& sigs, const string& hist, const string& pw)
{
    c.phase("verify " + hist); PdfMemDocument d; try { d.LoadFromBuffer(bufferview(out.data(), out.size()), pw); } catch (PdfError&) { c.die("signed-file-refused", hist + " " + excText()); }
    for (size_t i = 0; i < sigs.size(); i++)
    {
        auto& s = sigs[i]; const char* k = i + 1 == sigs.size() ? "" : "earlier-"; auto b = s.br; string now = out.substr(b[0], b[1]) + out.substr(b[2], b[3]); c.require(now == s.seen, cat(k, "signed-bytes"), cat(hist, ": the range holds ", now.size(), " bytes, the signer saw ", s.seen.size()));
        std::unique_ptr<PdfField> hold; auto f = findSig(d, s.fieldRef, hold); c.require(f != nullptr, cat(k, "field-lost"), hist); auto v = f->GetValueObject(); c.require(v && v->IsDictionary(), cat(k, "value-lost"), hist);
        auto co = v->GetDictionary().FindKey("Contents"); c.require(co && co->IsString(), cat(k, "contents-type"), hist); auto raw = co->GetString().GetRawData(); c.require(string(raw.data(), raw.size()) == s.padded, cat(k, "contents"), cat(hist, " ", raw.size(), " for ", s.padded.size()));
        auto br = v->GetDictionary().FindKey("ByteRange"); c.require(br && br->IsArray() && br->GetArray().GetSize() == 4, cat(k, "byterange-type"), hist); for (unsigned q = 0; q < 4; q++) c.require(br->GetArray()[q].GetNumber() == b[q], cat(k, "byterange-read"), hist);
        c.require(strOf(f->GetSignerName()) == s.name, cat(k, "signer-name"), cat(hist, " ", vis(strOf(f->GetSignerName())), " for ", vis(s.name))); c.require(strOf(f->GetSignatureReason()) == s.reason, cat(k, "reason"), hist); c.require(strOf(f->GetSignatureLocation()) == s.location, cat(k, "location"), hist);
        auto dt = f->GetSignatureDate(); c.require((dt.has_value() ? dt->ToString().GetString() : "-") == s.date, cat(k, "date"), cat(hist, " ", dt.has_value() ? dt->ToString().GetString() : "-", " for ", s.date)); c.ev(*k ? "earlier signatures verified" : "signatures verified");
    }
}
static void c29(Ctx& c)
{
    Rng& r = c.rng; string file, src, pw; Ref prepared{ 0, 0 }; std::vector<Done> sigs;
    if (r.chance(1, 2) && corpusFile(c, file)) { src = "corpus file"; }
    else
    {
        c.phase("first save"); PdfMemDocument d; Edit b(c); b.d = &d; b.adoptAll(); for (unsigned i = r.below(20); i; i--) b.step(); b.link(); for (unsigned i = 1 + r.below(3); i; i--) d.GetPages().CreatePage(PdfRect(0, 0, 200, 200));
        if (r.chance(1, 5)) { string big = r.bytes(50000 + r.below(30000)); d.GetCatalog().GetObject().GetDictionary().AddKey(PdfName("MonBig"), PdfObject(d.GetObjects().CreateDictionaryObject().GetIndirectReference())); auto& o = *d.GetCatalog().GetObject().GetDictionary().FindKey("MonBig"); o.GetOrCreateStream().SetData(bufferview(big.data(), big.size()), {}); c.ev("large files"); }
        if (r.chance(1, 3)) { auto& f = d.GetPages().GetPageAt(0).CreateField<PdfSignature>("prepared", PdfRect(1, 1, 20, 20)); prepared = refOf(f.GetObject()); if (r.chance(1, 2)) { f.EnsureValueObject(); c.ev("value prepared in the file"); } c.ev("fields prepared in the file"); }
        if (r.chance(1, 3)) { auto& form = d.GetOrCreateAcroForm(); form.SetNeedAppearances(r.chance(1, 2)); }
        if (r.chance(1, 5)) { unsigned k = (unsigned)r.below(4); pw = "user"; d.SetEncrypted(pw, "owner", PdfPermissions::Print, k == 0 ? PdfEncryptAlgorithm::RC4V2 : k == 1 ? PdfEncryptAlgorithm::AESV2 : k == 2 ? PdfEncryptAlgorithm::AESV3 : PdfEncryptAlgorithm::AESV3R6, PdfKeyLength::L128); c.ev("encrypted files"); }
        string n; file = saveToString(d, anyOptions(r, n)); src = pw.empty() ? "saved file" : "encrypted file"; if (r.chance(1, 10)) { file = "junk\n" + file; src += " with leading bytes"; }
    }
    c.ev(src.c_str()); Store st(c, file); std::unique_ptr<PdfMemDocument> doc; unsigned rounds = 1 + r.below(3); string hist = src; bool fresh = true, retry = false; Edit e(c); string image; PdfSignature* again = nullptr; std::unique_ptr<PdfField> hold; unsigned fails = 0; std::set<string> known, values;
    for (unsigned k = 0; k < rounds; k++)
    {
        string base = st.bytes();
        if (fresh)
        {
            c.phase("load " + hist); hold.reset(); doc.reset(new PdfMemDocument()); image = base;
            try { if (r.chance(1, 2)) { doc->LoadFromDevice(st.dev, pw); c.ev("loaded from the device that is signed"); } else doc->LoadFromBuffer(bufferview(image.data(), image.size()), pw); } catch (PdfError&) { c.die("load-refused", hist + " " + excText()); }
            e.d = doc.get(); e.mine.clear(); e.vals.clear(); e.data.clear(); e.adoptAll(); again = nullptr; known.clear(); for (auto& x : e.model) known.insert(x.first);
        }
        // the field
        c.phase("field " + hist); PdfSignature* f = nullptr; string what;
        if (again && retry) { f = again; what = "same field"; }
        else if (prepared.first && !fresh == false) { f = findSig(*doc, prepared, hold); c.require(f != nullptr, "prepared-field", hist); prepared = { 0, 0 }; what = "prepared field"; c.ev("prepared fields signed"); }
        else
        {
            unsigned pages = 0; try { pages = doc->GetPages().GetCount(); } catch (PdfError&) { } string name = cat("sig", k, "_", r.below(1000)); bool onPage = false;
            if (pages && r.chance(2, 3)) { PdfPage* pg = nullptr; try { pg = &doc->GetPages().GetPageAt(r.below(pages)); } catch (PdfError&) { } if (pg) { f = &pg->CreateField<PdfSignature>(name, PdfRect((double)r.below(50), 3, 40, 20)); onPage = true; } }
            if (!f) f = &doc->GetOrCreateAcroForm().CreateField<PdfSignature>(name); what = onPage ? "field on a page" : "field without a page"; c.ev(what.c_str());
        }
        f->EnsureValueObject(); Done s; s.fieldRef = refOf(f->GetObject()); s.value = refOf(*f->GetValueObject()); auto text = [&](string& out, auto set) { out = "-"; if (r.chance(1, 2)) { string t = randomText(r); out = "+" + t; PdfString p(t); set(nullable<const PdfString&>(p)); } else if (retry || r.chance(1, 4)) set(nullable<const PdfString&>()); };
        text(s.name, [&](nullable<const PdfString&> p) { f->SetSignerName(p); }); text(s.reason, [&](nullable<const PdfString&> p) { f->SetSignatureReason(p); }); text(s.location, [&](nullable<const PdfString&> p) { f->SetSignatureLocation(p); }); string creator; text(creator, [&](nullable<const PdfString&> p) { f->SetSignatureCreator(p); });
        s.date = "-"; if (r.chance(1, 2)) { PdfDate dt(std::chrono::seconds(r.below(2000000000)), std::chrono::minutes(r.range(-600, 600))); s.date = dt.ToString().GetString(); f->SetSignatureDate(nullable<const PdfDate&>(dt)); } else if (retry) f->SetSignatureDate(nullable<const PdfDate&>());
        if (sigs.empty() && r.chance(1, 4)) { f->AddCertificationReference(r.pick(std::vector<PdfCertPermission>{ PdfCertPermission::NoPerms, PdfCertPermission::FormFill, PdfCertPermission::Annotations })); c.ev("certifications"); }
        if (r.chance(1, 3)) { for (unsigned i = r.below(6); i; i--) e.step(); c.ev("edited before signing"); }
        MonSigner g; g.reserve = r.chance(1, 20) ? 0 : r.chance(1, 3) ? r.below(40) : r.chance(1, 4) ? 20000 + r.below(20000) : r.below(9000); g.sig = r.bytes(r.chance(1, 2) ? g.reserve : r.below(g.reserve + 1)); if (r.chance(1, 4)) for (auto& ch : g.sig) ch = r.pick(std::vector<char>{ 0, '(', ')', '\\', '<', '>', (char)0xFE, (char)0xFF, '\r' });
        g.own = r.chance(1, 2); g.filter = r.pick(std::vector<string>{ "Adobe.PPKMS", "My Filter", "X#Y" }); g.sub = r.pick(std::vector<string>{ "adbe.pkcs7.detached", "ETSI.CAdES.detached", "ETSI.RFC3161" }); g.type = r.pick(std::vector<string>{ "Sig", "DocTimeStamp" });
        bool fail = fails < 2 && r.chance(1, 4), big = false; if (fail) { if (r.chance(1, 4)) { big = true; g.sig = r.bytes(g.reserve + 1 + r.below(30)); } else g.failAt = (int)r.below(4); }
        string name; auto o = anyOptions(r, name); bool gc = !has(o, PdfSaveOptions::NoCollectGarbage); if (gc) e.link(); Canon before = canonList(doc->GetObjects()); string bytesBefore = st.bytes(); c.require(bytesBefore == base, "device-changed-before-signing", hist);
        hist += cat(" | ", fresh ? "loaded, " : "", what, " reserving ", g.reserve, name, fail ? cat(" failing at ", big ? string("size") : cat(g.failAt)) : ""); c.phase("sign " + hist); bool threw = false;
        try { SignDocument(*doc, *st.dev, g, *f, o); }
        catch (const Fault&) { threw = true; c.require(fail && !big, "spurious-fault", hist); }
        catch (const PdfError&) { if (!big) c.die("signing-refused", hist + " " + excText()); threw = true; }
        catch (const std::exception& x) { if (!big) c.die("signing-refused", hist + " " + x.what()); threw = true; }
        string out = st.bytes(); c.phase("after " + hist); c.require(out.size() >= base.size() && out.compare(0, base.size(), base) == 0, "old-bytes-changed", hist);
        Canon after = canonList(doc->GetObjects()); std::set<string> allowed{ rs(s.value), rs(s.fieldRef), rs(refOf(doc->GetCatalog().GetObject())) }; if (auto a = doc->GetAcroForm()) if (a->GetObject().GetIndirectReference().IsIndirect()) allowed.insert(rs(refOf(a->GetObject())));
        if (!has(o, PdfSaveOptions::NoModifyDateUpdate)) { if (auto i = doc->GetTrailer().GetDictionary().FindKey("Info")) allowed.insert(rs(refOf(*i))); if (auto m = doc->GetCatalog().GetDictionary().FindKey("Metadata")) allowed.insert(rs(refOf(*m))); }
        for (auto& x : sigs) allowed.insert(rs(x.value)); auto same = [&](const Canon& got, const char* key) { for (auto& x : before) { if (allowed.count(x.first) || (!known.count(x.first) && std::none_of(e.mine.begin(), e.mine.end(), [&](Ref q) { return rs(q) == x.first; }))) continue; auto it = got.find(x.first); if (it == got.end()) { c.require(gc && std::none_of(e.mine.begin(), e.mine.end(), [&](Ref q) { return rs(q) == x.first; }), cat(key, "-lost"), hist + " " + x.first + " " + x.second.substr(0, 100)); c.ev("collected"); } else c.require(it->second == x.second, cat(key, "-changed"), cat(hist, " ", x.first, " ", x.second.substr(0, 300), " -> ", it->second.substr(0, 300))); } for (auto& x : got) c.require(before.count(x.first) || allowed.count(x.first) || !known.count(x.first), cat(key, "-new"), hist + " " + x.first + " " + x.second.substr(0, 200)); };
        same(after, "memory");
        if (fail && threw)
        {
            c.ev("failed signings"); fails++; if (!big && g.failAt == 0) c.require(out == base, "failed-before-saving-but-written", hist);
            if (!sigs.empty() || out != base) { auto old = sigs; PdfMemDocument d2; try { d2.LoadFromBuffer(bufferview(out.data(), out.size()), pw); } catch (PdfError&) { c.die("failed-signing-broke-file", hist + " " + excText()); } if (out != base) same(canonList(d2.GetObjects()), "failed-file"); if (old.size()) checkAll(c, out, old, hist, pw); }
            rounds++; again = f; retry = true; fresh = false; continue;
        }
        c.require(!fail, "fault-swallowed", hist); retry = false; c.ev("signings"); if (fails && what == "same field") c.ev("signed after a failure");
        // the placeholder and the range
        c.require(g.dry == 1 && g.final == 1 && g.resets == 1, "signer-calls", hist); size_t p = out.rfind("/ByteRange"); c.require(p != string::npos && p > base.size(), "no-byterange", hist); long long* b = s.br; size_t q = out.find('[', p); c.require(q != string::npos && q < p + 14 && sscanf(out.c_str() + q, "[ %lld %lld %lld %lld", b, b + 1, b + 2, b + 3) == 4, "byterange-syntax", hist + " " + vis(out.substr(p, 60)));
        c.require(b[0] == 0 && b[1] > (long long)base.size() && b[2] > b[1] && b[2] + b[3] == (long long)out.size(), "byterange", cat(hist, " ", b[0], " ", b[1], " ", b[2], " ", b[3], " of ", out.size())); size_t before1 = out.find_last_not_of(" \r\n\t", b[1] - 1); c.require(before1 != string::npos && before1 >= 8 && out.compare(before1 - 8, 9, "/Contents") == 0, "range-not-at-contents", hist + " " + vis(out.substr(b[1] - 20, 40)));
        s.padded = g.sig; s.padded.resize(g.reserve, '\0'); string held = out.substr(b[1], b[2] - b[1]); c.require(held.size() == 2 * g.reserve + 2 && held.front() == '<' && held.back() == '>', "placeholder", hist + " " + vis(held.substr(0, 40))); c.require(unhex(held.substr(1, held.size() - 2)) == s.padded, "signature-bytes", hist + " " + vis(held, 80));
        s.seen = g.seen; sigs.push_back(s); checkAll(c, out, sigs, hist, pw);
        { PdfMemDocument d2; d2.LoadFromBuffer(bufferview(out.data(), out.size()), pw); same(canonList(d2.GetObjects()), "file"); std::unique_ptr<PdfField> h2; auto f2 = findSig(d2, s.fieldRef, h2); auto& vd = f2->GetValueObject()->GetDictionary(); auto nm = [&](const char* key) { auto x = vd.FindKey(key); return x && x->IsName() ? string(x->GetName().GetString()) : string("?"); };
          c.require(nm("Filter") == (g.own ? g.filter : "Adobe.PPKLite") && nm("SubFilter") == g.sub && nm("Type") == g.type, "signature-kind", cat(hist, nm("Filter"), nm("SubFilter"), nm("Type"))); auto a = d2.GetAcroForm(); c.require(a != nullptr, "no-form", hist); auto fl = a->GetDictionary().FindKey("SigFlags"); c.require(fl && fl->IsNumber() && fl->GetNumber() == 3, "signature-flags", hist);
          if (src == "saved file" && pw.empty() && !c.artefacts.empty()) { Canon fin = canonList(d2.GetObjects()); artefact(c, string(1, (char)('a' + k)), out, fin, "how " + hist + "\n"); } }
        c.state(hist + cat(out.size())); fresh = r.chance(1, 2); again = nullptr;
    }
    c.ev("documents"); if (r.chance(1, 300)) c.sample(hist);
}
// the reserved value begins or ends at (or next to) a multiple of the size of the buffers the file is read with
static void c29edge(Ctx& c)
{
    Rng& r = c.rng; size_t reserve = r.chance(1, 4) ? 30000 + r.below(70000) : r.below(3000); bool full = r.chance(1, 2), end = r.chance(1, 3); size_t unit = r.pick(std::vector<size_t>{ 4096, 32768, 65536, 65536, 65536, 131072 }); int delta = r.chance(1, 2) ? 0 : (int)r.range(-2, 2); unsigned fields = 1 + r.below(3), kind = 1 + r.below(3); size_t pad = 100000 + r.below(60000); string sig = r.bytes(full ? reserve : r.below(reserve + 1)); unsigned inPage = r.below(2);
    string hist = cat(end ? "end" : "start", " of the value at a multiple of ", unit, " plus ", delta, ", reserving ", reserve, " fields ", fields); auto opt = kind == 1 ? PdfSaveOptions::NoFlateCompress : kind == 2 ? PdfSaveOptions::NoFlateCompress | PdfSaveOptions::Clean : PdfSaveOptions::NoFlateCompress | PdfSaveOptions::NoModifyDateUpdate;
    for (unsigned tries = 0; tries < 10; tries++)
    {
        c.phase("first save"); string base; { PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); for (unsigned i = 0; i < fields; i++) d.GetObjects().CreateDictionaryObject(); auto& o = d.GetObjects().CreateDictionaryObject(); string data(pad, 'x'); o.GetOrCreateStream().SetData(bufferview(data.data(), data.size()), PdfFilterList{ }); d.GetCatalog().GetDictionary().AddKeyIndirect("Pad", o); base = saveToString(d, PdfSaveOptions::NoFlateCompress); }
        string work = base; c.phase("sign " + hist); { StringStreamDevice dev(work); PdfMemDocument d; d.LoadFromBuffer(bufferview(base.data(), base.size())); auto& f = inPage ? d.GetPages().GetPageAt(0).CreateField<PdfSignature>("sig", PdfRect(0, 0, 10, 10)) : d.GetOrCreateAcroForm().CreateField<PdfSignature>("sig"); f.EnsureValueObject();
          MonSigner g; g.reserve = reserve; g.sig = sig; g.sub = "adbe.pkcs7.detached"; g.type = "Sig"; SignDocument(d, dev, g, f, opt);
          size_t key = work.rfind("/Contents"); c.require(key != string::npos, "edge-no-contents", hist); size_t from = work.find('<', key), to = work.find('>', from) + 1; c.require(to - from == 2 * reserve + 2, "edge-placeholder", hist);
          c.require(g.seen == work.substr(0, from) + work.substr(to), "edge-signed-bytes", cat(hist, " value at ", from, "-", to, " the signer saw ", g.seen.size(), " for ", work.size() - (to - from)));
          string padded = sig; padded.resize(reserve, '\0'); c.require(unhex(work.substr(from + 1, to - from - 2)) == padded, "edge-signature", hist); long long b[4]; size_t p = work.rfind("/ByteRange"), q = work.find('[', p); c.require(p != string::npos && sscanf(work.c_str() + q, "[ %lld %lld %lld %lld", b, b + 1, b + 2, b + 3) == 4 && b[0] == 0 && b[1] == (long long)from && b[2] == (long long)to && b[2] + b[3] == (long long)work.size(), "edge-byterange", hist);
          c.ev("values placed"); size_t at = (end ? to : from), want = (at + unit - 1) / unit * unit + delta; if (want == at || (at + unit - delta) % unit == 0) { c.ev(cat("value ", end ? "ends" : "starts", " at a buffer boundary", delta ? " (nearby)" : "").c_str()); c.state(cat(hist, at)); return; } while (want < at) want += unit; pad += want - at; }
    }
    c.ev("boundary missed");
}
int main(int argc, char** argv) { return (mon::modes()["c29"] = c29, mon::modes()["edge"] = c29edge, mon::main(argc, argv, c29)); }
