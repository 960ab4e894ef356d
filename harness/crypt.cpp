// C12: encryption, passwords and histories of encrypted documents;  C13: encrypted files of the independent writer
#define DOCS_NO_MAIN
#include "docs.cpp"

struct Alg { PdfEncryptAlgorithm a; const char* name; };
static const Alg algs[] = { { PdfEncryptAlgorithm::RC4V1, "RC4V1" }, { PdfEncryptAlgorithm::RC4V2, "RC4V2" }, { PdfEncryptAlgorithm::AESV2, "AESV2" }, { PdfEncryptAlgorithm::AESV3, "AESV3" }, { PdfEncryptAlgorithm::AESV3R6, "AESV3R6" } };
struct Sec { int alg = 0; int bits = 40; string user, owner; unsigned perms = 0; bool sha() const { return alg >= 3; } 
    // the bytes a password is reduced to
    string key(const string& p) const { if (sha()) return p.substr(0, 127); static const char pad[] = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"; return (p + string(pad, 32)).substr(0, 32); }
    bool opens(const string& p) const { return key(p) == key(user) || key(p) == key(owner.empty() ? user : owner); }
    string str() const { return cat(algs[alg].name, " ", bits, " user '", user.substr(0, 20), "' owner '", owner.substr(0, 20), "' perms ", perms); } };
static string genPass(Rng& r, bool utf8)
{
    static const std::vector<string> fixed{ "", "a", "user", "p\xC3\xA4ss", "\xE2\x82\xAC" "100", "\xD0\xBF\xD0\xB0\xD1\x80\xD0\xBE\xD0\xBB\xD1\x8C", string(32, 'k'), string(33, 'k'), string(127, 'z'), string(128, 'z'), string(300, 'q'), "with space", "(par\\en)", "0123456789abcdef0123456789abcdef0123456789" };
    if (r.chance(1, 6)) return ""; if (r.chance(1, 3)) return fixed[r.below(fixed.size())];
    size_t n = 1 + r.below(r.chance(1, 4) ? 60 : 14); string s; for (size_t i = 0; i < n; i++) s += utf8 || r.chance(1, 2) ? (char)(33 + r.below(94)) : (char)(1 + r.below(255)); return s;
}
static Sec genSec(Rng& r)
{
    Sec s; s.alg = r.below(5); static const int bits[] = { 40, 56, 80, 96, 128 };
    s.bits = s.alg == 1 ? bits[r.below(5)] : s.alg == 0 ? 40 : s.alg == 2 ? 128 : 256;
    s.user = genPass(r, s.sha()); s.owner = genPass(r, s.sha()); if (r.chance(1, 12)) s.owner = s.user;
    static const unsigned bit[] = { 4, 8, 16, 32, 256, 512, 1024, 2048 }; for (auto b : bit) if (r.chance(1, 2)) s.perms |= b; return s;
}
static void apply(Ctx& c, PdfMemDocument& d, const Sec& s)
{
    // the key length only matters for RC4V2; a longer one than the algorithm has is cut
    auto kl = (PdfKeyLength)s.bits; if (s.alg == 0 && c.rng.chance(1, 2)) kl = c.rng.chance(1, 2) ? PdfKeyLength::L128 : PdfKeyLength::L96; if (s.alg == 1 && s.bits == 128 && c.rng.chance(1, 4)) kl = PdfKeyLength::L256;
    if (c.rng.chance(1, 3)) d.SetEncrypt(PdfEncrypt::Create(s.user, s.owner, (PdfPermissions)s.perms, algs[s.alg].a, kl)); else d.SetEncrypted(s.user, s.owner, (PdfPermissions)s.perms, algs[s.alg].a, kl);
    c.ev(cat("encrypted with ", algs[s.alg].name, s.alg == 1 ? cat(" ", s.bits) : string()).c_str());
}
static unsigned permsOf(const PdfDocument& d)
{
    unsigned p = 0; if (d.IsPrintAllowed()) p |= 4; if (d.IsEditAllowed()) p |= 8; if (d.IsCopyAllowed()) p |= 16; if (d.IsEditNotesAllowed()) p |= 32; if (d.IsFillAndSignAllowed()) p |= 256; if (d.IsAccessibilityAllowed()) p |= 512; if (d.IsDocAssemblyAllowed()) p |= 1024; if (d.IsHighPrintAllowed()) p |= 2048; return p;
}
struct Opened { std::unique_ptr<PdfMemDocument> d; bool refused = false; string why; };
static Opened openWith(Ctx& c, const string& file, const string& pw)
{
    Opened o; o.d.reset(new PdfMemDocument());  if (auto p = getenv("MON_DUMP")) writeFile(p, file);
    try { if (c.rng.chance(1, 6)) { string p = c.scratch + "/e.pdf"; writeFile(p, file); o.d->Load(p, pw); } else o.d->LoadFromBuffer(bufferview(file.data(), file.size()), pw); }
    catch (PdfError& e) { o.refused = true; o.why = cat((int)e.GetError()); if (e.GetError() != PdfErrorCode::InvalidPassword) c.die("refused-with-other-error", excText()); }
    return o;
}
struct Marks
{
    std::vector<string> m; Rng& r; Marks(Rng& r) : r(r) { }
    string make() { string s = "Mk"; for (int i = 0; i < 14; i++) s += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[r.below(62)]; m.push_back(s); return s; }
    static bool contains(const string& f, const string& s) { return f.find(s) != string::npos; }
    void absent(Ctx& c, const string& file, const string& how)
    {
        for (auto& s : m)
        {
            string h = hex(s), H = h, u; for (auto& x : H) x = toupper(x); for (char x : s) { u += '\0'; u += x; }
            c.require(!contains(file, s) && !contains(file, h) && !contains(file, H) && !contains(file, u), "content-in-the-clear", how + ": " + s + (contains(file, s) ? " as it is" : " in another form"));
            c.ev("marks searched for");
        }
    }
};
static void plant(Edit& e, Marks& m)
{
    // marks in strings at several depths, in streams and in the document information
    unsigned n = 1 + e.r.below(4);
    for (unsigned i = 0; i < n; i++)
    {
        Val v; unsigned how = e.r.below(5); if (how == 4) { v = Val::dict(); v.d["Type"] = Val::name(e.r.chance(1, 2) ? "Sig" : "DocTimeStamp"); v.d["Contents"] = Val::str(string("\x30\x82 signed\0\xFF", 12) + e.r.bytes(e.r.below(20)), true); v.d["Reason"] = Val::str(m.make()); }
        else if (how == 0) v = Val::str(m.make(), e.r.chance(1, 2)); else if (how == 1) { v = Val::arr(); v.a = { Val::integer(1), Val::str(m.make()) }; Val d = Val::dict(); d.d["Deep"] = Val::str(m.make(), true); v.a.push_back(d); } else { v = Val::dict(); v.d["Text"] = Val::str(m.make()); if (how == 3 && e.r.chance(1, 3)) { v.d["Empty"] = Val::str(""); } }
        auto& o = e.l().CreateObject(toObj(v)); string k = rs(refOf(o)); e.vals[k] = v; e.data.erase(k);
        if (v.k == Val::Dict && how != 4) { auto& st = o.GetOrCreateStream(); string s = e.data[k] = "before " + m.make() + " after " + e.r.bytes(e.r.below(40)); if (e.r.chance(1, 2)) st.SetData(bufferview(s.data(), s.size())); else st.SetData(bufferview(s.data(), s.size()), PdfFilterList{}); }
        e.mine.push_back(refOf(o)); e.put(k); if (getenv("MON_DUMP")) fprintf(stderr, "plant %s %s\n", k.c_str(), e.model[k].c_str());
    }
}
static void settle(Ctx& c, Edit& e, const Canon& after, bool gc, const string& how)
{
    if (gc) for (auto it = e.model.begin(); it != e.model.end();) if (!after.count(it->first) && std::none_of(e.mine.begin(), e.mine.end(), [&](Ref q) { return rs(q) == it->first; })) it = e.model.erase(it); else ++it;
    string df = diffCanon(e.model, after); c.require(df.empty(), "save-changed-memory", how + ": " + df);
}
// the file opens with the right passwords only and then has the right content
static void verify(Ctx& c, const string& file, const Sec& s, const Canon& want, Marks& marks, const string& how)
{
    Rng& r = c.rng; marks.absent(c, file, how);
    std::vector<std::pair<string, const char*>> pws; pws.push_back({ s.user, "user" }); pws.push_back({ s.owner.empty() ? s.user : s.owner, "owner" });
    for (auto& p : pws)
    {
        c.phase(cat("open with ", p.second, " password ", how)); Opened o;
        try { o = openWith(c, file, p.first); c.require(!o.refused, cat(p.second, "-password-refused"), how + " " + s.str()); } catch (PdfError&) { c.die(cat("open-failed"), how + " " + excText()); }
        c.require(o.d->IsEncrypted() && o.d->GetEncrypt(), "not-encrypted", how); unsigned have = permsOf(*o.d); c.require(have == s.perms, "permissions", cat(how, " set ", s.perms, " have ", have));
        c.require(o.d->GetEncrypt()->GetEncryptAlgorithm() == algs[s.alg].a && o.d->GetEncrypt()->GetKeyLength() == s.bits, "algorithm", cat(how, " ", (int)o.d->GetEncrypt()->GetEncryptAlgorithm(), " ", o.d->GetEncrypt()->GetKeyLength()));
        try { string df = diffCanon(want, canonList(o.d->GetObjects(), &r)); c.require(df.empty(), "decrypted-graph", cat(how, " ", p.second, " ", s.str(), ": ", df)); } catch (PdfError&) { c.die("decryption-failed", how + " " + s.str() + " " + excText()); }
        c.ev("opened with the right password"); c.ev("objects compared", want.size());
    }
    std::vector<string> wrong{ "", s.user + "x", s.owner + "y", "wrong" }; if (s.user.size()) { wrong.push_back(s.user.substr(0, s.user.size() - 1)); string f = s.user; f[r.below(f.size())] ^= 1; wrong.push_back(f); } if (s.owner.size()) { wrong.push_back(s.owner.substr(1)); string f = s.owner; f[0] ^= 32; wrong.push_back(f); }
    for (auto& w : wrong) { if (s.opens(w)) continue; c.phase("open with a wrong password " + how); auto o = openWith(c, file, w); c.require(o.refused, "wrong-password-opens", cat(how, " '", w, "' opens ", s.str())); c.ev("wrong passwords refused"); }
}
static string secFacts(const Sec& s) { return cat("algorithm ", algs[s.alg].name, "\n", s.alg == 1 ? cat("bits ", s.bits, "\n") : string(), "user ", hex(s.user), "\nowner ", hex(s.owner), "\nperms ", 0xFFFFF0C0u | s.perms, "\n"); }
static void c12(Ctx& c)
{
    Rng& r = c.rng; Marks marks(r); std::unique_ptr<PdfMemDocument> doc(new PdfMemDocument()); Edit e(c); e.d = doc.get(); Sec s = genSec(r); string file, hist = "new", image;
    if (r.chance(1, 4) && corpusFile(c, image)) { doc->LoadFromBuffer(bufferview(image.data(), image.size())); hist = "loaded"; c.ev("plain files loaded"); }
    e.adoptAll(); for (unsigned i = r.below(14); i; i--) e.step(); plant(e, marks);
    if (r.chance(1, 2)) { doc->GetMetadata().SetTitle(PdfString(marks.make()), false); if (r.chance(1, 2)) doc->GetMetadata().SyncXMPMetadata(true); e.adoptAll(); for (auto& v : e.vals) e.model[v.first] = e.want(v.first); }
    e.link(); apply(c, *doc, s); unsigned rounds = 1 + r.below(4); bool enc = true, loaded = false, changedSec = false;
    for (unsigned k = 0; k < rounds; k++)
    {
        string on; auto o = anyOptions(r, on) | PdfSaveOptions::NoModifyDateUpdate; bool gc = !has(o, PdfSaveOptions::NoCollectGarbage); bool upd = loaded && r.chance(1, 2); string dev, out;
        e.link(); hist += upd ? " | update" : " | save"; hist += on; c.phase(hist);
        try { if (upd) { out = file; StringStreamDevice sd(out); doc->SaveUpdate(sd, o); } else out = saveSomewhere(c, *doc, o, dev); }
        catch (PdfError&) { if (upd && changedSec) { c.ev("updates with other passwords refused"); upd = false; out = saveSomewhere(c, *doc, o, dev); } else c.die("save-refused", hist + " " + s.str() + " " + excText()); }
        c.phase("after " + hist); Canon after = canonList(doc->GetObjects(), &r); e.touch(doc->GetCatalog().GetObject()); settle(c, e, after, gc, hist); 
        if (enc) { verify(c, out, s, e.model, marks, hist); artefact(c, string(1, (char)('a' + k)), out, e.model, secFacts(s) + "how " + hist + "\n"); c.ev(upd ? "encrypted updates" : "encrypted saves"); }
        else { auto x = openWith(c, out, ""); c.require(!x.refused && !x.d->IsEncrypted(), "still-encrypted", hist); string df = diffCanon(e.model, canonList(x.d->GetObjects())); c.require(df.empty(), "decrypted-save", hist + " " + df); c.ev("encryption removed"); }
        c.state(hist + s.str()); file = out; if (!upd) { changedSec = false; loaded = false; }
        if (k + 1 == rounds) break;
        unsigned next = r.below(8);
        if (next < 4) { bool owner = r.chance(1, 2); const string& pw = owner && s.owner.size() ? s.owner : s.user; auto x = openWith(c, file, enc ? pw : string()); c.require(!x.refused, "reopen", hist); if (r.chance(1, 6)) { auto cp = std::make_unique<PdfMemDocument>(*x.d); x.d = std::move(cp); hist += " copy"; c.ev("copies of encrypted documents"); loaded = false; } else loaded = true; doc = std::move(x.d); e.d = doc.get(); e.mine.clear(); e.vals.clear(); e.data.clear(); e.adoptAll(); hist += owner ? " | reopen with owner" : " | reopen with user"; changedSec = false; c.ev("reopened"); }
        else if (next == 4) { s = genSec(r); apply(c, *doc, s); enc = true; changedSec = true; hist += " | other passwords"; }
        else if (next == 5 && enc) { doc->SetEncrypt(nullptr); enc = false; changedSec = true; hist += " | no encryption"; }
        for (unsigned i = r.below(6); i; i--) e.step(); if (r.chance(1, 2)) plant(e, marks);
    }
    c.ev("documents"); if (r.chance(1, 300)) c.sample(hist + " " + s.str());
}
static void c13(Ctx& c)
{
    char nm[32]; snprintf(nm, 32, "/e%06llu", (unsigned long long)c.caseNo); string base = c.artefacts + nm; if (access((base + ".pdf").c_str(), R_OK)) { fprintf(stderr, "no %s\n", base.c_str()); exit(2); }
    string file = slurp(base + ".pdf"); Exp x = readExp(base + ".exp"); Rng& r = c.rng; string how = x.facts["kinds"] + " " + x.facts["crypt"]; auto unhex = [](const string& h) { string s; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)std::stoi(h.substr(i, 2), nullptr, 16); return s; };
    string user = unhex(x.facts["user"]), owner = unhex(x.facts["owner"]); unsigned long perms = std::stoul(x.facts["perms"]);
    for (int k = 0; k < 2; k++)
    {
        c.phase(cat("open with ", k ? "owner" : "user", " password")); Opened o; string who = k ? "owner" : "user";
        try { o = openWith(c, file, k ? owner : user); } catch (PdfError&) { c.die("open-failed", how + " " + excText()); }
        c.require(!o.refused, who + "-password-refused", how + " '" + (k ? owner : user) + "'"); c.require(o.d->IsEncrypted(), "not-encrypted", how);
        try { string df = diffCanon(x.objs, canonList(o.d->GetObjects(), &r)); c.require(df.empty(), "decrypted-graph", how + " " + df); } catch (PdfError&) { c.die("decryption-failed", how + " " + excText()); }
        c.require(permsOf(*o.d) == (perms & 0xF3C), "permissions", cat(how, " ", permsOf(*o.d), " ", perms)); c.ev("files opened"); c.ev("objects compared", x.objs.size()); c.ev(("opened " + x.facts["crypt"]).c_str());
    }
    c.phase("wrong"); Sec s; s.user = user; s.owner = owner; s.alg = x.facts["crypt"].find("V5") == 0 ? 3 : 0;
    for (string w : { string(), string("wrong"), user + "x", string("\x01") + owner }) if (!s.opens(w) && w != owner) { auto o = openWith(c, file, w); c.require(o.refused, "wrong-password-opens", how + " '" + w + "'"); c.ev("wrong passwords refused"); }
    c.state(how); if (r.chance(1, 200)) c.sample(how);
}
int main(int argc, char** argv) { mon::modes()["c12"] = c12; mon::modes()["c13"] = c13; return mon::main(argc, argv, c12); }
