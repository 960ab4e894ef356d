// C18: name trees against a map of stored bytes; the stored tree is walked by a reader of its own; attachments
#include "mon.h"
#include "model.h"
#include "raw.h"
using namespace mm; using namespace mon; using std::string; using std::vector; using std::map; using std::set;

typedef map<string, string> Model;   // stored bytes of the key -> canonical value
// the bytes of a string as they are written (text keeps the form it was read with)
static string utf16Form(const string& text) { vector<char32_t> v; decodeUtf8(text, v); return "\xFE\xFF" + utf16be(v); }
static string keyBytes(const PdfString& s) { if (s.GetState() == PdfStringState::Unicode) return utf16Form(s.GetString()); string h = canonStr(s); return unhex(h.substr(1)); }
static Model::iterator find(Model& m, const string& text) { auto i = m.find(textBytes(text)); return i != m.end() ? i : m.find(utf16Form(text)); }

struct TreeReader
{
    Ctx& c; const PdfIndirectObjectList& l; string how; vector<std::pair<string, string>> entries; set<PdfReference> seen; unsigned depth = 0, nodes = 0, leaves = 0;
    const PdfObject* key(const PdfObject& o, const char* k) { return derefIn(l, o.GetDictionary().GetKey(k)); }
    string val(const PdfObject& o) { auto v = derefIn(l, &o); return v ? canonVar(v->GetVariant()) : "null"; }
    std::pair<string, string> node(const PdfObject& o, bool root, unsigned d)
    {
        nodes++; depth = std::max(depth, d); if (o.GetIndirectReference().IsIndirect()) c.require(seen.insert(o.GetIndirectReference()).second, "tree-node-twice", how); auto kids = key(o, "Kids"), names = key(o, "Names"), lim = key(o, "Limits");
        if (root && lim) c.die("tree-root-limits", how); if ((kids != nullptr) == (names != nullptr) && !(root && !kids)) c.die("tree-node-shape", how + (kids ? ": Kids and Names" : ": neither Kids nor Names"));
        std::pair<string, string> range; bool any = false; auto extend = [&](const string& a, const string& b) { if (!any) range.first = a; range.second = b; any = true; };
        if (kids) { c.require(kids->IsArray() && kids->GetArray().GetSize() > 0, "tree-kids", how); for (auto& k : kids->GetArray()) { c.require(k.IsReference(), "tree-kid-direct", how); auto x = l.GetObject(k.GetReference()); c.require(x && x->IsDictionary(), "tree-kid-missing", how); auto q = node(*x, false, d + 1); extend(q.first, q.second); } }
        else if (names)
        {
            leaves++; c.require(names->IsArray() && names->GetArray().GetSize() % 2 == 0, "tree-names", how); auto& a = names->GetArray(); if (!root) c.require(a.GetSize() > 0, "tree-leaf-empty", how);
            for (unsigned i = 0; i < a.GetSize(); i += 2) { auto ks = derefIn(l, &a[i]); c.require(ks && ks->IsString(), "tree-key-type", how); string b = keyBytes(ks->GetString()); if (!entries.empty() && !(entries.back().first < b)) c.die("tree-keys-unordered", how + ": " + vis(b) + " after " + vis(entries.back().first)); entries.push_back({ b, val(a[i + 1]) }); extend(b, b); }
        }
        if (!root)
        {
            c.require(lim && lim->IsArray() && lim->GetArray().GetSize() == 2, "tree-limits-missing", how); auto &lo = *derefIn(l, &lim->GetArray()[0]), &hi = *derefIn(l, &lim->GetArray()[1]); c.require(lo.IsString() && hi.IsString(), "tree-limits-type", how);
            string a = keyBytes(lo.GetString()), b = keyBytes(hi.GetString()); if (a != range.first || b != range.second) c.die("tree-limits", how + ": " + vis(a) + " .. " + vis(b) + " but the keys are " + vis(range.first) + " .. " + vis(range.second));
        }
        c.ev("tree nodes walked"); return range;
    }
};
static void checkStored(Ctx& c, PdfDocument& d, const PdfObject& root, const Model& m, const string& how)
{
    TreeReader t{ c, d.GetObjects(), how, {}, {} }; t.node(root, true, 1); if (t.entries.size() != m.size()) c.die("tree-entries", how + cat(": ", t.entries.size(), " entries instead of ", m.size()));
    auto i = m.begin(); for (auto& e : t.entries) { if (e.first != i->first) c.die("tree-entries", how + ": " + vis(e.first) + " instead of " + vis(i->first)); if (e.second != i->second) c.die("tree-value", how + ": " + vis(e.first) + " has " + e.second + " instead of " + i->second); i++; c.ev("stored entries compared"); }
    c.state(cat("depth ", t.depth, " nodes ", t.nodes / 4, " leaves ", t.leaves)); if (t.depth > 2) c.ev("trees of three levels or more");
}
// a tree of another producer over the entries
static string rawNode(RawPdf& p, Rng& r, const vector<std::pair<string, string>>& e, size_t b, size_t n, bool root, int depth)
{
    string lim = root ? "" : "/Limits " + p.maybe("[" + p.maybe(p.str(e[b].first), 1, 8) + p.str(e[b + n - 1].first) + "]", 1, 8);
    if (depth > 5 || n <= 1 || (n < 70 && r.chance(1, 2))) { string s = "["; for (size_t i = b; i < b + n; i++) s += p.maybe(p.str(e[i].first), 1, 12) + " " + p.maybe(e[i].second, 1, 2) + " "; return "<<" + lim + "/Names " + p.maybe(s + "]", 1, 6) + ">>"; }
    string s = "["; for (size_t i = b; i < b + n;) { size_t k = std::min<size_t>(b + n - i, 1 + (size_t)r.below(std::max<size_t>(1, n / 2))); s += p.ref(p.add(rawNode(p, r, e, i, k, false, depth + 1))) + " "; i += k; } return "<<" + lim + "/Kids " + p.maybe(s + "]", 1, 6) + ">>";
}
static void c18(Ctx& c)
{
    keptFiles().clear(); Rng& r = c.rng; std::unique_ptr<PdfMemDocument> d; string hist; map<string, Model> model; static const vector<string> trees{ "Dests", "JavaScript", "EmbeddedFiles", "Mon" }; set<string> absent; bool uni = r.chance(1, 2); int style = (int)r.below(4); unsigned seq = 0;
    auto newKey = [&]() { string k; switch (style) { case 0: k = cat("key", seq++); break; case 1: { char b[32]; snprintf(b, 32, "%06u", 500000u - seq++); k = b; break; } case 2: k = randomText(r, 3, !uni); break; default: k = randomText(r, 8, !uni); } return k; };
    auto value = [&](int64_t i) { return "n" + std::to_string(i); };
    if (r.chance(1, 2))
    {
        RawPdf p(r); unsigned ct = p.alloc(), pt = p.add("<</Type/Pages/Count 0/Kids[]>>"); string ns;
        for (auto& t : trees) if (r.chance(2, 3)) { Model& m = model[t]; bool wide = r.chance(1, 5); if (wide) c.ev("trees with wide keys"); unsigned n = r.chance(1, 10) ? (unsigned)r.below(2000) : (unsigned)r.below(60); vector<std::pair<string, string>> e; for (unsigned i = 0; i < n; i++) { string k = newKey(); if (find(m, k) == m.end()) m[wide ? utf16Form(k) : textBytes(k)] = value((int64_t)r.below(1000)); } for (auto& x : m) e.push_back({ x.first, x.second.substr(1) }); string s = e.empty() ? string("<<>>") : rawNode(p, r, e, 0, e.size(), true, 0); ns += "/" + t + " " + p.maybe(s, 1, 2); hist += cat(t, " of ", m.size(), " "); }
        p.objs[ct] = "<</Type/Catalog/Pages " + p.ref(pt) + "/Names " + p.maybe("<<" + ns + ">>", 1, 2) + ">>"; d = loadDoc(p.file(ct)); c.ev("trees of other producers", model.size());
    }
    else { d.reset(new PdfMemDocument()); hist = "new "; c.ev("new documents"); }
    c.phase(hist);
    auto tree = [&]() -> PdfNameTree& { return d->GetOrCreateNameTree(); };
    auto lookup = [&](const string& t, const string& text)
    {
        auto& m = model[t]; auto i = find(m, text); auto& nt = tree(); auto v = nt.GetValue(t, PdfString(text)); bool has = nt.HasValue(t, PdfString(text)); if (has != (v != nullptr)) c.die("has-value", hist + vis(text));
        if ((v != nullptr) != (i != m.end())) c.die(v ? "absent-key-found" : "key-not-found", hist + "| " + t + " " + vis(text)); if (v && canonVar(v->GetVariant()) != i->second) c.die("wrong-value", hist + "| " + vis(text) + " has " + canonVar(v->GetVariant()) + " instead of " + i->second); c.ev(v ? "keys found" : "keys absent");
    };
    auto textOf = [&](const string& b) { string t; if (!decodeTextString(b, t)) c.die("harness", "undecodable"); return t; };
    auto check = [&](const string& t)
    {
        auto& m = model[t]; tree(); auto names = derefIn(d->GetObjects(), d->GetCatalog().GetDictionary().GetKey("Names")); c.require(names && names->IsDictionary(), "names-not-in-catalog", hist); auto root = derefIn(d->GetObjects(), names->GetDictionary().GetKey(t)); if (!root) { c.require(m.empty(), "tree-lost", hist); return; } checkStored(c, *d, *root, m, hist + "| " + t);
        bool nameable = true; set<string> texts; for (auto& x : m) { string tx = textOf(x.first); if (textBytes(tx).compare(0, 2, "\xFE\xFF") == 0 || tx.find('\0') != string::npos) nameable = false; }
        PdfDictionary dict; dict.AddKey("Stale", PdfVariant(true)); try { tree().ToDictionary(t, dict); } catch (PdfError&) { if (nameable) c.die("enumeration-refused", hist + excText()); c.ev("enumerations refused for names without PDF encoding"); return; }
        if (nameable) { if (dict.GetSize() != m.size()) c.die("enumeration", hist + cat("| ", t, ": ", dict.GetSize(), " instead of ", m.size())); for (auto& x : m) { auto v = derefIn(d->GetObjects(), dict.GetKey(textBytes(textOf(x.first)))); if (!v || canonVar(v->GetVariant()) != x.second) c.die("enumeration", hist + "| " + vis(x.first)); } c.ev("enumerations compared"); }
    };
    unsigned n = r.chance(1, 12) ? 100 + (unsigned)r.below(c.thorough ? 12000 : 4000) : 1 + (unsigned)r.below(200); hist += cat(n, " operations ");
    for (unsigned q = 0; q < n; q++)
    {
        auto& t = r.chance(7, 8) ? trees[c.caseNo % 4] : r.pick(trees); auto& m = model[t]; unsigned k = (unsigned)r.below(12);
        if (k < 8)
        {
            string text = !m.empty() && r.chance(1, 6) ? textOf(std::next(m.begin(), (long)r.below(m.size()))->first) : newKey(); int64_t v = (int64_t)r.below(100000); c.phase(hist + vis(text)); PdfString ks(text);
            if (r.chance(1, 3)) { auto& o = d->GetObjects().CreateObject(PdfVariant(v)); tree().AddValue(t, ks, PdfObject(o.GetIndirectReference())); } else tree().AddValue(t, ks, PdfObject(PdfVariant(v))); auto old = find(m, text); if (old != m.end()) { old->second = value(v); c.ev("values replaced"); } else m[textBytes(text)] = value(v); c.ev("values added");
        }
        else if (k < 10) { string text = !m.empty() && r.chance(2, 3) ? textOf(std::next(m.begin(), (long)r.below(m.size()))->first) : newKey() + (r.chance(1, 2) ? "x" : ""); lookup(t, text); }
        else if (k == 10 && r.chance(1, n > 300 ? 60 : 6)) check(t);
        else if (k == 11 && r.chance(1, n > 300 ? 300 : 20)) { hist += "reload "; c.phase(hist); d = loadDoc(saveDoc(*d, r)); c.ev("reloaded"); }
    }
    tree(); for (auto& t : trees) { check(t); for (int i = 0; i < 10 && !model[t].empty(); i++) lookup(t, textOf(std::next(model[t].begin(), (long)r.below(model[t].size()))->first)); lookup(t, "no such key"); lookup(t, ""); }
    c.phase(hist + "final save"); hist += "saved "; d = loadDoc(saveDoc(*d, r)); for (auto& t : trees) { if (r.chance(1, 2)) for (auto& x : model[t]) { lookup(t, textOf(x.first)); if (r.chance(1, 40)) break; } check(t); } c.ev("saved trees compared", 4); if (r.chance(1, 50)) c.sample(hist);
}

// named destinations and attachments
static void c18a(Ctx& c)
{
    keptFiles().clear(); Rng& r = c.rng; std::unique_ptr<PdfMemDocument> d(new PdfMemDocument()); string hist; unsigned pages = 1 + (unsigned)r.below(3); for (unsigned i = 0; i < pages; i++) d->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    struct Att { string name, data; }; map<string, Att> atts; map<string, string> dests; map<string, int> destPage; unsigned seq = 0;
    auto fileOf = [&](const PdfObject& spec, const string& how) -> std::pair<string, string>
    {
        auto& l = d->GetObjects(); auto k = [&](const PdfObject& o, const char* n) { return derefIn(l, o.GetDictionary().GetKey(n)); }; auto uf = k(spec, "UF"); c.require(uf && uf->IsString(), "attachment-name", how); auto ef = k(spec, "EF"); c.require(ef && ef->IsDictionary(), "attachment-without-data", how); auto f = k(*ef, "F"); c.require(f && f->HasStream(), "attachment-without-data", how);
        string data = streamDecoded(*f->GetStream()); if (auto ps = k(*f, "Params")) if (auto sz = k(*ps, "Size")) if (sz->GetNumber() != (int64_t)data.size()) c.die("attachment-size", how); return { uf->GetString().GetString(), data };
    };
    auto check = [&](const string& how)
    {
        for (auto& a : atts) { std::unique_ptr<PdfFileSpec> s(d->GetAttachment(PdfString(a.first))); if (!s) c.die("attachment-missing", how + vis(a.first)); auto f = fileOf(s->GetObject(), how); if (f.first != a.second.name || s->GetFilename(true).GetString() != a.second.name || s->GetFilename(false).GetString() != a.first) c.die("attachment-name", how + vis(f.first) + " instead of " + vis(a.second.name)); if (f.second != a.second.data) c.die("attachment-data", how + vis(a.second.name)); c.ev("attachments compared"); }
        std::unique_ptr<PdfFileSpec> none(d->GetAttachment(PdfString("no such file"))); c.require(!none, "absent-attachment-found", how);
        for (auto& x : dests) { PdfObject key(PdfString(x.first)); auto& holder = d->GetObjects().CreateObject(PdfVariant(PdfString(x.first))); auto ds = PdfDestination::Create(holder); c.require(ds && canonVar(PdfVariant(PdfArray(ds->GetObject().GetArray()))).find(x.second) != string::npos, "named-destination", how + vis(x.first)); auto p = ds->GetPage(); c.require(p && (int)p->GetIndex() == destPage[x.first], "named-destination-page", how); d->GetObjects().RemoveObject(holder.GetIndirectReference()); c.ev("named destinations compared"); }
        if (!atts.empty()) { auto names = derefIn(d->GetObjects(), d->GetCatalog().GetDictionary().GetKey("Names")); auto t = derefIn(d->GetObjects(), names->GetDictionary().GetKey("EmbeddedFiles")); TreeReader tr{ c, d->GetObjects(), how, {}, {} }; tr.node(*t, true, 1); c.require(tr.entries.size() == atts.size(), "attachment-count", how); }
    };
    unsigned n = r.chance(1, 8) ? 150 + (unsigned)r.below(100) : 1 + (unsigned)r.below(20);
    while (n--)
    {
        if (r.chance(1, 2))
        {
            // the name in the file specification keeps letters and digits only: keep the names distinct in these
            string base = cat("f", seq++, "_"), nm = base + randomText(r, 6, true); for (auto& ch : nm) if (ch == '/' || ch == ':' || ch == '\\') ch = '-'; string data = r.bytes(r.chance(1, 30) ? r.below(200000) : r.below(300)); bool strip = r.chance(1, 2); int how = (int)r.below(3); string dir; hist += cat("attach ", nm, " "); c.phase(hist);
            if (how == 0) { string p = c.scratch + "/" + nm; spill(p, data); PdfFileSpec s(*d, p, true, true); d->AttachFile(s); atts[s.GetFilename(false).GetString()] = { nm, data }; unlink(p.c_str()); c.ev("files attached from disk"); }
            else if (how == 1) { string p = strip ? "some/dir/" + nm : nm; PdfFileSpec s(*d, p, data.data(), data.size(), strip); d->AttachFile(s); atts[s.GetFilename(false).GetString()] = { nm, data }; c.ev("files attached from memory"); }
            else { string un = base + randomText(r, 6); for (auto& ch : un) if (ch == '/' || ch == ':' || ch == '\\') ch = '-'; PdfFileSpec s(*d, un, data.data(), data.size(), true); d->AttachFile(s); atts[s.GetFilename(false).GetString()] = { un, data }; c.ev("files attached from memory"); }
        }
        else if (r.chance(1, 2)) { string nm = randomText(r, 10); if (nm.empty()) continue; unsigned k = (unsigned)r.below(pages); double a = (double)r.below(2000) / 4; PdfDestination ds(d->GetPages().GetPageAt(k), PdfDestinationFit::FitH, a); d->AddNamedDestination(ds, PdfString(nm)); dests[nm] = "/" + hex("FitH") + " n" + canonReal(a); destPage[nm] = (int)k; hist += "dest "; c.ev("destinations named"); }
        else if (r.chance(1, 4)) { hist += "reload "; c.phase(hist); d = loadDoc(saveDoc(*d, r)); check(hist); c.ev("reloaded"); }
        c.state(cat(atts.size(), " ", dests.size()));
    }
    check(hist); d = loadDoc(saveDoc(*d, r)); check(hist + "saved ");
}
int main(int argc, char** argv) { modes()["c18"] = c18; modes()["c18a"] = c18a; return mon::main(argc, argv, c18); }
