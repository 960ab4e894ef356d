// C16: page tree;  C17: importing pages
#include <list>
#include "mon.h"
#include "model.h"
using namespace mon; using namespace mm; using std::string; using std::vector; using std::map; using std::set;

struct Rect { double l = 0, b = 0, w = 0, h = 0; bool operator==(const Rect& o) const { return fabs(l - o.l) < 1e-5 && fabs(b - o.b) < 1e-5 && fabs(w - o.w) < 1e-5 && fabs(h - o.h) < 1e-5; } };
static string str(const Rect& r) { return cat("[", r.l, " ", r.b, " ", r.w, " ", r.h, "]"); }
struct Eff { bool hasMedia = false, hasCrop = false, hasTrim = false; Rect media, crop, trim; int rot = 0; string res; };
static string str(const Eff& e) { return cat("media ", str(e.media), " crop ", e.hasCrop ? str(e.crop) : "-", " trim ", e.hasTrim ? str(e.trim) : "-", " rotate ", e.rot, " resources ", e.res); }
struct Pg { string id; Eff eff; };

// ---------------------------------------------------------------- documents with page trees of any shape, as bytes
struct Gen
{
    Rng& r; vector<string> objs{ "" }; vector<Pg> pages; bool rich; vector<unsigned> pageNums, extra; int serial = 0; string tag;
    Gen(Rng& rng, bool richContent, const string& t) : r(rng), rich(richContent), tag(t) { }
    unsigned alloc() { objs.push_back("null"); return (unsigned)objs.size() - 1; }
    string ref(unsigned n) { return cat(n, " 0 R"); }
    string maybe(const string& v, unsigned num = 1, unsigned den = 5) { if (!r.chance(num, den)) return v; unsigned n = alloc(); objs[n] = v; return ref(n); }
    string num(double d) { return d == floor(d) && !r.chance(1, 4) ? std::to_string((long)d) : fmtd(d); }
    string box(Rect& o)
    {
        o.l = r.chance(1, 2) ? 0 : (double)r.range(-200, 200) / 2; o.b = r.chance(1, 2) ? 0 : (double)r.range(-200, 200) / 2; o.w = (double)r.range(1, 1600) / 2; o.h = (double)r.range(1, 1600) / 2;
        double x1 = o.l, x2 = o.l + o.w, y1 = o.b, y2 = o.b + o.h; if (r.chance(1, 6)) std::swap(x1, x2); if (r.chance(1, 6)) std::swap(y1, y2);
        return maybe("[" + num(x1) + " " + num(y1) + " " + num(x2) + " " + num(y2) + "]");
    }
    string attrs(Eff& e, bool page, bool root)
    {
        string s;
        if (root ? r.chance(4, 5) : r.chance(1, page ? 3 : 5)) { s += "/MediaBox " + box(e.media); e.hasMedia = true; }
        if (r.chance(1, 5)) { s += "/CropBox " + box(e.crop); e.hasCrop = true; }
        if (r.chance(1, 5)) { static const vector<int> rs{ 0, 90, 180, 270, -90, 450, -180, 360 }; e.rot = r.pick(rs); s += "/Rotate " + maybe(std::to_string(e.rot)); }
        if (root ? r.chance(1, 2) : r.chance(1, 3)) { e.res = cat(tag, "r", serial++); string d = "<</MonRes/" + e.res + resources() + ">>"; s += "/Resources " + maybe(d, 1, 2); }
        if (page && !e.hasMedia) { s += "/MediaBox " + box(e.media); e.hasMedia = true; }
        if (page && r.chance(1, 6)) { s += "/TrimBox " + box(e.trim); e.hasTrim = true; }
        return s;
    }
    string target() { if (!extra.empty() && r.chance(2, 3)) return ref(r.pick(extra)); if (!pageNums.empty() && r.chance(2, 3)) return ref(r.pick(pageNums)); return r.chance(1, 3) ? cat(900 + r.below(200), " 0 R") : string("null"); }
    string value(int d)
    {
        switch (r.below(d > 2 ? 5 : 8)) { case 0: return std::to_string((long)r.range(-99, 99)); case 1: return "(s" + std::to_string(r.below(100)) + ")"; case 2: return "/N" + std::to_string(r.below(20)); case 3: case 4: return target();
            case 5: { string s = "["; for (unsigned i = r.below(4); i; i--) s += value(d + 1) + " "; return s + "]"; } default: { string s = "<<"; for (unsigned i = r.below(4); i; i--) s += cat("/K", i, " ") + value(d + 1); return s + ">>"; } }
    }
    string stream(const string& dict, const string& data) { unsigned l = 0; if (r.chance(1, 4)) { l = alloc(); objs[l] = std::to_string(data.size()); } return "<<" + dict + "/Length " + (l ? ref(l) : std::to_string(data.size())) + ">>stream\n" + data + "\nendstream"; }
    string resources() { if (!rich) return ""; string s; if (r.chance(1, 2)) s += "/Font<</F1 " + target() + ">>"; if (r.chance(1, 3)) s += "/XObject " + maybe("<</X " + target() + "/Y " + target() + ">>"); return s; }
    string ops() { string s; for (unsigned i = r.below(4); i; i--) s += cat(r.chance(1, 3) ? " " : "", r.below(100), " ", r.below(100), r.chance(1, 2) ? " m" : " l", r.chance(2, 3) ? "\n" : " ", tag, serial++, " Op", r.chance(1, 2) ? "\n" : i > 1 ? " " : ""); return s; }
    string pageExtra()
    {
        if (!rich) return ""; string s;
        if (r.chance(3, 4)) { auto one = [&]() { unsigned n = alloc(); objs[n] = stream(r.chance(1, 4) ? "/Mon " + target() : "", ops()); return ref(n); }; if (r.chance(1, 2)) s += "/Contents " + one(); else { string a = "["; for (unsigned i = r.below(4); i; i--) a += one() + " "; s += "/Contents " + maybe(a + "]"); } }
        if (r.chance(1, 2)) { string a = "["; for (unsigned i = 1 + r.below(2); i; i--) { unsigned n = alloc(); objs[n] = "<</Type/Annot/Subtype/Link/Rect[0 0 5 5]/Dest[" + target() + "/Fit]/Mon " + value(0) + ">>"; a += ref(n) + " "; } s += "/Annots " + maybe(a + "]"); }
        if (r.chance(1, 2)) s += "/MonGraph " + value(0);
        return s;
    }
    string node(unsigned self, unsigned parent, Eff e, int depth, unsigned& count)
    {
        bool root = parent == 0; string a = attrs(e, false, root); unsigned kids = depth >= 5 ? r.below(2) : root ? r.below(6) : r.below(5); string ks = "["; count = 0;
        for (unsigned i = 0; i < kids; i++)
        {
            unsigned n = alloc(); ks += ref(n) + " ";
            if (depth < 5 && r.chance(2, 5)) { unsigned sub; string s = node(n, self, e, depth + 1, sub); objs[n] = s; count += sub; }
            else { Eff pe = e; Pg p; p.id = cat(tag, "p", serial++); pageNums.push_back(n); size_t at = pages.size(); pages.push_back(p); string s = "<</Type/Page/Parent " + ref(self) + "/MonId(" + p.id + ")" + attrs(pe, true, false) + pageExtra() + ">>"; pages[at].eff = pe; objs[n] = s; count++; }
        }
        return "<</Type/Pages" + (root ? string() : "/Parent " + ref(parent)) + "/Count " + maybe(std::to_string(count), 1, 8) + "/Kids " + maybe(ks + "]", 1, 6) + a + ">>";
    }
    string make(bool outlines = false)
    {
        unsigned cat_ = alloc(), root = alloc();
        if (rich) { for (unsigned i = 2 + r.below(8); i; i--) extra.push_back(alloc()); }
        unsigned count; objs[root] = node(root, 0, Eff(), 0, count);
        for (auto n : extra) objs[n] = r.chance(1, 3) ? stream("/Ref " + target() + "/V " + value(1), r.bytes(r.below(60))) : value(0);
        string cs = "<</Type/Catalog/Pages " + ref(root);
        if (outlines && r.chance(2, 3)) { unsigned o = alloc(), k = 1 + (unsigned)r.below(3); vector<unsigned> it; for (unsigned i = 0; i < k; i++) it.push_back(alloc()); objs[o] = "<</Type/Outlines/First " + ref(it[0]) + "/Last " + ref(it.back()) + cat("/Count ", k, ">>");
            for (unsigned i = 0; i < k; i++) { titles.push_back(cat(tag, "o", i)); objs[it[i]] = "<</Title(" + titles.back() + ")/Parent " + ref(o) + (i ? "/Prev " + ref(it[i - 1]) : "") + (i + 1 < k ? "/Next " + ref(it[i + 1]) : "") + "/Dest[" + target() + "/Fit]>>"; } cs += "/Outlines " + ref(o); }
        objs[cat_] = cs + ">>";
        string out = "%PDF-1.6\n"; vector<size_t> off(objs.size());
        for (size_t i = 1; i < objs.size(); i++) { off[i] = out.size(); out += cat(i, " 0 obj\n") + objs[i] + "\nendobj\n"; }
        size_t x = out.size(); out += cat("xref\n0 ", objs.size(), "\n0000000000 65535 f \n"); char b[32];
        for (size_t i = 1; i < objs.size(); i++) { snprintf(b, 32, "%010zu 00000 n \n", off[i]); out += b; }
        return out + cat("trailer<</Size ", objs.size(), "/Root ", cat_, " 0 R>>\nstartxref\n", x, "\n%%EOF\n");
    }
    vector<string> titles;
};
// The document reads its objects on demand: it keeps looking at the file it was loaded from
static std::list<string> g_files;
static std::unique_ptr<PdfMemDocument> load(const string& s) { g_files.push_back(s); auto& k = g_files.back(); std::unique_ptr<PdfMemDocument> d(new PdfMemDocument()); d->LoadFromBuffer(bufferview(k.data(), k.size())); return d; }
static string save(PdfMemDocument& d, Rng& r) { charbuff b; StringStreamDevice dev(b); PdfSaveOptions o = PdfSaveOptions::None; if (r.chance(1, 3)) o = o | PdfSaveOptions::NoCollectGarbage; if (r.chance(1, 3)) o = o | PdfSaveOptions::NoFlateCompress; d.Save(dev, o); return string(b.data(), b.size()); }

// ---------------------------------------------------------------- a reader of the page tree of its own
struct Leaf { const PdfObject* obj; Eff eff; const PdfObject* res; };
struct Walker
{
    Ctx& c; const PdfIndirectObjectList& l; vector<Leaf> leaves; set<PdfReference> seen; string how; std::set<PdfReference>* empty = nullptr;
    const PdfObject* deref(const PdfObject* o) { for (int i = 0; o && o->IsReference() && i < 20; i++) o = l.GetObject(o->GetReference()); return o; }
    const PdfObject* key(const PdfObject& d, const char* k) { return deref(d.GetDictionary().GetKey(k)); }
    double num(const PdfObject& o) { auto p = deref(&o); return p ? p->GetReal() : 0; }
    Rect rect(const PdfObject& o) { auto& a = o.GetArray(); double x1 = num(a[0]), y1 = num(a[1]), x2 = num(a[2]), y2 = num(a[3]); return { std::min(x1, x2), std::min(y1, y2), fabs(x2 - x1), fabs(y2 - y1) }; }
    void attrs(const PdfObject& o, Eff& e, const PdfObject*& res)
    {
        if (auto m = key(o, "MediaBox")) { e.media = rect(*m); e.hasMedia = true; }
        if (auto m = key(o, "CropBox")) { e.crop = rect(*m); e.hasCrop = true; }
        if (auto m = key(o, "Rotate")) e.rot = (int)m->GetNumber();
        if (auto m = key(o, "Resources")) { res = m; auto t = key(*m, "MonRes"); e.res = t ? string(t->GetName().GetString()) : ""; }
    }
    unsigned node(const PdfObject& o, const PdfObject* parent, Eff e, const PdfObject* res)
    {
        auto ref = o.GetIndirectReference(); string name = cat(ref.ObjectNumber(), ".", ref.GenerationNumber()); if (!seen.insert(ref).second) c.die("page-tree-node-twice", how + ": object " + name);
        auto p = o.GetDictionary().GetKey("Parent");
        if (parent == nullptr) { if (p && deref(p)) c.die("page-tree-root-with-parent", how); }
        else if (!p || !p->IsReference() || p->GetReference() != parent->GetIndirectReference()) c.die("page-tree-parent", how + ": object " + name + " has the parent " + (p ? canonVar(p->GetVariant()) : "none") + " but is a kid of " + std::to_string(parent->GetIndirectReference().ObjectNumber()));
        auto type = key(o, "Type"); c.require(type && type->IsName(), "page-tree-type", how + " " + name); attrs(o, e, res);
        if (type->GetName() == "Page") { if (auto m = key(o, "TrimBox")) { e.trim = rect(*m); e.hasTrim = true; } leaves.push_back({ &o, e, res }); return 1; }
        c.require(type->GetName() == "Pages", "page-tree-type", how + " " + name); auto kids = key(o, "Kids"); c.require(kids && kids->IsArray(), "page-tree-kids", how + " " + name);
        if (empty && parent && kids->GetArray().GetSize() == 0) empty->insert(ref);
        unsigned n = 0; for (auto& k : kids->GetArray()) { c.require(k.IsReference(), "page-tree-kids", how + ": direct kid in " + name); auto ko = l.GetObject(k.GetReference()); c.require(ko && ko->IsDictionary(), "page-tree-missing-kid", how + " in " + name); n += node(*ko, &o, e, res); }
        auto count = key(o, "Count"); if (!count || !count->IsNumber() || count->GetNumber() != n) c.die("page-tree-count", how + ": " + name + " has " + (count ? canonVar(count->GetVariant()) : "none") + cat(" for ", n, " leaves"));
        c.ev("nodes checked"); return n;
    }
};
static vector<Leaf> walk(Ctx& c, PdfDocument& d, const string& how, std::set<PdfReference>* empty = nullptr)
{
    Walker w{ c, d.GetObjects(), {}, {}, how, empty }; auto root = d.GetCatalog().GetDictionary().GetKey("Pages"); c.require(root && root->IsReference(), "no-page-tree", how);
    auto o = d.GetObjects().GetObject(root->GetReference()); c.require(o != nullptr, "no-page-tree", how); w.node(*o, nullptr, Eff(), nullptr); return w.leaves;
}
static string idOf(const PdfObject& o) { auto k = o.GetDictionary().GetKey("MonId"); return k && k->IsString() ? string(k->GetString().GetString()) : "?"; }
static bool same(const Eff& a, const Eff& b) { return a.hasMedia == b.hasMedia && a.media == b.media && (a.hasCrop ? a.crop : a.media) == (b.hasCrop ? b.crop : b.media) && a.hasTrim == b.hasTrim && (!a.hasTrim || a.trim == b.trim) && a.rot == b.rot && a.res == b.res; }
static Rect rectOf(const PdfRect& r) { return { r.GetLeft(), r.GetBottom(), r.GetWidth(), r.GetHeight() }; }
static PdfRect toRect(const Rect& r) { return PdfRect(r.l, r.b, r.w, r.h); }

static void checkPage(Ctx& c, PdfDocument& d, PdfPage& p, unsigned i, const Pg& want, const string& how)
{
    auto at = [&]() { return how + cat(": page ", i, " "); };
    if (idOf(p.GetObject()) != want.id) c.die("wrong-page", at() + "is " + idOf(p.GetObject()) + " instead of " + want.id);
    if (p.GetIndex() != i) c.die("page-index", at() + cat("says index ", p.GetIndex()));
    if (p.GetPageNumber() != i + 1) c.die("page-number", at() + cat("says number ", p.GetPageNumber()));
    auto& e = want.eff; Rect crop = e.hasCrop ? e.crop : e.media, trim = e.hasTrim ? e.trim : crop;
    auto eq = [&](const char* k, const PdfRect& got, const Rect& w) { if (!(rectOf(got) == w)) c.die(string("page-") + k, at() + "has " + str(rectOf(got)) + " instead of " + str(w)); };
    eq("media-box", p.GetMediaBox(), e.media); eq("rect", p.GetRect(), e.media); eq("crop-box", p.GetCropBox(), crop); eq("trim-box", p.GetTrimBox(), trim); eq("bleed-box", p.GetBleedBox(), crop); eq("art-box", p.GetArtBox(), crop);
    if (p.GetRotationRaw() != e.rot) c.die("page-rotation", at() + cat("has ", p.GetRotationRaw(), " instead of ", e.rot));
    double teta = 9; bool rot = p.HasRotation(teta); if (rot != (e.rot % 360 != 0)) c.die("page-has-rotation", at()); if (fabs(remainder(teta + e.rot * M_PI / 180, 2 * M_PI)) > 1e-9) c.die("page-rotation-angle", at() + cat(teta, " for ", e.rot));
    string res; if (auto rs = p.GetResources()) { auto t = rs->GetDictionary().FindKey("MonRes"); if (t) res = t->GetName().GetString(); } if (res != e.res) c.die("page-resources", at() + "has " + res + " instead of " + e.res);
    c.ev("pages compared"); (void)d;
}
static void checkAll(Ctx& c, PdfDocument& d, const vector<Pg>& want, const string& how, bool all)
{
    auto leaves = walk(c, d, how); string got, w; for (auto& l : leaves) got += idOf(*l.obj) + " "; for (auto& p : want) w += p.id + " ";
    if (got != w) c.die("page-order", how + ": pages " + got + "instead of " + w);
    for (size_t i = 0; i < want.size(); i++) if (!same(leaves[i].eff, want[i].eff)) c.die("inherited-attributes", how + cat(": page ", i, " ") + str(leaves[i].eff) + " instead of " + str(want[i].eff));
    if (d.GetPages().GetCount() != want.size()) c.die("page-count", how + cat(": ", d.GetPages().GetCount(), " instead of ", want.size()));
    c.ev("trees compared");
    for (size_t k = all ? want.size() : std::min<size_t>(want.size(), 3); k; k--)
    {
        unsigned i = (unsigned)(all ? k - 1 : c.rng.below(want.size())); auto& p = d.GetPages().GetPageAt(i); checkPage(c, d, p, i, want[i], how);
        if (all || c.rng.chance(1, 4)) { auto& q = d.GetPages().GetPage(leaves[i].obj->GetIndirectReference()); if (&q != &p) c.die("page-by-reference", how + cat(": page ", i)); }
    }
}
static void c16(Ctx& c)
{ g_files.clear();
    Rng& r = c.rng; std::unique_ptr<PdfMemDocument> d; vector<Pg> m; string hist; int serial = 0; map<string, PdfPage*> held;
    if (r.chance(1, 4)) { d.reset(new PdfMemDocument()); hist = "new"; c.ev("new documents"); }
    else { Gen g(r, r.chance(1, 4), "a"); string f = g.make(); if (getenv("MON_DUMP")) spill(getenv("MON_DUMP"), f); m = g.pages; hist = cat("tree of ", m.size()); c.phase(hist); d = load(f); c.ev("documents with a tree"); c.state(cat("tree ", m.size(), " ", g.objs.size())); }
    unsigned n = 1 + r.below(c.thorough ? 40 : 20); auto& o = d; checkAll(c, *d, m, hist, r.chance(1, 2));
    auto adopt = [&](unsigned i, PdfPage& p, const Rect& size) { Pg g; g.id = cat("n", serial++); p.GetDictionary().AddKey("MonId", PdfString(g.id)); auto l = walk(c, *d, hist); c.require(i < l.size() && l[i].obj == &p.GetObject(), "created-page-elsewhere", hist); g.eff = l[i].eff; if (!(g.eff.media == size)) c.die("created-page-size", hist); if (g.eff.rot || !g.eff.res.empty() || (g.eff.hasCrop && !(g.eff.crop == size))) c.die("created-page-inherits", hist + ": " + str(g.eff)); m.insert(m.begin() + i, g); held[g.id] = &p; };
    auto size = [&]() { Rect s; s.w = (double)r.range(1, 2000) / 2; s.h = (double)r.range(1, 2000) / 2; if (r.chance(1, 4)) { s.l = (double)r.range(-50, 50); s.b = (double)r.range(-50, 50); } return s; };
    while (n--)
    {
        unsigned k = (unsigned)r.below(16), cnt = (unsigned)m.size(), i = cnt ? (unsigned)r.below(cnt) : 0; string op;
        if (k < 2) { Rect s = size(); op = cat("create at the end"); hist += " | " + op; c.phase(hist); auto& p = o->GetPages().CreatePage(toRect(s)); adopt(cnt, p, s); c.ev("pages created"); }
        else if (k < 5) { Rect s = size(); unsigned at = r.chance(1, 8) ? cnt + (unsigned)r.below(5) : cnt ? (unsigned)r.below(cnt + 1) : 0; op = cat("create at ", at); hist += " | " + op; c.phase(hist); auto& p = o->GetPages().CreatePageAt(at, toRect(s)); adopt(std::min(at, cnt), p, s); c.ev("pages created"); }
        else if (k < 7 && cnt) { op = cat("remove ", i); hist += " | " + op; c.phase(hist); set<PdfReference> before, after; walk(c, *o, hist, &before); o->GetPages().RemovePageAt(i); walk(c, *o, hist, &after); for (auto& q : after) if (!before.count(q)) c.die("empty-node-left", hist + cat(": ", q.ObjectNumber())); held.erase(m[i].id); m.erase(m.begin() + i); c.ev("pages removed"); }
        else if (k < 10 && cnt) { unsigned to = r.chance(1, 10) ? cnt + (unsigned)r.below(3) : (unsigned)r.below(cnt); op = cat("move ", i, " to ", to); hist += " | " + op; c.phase(hist); auto& p = o->GetPages().GetPageAt(i); p.MoveAt(to); Pg g = m[i]; m.erase(m.begin() + i); to = std::min(to, cnt - 1); { auto l = walk(c, *d, hist); c.require(to < l.size() && l[to].obj == &p.GetObject(), "moved-page-elsewhere", hist); if (!same(l[to].eff, g.eff)) c.die("moved-page-attributes", hist + ": " + str(l[to].eff) + " instead of " + str(g.eff)); g.eff = l[to].eff; } m.insert(m.begin() + to, g); held[g.id] = &p; c.ev("pages moved"); }
        else if (k == 10 && cnt) { static const vector<int> rs{ 0, 90, 180, 270 }; int a = r.pick(rs); op = cat("rotate ", i, " by ", a); hist += " | " + op; c.phase(hist); o->GetPages().GetPageAt(i).SetRotationRaw(a); m[i].eff.rot = a; c.ev("attributes set"); }
        else if (k == 11 && cnt) { Rect s = size(); bool t = r.chance(1, 2); op = cat(t ? "trim box of " : "media box of ", i); hist += " | " + op; c.phase(hist); auto& p = o->GetPages().GetPageAt(i); if (t) { p.SetTrimBox(toRect(s)); m[i].eff.trim = s; m[i].eff.hasTrim = true; } else { p.SetMediaBox(toRect(s)); m[i].eff.media = s; m[i].eff.hasMedia = true; } c.ev("attributes set"); }
        else if (k == 12 && cnt) { int v = (int)r.range(1, 2000); bool w = r.chance(1, 2); op = cat(w ? "width of " : "height of ", i); hist += " | " + op; c.phase(hist); auto& p = o->GetPages().GetPageAt(i); bool had = w ? p.SetPageWidth(v) : p.SetPageHeight(v); auto& e = m[i].eff; (w ? e.media.w : e.media.h) = v; if (e.hasCrop) (w ? e.crop.w : e.crop.h) = v; if (had != e.hasCrop) c.die("page-width-result", hist); c.ev("attributes set"); }
        else if (k == 13) { op = "out of range"; auto bad = [&](const char* what, std::function<void()> f) { c.phase(hist + " | " + what); try { f(); } catch (PdfError&) { c.ev("invalid requests refused"); return; } c.die("invalid-request-accepted", hist + " | " + what); }; unsigned x = cnt + (unsigned)r.below(5); bad("get", [&] { o->GetPages().GetPageAt(x); }); bad("remove", [&] { o->GetPages().RemovePageAt(x); }); bad("reference", [&] { o->GetPages().GetPage(PdfReference(99999, 0)); }); bad("rotation", [&] { if (!cnt) throw PdfError(PdfErrorCode::PageNotFound, "", 0); o->GetPages().GetPageAt(i).SetRotationRaw(45); }); }
        else if (k == 14 && r.chance(1, 2)) { op = "save and reload"; hist += " | " + op; c.phase(hist); string f = save(*o, r); checkAll(c, *o, m, hist + ", saved document", r.chance(1, 3)); d = load(f); held.clear(); c.ev("reloaded"); }
        else if (cnt) { op = cat("hold ", i); held[m[i].id] = &o->GetPages().GetPageAt(i); }
        c.state(op.substr(0, op.find(' ')) + cat(cnt)); checkAll(c, *o, m, hist, n == 0 || r.chance(1, 6));
        for (size_t x = 0; x < m.size(); x++) { auto h = held.find(m[x].id); if (h != held.end() && r.chance(1, 2)) { checkPage(c, *o, *h->second, (unsigned)x, m[x], hist + " held"); c.ev("held pages compared"); } }
        c.ev("operations");
    }
    c.phase(hist + " | final save"); d = load(save(*d, r)); checkAll(c, *d, m, hist + " | final save", true);
    for (unsigned i = 0; i < m.size(); i++) c.require(idOf(d->GetPages().GetPageAt(i).GetObject()) == m[i].id, "wrong-page", hist); if (r.chance(1, 50)) c.sample(hist);
}

// ---------------------------------------------------------------- C17
typedef map<PdfReference, PdfReference> RefMap;
struct Iso
{
    Ctx& c; const PdfIndirectObjectList &s, &t; string how; RefMap fwd, bwd; map<PdfReference, const Leaf*> appended; vector<std::pair<PdfReference, PdfReference>> todo; unsigned compared = 0; string why;
    bool no(const string& path, const string& w) { why = path + ": " + w; return false; }
    bool link(const PdfReference& a, const PdfReference& b, const string& path)
    {
        auto f = fwd.find(a); auto g = bwd.find(b);
        if (f != fwd.end() || g != bwd.end()) { if (f == fwd.end() || g == bwd.end() || f->second != b || g->second != a) return no(path, cat("object ", a.ObjectNumber(), " has two copies, or two objects one copy ", b.ObjectNumber())); return true; }
        fwd[a] = b; bwd[b] = a; todo.push_back({ a, b }); return true;
    }
    bool absent(const PdfObject* o, const PdfIndirectObjectList& l) { for (int n = 0; n < 20; n++) { if (!o || o->IsNull()) return true; if (!o->IsReference()) return false; o = l.GetObject(o->GetReference()); } return true; }
    bool val(const PdfObject* a, const PdfObject* b, const string& path, bool top = false, bool page = false, const Leaf* leaf = nullptr)
    {
        if (absent(a, s) && absent(b, t)) return true; if (absent(a, s) != absent(b, t)) return no(path, string(absent(a, s) ? "absent in the source, " : "absent in the copy, ") + canonVar((absent(a, s) ? b : a)->GetVariant()).substr(0, 100));
        if (a->IsReference() && b->IsReference()) return link(a->GetReference(), b->GetReference(), path);
        if (a->IsReference() || b->IsReference()) return no(path, "direct on one side");
        if (a->GetDataType() != b->GetDataType()) return no(path, "another type");
        if (a->IsArray()) { auto &x = a->GetArray(), &y = b->GetArray(); if (x.GetSize() != y.GetSize()) return no(path, "another size"); for (unsigned i = 0; i < x.GetSize(); i++) if (!val(&x[i], &y[i], path + cat("[", i, "]"))) return false; return true; }
        if (a->IsDictionary())
        {
            set<string> keys; for (auto& k : a->GetDictionary()) keys.insert(string(k.first.GetString())); for (auto& k : b->GetDictionary()) keys.insert(string(k.first.GetString()));
            const PdfObjectStream *sa = top ? a->GetStream() : nullptr, *sb = top ? b->GetStream() : nullptr; if (!sa != !sb) return no(path, "stream on one side only");
            if (sa) { keys.erase("Length"); keys.erase("Filter"); keys.erase("DecodeParms"); if (streamDecoded(*sa) != streamDecoded(*sb)) return no(path, "other stream data"); c.ev("streams compared"); }
            if (page) { keys.erase("Parent"); for (auto k : { "MediaBox", "CropBox", "Rotate", "Resources" }) if (!a->GetDictionary().HasKey(k)) keys.erase(k); }
            for (auto& k : keys) if (!val(a->GetDictionary().GetKey(k), b->GetDictionary().GetKey(k), path + "/" + k)) return false;
            return true;
        }
        string x = canonVar(a->GetVariant()), y = canonVar(b->GetVariant()); if (x != y) return no(path, y + " instead of " + x); return true;
    }
    bool run()
    {
        while (!todo.empty())
        {
            auto p = todo.back(); todo.pop_back(); auto a = s.GetObject(p.first), b = t.GetObject(p.second); string path = cat("object ", p.first.ObjectNumber(), " copied to ", p.second.ObjectNumber()); compared++;
            if (!val(a, b, path, true, appended.count(p.first) > 0)) return false;
        }
        return true;
    }
};
static string titlesOf(PdfDocument& d) { string s; auto o = d.GetOutlines(); if (!o) return s; for (auto i = o->First(); i; i = i->Next()) { s += string(i->GetTitle().GetString()) + " "; if (i->GetParentOutline() != o) s += "(wrong parent) "; if (!i->Next() && o->Last() != i) s += "(not the last) "; } return s; }
static string tokens(const string& s) { string o; bool sp = true; for (char ch : s) { if (isspace((unsigned char)ch)) sp = true; else { if (sp) o += ' '; sp = false; o += ch; } } return o; }
static map<string, string> canonOld(PdfDocument& d)
{
    auto m = canonDoc(d); return m;
}
static string contentOf(const Walker& w0, Ctx& c, const PdfIndirectObjectList& l, const PdfObject& page)
{
    (void)w0; Walker w{ c, l, {}, {}, "" }; auto k = w.key(page, "Contents"); if (!k) return ""; if (k->IsArray()) { string s; for (auto& x : k->GetArray()) { auto o = w.deref(&x); if (o && o->GetStream()) s += streamDecoded(*o->GetStream()) + "\n"; } return s; }
    return k->GetStream() ? streamDecoded(*k->GetStream()) : "";
}
static void c17(Ctx& c)
{ g_files.clear();
    Rng& r = c.rng; Gen ga(r, true, "a"), gb(r, true, "b"); string fa = ga.make(true), fb = gb.make(true); string hist = cat("target ", ga.pages.size(), " pages, source ", gb.pages.size(), " pages"); c.phase(hist);
    if (getenv("MON_DUMP")) { spill(string(getenv("MON_DUMP")) + ".a", fa); spill(string(getenv("MON_DUMP")) + ".b", fb); }
    bool blank = r.chance(1, 6); std::unique_ptr<PdfMemDocument> A; vector<Pg> m; string titles;
    if (blank) A.reset(new PdfMemDocument()); else { A = load(fa); m = ga.pages; for (auto& t : ga.titles) titles += t + " "; }
    auto B2 = load(fb); auto srcLeaves = walk(c, *B2, "source");   // a second copy of the source serves as reference
    struct Done { vector<std::pair<PdfReference, string>> pages; bool self; };
    unsigned rounds = 1 + r.below(3); vector<std::unique_ptr<PdfXObjectForm>> forms;
    struct Check { vector<std::pair<size_t, string>> pairs; }; vector<Check> checks; struct FormCheck { PdfReference form; size_t page; bool trim; }; vector<FormCheck> formChecks; int copy = 0;
    for (unsigned k = 0; k < rounds; k++)
    {
        auto B = load(fb); if (r.chance(1, 3)) walk(c, *B, "source"); auto before = canonDoc(*B); auto tgt = canonDoc(*A); auto treeLeaves = walk(c, *A, hist); set<string> treeNodes;
        { std::function<void(const PdfObject&)> rec = [&](const PdfObject& o) { auto q = o.GetIndirectReference(); treeNodes.insert(cat(q.ObjectNumber(), ".", q.GenerationNumber())); Walker w{ c, A->GetObjects(), {}, {}, "" }; auto kids = w.key(o, "Kids"); if (!kids) return; if (kids->GetIndirectReference().IsIndirect()) { auto z = kids->GetIndirectReference(); treeNodes.insert(cat(z.ObjectNumber(), ".", z.GenerationNumber())); } for (auto& x : kids->GetArray()) { auto ko = A->GetObjects().GetObject(x.GetReference()); if (ko && w.key(*ko, "Type")->GetName() == "Pages") rec(*ko); } };
          rec(*A->GetObjects().GetObject(A->GetCatalog().GetDictionary().GetKey("Pages")->GetReference())); auto q = A->GetCatalog().GetObject().GetIndirectReference(); treeNodes.insert(cat(q.ObjectNumber(), ".", q.GenerationNumber())); if (A->GetOutlines()) { auto z = A->GetOutlines()->GetObject().GetIndirectReference(); treeNodes.insert(cat(z.ObjectNumber(), ".", z.GenerationNumber())); for (auto i = A->GetOutlines()->First(); i; i = i->Next()) { auto y = i->GetObject().GetIndirectReference(); treeNodes.insert(cat(y.ObjectNumber(), ".", y.GenerationNumber())); } } }
        unsigned nb = (unsigned)gb.pages.size(), na = (unsigned)m.size(), first = 0, count = 0, at = na; string op; unsigned how = (unsigned)r.below(5); bool form = false;
        if (how == 0) { op = "append all"; count = nb; hist += " | " + op; c.phase(hist); A->GetPages().AppendDocumentPages(*B); }
        else if (how == 1) { first = (unsigned)r.below(nb + 1); count = (unsigned)r.below(nb - first + 1); op = cat("append ", first, "+", count); hist += " | " + op; c.phase(hist); A->GetPages().AppendDocumentPages(*B, first, count); }
        else if (how == 2 && nb) { first = (unsigned)r.below(nb); count = 1; at = (unsigned)r.below(na + 1); op = cat("insert ", first, " at ", at); hist += " | " + op; c.phase(hist); A->GetPages().InsertDocumentPageAt(at, *B, first); }
        else if (how == 3)
        {   // refused, with nothing changed
            hist += " | out of range"; c.phase(hist); bool ok = false; try { if (r.chance(1, 2)) A->GetPages().InsertDocumentPageAt(0, *B, nb + (unsigned)r.below(3)); else { first = (unsigned)r.below(nb + 2); A->GetPages().AppendDocumentPages(*B, first, nb - std::min(first, nb) + 1 + (unsigned)r.below(3)); } ok = true; } catch (PdfError&) { c.ev("invalid requests refused"); } c.require(!ok, "invalid-range-accepted", hist); count = 0; op = "refused";
            auto now = canonDoc(*A); if (now != tgt) c.die("refused-import-changed-the-target", hist);
        }
        else if (nb) { first = (unsigned)r.below(nb); bool trim = r.chance(1, 2); op = cat("form of ", first); hist += " | " + op; c.phase(hist); auto f = A->CreateXObjectForm(PdfRect(0, 0, 1, 1)); if (r.chance(1, 4)) f->GetOrCreateResources(); f->FillFromPage(B->GetPages().GetPageAt(first), trim); formChecks.push_back({ f->GetObject().GetIndirectReference(), first, trim }); forms.push_back(std::move(f)); form = true; c.ev("forms filled");
            auto cat_ = A->GetCatalog().GetDictionary().GetKey("MonForms"); PdfArray arr; if (cat_) arr = cat_->GetArray(); arr.Add(formChecks.back().form); A->GetCatalog().GetDictionary().AddKey("MonForms", arr); }
        else { op = "nothing"; }
        if (how < 3 && op != "nothing") for (auto& t : gb.titles) titles += t + " ";
        c.phase(hist + " check"); auto after = canonDoc(*B); if (after != before) { for (auto& x : before) if (after[x.first] != x.second) c.die("source-changed", hist + " object " + x.first + ": " + after[x.first].substr(0, 200) + " instead of " + x.second.substr(0, 200)); c.die("source-changed", hist); }
        if (how != 3) { auto now = canonDoc(*A); for (auto& x : tgt) if (!treeNodes.count(x.first)) { auto it = now.find(x.first); if (it == now.end() || it->second != x.second) c.die("target-object-changed", hist + " object " + x.first + ": " + (it == now.end() ? "gone" : it->second.substr(0, 200)) + " instead of " + x.second.substr(0, 200)); } c.ev("target objects compared", tgt.size()); }
        B.reset();   // what was copied is independent of the source
        auto leaves = walk(c, *A, hist); vector<Pg> nm = m; Check ck; c.require(leaves.size() == na + count, "wrong-number-of-pages", hist + cat(": ", leaves.size(), " instead of ", na + count));
        Iso iso{ c, B2->GetObjects(), A->GetObjects(), hist, {}, {}, {}, {}, 0, "" };
        for (unsigned i = 0; i < count; i++) iso.appended[srcLeaves[first + i].obj->GetIndirectReference()] = &srcLeaves[first + i];
        for (unsigned i = 0; i < count; i++)
        {
            auto& sl = srcLeaves[first + i]; auto& tl = leaves[at + i]; c.require(tl.obj->GetDictionary().HasKey("MonCopy") == false, "page-copied-from-another-copy", hist);
            if (!iso.link(sl.obj->GetIndirectReference(), tl.obj->GetIndirectReference(), "page")) c.die("copy-differs", hist + " " + iso.why);
            Pg p = gb.pages[first + i]; nm.insert(nm.begin() + at + i, p); ck.pairs.push_back({ first + i, cat("c", copy) }); c.ev("pages imported");
            if (sl.res) { bool own = sl.obj->GetDictionary().HasKey("Resources"); if (!own && !(sl.res->GetIndirectReference().IsIndirect() && tl.res->GetIndirectReference().IsIndirect() ? iso.link(sl.res->GetIndirectReference(), tl.res->GetIndirectReference(), "inherited resources") : iso.val(sl.res, tl.res, "inherited resources"))) c.die("inherited-resources-differ", hist + " " + iso.why); }
            const_cast<PdfObject*>(tl.obj)->GetDictionary().AddKey("MonCopyOf", PdfString(cat(copy, ".", first + i)));
        }
        for (unsigned i = 0; i < count; i++) const_cast<PdfObject*>(leaves[at + i].obj)->GetDictionary().RemoveKey("MonCopyOf");
        if (!iso.run()) c.die("copy-differs", hist + " " + iso.why); c.ev("copied objects compared", iso.compared);
        m = nm; checkAll(c, *A, m, hist, true); auto got = titlesOf(*A); if (got != titles) c.die("outlines", hist + ": " + got + "instead of " + titles); copy++; c.state(op.substr(0, 8) + cat(nb, ".", na)); (void)form; checks.push_back(ck); c.ev("imports");
        if (r.chance(1, 3)) { PdfReference nr = A->GetObjects().CreateDictionaryObject("MonNew").GetIndirectReference(); (void)nr; }
    }
    auto checkForms = [&](PdfDocument& d, const string& where)
    {
        auto arr = d.GetCatalog().GetDictionary().FindKey("MonForms"); if (!arr) return; c.require(arr->GetArray().GetSize() == formChecks.size(), "forms-lost", where);
        for (size_t i = 0; i < formChecks.size(); i++)
        {
            auto fo = arr->GetArray().FindAt((unsigned)i); c.require(fo && fo->IsDictionary() && fo->GetStream(), "form-without-content", where); auto& sl = srcLeaves[formChecks[i].page]; auto& e = gb.pages[formChecks[i].page].eff; Walker w{ c, d.GetObjects(), {}, {}, where };
            Walker ws{ c, B2->GetObjects(), {}, {}, where }; string want = tokens(contentOf(ws, c, B2->GetObjects(), *sl.obj)), got = tokens(streamDecoded(*fo->GetStream())); if (want != got) c.die("form-content", where + ": '" + vis(got) + "' instead of '" + vis(want) + "'");
            auto res = w.key(*fo, "Resources"); if (!sl.res != !res) c.die("form-resources", where + ": missing on one side"); Iso iso{ c, B2->GetObjects(), d.GetObjects(), where, {}, {}, {}, {}, 0, "" }; if (res && (!iso.val(sl.res, res, "resources") || !iso.run())) c.die("form-resources", where + " " + iso.why);
            auto inter = [](Rect a, const Rect& b) { double l = std::max(a.l, b.l), x = std::min(a.l + a.w, b.l + b.w), bo = std::max(a.b, b.b), t = std::min(a.b + a.h, b.b + b.h); if (x <= l || t <= bo) return Rect{ l, bo, -1, -1 }; return Rect{ l, bo, x - l, t - bo }; };
            Rect crop = e.hasCrop ? e.crop : e.media, trim = e.hasTrim ? e.trim : crop, box = inter(e.media, crop); if (formChecks[i].trim && box.w > 0) box = inter(box, trim); if (box.w <= 0) { c.ev("forms of empty boxes"); continue; }
            Rect bb = w.rect(*w.key(*fo, "BBox")); if (!(bb == box)) c.die("form-box", where + ": " + str(bb) + " instead of " + str(box));
            auto mo = w.key(*fo, "Matrix"); c.require(mo && mo->GetArray().GetSize() == 6, "form-matrix", where); double q[6]; for (int z = 0; z < 6; z++) q[z] = w.num(mo->GetArray()[z]); double R = e.rot * M_PI / 180; double x0 = 1e9, y0 = 1e9;
            if (fabs(q[0] - cos(R)) + fabs(q[1] + sin(R)) + fabs(q[2] - sin(R)) + fabs(q[3] - cos(R)) > 1e-4) c.die("form-rotation", where + cat(" rotation ", e.rot));
            for (int z = 0; z < 4; z++) { double x = box.l + (z & 1 ? box.w : 0), y = box.b + (z & 2 ? box.h : 0); x0 = std::min(x0, q[0] * x + q[2] * y + q[4]); y0 = std::min(y0, q[1] * x + q[3] * y + q[5]); } if (fabs(x0) + fabs(y0) > 0.01) c.die("form-origin", where + cat(": ", x0, " ", y0)); c.ev("forms compared");
        }
    };
    checkForms(*A, hist); c.phase(hist + " save"); auto S = load(save(*A, r)); checkAll(c, *S, m, hist + " | saved", true); checkForms(*S, hist + " | saved"); string got = titlesOf(*S); if (got != titles) c.die("outlines", hist + " | saved: " + got + "instead of " + titles);
    auto leaves = walk(c, *S, hist + " | saved"); for (auto& l : leaves) { string id = idOf(*l.obj); for (size_t i = 0; i < gb.pages.size(); i++) if (gb.pages[i].id == id) { Walker ws{ c, B2->GetObjects(), {}, {}, "" }; string w = tokens(contentOf(ws, c, B2->GetObjects(), *srcLeaves[i].obj)), g = tokens(contentOf(ws, c, S->GetObjects(), *l.obj)); if (w != g) c.die("saved-content", hist + " page " + id); c.ev("saved pages compared"); } }
    // an import of the document into itself
    if (r.chance(1, 3) && !m.empty())
    {
        unsigned i = (unsigned)r.below(m.size()), at = (unsigned)r.below(m.size() + 1); hist += cat(" | own page ", i, " at ", at); c.phase(hist); auto tgt = walk(c, *A, hist); A->GetPages().InsertDocumentPageAt(at, *A, i); m.insert(m.begin() + at, Pg(m[i])); checkAll(c, *A, m, hist, true); auto l2 = walk(c, *A, hist);
        Iso iso{ c, A->GetObjects(), A->GetObjects(), hist, {}, {}, {}, {}, 0, "" }; unsigned src = i >= at ? i + 1 : i; iso.appended[l2[src].obj->GetIndirectReference()] = &l2[src]; iso.link(l2[src].obj->GetIndirectReference(), l2[at].obj->GetIndirectReference(), "page"); auto ps = iso.todo; auto p = iso.todo.back(); if (!iso.val(A->GetObjects().GetObject(p.first), A->GetObjects().GetObject(p.second), "own page", true, true)) c.die("own-copy-differs", hist + " " + iso.why); c.ev("own pages copied"); load(save(*A, r));
    }
    if (r.chance(1, 50)) c.sample(hist);
}
int main(int argc, char** argv) { modes()["c16"] = c16; modes()["c17"] = c17; return mon::main(argc, argv, c16); }
