// C19: outline editing against a list model; the stored dictionaries are walked by a reader of its own
#include "mon.h"
#include "model.h"
#include "raw.h"
using namespace mm; using namespace mon; using std::string; using std::vector; using std::map; using std::set;

struct Node
{
    string title; vector<Node*> kids; Node* parent = nullptr; PdfOutlineItem* item = nullptr;
    string dest; int destPage = -1; string action; int format = 0; double col[3] = { 0, 0, 0 }; bool hasCol = false; int serial = 0;
    ~Node() { for (auto k : kids) delete k; }
    size_t count() const { size_t n = 1; for (auto k : kids) n += k->count(); return n; }
};
static void all(Node* n, vector<Node*>& out) { out.push_back(n); for (auto k : n->kids) all(k, out); }
static string shape(const Node* n) { string s = "("; for (auto k : n->kids) s += shape(k); return s + ")"; }

// ---- the outline as stored
struct Stored { string title, dest, action; int format = 0; double col[3] = { 0, 0, 0 }; PdfReference ref; vector<Stored> kids; };
struct Reader
{
    Ctx& c; PdfDocument& d; string how; const PdfIndirectObjectList& l; set<PdfReference> seen; vector<PdfReference> pages;
    Reader(Ctx& cc, PdfDocument& doc, const string& h) : c(cc), d(doc), how(h), l(doc.GetObjects()) { for (unsigned i = 0; i < doc.GetPages().GetCount(); i++) pages.push_back(doc.GetPages().GetPageAt(i).GetObject().GetIndirectReference()); }
    const PdfObject* key(const PdfObject& o, const char* k) { return derefIn(l, o.GetDictionary().GetKey(k)); }
    PdfReference link(const PdfObject& o, const char* k) { auto x = o.GetDictionary().GetKey(k); if (!x || x->IsNull()) return PdfReference(); c.require(x->IsReference(), "outline-link-direct", how + " " + k); return x->GetReference(); }
    static string text(const PdfString& s) { return s.GetString(); }
    string destText(const PdfObject* o)
    {
        if (!o) return ""; if (o->IsString() || o->IsName()) return o->IsName() ? "name " + string(o->GetName().GetString()) : "string " + text(o->GetString());
        c.require(o->IsArray(), "outline-dest", how); string s; auto& a = o->GetArray(); for (unsigned i = 0; i < a.GetSize(); i++) { if (i == 0 && a[i].IsReference()) { int p = -1; for (size_t k = 0; k < pages.size(); k++) if (pages[k] == a[i].GetReference()) p = (int)k; s += cat("page", p); } else s += " " + canonVar(a[i].GetVariant()); } return s;
    }
    string actionText(const PdfObject* o)
    {
        if (!o) return ""; c.require(o->IsDictionary(), "outline-action", how); string s; for (auto k : { "S", "URI", "JS" }) { auto x = key(*o, k); if (x) s += string(k) + "=" + (x->IsName() ? string(x->GetName().GetString()) : text(x->GetString())) + " "; } return s;
    }
    Stored item(const PdfObject& o, bool root)
    {
        Stored s; s.ref = o.GetIndirectReference(); c.require(seen.insert(s.ref).second, "outline-item-twice", how); c.ev("stored items walked");
        if (!root)
        {
            auto t = key(o, "Title"); c.require(t && t->IsString(), "outline-title-missing", how); s.title = text(t->GetString()); s.dest = destText(key(o, "Dest")); s.action = actionText(key(o, "A"));
            if (auto f = key(o, "F")) s.format = (int)f->GetNumber(); if (auto k = key(o, "C")) for (int i = 0; i < 3; i++) s.col[i] = k->GetArray()[i].GetReal();
        }
        auto first = link(o, "First"), last = link(o, "Last"); if (!first.IsIndirect() || !last.IsIndirect()) { c.require(!first.IsIndirect() && !last.IsIndirect(), "outline-first-without-last", how); return s; }
        PdfReference prev, cur = first;
        while (cur.IsIndirect())
        {
            auto k = l.GetObject(cur); c.require(k && k->IsDictionary(), "outline-dangling-link", how); auto at = cat(how, ": item ", cur.ObjectNumber());
            if (link(*k, "Parent") != s.ref) c.die("outline-parent-link", at); if (link(*k, "Prev") != prev) c.die("outline-prev-link", at + cat(" prev ", link(*k, "Prev").ObjectNumber(), " expected ", prev.ObjectNumber()));
            s.kids.push_back(item(*k, false)); prev = cur; cur = link(*k, "Next");
        }
        if (prev != last) c.die("outline-last-link", cat(how, ": last of ", s.ref.ObjectNumber(), " is ", last.ObjectNumber(), " but the chain ends at ", prev.ObjectNumber())); return s;
    }
};
static bool near(double a, double b) { return fabs(a - b) < 1e-5; }
static string path(const Node* n) { string s; for (; n->parent; n = n->parent) { size_t i = 0; while (n->parent->kids[i] != n) i++; s = cat("/", i) + s; } return s.empty() ? "/" : s; }

static void cmpStored(Ctx& c, const Node& n, const Stored& s, const string& how)
{
    string at = how + ": " + path(&n) + " "; if (n.parent)
    {
        if (s.title != n.title) c.die("stored-title", at + vis(s.title) + " instead of " + vis(n.title)); if (s.dest != n.dest) c.die("stored-destination", at + s.dest + " instead of " + n.dest); if (s.action != n.action) c.die("stored-action", at + s.action + " instead of " + n.action);
        if (s.format != n.format) c.die("stored-format", at + cat(s.format, " instead of ", n.format)); for (int i = 0; i < 3; i++) if (!near(s.col[i], n.col[i])) c.die("stored-colour", at + cat(s.col[i], " instead of ", n.col[i]));
    }
    if (s.kids.size() != n.kids.size()) c.die("stored-children", at + cat(s.kids.size(), " children instead of ", n.kids.size()));
    for (size_t i = 0; i < n.kids.size(); i++) cmpStored(c, *n.kids[i], s.kids[i], how); c.ev("stored items compared");
}
// the tree as the interface shows it; remembers the items of the nodes (new after a reload)
static void cmpApi(Ctx& c, Node& n, PdfOutlineItem* it, PdfOutlineItem* parent, const string& how, bool adopt, Rng& r)
{
    string at = how + ": " + path(&n) + " "; c.require(it != nullptr, "api-item-missing", at); if (adopt) n.item = it; else c.require(n.item == it, "api-item-differs", at); if (it->GetParentOutline() != parent) c.die("api-parent", at);
    if (n.parent)
    {
        if (it->GetTitle().GetString() != n.title) c.die("api-title", at + vis(it->GetTitle().GetString()) + " instead of " + vis(n.title)); if ((int)it->GetTextFormat() != n.format) c.die("api-format", at + cat((int)it->GetTextFormat(), " instead of ", n.format));
        double g[3] = { it->GetTextColorRed(), it->GetTextColorGreen(), it->GetTextColorBlue() }; for (int i = 0; i < 3; i++) if (!near(g[i], n.col[i])) c.die("api-colour", at + cat(i, ": ", g[i], " instead of ", n.col[i]));
        if (r.chance(1, 3))
        {
            auto ds = it->GetDestination(); if (n.dest.empty() != (ds == nullptr)) { if (ds == nullptr || ds->GetObject().GetArray().GetSize() != 0) c.die("api-destination", at + (ds ? "has one" : "has none")); }
            if (ds && n.destPage >= 0) { auto p = ds->GetPage(); c.require(p && (int)p->GetIndex() == n.destPage, "api-destination-page", at); }
            auto ac = it->GetAction(); if (n.action.empty() != (ac == nullptr)) c.die("api-action", at + (ac ? "has one" : "has none"));
            if (ac) { bool uri = n.action.find("S=URI") == 0; c.require((ac->GetType() == PdfActionType::URI) == uri, "api-action-type", at); if (ac->HasURI()) c.require(n.action.find("URI=" + string(ac->GetURI().GetString()) + " ") != string::npos, "api-action-uri", at); if (ac->HasScript()) c.require(n.action.find("JS=" + string(ac->GetScript().GetString()) + " ") != string::npos, "api-action-script", at); }
        }
    }
    PdfOutlineItem* prev = nullptr; PdfOutlineItem* k = it->First();
    for (size_t i = 0; i < n.kids.size(); i++) { if (!k) c.die("api-children", at + cat("only ", i, " of ", n.kids.size())); if (k->Prev() != prev) c.die("api-prev", at + cat("child ", i)); cmpApi(c, *n.kids[i], k, it, how, adopt, r); prev = k; k = k->Next(); }
    if (k) c.die("api-children", at + "more than expected"); if (it->Last() != prev) c.die("api-last", at); c.ev("items compared");
}

// ---- outlines of other producers
static string rawDest(Rng& r, RawPdf& p, const vector<unsigned>& pages, Node& n)
{
    unsigned k = (unsigned)r.below(pages.size()); double a = (double)r.range(-100, 900) / 4, b = (double)r.range(-100, 900) / 4; n.destPage = (int)k; string pre = "[" + p.ref(pages[k]), t = cat("page", k); auto N = [&](double x) { return "n" + canonReal(x); };
    auto num = [&](double x) { return fmtd(x); };
    switch (r.below(6))
    {
        case 0: n.dest = t + " /" + hex("Fit"); return pre + "/Fit]"; case 1: n.dest = t + " /" + hex("XYZ") + " " + N(a) + " " + N(b) + " n0"; return pre + "/XYZ " + num(a) + " " + num(b) + " 0]"; case 2: n.dest = t + " /" + hex("XYZ") + " null null null"; return pre + "/XYZ null null null]";
        case 3: n.dest = t + " /" + hex("FitH") + " " + N(a); return pre + "/FitH " + num(a) + "]"; case 4: n.dest = t + " /" + hex("FitBV") + " " + N(b); return pre + "/FitBV " + num(b) + "]"; default: n.dest = t + " /" + hex("FitB"); return pre + "/FitB]";
    }
}
static void rawKids(Rng& r, RawPdf& p, const vector<unsigned>& pages, Node& n, unsigned self, string& dict, int depth, int& budget)
{
    unsigned k = r.chance(1, 40) && depth == 0 ? 300 : (unsigned)r.below(depth == 0 ? 5 : depth > 5 ? 1 : 4); vector<unsigned> nums; for (unsigned i = 0; i < k && budget > 0; i++, budget--) nums.push_back(p.alloc());
    for (size_t i = 0; i < nums.size(); i++)
    {
        Node* x = new Node(); x->parent = &n; n.kids.push_back(x); x->title = randomText(r); string s = "<</Parent " + p.ref(self) + "/Title " + p.maybe(p.str(textBytes(x->title)));
        if (i) s += "/Prev " + p.ref(nums[i - 1]); if (i + 1 < nums.size()) s += "/Next " + p.ref(nums[i + 1]);
        if (r.chance(1, 2)) s += "/Dest " + p.maybe(rawDest(r, p, pages, *x)); else if (r.chance(1, 2)) { bool u = r.chance(1, 2); string v = randomText(r, 8, true); x->action = string("S=") + (u ? "URI " : "JavaScript ") + (u ? "URI=" : "JS=") + v + " "; s += "/A " + p.maybe(string("<<") + (r.chance(1, 2) ? "/Type/Action" : "") + "/S/" + (u ? "URI/URI " : "JavaScript/JS ") + p.str(textBytes(v)) + ">>"); }
        if (r.chance(1, 3)) { x->format = (int)r.below(4); s += cat("/F ", x->format); } if (r.chance(1, 3)) { s += "/C ["; for (auto& q : x->col) { q = (double)r.below(5) / 4; s += fmtd(q) + " "; } s += "]"; x->hasCol = true; }
        string kd; rawKids(r, p, pages, *x, nums[i], kd, depth + 1, budget); p.objs[nums[i]] = s + kd + ">>";
    }
    if (!nums.empty()) dict += "/First " + p.ref(nums[0]) + "/Last " + p.ref(nums.back()) + cat("/Count ", nums.size());
}

static void c19(Ctx& c)
{
    keptFiles().clear(); Rng& r = c.rng; std::unique_ptr<PdfMemDocument> d; std::unique_ptr<Node> root(new Node()); string hist; int serial = 0;
    if (r.chance(1, 2))
    {
        RawPdf p(r); unsigned ct = p.alloc(), pt = p.alloc(); vector<unsigned> pages; string kids = "["; for (unsigned i = 1 + (unsigned)r.below(4); i; i--) { pages.push_back(p.add("<</Type/Page/Parent " + p.ref(pt) + "/MediaBox[0 0 100 100]>>")); kids += p.ref(pages.back()) + " "; }
        p.objs[pt] = cat("<</Type/Pages/Count ", pages.size(), "/Kids ", kids, "]>>"); unsigned o = p.alloc(); string od; int budget = 400; rawKids(r, p, pages, *root, o, od, 0, budget); p.objs[o] = "<</Type/Outlines" + od + ">>"; p.objs[ct] = "<</Type/Catalog/Pages " + p.ref(pt) + "/Outlines " + p.ref(o) + ">>";
        d = loadDoc(p.file(ct)); hist = "loaded " + cat(root->count()); c.ev("loaded outlines");
    }
    else { d.reset(new PdfMemDocument()); for (unsigned i = 1 + (unsigned)r.below(4); i; i--) d->GetPages().CreatePage(PdfRect(0, 0, 100, 100)); hist = "new"; c.ev("new documents"); }
    c.phase(hist); bool have = d->GetOutlines() != nullptr; if (have) cmpApi(c, *root, d->GetOutlines(), nullptr, hist, true, r);
    auto outl = [&]() -> PdfOutlines& { auto& o = d->GetOrCreateOutlines(); root->item = &o; return o; };
    auto makeDest = [&](Node& n) -> std::shared_ptr<PdfDestination>
    {
        unsigned k = (unsigned)r.below(d->GetPages().GetCount()); auto& pg = d->GetPages().GetPageAt(k); double a = (double)r.range(-100, 900) / 4, b = (double)r.range(-100, 900) / 4, z = (double)r.below(9) / 4; string t = cat("page", k); auto N = [&](double x) { return " n" + canonReal(x); }; n.destPage = (int)k; typedef PdfDestinationFit F;
        switch (r.below(8))
        {
            case 0: n.dest = t + " /" + hex("XYZ") + N(a) + N(b) + N(z); return std::make_shared<PdfDestination>(pg, a, b, z); case 1: n.dest = t + " /" + hex("FitB"); return std::make_shared<PdfDestination>(pg, F::FitB); case 2: n.dest = t + " /" + hex("FitH") + N(a); return std::make_shared<PdfDestination>(pg, F::FitH, a); case 3: n.dest = t + " /" + hex("FitV") + N(a); return std::make_shared<PdfDestination>(pg, F::FitV, a);
            case 4: n.dest = t + " /" + hex("FitBH") + N(a); return std::make_shared<PdfDestination>(pg, F::FitBH, a); case 5: n.dest = t + " /" + hex("FitBV") + N(a); return std::make_shared<PdfDestination>(pg, F::FitBV, a); case 6: n.dest = t + " /" + hex("FitR") + N(a) + N(b) + N(a + 10) + N(b + 20); return std::make_shared<PdfDestination>(pg, PdfRect(a, b, 10, 20));
            default: n.dest = t + " /" + hex("Fit"); return std::make_shared<PdfDestination>(pg, F::Fit);
        }
    };
    auto makeAction = [&](Node& n) { bool u = r.chance(1, 2); string v = randomText(r, 10); auto a = std::make_shared<PdfAction>(*d, u ? PdfActionType::URI : PdfActionType::JavaScript); if (u) a->SetURI(PdfString(v)); else a->SetScript(PdfString(v)); n.action = string("S=") + (u ? "URI URI=" : "JavaScript JS=") + v + " "; return a; };
    auto check = [&](const string& how) { if (d->GetOutlines() == nullptr) return; cmpApi(c, *root, d->GetOutlines(), nullptr, how, false, r); Reader rd(c, *d, how); auto& o = d->GetOutlines()->GetObject(); auto k = d->GetCatalog().GetDictionary().GetKey("Outlines"); c.require(k && k->IsReference() && k->GetReference() == o.GetIndirectReference(), "outlines-not-in-catalog", how); cmpStored(c, *root, rd.item(o, true), how); c.ev("outlines compared"); };
    unsigned n = 1 + (unsigned)r.below(c.thorough ? 60 : 25);
    while (n--)
    {
        outl(); vector<Node*> ns; all(root.get(), ns); Node* x = r.pick(ns); Node* y = ns.size() > 1 ? ns[1 + r.below(ns.size() - 1)] : nullptr; unsigned k = (unsigned)r.below(20); string op;
        auto say = [&](const string& s) { op = s; hist += " | " + s; c.phase(hist); };
        if (k < 4) { Node* q = new Node(); q->title = randomText(r); q->serial = serial++; say("child of " + path(x)); PdfString t(q->title); if (x == root.get() && r.chance(1, 2)) q->item = outl().CreateRoot(t); else q->item = x->item->CreateChild(t, makeDest(*q)); q->parent = x; x->kids.push_back(q); c.ev("items created"); }
        else if (k < 8 && y) { Node* q = new Node(); q->title = randomText(r); say("next of " + path(y)); if (r.chance(1, 3)) q->item = y->item->CreateNext(PdfString(q->title), makeAction(*q)); else q->item = y->item->CreateNext(PdfString(q->title), makeDest(*q)); q->parent = y->parent; auto& v = y->parent->kids; v.insert(std::find(v.begin(), v.end(), y) + 1, q); c.ev("items created"); }
        else if (k < 11 && y) { say("erase " + path(y)); y->item->Erase(); auto& v = y->parent->kids; v.erase(std::find(v.begin(), v.end(), y)); delete y; c.ev("items erased"); }
        else if (k == 11)
        {   // insert a chain made elsewhere, as merging documents does
            say("insert into " + path(x)); unsigned len = 1 + (unsigned)r.below(4); vector<PdfObject*> os; vector<Node*> qs; for (unsigned i = 0; i < len; i++) { os.push_back(&d->GetObjects().CreateDictionaryObject()); Node* q = new Node(); q->title = randomText(r); os[i]->GetDictionary().AddKey("Title", PdfString(q->title)); q->parent = x; qs.push_back(q); if (r.chance(1, 3)) { auto& ko = d->GetObjects().CreateDictionaryObject(); Node* kq = new Node(); kq->title = randomText(r); kq->parent = q; q->kids.push_back(kq); ko.GetDictionary().AddKey("Title", PdfString(kq->title)); ko.GetDictionary().AddKey("Parent", os[i]->GetIndirectReference()); os[i]->GetDictionary().AddKey("First", ko.GetIndirectReference()); os[i]->GetDictionary().AddKey("Last", ko.GetIndirectReference()); } }
            for (unsigned i = 0; i < len; i++) { if (i) os[i]->GetDictionary().AddKey("Prev", os[i - 1]->GetIndirectReference()); if (i + 1 < len) os[i]->GetDictionary().AddKey("Next", os[i + 1]->GetIndirectReference()); }
            PdfOutlineItem* it = new PdfOutlines(*os[0]); x->item->InsertChild(it); for (auto q : qs) { q->item = it; if (!q->kids.empty()) q->kids[0]->item = it->First(); x->kids.push_back(q); it = it->Next(); } c.ev("chains inserted");
        }
        else if (k == 12 && y)
        {   // items that already have a place cannot be inserted
            say("insert again"); bool refused = false; string a = cat(path(y), " into ", path(x)); try { x->item->InsertChild(y->item); } catch (PdfError& e) { refused = e.GetError() == PdfErrorCode::OutlineItemAlreadyPresent; } c.require(refused, "second-insertion-accepted", hist + " " + a); refused = false; try { x->item->InsertChild(root->item); } catch (PdfError& e) { refused = e.GetError() == PdfErrorCode::OutlineItemAlreadyPresent; } c.require(refused, "root-insertion-accepted", hist); x->item->InsertChild(nullptr); c.ev("invalid insertions refused", 2);
        }
        else if (k == 13 && y) { say("title of " + path(y)); y->title = randomText(r, 40); y->item->SetTitle(PdfString(y->title)); c.ev("properties set"); }
        else if (k == 14 && y) { say("colour of " + path(y)); for (auto& q : y->col) q = (double)r.below(1000) / 999; y->item->SetTextColor(y->col[0], y->col[1], y->col[2]); c.ev("properties set"); }
        else if (k == 15 && y) { say("format of " + path(y)); y->format = (int)r.below(4); y->item->SetTextFormat((PdfOutlineFormat)y->format); c.ev("properties set"); }
        else if (k == 16 && y)
        {
            say("destination of " + path(y)); Node t; auto ds = makeDest(t); bool refused = false; try { y->item->SetDestination(ds); } catch (PdfError& e) { refused = e.GetError() == PdfErrorCode::ActionAlreadyPresent; } if (refused != !y->action.empty()) c.die("destination-beside-action", hist); if (!refused) { y->dest = t.dest; y->destPage = t.destPage; } c.ev(refused ? "conflicts refused" : "properties set");
        }
        else if (k == 17 && y)
        {
            say("action of " + path(y)); Node t; auto ac = makeAction(t); bool refused = false; try { y->item->SetAction(ac); } catch (PdfError& e) { refused = e.GetError() == PdfErrorCode::ActionAlreadyPresent; } if (refused != !y->dest.empty()) c.die("action-beside-destination", hist); if (!refused) y->action = t.action; c.ev(refused ? "conflicts refused" : "properties set");
        }
        else if (k == 18 && r.chance(1, 2)) { say("save and reload"); d = loadDoc(saveDoc(*d, r)); c.require(d->GetOutlines() != nullptr, "outlines-lost", hist); cmpApi(c, *root, d->GetOutlines(), nullptr, hist, true, r); c.ev("reloaded"); }
        else if (k == 19 && r.chance(1, 3)) { say("page inserted"); /* destinations follow their page */ d->GetPages().CreatePageAt(0, PdfRect(0, 0, 50, 50)); vector<Node*> v; all(root.get(), v); for (auto q : v) if (q->destPage >= 0) { string o = cat("page", q->destPage), w = cat("page", ++q->destPage); q->dest = w + q->dest.substr(o.size()); } c.ev("pages inserted"); }
        else continue;
        c.state(op.substr(0, op.find('/')) + shape(root.get())); c.ev("operations"); check(hist);
    }
    c.phase(hist + " | final save"); bool any = d->GetOutlines() != nullptr; d = loadDoc(saveDoc(*d, r)); c.require((d->GetOutlines() != nullptr) == any, "outlines-lost", hist); if (any) { cmpApi(c, *root, d->GetOutlines(), nullptr, hist + " | final save", true, r); check(hist + " | final save"); c.ev("reloaded"); } if (r.chance(1, 50)) c.sample(hist);
}
// chains and nests that are long, deep or loop: an answer or an error, and nothing lost
static void c19h(Ctx& c)
{
    keptFiles().clear(); Rng& r = c.rng; RawPdf p(r); unsigned ct = p.alloc(), pt = p.alloc(), o = p.alloc(); p.objs[pt] = "<</Type/Pages/Count 0/Kids[]>>"; p.objs[ct] = "<</Type/Catalog/Pages " + p.ref(pt) + "/Outlines " + p.ref(o) + ">>"; unsigned kind = (unsigned)r.below(3);
    unsigned len = kind == 0 ? 1 + (unsigned)r.below(c.thorough ? 60000 : 20000) : 1 + (unsigned)r.below(60); vector<unsigned> ns; for (unsigned i = 0; i < len; i++) ns.push_back(p.alloc()); string odict = "/First " + p.ref(ns[0]) + "/Last " + p.ref(kind == 1 ? ns[0] : ns.back()); bool loops = false;
    for (unsigned i = 0; i < len; i++)
    {
        string s = "<</Title(t" + std::to_string(i) + ")"; if (kind == 1) { s += "/Parent " + p.ref(i ? ns[i - 1] : o); if (i + 1 < len) s += "/First " + p.ref(ns[i + 1]) + "/Last " + p.ref(ns[i + 1]); } else { s += "/Parent " + p.ref(o); if (i) s += "/Prev " + p.ref(ns[i - 1]); if (i + 1 < len) s += "/Next " + p.ref(ns[i + 1]); else if (kind == 2) { static const vector<string> ks{ "/Next ", "/First " }; s += r.pick(ks) + p.ref(r.chance(1, 6) ? o : ns[r.below(len)]); loops = true; } } p.objs[ns[i]] = s + ">>";
    }
    p.objs[o] = "<</Type/Outlines" + odict + ">>"; string how = cat(kind == 0 ? "chain of " : kind == 1 ? "nest of " : "loop after ", len); c.phase(how); std::unique_ptr<PdfMemDocument> d; PdfOutlines* ol = nullptr;
    try { d = loadDoc(p.file(ct)); ol = d->GetOutlines(); } catch (PdfError&) { c.require(loops || (kind == 1 && len > 50), "outlines-refused", how + " " + excText()); c.ev("loops or nests refused"); c.state(how); return; }
    c.require(!loops, "loop-accepted", how); PdfOutlineItem* it = ol->First(); unsigned n = 0; while (it) { if (it->GetTitle().GetString() != cat("t", n)) c.die("chain-title", how); n++; it = kind == 1 ? it->First() : it->Next(); } if (n != len) c.die("chain-length", how + cat(": ", n)); c.ev("long chains or nests read"); c.state(how);
}
int main(int argc, char** argv) { modes()["c19"] = c19; modes()["c19h"] = c19h; return mon::main(argc, argv, c19); }
