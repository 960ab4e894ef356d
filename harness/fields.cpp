// C26: form fields against a model of the hierarchy; the stored dictionaries are read by code of its own
#include "mon.h"
#include "model.h"
#include "raw.h"
#include <optional>
#include <functional>
using namespace mm; using namespace mon; using std::string; using std::vector; using std::map; using std::set; using std::optional;

enum Kind { Unknown, Push, Check, Radio, Text, Combo, List, Sign };
static const char* const kKind[] = { "unknown", "push", "check", "radio", "text", "combo", "list", "signature" };
static const PdfFieldType kType[] = { PdfFieldType::Unknown, PdfFieldType::PushButton, PdfFieldType::CheckBox, PdfFieldType::RadioButton, PdfFieldType::TextBox, PdfFieldType::ComboBox, PdfFieldType::ListBox, PdfFieldType::Signature };
static const char* const kFT[] = { "", "Btn", "Btn", "Btn", "Tx", "Ch", "Ch", "Sig" };
static const int64_t kFf[] = { 0, 0x10000, 0, 0xC000, 0, 0x20000, 0, 0 };
static const char* const kActs[] = { "E", "X", "D", "U", "Fo", "Bl", "PO", "PC", "PV", "PI", "K", "V" };
struct Node
{
    int id = 0; Node* parent = nullptr; vector<std::shared_ptr<Node>> kids; bool valid = true, hasKids = false, widget = false, inForm = true; Kind kind = Text; PdfReference ref;
    optional<string> ft, t, tu, tm, v, rv, as, vname; optional<int64_t> ff, maxLen; bool hasOpt = false; vector<std::pair<string, optional<string>>> opt; optional<char> h; map<string, string> aa; optional<string> ca, rc, ac;
    template <typename T> optional<T> up(optional<T> Node::*m) const { for (const Node* n = this; n; n = n->parent) if (n->*m) return n->*m; return {}; }
    optional<string> value() const { for (const Node* n = this; n; n = n->parent) { if (n->v) return n->v; if (n->vname) break; } return {}; }
    int64_t flags() const { return up(&Node::ff).value_or(0); }
    bool choice() const { return kind == Combo || kind == List; }
    bool rich() const { return flags() & 0x2000000; }
};
using P = std::shared_ptr<Node>;
static string fullName(const Node* n, bool esc) { string s; if (n->parent) s = fullName(n->parent, esc); if (n->t) { string m = *n->t; if (esc) { string e; for (char ch : m) { e += ch; if (ch == '.') e += '.'; } m = e; } s = s.empty() ? m : s + "." + m; } return s; }
static size_t chars(const string& s) { vector<char32_t> v; decodeUtf8(s, v); return v.size(); }

struct World
{
    Ctx& c; Rng& r; std::unique_ptr<PdfMemDocument> d; vector<P> roots; vector<vector<P>> pages; int ids = 0; bool form = false, need = false; string hist; vector<std::shared_ptr<PdfAction>> acts;
    explicit World(Ctx& cc) : c(cc), r(cc.rng) { }
    string how() const { return cat("#", c.caseNo, " ", hist.size() > 500 ? "..." + hist.substr(hist.size() - 500) : hist); }
    string name() { static const vector<string> few{ "a", "b", "name", "x y" }; if (r.chance(2, 3)) return r.pick(few); string s; do { s = randomText(r, 8); for (auto& ch : s) if (ch == '.') ch = '-'; } while (s.empty()); return s; }
    Kind kind() { static const vector<Kind> k{ Push, Check, Check, Radio, Text, Text, Text, Combo, Combo, List, List, Sign }; return r.pick(k); }
    string text(unsigned n = 12) { return randomText(r, n); }

    // ---- raw forms
    string names(RawPdf& p, const string& s) { return p.maybe(p.str(textBytes(s)), 1, 4); }
    P rawNode(RawPdf& p, Node* parent, unsigned parentNum, unsigned depth, vector<string>& annots, const vector<unsigned>& pn, string& entry)
    {
        P n = std::make_shared<Node>(); n->id = ++ids; n->parent = parent;
        if (r.chance(1, 12)) { n->valid = false; static const vector<string> bad{ "null", "7", "9998 0 R", "(text)", "[1 2]" }; string b = r.pick(bad); entry = b[0] == '9' ? b : p.maybe(b, 1, 2); c.ev("invalid fields"); return n; }
        unsigned num = p.alloc(); entry = p.ref(num); string s = cat("<</XSer ", n->id);
        optional<string> up = parent ? parent->up(&Node::ft) : optional<string>(); Kind k = kind(); int64_t base = kFf[k];
        // kids mostly inherit their type; a parent may leave it to its kids
        bool kids = depth < 3 && r.chance(2, 5), ownType = up ? r.chance(1, 6) : !kids || r.chance(2, 3); if (ownType) n->ft = kFT[k];
        if (ownType ? (base || r.chance(1, 2)) : r.chance(1, 4))
        {
            int64_t f = ownType ? base : 0; if (!ownType && up) { f = n->up(&Node::ff).value_or(0) & (*up == "Btn" ? 0x18000 : *up == "Ch" ? 0x20000 : 0); }
            for (int64_t b : { 1ll, 2ll, 4ll, 0x1000ll, 0x2000ll, 0x40000ll, 0x80000ll, 0x100000ll, 0x200000ll, 0x400000ll, 0x800000ll, 0x1000000ll, 0x2000000ll, 0x4000000ll }) if (r.chance(1, 3)) f |= b;
            n->ff = f;
        }
        string ft = n->up(&Node::ft).value_or(""); int64_t ef = n->flags(); n->kind = ft == "Btn" ? (ef & 0x10000 ? Push : ef & 0x8000 ? Radio : Check) : ft == "Tx" ? Text : ft == "Ch" ? (ef & 0x20000 ? Combo : List) : ft == "Sig" ? Sign : Unknown;
        if (n->ft) s += "/FT " + p.maybe("/" + *n->ft, 1, 8); if (n->ff) s += "/Ff " + p.maybe(std::to_string(*n->ff), 1, 8);
        if (parent) s += "/Parent " + p.ref(parentNum); if (r.chance(parent ? 1 : 4, parent ? 2 : 5)) { n->t = name(); if (r.chance(1, 8)) *n->t += ".y"; s += "/T " + names(p, *n->t); }
        if (r.chance(1, 4)) { n->tu = text(); s += "/TU " + names(p, *n->tu); } if (r.chance(1, 4)) { n->tm = text(); s += "/TM " + names(p, *n->tm); }
        if ((n->kind == Text || n->choice() || n->kind == Unknown) && r.chance(1, 2)) { n->v = text(); if (n->kind == Text && r.chance(1, 3)) { n->rv = text(); s += "/RV " + names(p, *n->rv); } }
        if (n->kind == Text && r.chance(1, 4)) { n->maxLen = (int64_t)r.below(20); s += "/MaxLen " + p.maybe(std::to_string(*n->maxLen), 1, 4); }
        if (n->choice() && r.chance(2, 3)) { n->hasOpt = true; string o = "["; for (unsigned i = (unsigned)r.below(4); i; i--) { string a = text(6); optional<string> b; if (r.chance(1, 2)) b = text(6); n->opt.push_back({ a, b }); o += b ? p.maybe("[" + names(p, a) + " " + names(p, *b) + "]", 1, 4) : names(p, a); o += " "; if (r.chance(1, 3)) n->v = a; } s += "/Opt " + p.maybe(o + "]", 1, 4); }
        if (n->v) s += "/V " + names(p, *n->v);
        static const vector<string> states{ "Yes", "Off", "On", "Choice" }; if (n->kind == Check || n->kind == Radio) { if (r.chance(1, 2)) { n->vname = r.pick(states); s += "/V " + p.maybe("/" + *n->vname, 1, 4); } if (r.chance(1, 2)) { n->as = r.pick(states); s += "/AS " + p.maybe("/" + *n->as, 1, 4); } }
        if (r.chance(1, 4)) { static const vector<char> hs{ 'N', 'I', 'O', 'P' }; n->h = r.pick(hs); s += string("/H/") + *n->h; }
        if (kids)
        {
            n->hasKids = true; string ks = "["; for (unsigned i = (unsigned)r.below(4); i; i--) { string e; n->kids.push_back(rawNode(p, n.get(), num, depth + 1, annots, pn, e)); ks += e + " "; } s += "/Kids " + p.maybe(ks + "]", 1, 3);
        }
        else if (r.chance(2, 3)) { n->widget = true; size_t g = r.below(pn.size()); s += "/Type/Annot/Subtype/Widget/Rect[1 2 30 40]/P " + p.ref(pn[g]); annots[g] += p.ref(num) + " "; pages[g].push_back(n); }
        p.objs[num] = s + ">>"; c.ev("fields of other producers"); return n;
    }
    void loadRaw()
    {
        RawPdf p(r); unsigned ct = p.alloc(), pt = p.alloc(); vector<unsigned> pn; string kids = "["; for (unsigned i = 1 + (unsigned)r.below(3); i; i--) { pn.push_back(p.alloc()); kids += p.ref(pn.back()) + " "; } pages.resize(pn.size()); vector<string> an(pn.size());
        string f = "["; for (unsigned i = (unsigned)r.below(6); i; i--) { string e; roots.push_back(rawNode(p, nullptr, 0, 0, an, pn, e)); f += e + " "; }
        p.objs[pt] = cat("<</Type/Pages/Count ", pn.size(), "/Kids ", kids, "]>>"); form = true; need = r.chance(1, 4); string af = "<<"; if (!roots.empty() || r.chance(1, 2)) af += "/Fields " + p.maybe(f + "]", 1, 3); if (need) af += "/NeedAppearances true";
        p.objs[ct] = "<</Type/Catalog/Pages " + p.ref(pt) + "/AcroForm " + p.maybe(af + ">>", 1, 2) + ">>"; for (size_t i = 0; i < pn.size(); i++) p.objs[pn[i]] = "<</Type/Page/Parent " + p.ref(pt) + "/MediaBox[0 0 600 800]/Annots " + p.maybe("[" + an[i] + "]", 1, 2) + ">>";
        string file = p.file(ct); if (c.verbose) spill("/tmp/x.pdf", file); d = loadDoc(file); hist = "loaded"; c.ev("loaded documents");
    }
    // ---- comparison
    void str(nullable<const PdfString&> g, const optional<string>& want, const string& key, const string& at) { if (g.has_value() != want.has_value()) c.die(key, at + (want ? "lost " + vis(*want) : "has one")); if (want && string(g->GetString()) != *want) c.die(key, at + vis(g->GetString()) + " instead of " + vis(*want)); c.ev("texts compared"); }
    void flag(const char* n, bool g, bool want, const string& at) { if (g != want) c.die(string("flag-") + n, at); c.ev("flags compared"); }
    template <typename F> void refuses(const char* key, const string& at, F f) { try { f(); } catch (const PdfError&) { c.ev("refusals"); return; } catch (const std::runtime_error&) { c.ev("refusals"); return; } c.die(key, at); }
    void cmpField(PdfField& f, Node& n, const string& at0)
    {
        string at = at0 + cat("[", n.id, " ", kKind[n.kind], "] "); auto x = f.GetObject().GetDictionary().FindKey("XSer"); if (x && x->GetNumber() != n.id) c.die("field-order", at + "another field"); n.ref = f.GetObject().GetIndirectReference();
        if (f.GetType() != kType[n.kind]) c.die("field-type", at + cat((int)f.GetType())); str(f.GetNameRaw(), n.t, "field-partial-name", at); str(f.GetName(), n.up(&Node::t), "field-name", at); for (bool e : { false, true }) { string g = f.GetFullName(e); if (g != fullName(&n, e)) c.die("field-full-name", at + vis(g) + " instead of " + vis(fullName(&n, e))); }
        str(f.GetAlternateName(), n.up(&Node::tu), "field-alternate-name", at); str(f.GetMappingName(), n.up(&Node::tm), "field-mapping-name", at); int64_t ff = n.flags(); flag("ReadOnly", f.IsReadOnly(), ff & 1, at); flag("Required", f.IsRequired(), ff & 2, at); flag("NoExport", f.IsNoExport(), ff & 4, at);
        { char h = n.h.value_or('I'); auto g = f.GetHighlightingMode(); auto w = h == 'N' ? PdfHighlightingMode::None : h == 'I' ? PdfHighlightingMode::Invert : h == 'O' ? PdfHighlightingMode::InvertOutline : PdfHighlightingMode::Push; if (g != w) c.die("field-highlighting", at); }
        if (n.kind == Text)
        {
            auto& t = dynamic_cast<PdfTextBox&>(f); flag("MultiLine", t.IsMultiLine(), ff & 0x1000, at); flag("Password", t.IsPasswordField(), ff & 0x2000, at); flag("FileSelect", t.IsFileField(), ff & 0x100000, at); flag("Spellcheck", t.IsSpellcheckingEnabled(), !(ff & 0x400000), at); flag("Scroll", t.IsScrollBarsEnabled(), !(ff & 0x800000), at); flag("Comb", t.IsCombs(), ff & 0x1000000, at); flag("RichText", t.IsRichText(), ff & 0x2000000, at);
            if (t.GetMaxLen() != n.up(&Node::maxLen).value_or(-1)) c.die("field-maximum-length", at + cat(t.GetMaxLen())); if (n.hasKids) refuses("value-of-parent", at, [&] { t.GetText(); }); else str(t.GetText(), n.rich() ? n.up(&Node::rv) : n.value(), "field-text", at);
        }
        if (n.choice())
        {
            auto& t = dynamic_cast<PdChoiceField&>(f); flag("Combo", t.IsComboBox(), n.kind == Combo, at); flag("Spellcheck", t.IsSpellcheckingEnabled(), !(ff & 0x400000), at); flag("Sort", t.IsSorted(), ff & 0x80000, at); flag("MultiSelect", t.IsMultiSelect(), ff & 0x200000, at); flag("Commit", t.IsCommitOnSelectionChange(), ff & 0x4000000, at); if (n.kind == Combo) flag("Edit", dynamic_cast<PdfComboBox&>(f).IsEditable(), ff & 0x40000, at);
            if (t.GetItemCount() != n.opt.size()) c.die("choice-count", at + cat(t.GetItemCount())); for (size_t i = 0; i < n.opt.size(); i++) { if (string(t.GetItem((unsigned)i).GetString()) != n.opt[i].first) c.die("choice-item", at + cat(i)); str(t.GetItemDisplayText((int)i), n.opt[i].second ? n.opt[i].second : optional<string>(n.opt[i].first), "choice-display", at); }
            refuses("choice-out-of-range", at, [&] { t.GetItem((unsigned)n.opt.size()); }); if (n.hasKids) refuses("value-of-parent", at, [&] { t.GetSelectedIndex(); }); else { int w = -1; auto v = n.value(); for (size_t i = 0; v && w < 0 && i < n.opt.size(); i++) if (n.opt[i].first == *v) w = (int)i; if (t.GetSelectedIndex() != w) c.die("choice-selection", at + cat(t.GetSelectedIndex(), " instead of ", w)); }
        }
        if (n.kind == Check || n.kind == Push || n.kind == Radio) { auto& b = dynamic_cast<PdfButton&>(f); flag("PushButton", b.IsPushButton(), n.kind == Push, at); flag("Radio", b.IsRadioButton(), n.kind == Radio, at); flag("CheckBox", b.IsCheckBox(), n.kind == Check, at); if (f.GetWidget()) { str(b.GetCaption(), n.ca, "button-caption", at); if (n.kind == Push) { auto& q = dynamic_cast<PdfPushButton&>(f); str(q.GetRolloverCaption(), n.rc, "button-rollover-caption", at); str(q.GetAlternateCaption(), n.ac, "button-alternate-caption", at); } } }
        if (n.kind == Check) { auto s = n.vname ? n.vname : n.as; bool w = s && (*s == "Yes" || *s == "On"); if (dynamic_cast<PdfCheckBox&>(f).IsChecked() != w) c.die("check-box-state", at); c.ev("check boxes compared"); }
        c.ev("fields compared"); c.state(cat(kKind[n.kind], "/", n.hasKids, n.widget, n.parent != nullptr, "/", ff));
    }
    void cmpList(PdfFieldChildrenCollectionBase& l, PdfField& owner, Node& n, const string& at)
    {
        if (l.GetCount() != n.kids.size()) c.die("kid-count", at + cat(l.GetCount(), " instead of ", n.kids.size())); if (l.HasKidsArray() != n.hasKids) c.die("kids-array", at); size_t k = 0; for (auto it = l.begin(); it != l.end(); ++it, k++) { Node& m = *n.kids[k]; PdfField* f = *it; cmpEntry(f, m, [&] { return &l.GetFieldAt((unsigned)k); }, &owner, at + cat("kid ", k, " ")); if (f && &l.GetField(m.ref) != f) c.die("kid-by-reference", at); }
        refuses("kid-out-of-range", at, [&] { l.GetFieldAt((unsigned)n.kids.size()); });
    }
    void cmpEntry(PdfField* f, Node& m, std::function<PdfField*()> get, PdfField* parent, const string& at)
    {
        if (!m.valid) { if (f) c.die("invalid-field-listed", at); refuses("invalid-field-returned", at, [&] { get(); }); return; } if (!f) c.die("field-missing", at); if (get() != f) c.die("field-order", at); if (f->GetParentSafe() != parent) c.die("field-parent", at);
        cmpField(*f, m, at); cmpList(f->GetChildren(), *f, m, at);
    }
    void full(const string& when)
    {
        auto a = d->GetAcroForm(); string at = how() + ": " + when + " "; if (!a != !form) c.die("form", at); if (a)
        {
            if (a->GetFieldCount() != roots.size()) c.die("field-count", at + cat(a->GetFieldCount(), " instead of ", roots.size())); if (a->GetNeedAppearances() != need) c.die("need-appearances", at); size_t k = 0;
            for (auto it = a->begin(); it != a->end(); ++it, k++) { Node& m = *roots[k]; cmpEntry(*it, m, [&] { return &a->GetFieldAt((unsigned)k); }, nullptr, at + cat("field ", k, " ")); if (*it && &a->GetField(m.ref) != *it) c.die("field-by-reference", at); }
            if (k != roots.size()) c.die("field-iteration", at); refuses("field-out-of-range", at, [&] { a->GetFieldAt((unsigned)roots.size()); }); refuses("field-unknown-reference", at, [&] { a->GetField(PdfReference(60000, 0)); }); c.ev("forms compared");
        }
        for (size_t i = 0; i < pages.size(); i++)
        {
            auto& l = d->GetPages().GetPageAt((unsigned)i).GetAnnotations(); string w = at + cat("page ", i, " "); if (l.GetCount() != pages[i].size()) c.die("annotation-count", w + cat(l.GetCount(), " instead of ", pages[i].size()));
            for (size_t k = 0; k < pages[i].size(); k++)
            {
                Node& n = *pages[i][k]; auto& g = l.GetAnnotAt((unsigned)k); if (g.GetType() != PdfAnnotationType::Widget) c.die("widget-type", w); auto& f = static_cast<PdfAnnotationWidget&>(g).GetField(); if (&f.GetObject() != &g.GetObject()) c.die("widget-field-object", w); if (f.GetWidget() != &g) c.die("field-widget", w); cmpField(f, n, w + cat("widget ", k, " "));
                if (inForm(n)) { PdfField* q = find(n); if (q != &f) c.die("widget-of-other-field", w + cat(n.id)); c.ev("widgets found in the form"); } else c.ev("widgets of removed fields");
            }
        }
    }
    bool inForm(const Node& n) const { for (auto p = &n;; p = p->parent) { if (!p->parent) { for (auto& q : roots) if (q.get() == p) return true; return false; } bool ok = false; for (auto& q : p->parent->kids) if (q.get() == p) ok = true; if (!ok) return false; } }
    PdfField* find(const Node& n)
    {
        if (!n.parent) { for (size_t i = 0; i < roots.size(); i++) if (roots[i].get() == &n) return &d->GetAcroForm()->GetFieldAt((unsigned)i); return nullptr; } auto p = find(*n.parent); if (!p) return nullptr;
        for (size_t i = 0; i < n.parent->kids.size(); i++) if (n.parent->kids[i].get() == &n) return &p->GetChildren().GetFieldAt((unsigned)i); return nullptr;
    }
    PdfField& field(const Node& n)
    {
        for (size_t i = 0; i < pages.size(); i++) for (size_t k = 0; k < pages[i].size(); k++) if (pages[i][k].get() == &n && (!inForm(n) || r.chance(1, 3))) return static_cast<PdfAnnotationWidget&>(d->GetPages().GetPageAt((unsigned)i).GetAnnotations().GetAnnotAt((unsigned)k)).GetField();
        auto f = find(n); if (!f) c.die("harness", "find"); return *f;
    }
    void collect(const P& n, vector<P>& v, set<Node*>& s) { if (!n->valid || !s.insert(n.get()).second) return; v.push_back(n); for (auto& k : n->kids) collect(k, v, s); }
    vector<P> all(bool onlyForm) { vector<P> v; set<Node*> s; for (auto& n : roots) collect(n, v, s); if (!onlyForm) for (auto& p : pages) for (auto& n : p) if (s.insert(n.get()).second) v.push_back(n); return v; }
    // ---- the stored form
    void cmpStored(PdfMemDocument& s)
    {
        auto& ol = s.GetObjects(); auto key = [&](const PdfObject& o, const char* k) { return derefIn(ol, o.GetDictionary().GetKey(k)); }; auto af = key(s.GetCatalog().GetObject(), "AcroForm"); string at = how() + ": stored "; if (!af != !form) c.die("stored-form", at); if (!af) return; map<PdfReference, Node*> refs; size_t widgets = 0;
        auto strIs = [&](const PdfObject* o, const optional<string>& v, const char* k, const string& w) { if (!o != !v) c.die(cat("stored-", k), w + (v ? "lost " + vis(*v) : "has one")); if (!v) return; PdfString ps = o->GetString(); if (string(ps.GetString()) != *v) c.die(cat("stored-", k), w + vis(ps.GetString()) + " instead of " + vis(*v)); };
        auto numIs = [&](const PdfObject* o, const optional<int64_t>& v, const char* k, const string& w) { if (!o != !v || (v && o->GetNumber() != *v)) c.die(cat("stored-", k), w + (o ? cat(o->GetNumber()) : "none") + " instead of " + (v ? cat(*v) : "none")); };
        auto nameIs = [&](const PdfObject* o, const optional<string>& v, const char* k, const string& w) { if (!o != !v || (v && string(o->GetName().GetString()) != *v)) c.die(cat("stored-", k), w); };
        std::function<void(const PdfObject*, const vector<P>&, const Node*, const PdfReference&, const string&)> list = [&](const PdfObject* o, const vector<P>& l, const Node* par, const PdfReference& pref, const string& w)
        {
            size_t n = o ? o->GetArray().GetSize() : 0; if (n != l.size()) c.die("stored-field-count", w + cat(n, " instead of ", l.size()));
            for (size_t i = 0; i < n; i++)
            {
                Node& m = *l[i]; auto& e = o->GetArray()[(unsigned)i]; if (!m.valid) continue; string q = w + cat(i, " [", m.id, " ", kKind[m.kind], "] "); if (!e.IsReference() || !refs.insert({ e.GetReference(), &m }).second) c.die("stored-field-twice", q); auto f = derefIn(ol, &e); if (!f || !f->IsDictionary()) c.die("stored-field-missing", q);
                auto pk = f->GetDictionary().GetKey("Parent"); if (!pk != !par || (pk && (!pk->IsReference() || pk->GetReference() != pref))) c.die("stored-parent", q); nameIs(key(*f, "FT"), m.ft, "type", q); numIs(key(*f, "Ff"), m.ff, "flags", q); strIs(key(*f, "T"), m.t, "name", q); strIs(key(*f, "TU"), m.tu, "alternate-name", q); strIs(key(*f, "TM"), m.tm, "mapping-name", q);
                auto v = key(*f, "V"); if (m.v || !v || v->IsString()) strIs(v, m.v, "value", q); else nameIs(v, m.vname, "state", q); if (m.vname && !v) c.die("stored-state", q); strIs(key(*f, "RV"), m.rv, "rich-value", q); numIs(key(*f, "MaxLen"), m.maxLen, "maximum-length", q); nameIs(key(*f, "AS"), m.as, "appearance-state", q); nameIs(key(*f, "H"), m.h ? optional<string>(string(1, *m.h)) : optional<string>(), "highlighting", q);
                auto op = key(*f, "Opt"); if (!op != !m.hasOpt) c.die("stored-choices", q); if (op) { if (op->GetArray().GetSize() != m.opt.size()) c.die("stored-choices", q); for (size_t z = 0; z < m.opt.size(); z++) { auto it = derefIn(ol, &op->GetArray()[(unsigned)z]); if (m.opt[z].second) { strIs(derefIn(ol, &it->GetArray()[0]), m.opt[z].first, "choice", q); strIs(derefIn(ol, &it->GetArray()[1]), m.opt[z].second, "choice-display", q); } else strIs(it, m.opt[z].first, "choice", q); } }
                auto mk = key(*f, "MK"); strIs(mk ? key(*mk, "CA") : nullptr, m.ca, "caption", q); strIs(mk ? key(*mk, "RC") : nullptr, m.rc, "rollover-caption", q); strIs(mk ? key(*mk, "AC") : nullptr, m.ac, "alternate-caption", q);
                auto aa = key(*f, "AA"); size_t an = 0; for (auto k : kActs) { auto it = m.aa.find(k); auto x = aa ? key(*aa, k) : nullptr; if (!x != (it == m.aa.end())) c.die("stored-action", q + k); if (x) { strIs(key(*x, "URI"), it->second, "action", q); an++; } } if (aa && aa->GetDictionary().GetSize() != an) c.die("stored-actions", q);
                auto kd = key(*f, "Kids"); if (!kd != !m.hasKids) c.die("stored-kids", q); bool wd = key(*f, "Subtype") != nullptr; if (wd != m.widget) c.die("stored-widget", q); list(kd, m.kids, &m, e.GetReference(), q); c.ev("stored fields compared");
            }
        };
        list(key(*af, "Fields"), roots, nullptr, PdfReference(), at); auto na = key(*af, "NeedAppearances"); if ((na && na->GetBool()) != need) c.die("stored-need-appearances", at);
        for (size_t i = 0; i < pages.size(); i++)
        {
            const PdfObject& po = s.GetPages().GetPageAt((unsigned)i).GetObject(); auto ar = key(po, "Annots"); size_t n = ar ? ar->GetArray().GetSize() : 0; if (n != pages[i].size()) c.die("stored-annotations", at + cat(n, " instead of ", pages[i].size()));
            for (size_t k = 0; k < n; k++) { auto& e = ar->GetArray()[(unsigned)k]; Node& m = *pages[i][k]; auto it = e.IsReference() ? refs.find(e.GetReference()) : refs.end(); if (inForm(m) ? it == refs.end() || it->second != &m : it != refs.end()) c.die("stored-widget-link", at + cat("page ", i, " annotation ", k)); widgets++; auto f = derefIn(ol, &e); auto pr = f->GetDictionary().GetKey("P"); if (pr && (!pr->IsReference() || pr->GetReference() != po.GetIndirectReference())) c.die("stored-widget-page", at); }
        }
        c.ev("stored widgets compared", widgets);
    }
    // ---- edits
    P fresh(Kind k) { P n = std::make_shared<Node>(); n->id = ++ids; n->kind = k; return n; }
    void tag(PdfField& f, const Node& n) { f.GetObject().GetDictionary().AddKey("XSer", PdfObject((int64_t)n.id)); }
    void root(Node& n, const string& nm) { n.ft = kFT[n.kind]; if (kFf[n.kind]) n.ff = kFf[n.kind]; n.t = nm; }
    void create()
    {
        Kind k = kind(); string nm = name(); if (r.chance(1, 2)) for (auto& q : roots) if (q->valid && q->t && *q->t == nm && q->kind != Unknown) { k = q->kind; break; } bool bad = r.chance(1, 15); if (bad) nm += ".x"; size_t pg = r.below(pages.size()); PdfPage& page = d->GetPages().GetPageAt((unsigned)pg); bool typed = r.chance(1, 3);
        if (r.chance(1, 3))
        {
            hist += cat(" form.create(", kKind[k], ",", vis(nm), ")"); auto& a = d->GetOrCreateAcroForm(); form = true; if (bad) { refuses("dotted-name-accepted", how(), [&] { a.CreateField(nm, kType[k]); }); return; }
            PdfField* f; if (typed) switch (k) { case Push: f = &a.CreateField<PdfPushButton>(nm); break; case Check: f = &a.CreateField<PdfCheckBox>(nm); break; case Radio: f = &a.CreateField<PdfRadioButton>(nm); break; case Text: f = &a.CreateField<PdfTextBox>(nm); break; case Combo: f = &a.CreateField<PdfComboBox>(nm); break; case List: f = &a.CreateField<PdfListBox>(nm); break; default: f = &a.CreateField<PdfSignature>(nm); }
            else f = &a.CreateField(nm, kType[k]); P n = fresh(k); root(*n, nm); roots.push_back(n); tag(*f, *n); c.ev("fields created in the form"); return;
        }
        hist += cat(" page", pg, ".create(", kKind[k], ",", vis(nm), ")"); PdfRect rect(10, 20, 30, 40); P cand; size_t ci = 0; if (!bad) for (size_t i = 0; i < roots.size(); i++) if (roots[i]->valid && roots[i]->t && *roots[i]->t == nm) { cand = roots[i]; ci = i; break; }
        if (bad || (cand && cand->kind != k)) { refuses(bad ? "dotted-name-accepted" : "name-of-other-type-accepted", how(), [&] { page.CreateField(nm, kType[k], rect); }); c.ev("creations refused"); return; }
        PdfField* f; if (typed) switch (k) { case Push: f = &page.CreateField<PdfPushButton>(nm, rect); break; case Check: f = &page.CreateField<PdfCheckBox>(nm, rect); break; case Radio: f = &page.CreateField<PdfRadioButton>(nm, rect); break; case Text: f = &page.CreateField<PdfTextBox>(nm, rect); break; case Combo: f = &page.CreateField<PdfComboBox>(nm, rect); break; case List: f = &page.CreateField<PdfListBox>(nm, rect); break; default: f = &page.CreateField<PdfSignature>(nm, rect); }
        else f = &page.CreateField(nm, kType[k], rect); form = true; P n = fresh(k); n->widget = true; pages[pg].push_back(n); tag(*f, *n);
        if (!cand) { root(*n, nm); roots.push_back(n); c.ev("fields created on pages"); return; }
        if (!cand->hasKids)
        {
            P par = fresh(k); root(*par, nm); par->hasKids = true; if (cand->ft) par->ft = cand->ft; if (cand->ff) par->ff = cand->ff; par->v = cand->v; par->vname = cand->vname; cand->ft.reset(); cand->ff.reset(); cand->t.reset(); cand->v.reset(); cand->vname.reset(); cand->parent = par.get(); par->kids.push_back(cand); roots.erase(roots.begin() + (long)ci); roots.push_back(par); if (!f->GetParentSafe()) c.die("field-parent", how() + f->GetObject().ToString()); tag(*f->GetParentSafe(), *par); cand = par; c.ev("fields moved below a parent");
        }
        n->parent = cand.get(); cand->kids.push_back(n); c.ev("fields created with a known name");
    }
    void child()
    {
        auto v = all(true); if (v.empty()) return; P p = r.pick(v); PdfField& f = field(*p); bool on = r.chance(1, 2); size_t pg = r.below(pages.size()); hist += cat(" child(", p->id, on ? " on page" : "", ")");
        if (p->widget || p->kind == Unknown) { refuses("child-accepted", how(), [&] { if (on) f.GetChildren().CreateChild(d->GetPages().GetPageAt((unsigned)pg), PdfRect(1, 2, 3, 4)); else f.GetChildren().CreateChild(); }); c.ev("children refused"); return; }
        PdfField& k = on ? f.GetChildren().CreateChild(d->GetPages().GetPageAt((unsigned)pg), PdfRect(1, 2, 3, 4)) : f.GetChildren().CreateChild(); P n = fresh(p->kind); n->parent = p.get(); n->widget = on; if (on) pages[pg].push_back(n); p->hasKids = true; p->kids.push_back(n); tag(k, *n); c.ev("children created");
    }
    void remove()
    {
        vector<P> v; for (auto& n : all(true)) if (n->hasKids) v.push_back(n); size_t k;
        if (r.chance(1, 6)) { size_t pg = r.below(pages.size()); if (pages[pg].empty()) return; k = r.below(pages[pg].size()); hist += cat(" annotation ", pg, ".", k, " removed"); d->GetPages().GetPageAt((unsigned)pg).GetAnnotations().RemoveAnnotAt((unsigned)k); P n = pages[pg][k]; pages[pg].erase(pages[pg].begin() + (long)k); c.ev("widgets removed"); return; }
        if (!v.empty() && r.chance(1, 2))
        {
            P p = r.pick(v); auto& l = field(*p).GetChildren(); if (p->kids.empty() || r.chance(1, 10)) { refuses("removed-out-of-range", how(), [&] { l.RemoveFieldAt((unsigned)p->kids.size()); }); l.RemoveField(PdfReference(60000, 0)); return; } k = r.below(p->kids.size()); hist += cat(" remove kid ", p->id, ".", k);
            P n = p->kids[k]; if (n->valid && r.chance(1, 2)) l.RemoveField(l.GetFieldAt((unsigned)k).GetObject().GetIndirectReference()); else l.RemoveFieldAt((unsigned)k); p->kids.erase(p->kids.begin() + (long)k); gone.push_back(n); gone.push_back(p); c.ev("kids removed"); return;
        }
        if (!form) return; auto& a = *d->GetAcroForm(); if (roots.empty() || r.chance(1, 10)) { refuses("removed-out-of-range", how(), [&] { a.RemoveFieldAt((unsigned)roots.size()); }); a.RemoveField(PdfReference(60000, 0)); return; }
        k = r.below(roots.size()); hist += cat(" remove ", k); P n = roots[k]; if (n->valid && r.chance(1, 2)) a.RemoveField(a.GetFieldAt((unsigned)k).GetObject().GetIndirectReference()); else a.RemoveFieldAt((unsigned)k); roots.erase(roots.begin() + (long)k); gone.push_back(n); c.ev("fields removed");
    }
    vector<P> gone; // keeps the parents of what remains on pages
    void setFlag(Node& n, int64_t bit, bool on) { int64_t f = n.flags(); n.ff = on ? f | bit : f & ~bit; }
    void edit()
    {
        auto v = all(false); if (v.empty()) return; P pn = r.pick(v); Node& n = *pn; PdfField& f = field(n); unsigned op = (unsigned)r.below(14); bool on = r.chance(1, 2); hist += cat(" ", n.id, ".", op, on ? "+" : "-"); auto opt = [&](optional<string>& m, std::function<void(nullable<const PdfString&>)> set) { if (r.chance(1, 4)) { m.reset(); set(nullptr); } else { m = text(); PdfString s(*m); set(s); } };
        switch (op)
        {
            case 0: if (r.chance(1, 8)) { refuses("dotted-name-accepted", how(), [&] { PdfString s("a.b"); f.SetName(s); }); break; } if (r.chance(1, 8)) { n.t.reset(); f.SetName(nullptr); } else { n.t = name(); PdfString s(*n.t); f.SetName(s); } break;
            case 1: opt(n.tu, [&](nullable<const PdfString&> s) { f.SetAlternateName(s); }); break; case 2: opt(n.tm, [&](nullable<const PdfString&> s) { f.SetMappingName(s); }); break;
            case 3: switch (r.below(3)) { case 0: f.SetReadOnly(on); setFlag(n, 1, on); break; case 1: f.SetRequired(on); setFlag(n, 2, on); break; default: f.SetNoExport(on); setFlag(n, 4, on); } c.ev("flags set"); break;
            case 4: { static const PdfHighlightingMode m[] = { PdfHighlightingMode::None, PdfHighlightingMode::Invert, PdfHighlightingMode::InvertOutline, PdfHighlightingMode::Push }; unsigned k = (unsigned)r.below(4); f.SetHighlightingMode(m[k]); n.h = "NIOP"[k]; break; }
            case 5:
            {
                auto a = std::make_shared<PdfAction>(*d, PdfActionType::URI); string u = cat("u", ++ids); a->SetURI(PdfString(u)); acts.push_back(a); unsigned k = (unsigned)r.below(12);
                switch (k) { case 0: f.SetMouseEnterAction(*a); break; case 1: f.SetMouseLeaveAction(*a); break; case 2: f.SetMouseDownAction(*a); break; case 3: f.SetMouseUpAction(*a); break; case 4: f.SetFocusEnterAction(*a); break; case 5: f.SetFocusLeaveAction(*a); break; case 6: f.SetPageOpenAction(*a); break; case 7: f.SetPageCloseAction(*a); break; case 8: f.SetPageVisibleAction(*a); break; case 9: f.SetPageInvisibleAction(*a); break; case 10: f.SetKeystrokeAction(*a); break; default: f.SetValidateAction(*a); } n.aa[kActs[k]] = u; c.ev("actions set"); break;
            }
            default:
                if (n.kind == Text)
                {
                    auto& t = dynamic_cast<PdfTextBox&>(f); unsigned k = (unsigned)r.below(12);
                    switch (k)
                    {
                        case 0: t.SetMultiLine(on); setFlag(n, 0x1000, on); break; case 1: t.SetPasswordField(on); setFlag(n, 0x2000, on); break; case 2: t.SetFileField(on); setFlag(n, 0x100000, on); break; case 3: t.SetSpellcheckingEnabled(on); setFlag(n, 0x400000, !on); break; case 4: t.SetScrollBarsEnabled(on); setFlag(n, 0x800000, !on); break; case 5: t.SetCombs(on); setFlag(n, 0x1000000, on); break; case 6: t.SetRichText(on); setFlag(n, 0x2000000, on); break;
                        case 7: n.maxLen = (int64_t)r.below(16); t.SetMaxLen(*n.maxLen); break;
                        default:
                        {
                            if (n.hasKids) { refuses("value-of-parent-set", how(), [&] { t.SetText(PdfString("x")); }); break; } auto& m = n.rich() ? n.rv : n.v; if (r.chance(1, 8)) { m.reset(); t.SetText(nullptr); break; } string s = text(r.chance(1, 10) ? 60 : 14); auto ml = n.up(&Node::maxLen); PdfString ps(s);
                            if (ml && chars(s) > (size_t)*ml) { refuses("too-long-text-accepted", how(), [&] { t.SetText(ps); }); c.ev("texts refused"); } else { t.SetText(ps); m = s; c.ev("texts set"); }
                        }
                    }
                    if (k < 7) c.ev("flags set");
                }
                else if (n.choice())
                {
                    auto& t = dynamic_cast<PdChoiceField&>(f); unsigned k = (unsigned)r.below(12);
                    switch (k)
                    {
                        case 0: t.SetSpellcheckingEnabled(on); setFlag(n, 0x400000, !on); break; case 1: t.SetSorted(on); setFlag(n, 0x80000, on); break; case 2: t.SetMultiSelect(on); setFlag(n, 0x200000, on); break; case 3: t.SetCommitOnSelectionChange(on); setFlag(n, 0x4000000, on); break; case 4: if (n.kind == Combo) { dynamic_cast<PdfComboBox&>(f).SetEditable(on); setFlag(n, 0x40000, on); } break;
                        case 5: if (n.opt.empty() || r.chance(1, 5)) { if (n.hasOpt) refuses("choice-removed-out-of-range", how(), [&] { t.RemoveItem((unsigned)n.opt.size()); }); break; } else { size_t i = r.below(n.opt.size()); t.RemoveItem((unsigned)i); n.opt.erase(n.opt.begin() + (long)i); c.ev("choices removed"); break; }
                        case 6: case 7: case 8: { string s = text(5); optional<string> b; if (r.chance(1, 2)) b = text(5); if (b) { PdfString q(*b); t.InsertItem(PdfString(s), q); } else t.InsertItem(PdfString(s), nullptr); n.hasOpt = true; n.opt.push_back({ s, b }); c.ev("choices added"); break; }
                        default: if (n.hasKids) { refuses("value-of-parent-set", how(), [&] { t.SetSelectedIndex(0); }); break; } int i = (int)r.range(-1, (int64_t)n.opt.size()); if (i < 0 || (size_t)i >= n.opt.size()) { refuses("selection-out-of-range", how(), [&] { t.SetSelectedIndex(i); }); break; } t.SetSelectedIndex(i); n.v = n.opt[(size_t)i].first; c.ev("choices selected");
                    }
                    if (k < 5) c.ev("flags set");
                }
                else if (n.kind == Check && r.chance(2, 3)) { dynamic_cast<PdfCheckBox&>(f).SetChecked(on); n.vname = n.as = on ? "Yes" : "Off"; c.ev("check boxes set"); }
                else if ((n.kind == Check || n.kind == Push || n.kind == Radio) && f.GetWidget()) { auto& b = dynamic_cast<PdfButton&>(f); unsigned k = n.kind == Push ? (unsigned)r.below(3) : 0; if (k == 0) opt(n.ca, [&](nullable<const PdfString&> s) { b.SetCaption(s); }); else { auto& q = dynamic_cast<PdfPushButton&>(f); if (k == 1) opt(n.rc, [&](nullable<const PdfString&> s) { q.SetRolloverCaption(s); }); else opt(n.ac, [&](nullable<const PdfString&> s) { q.SetAlternateCaption(s); }); } c.ev("captions set"); }
        }
        c.ev("edits");
    }
    void reload() { hist += " save"; string f = saveDoc(*d, r); acts.clear(); full("after saving"); { auto s = loadDoc(f); cmpStored(*s); } d = loadDoc(f); c.ev("documents reloaded"); }
    void run()
    {
        keptFiles().clear(); if (r.chance(1, 2)) loadRaw(); else { d.reset(new PdfMemDocument()); for (unsigned i = 1 + (unsigned)r.below(3); i; i--) { d->GetPages().CreatePage(PdfRect(0, 0, 600, 800)); pages.push_back({}); } c.ev("new documents"); }
        if (r.chance(3, 4)) full("at first"); int steps = (c.thorough ? 40 : 18) + (int)r.below(20);
        for (int i = 0; i < steps; i++)
        {
            unsigned k = (unsigned)r.below(24); if (k < 5) create(); else if (k < 7) child(); else if (k < 19) edit(); else if (k < 21) remove(); else if (k == 21) { if (r.chance(1, 3)) reload(); } else if (k == 22 && form) { need = r.chance(1, 2); d->GetAcroForm()->SetNeedAppearances(need); } else if (r.chance(1, 2)) full("meanwhile");
        }
        full("at the end"); reload(); full("reloaded"); c.sample(hist); c.ev("histories");
    }
};
static void c26(Ctx& c) { World w(c); w.run(); }
int main(int argc, char** argv) { modes()["c26"] = c26; return mon::main(argc, argv, c26); }
