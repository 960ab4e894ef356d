// C27: annotations, actions and destinations against a model; the stored dictionaries are read by code of its own
#include "mon.h"
#include "model.h"
#include "raw.h"
#include <optional>
#include <functional>
using namespace mm; using namespace mon; using std::string; using std::vector; using std::map; using std::set; using std::optional;

static const char* const kTypes[] = { "Text", "Link", "FreeText", "Line", "Square", "Circle", "Polygon", "PolyLine", "Highlight", "Underline", "Squiggly", "StrikeOut", "Stamp", "Caret", "Ink", "Popup", "FileAttachment", "Sound", "Movie", "Widget", "Screen", "PrinterMark", "TrapNet", "Watermark", "3D", "RichMedia", "WebMedia", "Redact", "Projection" };
static const unsigned kTypeCount = sizeof(kTypes) / sizeof(*kTypes);
static const char* const kActions[] = { "GoTo", "GoToR", "GoToE", "Launch", "Thread", "URI", "Sound", "Movie", "Hide", "Named", "SubmitForm", "ResetForm", "ImportData", "JavaScript", "SetOCGState", "Rendition", "Trans", "GoTo3DView", "RichMediaExecute" };
static const char* const kFits[] = { "XYZ", "Fit", "FitH", "FitV", "FitR", "FitB", "FitBH", "FitBV" };

// a view of a page: kind as in kFits, numbers, null where the viewer keeps what it has; page -2: not a page of this file
struct View { int page = -1; unsigned kind = 0; vector<optional<double>> v; };
struct Act { unsigned type = 0; optional<string> uri, js; };
struct Chars { optional<string> rc, ac, ca; optional<vector<double>> bc, bg; };
struct Ann
{
    int serial = 0; bool valid = true; unsigned type = 0; double x1 = 0, y1 = 0, x2 = 0, y2 = 0; uint32_t flags = 0; optional<vector<double>> border; vector<double> dash; bool hasDash = false;
    optional<string> title, contents; optional<vector<double>> color; optional<Act> act; optional<View> dest; optional<bool> open; optional<vector<double>> quad; optional<string> file;
    map<char, map<string, int>> ap; set<char> single; Chars ch; bool hasCh = false; PdfReference ref;
    bool is(const char* t) const { return !strcmp(kTypes[type], t); }
    bool actions() const { return is("Link") || is("Widget") || is("Screen"); }
    bool markup() const { return is("Highlight") || is("Underline") || is("Squiggly") || is("StrikeOut"); }
    bool quads() const { return is("Link") || markup() || is("Redact"); }
};
struct Pg { int id; vector<Ann> a; };
static bool near(double a, double b) { return fabs(a - b) < 1e-4; }
static string rev(const vector<double>& v) { string s; for (auto d : v) s += fmtd(d) + " "; return s; }

struct World
{
    Ctx& c; Rng& r; std::unique_ptr<PdfMemDocument> d; vector<Pg> pages; int serial = 0, pageId = 0; string hist; map<string, View> named, oldNamed; vector<std::shared_ptr<PdfAction>> keptActs; vector<Act> keptModels;
    explicit World(Ctx& cc) : c(cc), r(cc.rng) { }
    string how() const { return cat("#", c.caseNo, " ", hist.size() > 500 ? "..." + hist.substr(hist.size() - 500) : hist); }

    // ---- views
    View randView()
    {
        View v; v.page = pages[r.below(pages.size())].id; v.kind = (unsigned)r.below(8); static const unsigned n[] = { 3, 0, 1, 1, 4, 0, 1, 1 }; for (unsigned i = n[v.kind]; i; i--) v.v.push_back((double)r.range(-400, 4000) / 4);
        if (v.kind == 4) { if (*v.v[0] > *v.v[2]) std::swap(v.v[0], v.v[2]); if (*v.v[1] > *v.v[3]) std::swap(v.v[1], v.v[3]); } return v;
    }
    string viewText(RawPdf& p, const View& v, const map<int, unsigned>& nums) { string s = "["; s += v.page == -2 ? string("3") : p.ref(nums.at(v.page)); s += string("/") + kFits[v.kind]; for (auto& x : v.v) s += " " + (x ? p.maybe(p.num(*x), 1, 10) : string("null")); return s + "]"; }
    PdfPage& page(int id) { for (size_t i = 0; i < pages.size(); i++) if (pages[i].id == id) return d->GetPages().GetPageAt((unsigned)i); c.die("harness", "page"); throw 0; }
    std::shared_ptr<PdfDestination> makeDest(const View& v)
    {
        PdfPage& p = page(v.page); static const PdfDestinationFit f[] = { PdfDestinationFit::Fit, PdfDestinationFit::Fit, PdfDestinationFit::FitH, PdfDestinationFit::FitV, PdfDestinationFit::Fit, PdfDestinationFit::FitB, PdfDestinationFit::FitBH, PdfDestinationFit::FitBV };
        switch (v.kind)
        {
            case 0: return std::make_shared<PdfDestination>(p, *v.v[0], *v.v[1], *v.v[2]);
            case 1: case 5: return std::make_shared<PdfDestination>(p, f[v.kind]);
            case 4: return std::make_shared<PdfDestination>(p, PdfRect(*v.v[0], *v.v[1], *v.v[2] - *v.v[0], *v.v[3] - *v.v[1]));
            default: return std::make_shared<PdfDestination>(p, f[v.kind], *v.v[0]);
        }
    }
    void cmpNum(const char* what, const string& at, bool applies, const optional<double>& want, std::function<double()> get)
    {
        try { double g = get(); if (!applies) c.die("destination-value-of-other-kind", at + what); if (!want) c.die("destination-null-value", at + what); if (!near(g, *want)) c.die("destination-value", at + what + cat(" ", g, " instead of ", *want)); }
        catch (const PdfError& e) { if (!applies) { if (e.GetError() != PdfErrorCode::WrongDestinationType) c.die("destination-error", at + what + " " + cat((int)e.GetError())); } else if (want) c.die("destination-value-refused", at + what); }
        c.ev("destination values compared");
    }
    void cmpView(PdfDestination& p, const View& v, const string& at)
    {
        static const PdfDestinationType t[] = { PdfDestinationType::XYZ, PdfDestinationType::Fit, PdfDestinationType::FitH, PdfDestinationType::FitV, PdfDestinationType::FitR, PdfDestinationType::FitB, PdfDestinationType::FitBH, PdfDestinationType::FitBV };
        if (p.GetType() != t[v.kind]) c.die("destination-type", at + cat((int)p.GetType(), " instead of ", kFits[v.kind]));
        auto pg = p.GetPage(); if (v.page == -2) c.require(pg == nullptr, "remote-destination-page", at); else { c.require(pg != nullptr, "destination-page-missing", at); if (pg != &page(v.page)) c.die("destination-page", at + cat("page ", pg->GetIndex(), " instead of ", page(v.page).GetIndex())); }
        optional<double> no; unsigned k = v.kind; cmpNum("left", at, k == 0 || k == 3 || k == 4 || k == 7, k == 0 || k == 3 || k == 4 || k == 7 ? v.v[0] : no, [&] { return p.GetLeft(); });
        cmpNum("top", at, k == 0 || k == 2 || k == 4 || k == 6, k == 0 ? v.v[1] : k == 2 || k == 6 ? v.v[0] : k == 4 ? v.v[3] : no, [&] { return p.GetTop(); });
        cmpNum("zoom", at, k == 0, k == 0 ? v.v[2] : no, [&] { return p.GetZoom(); }); bool one = k == 2 || k == 3 || k == 6 || k == 7; cmpNum("value", at, one, one ? v.v[0] : no, [&] { return p.GetDValue(); });
        for (int i = 0; i < 4; i++) cmpNum("rectangle", at, k == 4, k == 4 ? v.v[i] : no, [&] { auto q = p.GetRect(); return i == 0 ? q.GetLeft() : i == 1 ? q.GetBottom() : i == 2 ? q.GetLeft() + q.GetWidth() : q.GetBottom() + q.GetHeight(); });
        c.ev("destinations compared");
    }
    // ---- colours
    vector<double> randColor() { static const unsigned n[] = { 1, 3, 4 }; vector<double> v; for (unsigned i = n[r.below(3)]; i; i--) v.push_back((double)r.below(9) / 8); return v; }
    static PdfColor col(const vector<double>& v) { return v.size() == 0 ? PdfColor::CreateTransparent() : v.size() == 1 ? PdfColor(v[0]) : v.size() == 3 ? PdfColor(v[0], v[1], v[2]) : PdfColor(v[0], v[1], v[2], v[3]); }
    void cmpCol(const PdfColor& g, const optional<vector<double>>& want, const string& key, const string& at) { if (!(g == (want ? col(*want) : PdfColor()))) c.die(key, at + (want ? rev(*want) : "none")); c.ev("colours compared"); }
    void cmpStr(nullable<const PdfString&> g, const optional<string>& want, const string& key, const string& at) { if (g.has_value() != want.has_value()) c.die(key, at + (want ? "lost" : "has one")); if (want && string(g->GetString()) != *want) c.die(key, at + vis(g->GetString()) + " instead of " + vis(*want)); c.ev("texts compared"); }

    // ---- raw documents
    static string nums(RawPdf& p, const vector<double>& v) { string s = "["; for (auto d : v) s += p.num(d) + " "; return s + "]"; }
    string actText(RawPdf& p, Act& a) { string s = string("<<") + (r.chance(1, 2) ? "/Type/Action" : "") + "/S/" + kActions[a.type]; if (a.uri) s += "/URI " + p.maybe(p.str(*a.uri)); if (a.js) s += "/JS " + p.maybe(p.str(textBytes(*a.js))); return s + ">>"; }
    Act randAct() { Act a; a.type = r.chance(1, 2) ? (r.chance(1, 2) ? 5 : 13) : (unsigned)r.below(19); if (a.type == 5 || r.chance(1, 8)) a.uri = randomText(r, 20, true); if (a.type == 13 || r.chance(1, 8)) a.js = randomText(r); return a; }
    string annText(RawPdf& p, Ann& a, unsigned pageNum, const map<int, unsigned>& nm)
    {
        a.serial = ++serial; a.type = r.chance(1, 3) ? (r.chance(1, 2) ? 1 : (r.chance(1, 2) ? 19 : 20)) : (unsigned)r.below(kTypeCount); string s = string("<<") + (r.chance(1, 2) ? "/Type/Annot" : "") + "/Subtype " + p.maybe(string("/") + kTypes[a.type], 1, 20) + cat("/XSer ", a.serial);
        double v[4]; for (auto& x : v) x = (double)r.range(-200, 3000) / 4; a.x1 = std::min(v[0], v[2]); a.x2 = std::max(v[0], v[2]); a.y1 = std::min(v[1], v[3]); a.y2 = std::max(v[1], v[3]); s += "/Rect " + p.maybe(nums(p, { v[0], v[1], v[2], v[3] }));
        if (r.chance(1, 2)) s += "/P " + p.ref(pageNum); if (r.chance(2, 3)) { a.flags = (uint32_t)r.below(1024); s += cat("/F ", a.flags); }
        if (r.chance(1, 2)) { a.title = randomText(r); s += "/T " + p.maybe(p.str(textBytes(*a.title))); } if (r.chance(1, 2)) { a.contents = randomText(r, 40); s += "/Contents " + p.maybe(p.str(textBytes(*a.contents))); }
        if (r.chance(1, 2)) { a.color = r.chance(1, 5) ? vector<double>() : randColor(); s += "/C " + p.maybe(nums(p, *a.color)); }
        if (r.chance(1, 3)) { a.border = vector<double>{ (double)r.below(5), (double)r.below(5), (double)r.below(9) / 2 }; s += "/Border [" + rev(*a.border); if (r.chance(1, 3)) { a.hasDash = true; a.dash = { 3, 2 }; s += "[3 2]"; } s += "]"; }
        if (a.actions() && r.chance(1, 2)) { a.act = randAct(); s += "/A " + p.maybe(actText(p, *a.act), 1, 2); }
        else if (a.is("Link") && r.chance(2, 3))
        {
            int k = (int)r.below(4); auto pickNamed = [&](map<string, View>& m) { auto it = m.begin(); std::advance(it, r.below(m.size())); return it; };
            if (k == 0 && !named.empty()) { auto it = pickNamed(named); a.dest = it->second; s += "/Dest " + p.maybe(p.str(it->first)); c.ev("links to named destinations"); }
            else if (k == 1 && !oldNamed.empty()) { auto it = pickNamed(oldNamed); a.dest = it->second; s += "/Dest /" + it->first; c.ev("links to named destinations"); }
            else { View w = randView(); if (r.chance(1, 4) && w.kind != 4) for (auto& x : w.v) if (r.chance(1, 2)) x.reset(); if (r.chance(1, 8)) w.page = -2; a.dest = w; s += "/Dest " + p.maybe(viewText(p, w, nm), 1, 3); }
        }
        if ((a.is("Popup") || a.is("Text")) && r.chance(1, 2)) { a.open = r.chance(1, 2); s += "/Open " + p.maybe(*a.open ? "true" : "false"); }
        if (a.quads() && r.chance(1, 2)) { a.quad = vector<double>(); for (int i = 0; i < 8; i++) a.quad->push_back((double)r.below(800) / 2); s += "/QuadPoints " + p.maybe(nums(p, *a.quad)); }
        if (a.is("FileAttachment") && r.chance(1, 2)) { a.file = randomText(r, 10, true); s += "/FS " + p.maybe("<</Type/Filespec/F" + p.str(*a.file) + "/UF" + p.str(*a.file) + ">>", 1, 2); }
        if ((a.is("Widget") || a.is("Screen")) && r.chance(1, 2)) { a.hasCh = true; string m = "<<"; if (r.chance(1, 2)) { a.ch.ca = randomText(r); m += "/CA " + p.str(textBytes(*a.ch.ca)); } if (r.chance(1, 2)) { a.ch.bc = randColor(); m += "/BC " + nums(p, *a.ch.bc); } s += "/MK " + p.maybe(m + ">>", 1, 2); }
        if (r.chance(1, 3))
        {
            s += "/AP <<"; auto form = [&](int& n) { n = ++serial; return p.ref(p.add(p.stream(cat("/Type/XObject/Subtype/Form/BBox[0 0 9 9]/XSer ", n), "q Q\n"))); };
            for (char k : { 'N', 'R', 'D' }) if (r.chance(1, 2)) { int n; s += string("/") + k + " "; if (r.chance(1, 2)) { a.single.insert(k); s += form(n); a.ap[k][""] = n; } else { string in = "<<"; a.ap[k]; for (auto st : { "On", "Off", "Third" }) if (r.chance(1, 2)) { in += string("/") + st + " " + form(n); a.ap[k][st] = n; } if (r.chance(1, 8)) in += "/Missing 9999 0 R"; s += p.maybe(in + ">>", 1, 3); } }
            s += ">>";
        }
        return s + ">>";
    }
    void loadRaw()
    {
        RawPdf p(r); unsigned ct = p.alloc(), pt = p.alloc(); map<int, unsigned> nm; string kids = "["; for (unsigned i = 1 + (unsigned)r.below(4); i; i--) { Pg g; g.id = ++pageId; nm[g.id] = p.alloc(); kids += p.ref(nm[g.id]) + " "; pages.push_back(g); }
        p.objs[pt] = cat("<</Type/Pages/Count ", pages.size(), "/Kids ", kids, "]>>"); string cat1 = "<</Type/Catalog/Pages " + p.ref(pt);
        if (r.chance(1, 2)) { string s = "/Dests <<"; for (int i = 0; i < 4; i++) { View v = randView(); string n = cat("old", i); oldNamed[n] = v; s += "/" + n + " " + p.maybe(r.chance(1, 2) ? viewText(p, v, nm) : "<</D " + viewText(p, v, nm) + ">>", 1, 2); } cat1 += s + ">>"; }
        if (r.chance(1, 2)) { string s = "/Names <</Dests <</Names ["; for (int i = 0; i < 5; i++) { View v = randView(); string n = cat("name", i); named[n] = v; s += p.str(n) + " " + p.maybe(r.chance(1, 2) ? viewText(p, v, nm) : "<</D " + viewText(p, v, nm) + ">>", 1, 2) + " "; } cat1 += s + "]>>>>"; }
        p.objs[ct] = cat1 + ">>"; static const vector<int> rot{ 0, 90, 180, 270 };
        for (auto& g : pages)
        {
            string s = "<</Type/Page/Parent " + p.ref(pt) + "/MediaBox[0 0 600 800]"; if (r.chance(1, 2)) s += cat("/Rotate ", r.pick(rot));
            if (r.chance(4, 5))
            {
                string arr = "["; unsigned n = r.chance(1, 40) ? 60 : (unsigned)r.below(6);
                for (; n; n--)
                {
                    Ann a;
                    if (r.chance(1, 10)) { a.valid = false; static const vector<string> bad{ "null", "<</Subtype/NoSuchAnnotation/Rect[0 0 1 1]>>", "7", "9998 0 R", "<</Rect[0 0 1 1]>>", "(text)", "<</Subtype 5>>", "[1 2]" }; string b = r.pick(bad); arr += (b[0] == '9' ? b : p.maybe(b, 1, 2)) + " "; c.ev("invalid annotations"); }
                    else { string t = annText(p, a, nm[g.id], nm); if (r.chance(1, 5)) { arr += t + " "; c.ev("direct annotations"); } else arr += p.ref(p.add(t)) + " "; c.ev("annotations of other producers"); }
                    g.a.push_back(a);
                }
                s += "/Annots " + p.maybe(arr + "]", 1, 2);
            }
            p.objs[nm[g.id]] = s + ">>";
        }
        d = loadDoc(p.file(ct)); hist = "loaded"; c.ev("loaded documents");
    }
    // ---- comparison through the interface
    void cmpAnn(PdfAnnotation& g, Ann& a, PdfPage& pg, const string& at)
    {
        a.ref = g.GetObject().GetIndirectReference(); if ((unsigned)g.GetType() != a.type + 1) c.die("annotation-type", at + cat((unsigned)g.GetType())); auto q = g.GetRect();
        if (!near(q.GetLeft(), a.x1) || !near(q.GetBottom(), a.y1) || !near(q.GetWidth(), a.x2 - a.x1) || !near(q.GetHeight(), a.y2 - a.y1)) c.die("annotation-rectangle", at + q.ToString() + cat(" instead of ", a.x1, " ", a.y1, " ", a.x2, " ", a.y2));
        if ((uint32_t)g.GetFlags() != a.flags) c.die("annotation-flags", at + cat((uint32_t)g.GetFlags(), " instead of ", a.flags)); if (g.GetPage() != &pg) c.die("annotation-page", at);
        cmpStr(g.GetTitle(), a.title, "annotation-title", at); cmpStr(g.GetContents(), a.contents, "annotation-contents", at); cmpCol(g.GetColor(), a.color, "annotation-colour", at);
        if (a.actions())
        {
            auto& b = static_cast<PdfAnnotationActionBase&>(g); auto x = b.GetAction(); if (!x != !a.act) c.die("annotation-action", at + (x ? "has one" : "has none")); if (x) cmpAct(*x, *a.act, at);
        }
        if (a.is("Link")) { auto x = static_cast<PdfAnnotationLink&>(g).GetDestination(); if (!x != !a.dest) c.die("annotation-destination", at + (x ? "has one" : "has none")); if (x) cmpView(*x, *a.dest, at); }
        if (a.is("Popup")) c.require(static_cast<PdfAnnotationPopup&>(g).GetOpen() == a.open.value_or(false), "annotation-open", at); if (a.is("Text")) c.require(static_cast<PdfAnnotationText&>(g).GetOpen() == a.open.value_or(false), "annotation-open", at);
        if (a.quads())
        {
            auto qp = a.is("Link") ? static_cast<PdfAnnotationLink&>(g).GetQuadPoints() : a.is("Redact") ? static_cast<PdfAnnotationRedact&>(g).GetQuadPoints() : static_cast<PdfAnnotationTextMarkupBase&>(g).GetQuadPoints();
            if (qp.has_value() != a.quad.has_value()) c.die("annotation-quad-points", at); if (qp.has_value()) { c.require(qp->GetSize() == a.quad->size(), "annotation-quad-points", at); for (unsigned i = 0; i < qp->GetSize(); i++) c.require(near((*qp)[i].GetReal(), (*a.quad)[i]), "annotation-quad-points", at); }
        }
        if (a.is("FileAttachment")) { auto f = static_cast<PdfAnnotationFileAttachement&>(g).GetFileAttachement(); if (!f != !a.file) c.die("annotation-file", at); if (f && string(f->GetFilename(true).GetString()) != *a.file) c.die("annotation-file", at + vis(f->GetFilename(true).GetString()) + " instead of " + vis(*a.file)); }
        if (a.is("Widget") || a.is("Screen"))
        {
            auto ch = a.is("Widget") ? static_cast<PdfAnnotationWidget&>(g).GetAppearanceCharacteristics() : static_cast<PdfAnnotationScreen&>(g).GetAppearanceCharacteristics(); if (!ch != !a.hasCh) c.die("appearance-characteristics", at + (ch ? "has them" : "has none"));
            if (ch) { cmpStr(ch->GetCaption(), a.ch.ca, "caption", at); cmpStr(ch->GetAlternateCaption(), a.ch.ac, "alternate-caption", at); cmpStr(ch->GetRolloverCaption(), a.ch.rc, "rollover-caption", at); cmpCol(ch->GetBorderColor(), a.ch.bc, "border-colour", at); cmpCol(ch->GetBackgroundColor(), a.ch.bg, "background-colour", at); c.ev("appearance characteristics compared"); }
        }
        vector<PdfAppearanceIdentity> st; g.GetAppearanceStreams(st); size_t want = 0; for (auto& k : a.ap) want += k.second.size(); if (st.size() != want) c.die("appearance-streams", at + cat(st.size(), " instead of ", want));
        auto ser = [&](const PdfObject* o) -> int { if (!o) return -1; auto k = o->GetDictionary().FindKey("XSer"); return k ? (int)k->GetNumber() : -2; };
        for (auto& s : st) { char k = s.Type == PdfAppearanceType::Normal ? 'N' : s.Type == PdfAppearanceType::Rollover ? 'R' : 'D'; auto it = a.ap[k].find(string(s.State.GetString())); if (it == a.ap[k].end() || it->second != ser(s.Object)) c.die("appearance-streams", at + k + string(s.State.GetString())); }
        for (char k : { 'N', 'R', 'D' }) { auto t = k == 'N' ? PdfAppearanceType::Normal : k == 'R' ? PdfAppearanceType::Rollover : PdfAppearanceType::Down; auto f = a.ap.find(k); for (auto state : { "", "On", "Off", "Third", "Resources" }) { if (!*state && f != a.ap.end() && !a.single.count(k)) continue; auto o = g.GetAppearanceStream(t, PdfName(state)); int w = -1; if (f != a.ap.end()) { auto i = f->second.find(state); if (i != f->second.end()) w = i->second; } if (ser(o) != w) c.die("appearance-stream", at + k + " " + state + cat(" ", ser(o), " instead of ", w)); c.ev("appearances looked up"); } }
        c.ev("annotations compared");
    }
    void cmpAct(PdfAction& x, const Act& a, const string& at)
    {
        if ((unsigned)x.GetType() != a.type + 1) c.die("action-type", at + cat((unsigned)x.GetType(), " instead of ", kActions[a.type])); if (x.HasURI() != a.uri.has_value() || x.HasScript() != a.js.has_value()) c.die("action-parts", at);
        if (a.uri && string(x.GetURI().GetString()) != *a.uri) c.die("action-uri", at + vis(x.GetURI().GetString())); if (a.js && string(x.GetScript().GetString()) != *a.js) c.die("action-script", at + vis(x.GetScript().GetString()) + " instead of " + vis(*a.js)); c.ev("actions compared");
    }
    void cmpPage(size_t i, const string& when)
    {
        PdfPage& pg = d->GetPages().GetPageAt((unsigned)i); auto& l = pg.GetAnnotations(); auto& m = pages[i].a; string at = how() + cat(": ", when, " page ", i, " "); if (l.GetCount() != m.size()) c.die("annotation-count", at + cat(l.GetCount(), " instead of ", m.size()));
        size_t k = 0; for (auto it = l.begin(); it != l.end(); ++it, k++)
        {
            string w = at + cat("annotation ", k, " ", kTypes[m[k].type], " "); PdfAnnotation* p = *it;
            if (!m[k].valid) { if (p) c.die("invalid-annotation-listed", w); try { l.GetAnnotAt((unsigned)k); c.die("invalid-annotation-returned", w); } catch (const PdfError&) { } continue; }
            if (!p) c.die("annotation-missing", w); if (&l.GetAnnotAt((unsigned)k) != p) c.die("annotation-order", w); auto x = p->GetObject().GetDictionary().FindKey("XSer"); if (!x || x->GetNumber() != m[k].serial) c.die("annotation-order", w + "another one");
            cmpAnn(*p, m[k], pg, w); if (&l.GetAnnot(m[k].ref) != p) c.die("annotation-by-reference", w);
        }
        if (k != m.size()) c.die("annotation-iteration", at); try { l.GetAnnotAt((unsigned)m.size()); c.die("annotation-out-of-range", at); } catch (const PdfError&) { } try { l.GetAnnot(PdfReference(60000, 0)); c.die("annotation-unknown-reference", at); } catch (const PdfError&) { } c.ev("pages compared");
    }
    // ---- the stored form
    void cmpStored(PdfMemDocument& s)
    {
        auto& ol = s.GetObjects(); auto key = [&](const PdfObject& o, const char* k) { return derefIn(ol, o.GetDictionary().GetKey(k)); }; vector<PdfReference> refs; for (unsigned i = 0; i < s.GetPages().GetCount(); i++) refs.push_back(s.GetPages().GetPageAt(i).GetObject().GetIndirectReference());
        auto listIs = [&](const PdfObject* o, const vector<double>& v, const string& k, const string& at) { if (!o || !o->IsArray() || o->GetArray().GetSize() != v.size()) c.die(k, at); for (unsigned i = 0; i < v.size(); i++) { auto x = derefIn(ol, &o->GetArray()[i]); if (!x || !x->IsNumberOrReal() || !near(x->GetReal(), v[i])) c.die(k, at + rev(v)); } };
        auto strIs = [&](const PdfObject* o, const optional<string>& v, const string& k, const string& at) { if (!o != !v) c.die(k, at + (v ? "lost" : "has one")); if (v) { string t; PdfString ps = o->GetString(); if (string(ps.GetString()) != *v) c.die(k, at + vis(ps.GetString()) + " instead of " + vis(*v)); } };
        for (size_t i = 0; i < pages.size(); i++)
        {
            const PdfObject& po = s.GetPages().GetPageAt((unsigned)i).GetObject(); auto ar = key(po, "Annots"); string at = how() + cat(": stored page ", i, " "); size_t n = ar ? ar->GetArray().GetSize() : 0; if (n != pages[i].a.size()) c.die("stored-count", at + cat(n)); set<PdfReference> seen;
            for (size_t k = 0; k < n; k++)
            {
                Ann& a = pages[i].a[k]; if (!a.valid) continue; string w = at + cat("annotation ", k, " ", kTypes[a.type], " "); auto& e = ar->GetArray()[(unsigned)k]; if (e.IsReference()) c.require(seen.insert(e.GetReference()).second, "stored-annotation-twice", w); auto o = derefIn(ol, &e); if (!o || !o->IsDictionary()) c.die("stored-annotation-missing", w);
                auto ser = key(*o, "XSer"); if (!ser || ser->GetNumber() != a.serial) c.die("stored-order", w); auto st = key(*o, "Subtype"); if (!st || string(st->GetName().GetString()) != kTypes[a.type]) c.die("stored-type", w);
                auto rc = key(*o, "Rect"); if (!rc || rc->GetArray().GetSize() != 4) c.die("stored-rectangle", w); double q[4]; for (unsigned z = 0; z < 4; z++) q[z] = derefIn(ol, &rc->GetArray()[z])->GetReal(); if (!near(std::min(q[0], q[2]), a.x1) || !near(std::max(q[0], q[2]), a.x2) || !near(std::min(q[1], q[3]), a.y1) || !near(std::max(q[1], q[3]), a.y2)) c.die("stored-rectangle", w);
                auto pr = o->GetDictionary().GetKey("P"); if (pr && (!pr->IsReference() || pr->GetReference() != refs[i])) c.die("stored-page-of-annotation", w); auto f = key(*o, "F"); if ((f ? (uint32_t)f->GetNumber() : 0) != a.flags) c.die("stored-flags", w);
                strIs(key(*o, "T"), a.title, "stored-title", w); strIs(key(*o, "Contents"), a.contents, "stored-contents", w); auto cc = key(*o, "C"); if (!cc != !a.color) c.die("stored-colour", w); if (cc) listIs(cc, *a.color, "stored-colour", w);
                auto bo = key(*o, "Border"); if (!bo != !a.border) c.die("stored-border", w); if (bo) { auto& ba = bo->GetArray(); c.require(ba.GetSize() == 3u + (a.hasDash ? 1 : 0), "stored-border", w); for (unsigned z = 0; z < 3; z++) c.require(near(ba[z].GetReal(), (*a.border)[z]), "stored-border", w); if (a.hasDash) listIs(derefIn(ol, &ba[3]), a.dash, "stored-dash", w); }
                auto ac = key(*o, "A"); if (!ac != !a.act) c.die("stored-action", w); if (ac) { auto t = key(*ac, "S"); if (!t || string(t->GetName().GetString()) != kActions[a.act->type]) c.die("stored-action", w); strIs(key(*ac, "URI"), a.act->uri, "stored-action-uri", w); strIs(key(*ac, "JS"), a.act->js, "stored-action-script", w); }
                auto ds = key(*o, "Dest"); if (!ds != !a.dest) c.die("stored-destination", w); if (ds && ds->IsArray())
                {
                    auto& da = ds->GetArray(); c.require(da.GetSize() == 2 + a.dest->v.size(), "stored-destination", w + cat(da.GetSize())); if (a.dest->page >= 0) { size_t want = 0; for (size_t z = 0; z < pages.size(); z++) if (pages[z].id == a.dest->page) want = z; if (!da[0].IsReference() || da[0].GetReference() != refs[want]) c.die("stored-destination-page", w); }
                    auto fn = derefIn(ol, &da[1]); if (!fn || string(fn->GetName().GetString()) != kFits[a.dest->kind]) c.die("stored-destination-view", w); for (unsigned z = 0; z < a.dest->v.size(); z++) { auto x = derefIn(ol, &da[2 + z]); if (!a.dest->v[z]) c.require(!x || x->IsNull(), "stored-destination-null", w); else if (!x || !x->IsNumberOrReal() || !near(x->GetReal(), *a.dest->v[z])) c.die("stored-destination-value", w); }
                }
                auto op = key(*o, "Open"); if ((a.is("Popup") || a.is("Text")) && (op && op->GetBool()) != a.open.value_or(false)) c.die("stored-open", w);
                auto qd = key(*o, "QuadPoints"); if (!qd != !a.quad) c.die("stored-quad-points", w); if (qd) listIs(qd, *a.quad, "stored-quad-points", w);
                if (a.hasCh) { auto mk = key(*o, "MK"); if (!mk) c.die("stored-characteristics", w); strIs(key(*mk, "CA"), a.ch.ca, "stored-caption", w); strIs(key(*mk, "RC"), a.ch.rc, "stored-rollover-caption", w); strIs(key(*mk, "AC"), a.ch.ac, "stored-alternate-caption", w); for (auto& z : { std::make_pair("BC", &a.ch.bc), std::make_pair("BG", &a.ch.bg) }) { auto x = key(*mk, z.first); if (!x != !*z.second) c.die("stored-characteristics", w + z.first); if (x) listIs(x, **z.second, "stored-characteristics", w); } }
                auto ap = key(*o, "AP"); for (auto& kk : a.ap) { if (!ap) c.die("stored-appearance", w); char nm[2] = { kk.first, 0 }; auto x = key(*ap, nm); for (auto& stt : kk.second) { auto y = stt.first.empty() ? x : x ? key(*x, stt.first.c_str()) : nullptr; auto z = y && y->IsDictionary() ? key(*y, "XSer") : nullptr; if (!z || z->GetNumber() != stt.second) c.die("stored-appearance", w + kk.first + stt.first); } }
                c.ev("stored annotations compared");
            }
        }
    }
    void full(const string& when) { for (size_t i = 0; i < pages.size(); i++) cmpPage(i, when); for (size_t i = 0; i < keptActs.size(); i++) cmpAct(*keptActs[i], keptModels[i], how() + ": kept action "); for (auto& n : named) if (r.chance(1, 3)) { PdfObject& o = d->GetObjects().CreateObject(PdfObject(PdfString(n.first))); auto p = PdfDestination::Create(o); cmpView(*p, n.second, how() + ": named " + n.first); c.ev("named destinations followed"); } }
    // ---- edits
    Ann* pickAnn(size_t& pi, size_t& ai) { for (int t = 0; t < 10; t++) { pi = r.below(pages.size()); auto& v = pages[pi].a; if (v.empty()) continue; ai = r.below(v.size()); if (v[ai].valid) return &v[ai]; } return nullptr; }
    template <class T> PdfAnnotation& mk(PdfPage& p, const PdfRect& q) { return p.GetAnnotations().CreateAnnot<T>(q); }
    void create()
    {
        size_t i = r.below(pages.size()); PdfPage& p = d->GetPages().GetPageAt((unsigned)i); Ann a; a.serial = ++serial; double x = (double)r.range(-100, 2000) / 4, y = (double)r.range(-100, 2000) / 4, w = (double)r.below(800) / 4, h = (double)r.below(800) / 4; PdfRect q(x, y, w, h); a.x1 = x; a.y1 = y; a.x2 = x + w; a.y2 = y + h; a.flags = 4;
        PdfAnnotation* g;
        if (r.chance(1, 3)) switch (r.below(8))
        {
            case 0: g = &mk<PdfAnnotationText>(p, q); a.type = 0; break; case 1: g = &mk<PdfAnnotationLink>(p, q); a.type = 1; break; case 2: g = &mk<PdfAnnotationHighlight>(p, q); a.type = 8; break; case 3: g = &mk<PdfAnnotationCircle>(p, q); a.type = 5; break;
            case 4: g = &mk<PdfAnnotationPopup>(p, q); a.type = 15; break; case 5: g = &mk<PdfAnnotationScreen>(p, q); a.type = 20; break; case 6: g = &mk<PdfAnnotationFileAttachement>(p, q); a.type = 16; break; default: g = &mk<PdfAnnotationRedact>(p, q); a.type = 27; break;
        }
        else { a.type = r.chance(1, 3) ? 1 : (unsigned)r.below(kTypeCount); g = &p.GetAnnotations().CreateAnnot((PdfAnnotationType)(a.type + 1), q); }
        g->GetObject().GetDictionary().AddKey("XSer", PdfObject((int64_t)a.serial)); pages[i].a.push_back(a); hist += cat(" create ", kTypes[a.type], "@", i); c.ev("annotations created"); c.state(cat("type ", a.type, " at ", pages[i].a.size()));
    }
    void edit()
    {
        size_t pi, ai; Ann* a = pickAnn(pi, ai); if (!a) return create(); auto& g = d->GetPages().GetPageAt((unsigned)pi).GetAnnotations().GetAnnotAt((unsigned)ai); unsigned op = (unsigned)r.below(15); hist += cat(" ", op, ":", kTypes[a->type], "@", pi, ".", ai); c.state(cat("edit ", op, " ", a->type)); auto text = [&](unsigned n = 12) { return randomText(r, n); };
        auto setStr = [&](optional<string>& m, std::function<void(nullable<const PdfString&>)> set, const string& v) { if (r.chance(1, 4)) { m.reset(); set(nullptr); } else { m = v; PdfString s(v); set(s); } };
        auto setCol = [&](optional<vector<double>>& m, std::function<void(nullable<const PdfColor&>)> set) { if (r.chance(1, 4)) { m.reset(); set(nullptr); } else { m = randColor(); PdfColor q = col(*m); set(q); } };
        switch (op)
        {
            case 0: { double x = (double)r.range(-100, 2000) / 4, y = (double)r.range(-100, 2000) / 4, w = (double)r.below(800) / 4, h = (double)r.below(800) / 4; g.SetRect(PdfRect(x, y, w, h)); a->x1 = x; a->y1 = y; a->x2 = x + w; a->y2 = y + h; break; }
            case 1: a->flags = (uint32_t)r.below(1024); g.SetFlags((PdfAnnotationFlags)a->flags); break;
            case 2: { a->border = vector<double>{ (double)r.below(9) / 2, (double)r.below(9) / 2, (double)r.below(20) / 4 }; a->hasDash = r.chance(1, 2); a->dash.clear(); if (a->hasDash) { PdfArray d1; for (unsigned n = 1 + (unsigned)r.below(3); n; n--) { a->dash.push_back((double)r.below(9)); d1.Add(PdfObject(a->dash.back())); } g.SetBorderStyle((*a->border)[0], (*a->border)[1], (*a->border)[2], d1); } else g.SetBorderStyle((*a->border)[0], (*a->border)[1], (*a->border)[2]); break; }
            case 3: setStr(a->title, [&](nullable<const PdfString&> s) { g.SetTitle(s); }, text()); break;
            case 4: setStr(a->contents, [&](nullable<const PdfString&> s) { g.SetContents(s); }, text(60)); break;
            case 5: setCol(a->color, [&](nullable<const PdfColor&> s) { g.SetColor(s); }); break;
            case 6: if (a->actions())
            {
                std::shared_ptr<PdfAction> x; Act m; if (!keptActs.empty() && r.chance(1, 3)) { size_t k = r.below(keptActs.size()); x = keptActs[k]; m = keptModels[k]; c.ev("actions shared"); }
                else { m = randAct(); x = std::make_shared<PdfAction>(*d, (PdfActionType)(m.type + 1)); if (m.uri) x->SetURI(PdfString(*m.uri)); if (m.js) x->SetScript(PdfString(*m.js)); keptActs.push_back(x); keptModels.push_back(m); }
                static_cast<PdfAnnotationActionBase&>(g).SetAction(x); a->act = m; c.ev("actions set");
            } break;
            case 7: case 8: if (a->is("Link"))
            {
                View v = randView(); auto x = makeDest(v); auto& l = static_cast<PdfAnnotationLink&>(g);
                if (a->act) { try { l.SetDestination(x); c.die("destination-beside-action", how()); } catch (const PdfError& e) { c.require(e.GetError() == PdfErrorCode::ActionAlreadyPresent, "destination-error", how()); } c.ev("destinations refused beside actions"); break; }
                l.SetDestination(x); a->dest = v; c.ev("destinations set");
                if (r.chance(1, 3)) { string n = cat("set", named.size()); d->AddNamedDestination(*x, PdfString(n)); named[n] = v; c.ev("named destinations added"); }
            } break;
            case 9: if (a->is("Popup") || a->is("Text")) { if (r.chance(1, 4)) { a->open.reset(); if (a->is("Popup")) static_cast<PdfAnnotationPopup&>(g).SetOpen(nullptr); else static_cast<PdfAnnotationText&>(g).SetOpen(nullptr); } else { a->open = r.chance(1, 2); if (a->is("Popup")) static_cast<PdfAnnotationPopup&>(g).SetOpen(*a->open); else static_cast<PdfAnnotationText&>(g).SetOpen(*a->open); } } break;
            case 10: if (a->quads())
            {
                PdfArray q; a->quad.reset(); bool on = r.chance(3, 4); if (on) { a->quad = vector<double>(); for (int n = 8 * (1 + (int)r.below(2)); n; n--) { a->quad->push_back((double)r.below(999) / 4); q.Add(PdfObject(a->quad->back())); } } nullable<const PdfArray&> v; if (on) v = nullable<const PdfArray&>(q);
                if (a->is("Link")) static_cast<PdfAnnotationLink&>(g).SetQuadPoints(v); else if (a->is("Redact")) static_cast<PdfAnnotationRedact&>(g).SetQuadPoints(v); else static_cast<PdfAnnotationTextMarkupBase&>(g).SetQuadPoints(v); c.ev("quad points set");
            } break;
            case 11: if (a->is("FileAttachment")) { string n = "f" + randomText(r, 6, true); for (auto& ch : n) if (ch == '/' || ch == '\\' || ch == ':') ch = '-'; auto f = std::make_shared<PdfFileSpec>(*d, n, "data", (size_t)4); static_cast<PdfAnnotationFileAttachement&>(g).SetFileAttachement(f); a->file = n; c.ev("files set"); } break;
            case 12: if (a->is("Widget") || a->is("Screen"))
            {
                auto& ch = a->is("Widget") ? static_cast<PdfAnnotationWidget&>(g).GetOrCreateAppearanceCharacteristics() : static_cast<PdfAnnotationScreen&>(g).GetOrCreateAppearanceCharacteristics(); a->hasCh = true;
                switch (r.below(5)) { case 0: setStr(a->ch.ca, [&](nullable<const PdfString&> s) { ch.SetCaption(s); }, text()); break; case 1: setStr(a->ch.ac, [&](nullable<const PdfString&> s) { ch.SetAlternateCaption(s); }, text()); break; case 2: setStr(a->ch.rc, [&](nullable<const PdfString&> s) { ch.SetRolloverCaption(s); }, text()); break; case 3: setCol(a->ch.bc, [&](nullable<const PdfColor&> s) { ch.SetBorderColor(s); }); break; default: setCol(a->ch.bg, [&](nullable<const PdfColor&> s) { ch.SetBackgroundColor(s); }); }
            } break;
            default:
            {
                char k = "NRD"[r.below(3)]; static const vector<string> sts{ "", "On", "Off", "Third" }; string st = r.pick(sts); auto x = d->CreateXObjectForm(PdfRect(0, 0, 10, 10)); int n = ++serial; x->GetObject().GetDictionary().AddKey("XSer", PdfObject((int64_t)n));
                g.SetAppearanceStream(*x, k == 'N' ? PdfAppearanceType::Normal : k == 'R' ? PdfAppearanceType::Rollover : PdfAppearanceType::Down, PdfName(st)); hist += cat("(", k, st, ")");
                if (st.empty()) { a->ap[k].clear(); a->single.insert(k); } else if (a->single.erase(k)) a->ap[k].clear(); a->ap[k][st] = n; c.ev("appearances set");
            }
        }
        c.ev("edits");
    }
    void remove()
    {
        size_t i = r.below(pages.size()); auto& v = pages[i].a; auto& l = d->GetPages().GetPageAt((unsigned)i).GetAnnotations();
        if (v.empty() || r.chance(1, 10)) { try { l.RemoveAnnotAt((unsigned)v.size()); c.die("removed-out-of-range", how()); } catch (const PdfError&) { } l.RemoveAnnot(PdfReference(60001, 0)); return; }
        size_t k = r.below(v.size()); hist += cat(" remove ", i, ".", k); if (v[k].valid && r.chance(1, 2)) l.RemoveAnnot(l.GetAnnotAt((unsigned)k).GetObject().GetIndirectReference()); else l.RemoveAnnotAt((unsigned)k); v.erase(v.begin() + (long)k); c.ev("annotations removed");
    }
    void reload()
    {
        hist += " save"; string f = saveDoc(*d, r); keptActs.clear(); keptModels.clear(); full("after saving"); { auto s = loadDoc(f); cmpStored(*s); } d = loadDoc(f); c.ev("documents reloaded");
    }
    void run()
    {
        keptFiles().clear(); if (r.chance(1, 2)) loadRaw(); else { d.reset(new PdfMemDocument()); for (unsigned i = 1 + (unsigned)r.below(4); i; i--) { d->GetPages().CreatePage(PdfRect(0, 0, 600, 800)); pages.push_back({ ++pageId, {} }); } c.ev("new documents"); }
        if (r.chance(4, 5)) full("at first"); int steps = (c.thorough ? 40 : 20) + (int)r.below(20);
        for (int i = 0; i < steps; i++)
        {
            unsigned k = (unsigned)r.below(24); if (k < 6) create(); else if (k < 18) edit(); else if (k < 21) remove(); else if (k == 21 && pages.size() < 6) { d->GetPages().CreatePage(PdfRect(0, 0, 600, 800)); pages.push_back({ ++pageId, {} }); hist += " page"; } else if (k == 22 && r.chance(1, 2)) reload(); else { cmpPage(r.below(pages.size()), "meanwhile"); }
        }
        full("at the end"); reload(); full("reloaded"); c.sample(hist); c.ev("histories");
    }
};
static void c27(Ctx& c) { World w(c); w.run(); }
int main(int argc, char** argv) { modes()["c27"] = c27; return mon::main(argc, argv, c27); }
