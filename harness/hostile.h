// Visits everything reachable in a document.  Every step may be refused with the library's own error; anything
// else (another exception, a crash, a sanitizer report, running without end) escapes to the runtime and counts.
#ifndef HOSTILE_H
#define HOSTILE_H
#include "mon.h"
#include "model.h"
#include <pdfmm/pdfmm.h>
#include <pdfmm/base/PdfParser.h>
#include <set>

namespace mon {
struct Visitor
{
    Rng r; std::function<void(const char*)> ev; std::function<void(const std::string&)> phase; uint64_t ok = 0, refused = 0; std::string lastRefusal;
    explicit Visitor(uint64_t seed, std::function<void(const char*)> e = [](const char*) { }, std::function<void(const std::string&)> p = [](const std::string&) { }) : r(seed), ev(std::move(e)), phase(std::move(p)) { }
    // one step: true when it gave a result
    template <class F> bool g(const char* what, F f)
    {
        phase(what);
        try { f(); ok++; return true; }
        catch (const mm::PdfError& e) { refused++; lastRefusal = cat(what, ":", (int)e.GetError()); (void)e.what(); return false; }
    }
    std::string someBytes(unsigned n) { std::string s; for (unsigned k = 1 + (unsigned)r.below(n); k; k--) s += r.chance(1, 2) ? (char)(32 + r.below(95)) : (char)r.next(); return s; }
    void object(mm::PdfObject& o)
    {
        using namespace mm;
        if (!g("object text", [&] { std::string s = o.ToString(); if (s.size() > 8u << 20) s.clear(); })) return;
        bool st = false; g("object has stream", [&] { st = o.HasStream(); });
        if (st) g("stream decoded", [&] { auto d = o.MustGetStream().GetCopy(); ev("streams decoded"); (void)d; });
        if (st && r.chance(1, 4)) g("stream raw copy", [&] { auto d = o.MustGetStream().GetCopy(true); });
        if (st && r.chance(1, 8)) g("stream read", [&] { auto in = o.MustGetStream().GetInputStream(r.chance(1, 2)); char b[777]; bool eof = false; size_t total = 0; while (!eof && total < (64u << 20)) total += in.Read(b, 1 + r.below(sizeof b), eof); });
        if (r.chance(1, 8)) g("object copied", [&] { PdfObject c(o); (void)c.ToString(); });
    }
    void destination(mm::PdfDestination& d)
    {
        g("destination page", [&] { d.GetPage(); }); g("destination type", [&] { d.GetType(); }); g("destination left", [&] { d.GetLeft(); }); g("destination top", [&] { d.GetTop(); });
        g("destination zoom", [&] { d.GetZoom(); }); g("destination value", [&] { d.GetDValue(); }); g("destination rect", [&] { d.GetRect(); }); ev("destinations visited");
    }
    void action(const mm::PdfAction& a) { g("action type", [&] { a.GetType(); }); g("action uri", [&] { if (a.HasURI()) (void)a.GetURI().GetString(); }); g("action script", [&] { if (a.HasScript()) (void)a.GetScript().GetString(); }); ev("actions visited"); }
    template <class T> void text(const char* what, T f) { g(what, [&] { auto s = f(); if (s.has_value()) (void)s->GetString(); }); }
    void field(mm::PdfField& f, unsigned depth = 0)
    {
        using namespace mm; if (depth > 40) return; ev("fields visited");
        text("field name raw", [&] { return f.GetNameRaw(); }); text("field name", [&] { return f.GetName(); }); g("field full name", [&] { f.GetFullName(r.chance(1, 2)); }); text("field alternate name", [&] { return f.GetAlternateName(); }); text("field mapping name", [&] { return f.GetMappingName(); });
        g("field flags", [&] { f.IsReadOnly(); f.IsRequired(); f.IsNoExport(); }); g("field highlighting", [&] { f.GetHighlightingMode(); }); g("field parent", [&] { f.GetParentSafe(); }); g("field widget", [&] { f.GetWidget(); }); g("field type", [&] { f.GetType(); });
        if (auto t = dynamic_cast<PdfTextBox*>(&f)) { g("text box", [&] { t->IsMultiLine(); t->IsRichText(); t->IsCombs(); }); g("text box length", [&] { t->GetMaxLen(); }); text("text box text", [&] { return t->GetText(); }); }
        if (auto t = dynamic_cast<PdChoiceField*>(&f)) { g("choice flags", [&] { t->IsComboBox(); t->IsSorted(); t->IsMultiSelect(); }); unsigned n = 0; g("choice count", [&] { n = t->GetItemCount(); }); for (unsigned i = 0; i < n && i < 40; i++) { g("choice item", [&] { (void)t->GetItem(i).GetString(); }); text("choice display", [&] { return t->GetItemDisplayText((int)i); }); } g("choice selected", [&] { t->GetSelectedIndex(); }); }
        if (auto b = dynamic_cast<PdfButton*>(&f)) { g("button flags", [&] { b->IsPushButton(); b->IsRadioButton(); b->IsCheckBox(); }); text("button caption", [&] { return b->GetCaption(); }); if (auto p = dynamic_cast<PdfPushButton*>(b)) { text("push button rollover", [&] { return p->GetRolloverCaption(); }); text("push button alternate", [&] { return p->GetAlternateCaption(); }); } }
        if (auto k = dynamic_cast<PdfCheckBox*>(&f)) g("check box", [&] { k->IsChecked(); });
        if (auto s = dynamic_cast<PdfSignature*>(&f)) { text("signer name", [&] { return s->GetSignerName(); }); text("signature reason", [&] { return s->GetSignatureReason(); }); text("signature location", [&] { return s->GetSignatureLocation(); }); g("signature date", [&] { s->GetSignatureDate(); }); ev("signatures visited"); }
        unsigned n = 0; if (!g("field kids", [&] { n = f.GetChildren().GetCount(); })) return;
        for (unsigned i = 0; i < n && i < 30; i++) g("field kid", [&] { PdfField* k = &f.GetChildren().GetFieldAt(i); field(*k, depth + 1); });
    }
    void annotation(mm::PdfAnnotation& a)
    {
        using namespace mm; ev("annotations visited"); g("annotation type", [&] { a.GetType(); }); g("annotation rect", [&] { a.GetRect(); }); g("annotation flags", [&] { a.GetFlags(); }); text("annotation title", [&] { return a.GetTitle(); }); text("annotation contents", [&] { return a.GetContents(); });
        g("annotation colour", [&] { a.GetColor(); }); g("annotation page", [&] { a.GetPage(); }); g("annotation appearances", [&] { std::vector<PdfAppearanceIdentity> v; a.GetAppearanceStreams(v); for (auto& x : v) if (x.Object) { std::unique_ptr<const PdfXObjectForm> f; g("appearance form", [&] { PdfXObject::TryCreateFromObject(*x.Object, f); }); } }); g("annotation appearance", [&] { a.GetAppearanceStream(PdfAppearanceType::Normal, ""); a.GetAppearanceStream(PdfAppearanceType::Down, "On"); });
        if (auto b = dynamic_cast<PdfAnnotationActionBase*>(&a)) g("annotation action", [&] { auto x = b->GetAction(); if (x) action(*x); });
        if (auto b = dynamic_cast<PdfAnnotationLink*>(&a)) { g("annotation destination", [&] { auto x = b->GetDestination(); if (x) destination(*x); }); g("annotation quad", [&] { b->GetQuadPoints(); }); }
        if (auto b = dynamic_cast<PdfAnnotationTextMarkupBase*>(&a)) g("annotation quad", [&] { b->GetQuadPoints(); });
        if (auto b = dynamic_cast<PdfAnnotationPopup*>(&a)) g("annotation open", [&] { b->GetOpen(); });
        if (auto b = dynamic_cast<PdfAnnotationText*>(&a)) g("annotation open", [&] { b->GetOpen(); });
        if (auto b = dynamic_cast<PdfAnnotationFileAttachement*>(&a)) g("annotation file", [&] { auto x = b->GetFileAttachement(); if (x) (void)x->GetFilename(true).GetString(); });
        if (auto b = dynamic_cast<PdfAnnotationWidget*>(&a)) { g("widget characteristics", [&] { auto x = b->GetAppearanceCharacteristics(); if (x) { x->GetBorderColor(); x->GetBackgroundColor(); text("widget caption", [&] { return x->GetCaption(); }); } }); g("widget field", [&] { field(b->GetField()); }); }
        if (auto b = dynamic_cast<PdfAnnotationScreen*>(&a)) g("screen characteristics", [&] { auto x = b->GetAppearanceCharacteristics(); if (x) { x->GetBorderColor(); text("screen caption", [&] { return x->GetCaption(); }); } });
    }
    void font(mm::PdfFont& f)
    {
        using namespace mm; ev("fonts visited"); PdfTextState st; st.FontSize = 10; st.Font = &f; auto& e = f.GetEncoding();
        for (unsigned i = 0; i < 3; i++)
        {
            PdfString s = PdfString::FromRaw(someBytes(24)); std::string u; std::vector<double> l; std::vector<unsigned> p; double w;
            g("font scan", [&] { f.TryScanString(s, st, u, l, p); }); g("font length", [&] { f.TryGetStringLength(s, st, w); }); g("font decode", [&] { std::string o; e.TryConvertToUtf8(s, o); if (o.size() < 2000) { charbuff b; g("font encode", [&] { e.TryConvertToEncoded(o, b); }); g("font text length", [&] { f.TryGetStringLength(o, st, w); }); } }); g("font cids", [&] { std::vector<PdfCID> v; e.TryConvertToCIDs(s, v); });
        }
        g("font characters", [&] { for (char32_t c : { U'A', U' ', U'\u20ac', U'\U0001F600', (char32_t)0, (char32_t)0x110000 }) { double w; unsigned gid; f.TryGetCharLength(c, st, w); f.TryGetGID(c, r.chance(1, 2) ? PdfGlyphAccess::Width : PdfGlyphAccess::FontProgram, gid); } });
        g("font code points", [&] { for (unsigned c : { 0u, 65u, 255u, 256u, 65535u, 0xFFFFFFFFu }) e.GetCodePoint(c); }); g("font limits", [&] { e.GetFirstChar(); e.GetLastChar(); });
        g("font measures", [&] { f.GetLineSpacing(st); f.GetUnderlineThickness(st); f.GetUnderlinePosition(st); f.GetStrikeOutPosition(st); f.GetStrikeOutThickness(st); f.GetAscent(st); f.GetDescent(st); f.GetWordSpacingLength(st); f.GetDefaultCharLength(st); f.IsStandard14Font(); f.SupportsSubsetting(); });
        auto& m = f.GetMetrics(); g("metrics names", [&] { (void)m.GetFontName(); (void)m.GetBaseFontName(); (void)m.GetFontFamilyName(); }); g("metrics values", [&] { m.GetWeight(); m.GetItalicAngle(); m.GetStemV(); m.GetStemH(); m.GetCapHeight(); m.GetXHeight(); m.GetFlags(); PdfFontDescriptorFlags x; (void)x; m.GetLeading(); m.GetAvgWidth(); m.GetMaxWidth(); m.GetDefaultWidthRaw(); m.GetFontStretch(); m.GetGlyphCount(); });
        g("metrics glyphs", [&] { for (unsigned i : { 0u, 1u, 65u, 70000u }) { double w; m.TryGetGlyphWidth(i, w); } unsigned gid; m.TryGetGID(U'A', gid); }); g("metrics bounding box", [&] { std::vector<double> b; m.GetBoundingBox(b); }); g("metrics font file", [&] { m.GetOrLoadFontFileData(); }); FT_Face face = nullptr; g("metrics face", [&] { m.TryGetOrLoadFace(face); });
        g("font split", [&] { f.SplitByWhiteSpaces(PdfString("a b  c")); });
        if (r.chance(1, 6)) g("font substitute", [&] { PdfFont* s = nullptr; f.TryGetSubstituteFont(s); });
    }
    void xobject(mm::PdfObject& o)
    {
        using namespace mm; std::unique_ptr<PdfXObject> x; if (!g("external object", [&] { PdfXObject::TryCreateFromObject(o, x); }) || !x) return; ev("external objects visited");
        g("external object rect", [&] { x->GetRect(); });
        if (auto im = dynamic_cast<PdfImage*>(x.get()))
        {
            g("image size", [&] { im->GetWidth(); im->GetHeight(); im->GetRect(); }); for (auto f : { PdfPixelFormat::RGB24, PdfPixelFormat::RGBA, PdfPixelFormat::Grayscale }) if (r.chance(1, 2)) g("image decoded", [&] { charbuff b; im->DecodeTo(b, f); ev("images decoded"); });
        }
        if (auto f = dynamic_cast<PdfXObjectForm*>(x.get())) { g("form matrix", [&] { f->GetMatrix(); }); g("form rotation", [&] { double t; f->HasRotation(t); }); contents(*f); }
    }
    void contents(const mm::PdfCanvas& cv)
    {
        using namespace mm; g("content read", [&] { PdfContentReaderArgs args; args.Flags = r.chance(1, 4) ? PdfContentReaderFlags::DontFollowXObjectForms : r.chance(1, 6) ? PdfContentReaderFlags::ThrowOnWarnings : PdfContentReaderFlags::None; PdfContentsReader rd(cv, args); PdfContent ct; for (unsigned n = 0; n < 200000 && rd.TryReadNext(ct); n++) { if (n < 3000) { (void)ct.Keyword; for (auto& v : ct.Stack) (void)v.GetDataType(); } ev("content items read"); } });
    }
    void extract(const mm::PdfPage& p)
    {
        using namespace mm; g("text extracted", [&] {
            std::vector<PdfTextEntry> v; PdfTextExtractParams q; std::string pat; if (r.chance(1, 4)) { q.Flags = (PdfTextExtractFlags)(r.below(256) & ~16u); if (r.chance(2, 3)) { pat = r.chance(1, 2) ? "a" : "te"; } } if (r.chance(1, 6)) q.ClipRect = PdfRect(0, 0, 300, 300);
            if ((int)q.Flags & 128 && pat.empty()) q.Flags = (PdfTextExtractFlags)((int)q.Flags & ~128);
            p.ExtractTextTo(v, pat, q); if (!v.empty()) ev("texts extracted"); });
    }
    void resources(mm::PdfDocument& d, const mm::PdfObject* res)
    {
        using namespace mm; if (!res || !res->IsDictionary()) return;
        for (auto t : { "Font", "XObject" }) g("resources", [&] {
            auto x = res->GetDictionary().FindKey(t); if (!x || !x->IsDictionary()) return; std::vector<PdfObject*> v; for (auto& p : x->GetDictionary()) { const PdfObject* o = &p.second; if (o->IsReference()) o = d.GetObjects().GetObject(o->GetReference()); if (o) v.push_back(const_cast<PdfObject*>(o)); }
            for (auto o : v) { if (*t == 'X') xobject(*o); else { if (r.chance(1, 2)) g("font loaded", [&] { auto f = d.GetFonts().GetLoadedFont(*o); if (f) font(*const_cast<PdfFont*>(f)); }); else { std::unique_ptr<PdfFont> f; if (g("font created", [&] { PdfFont::TryCreateFromObject(*o, f); }) && f) font(*f); } } } });
    }
    void page(mm::PdfDocument& d, mm::PdfPage& p)
    {
        using namespace mm; ev("pages visited");
        g("page media box", [&] { p.GetMediaBox(); }); g("page crop box", [&] { p.GetCropBox(); }); g("page trim box", [&] { p.GetTrimBox(); }); g("page bleed box", [&] { p.GetBleedBox(); }); g("page art box", [&] { p.GetArtBox(); }); g("page rotation", [&] { p.GetRotationRaw(); double t; p.HasRotation(t); }); g("page rect", [&] { p.GetRect(); }); g("page number", [&] { p.GetPageNumber(); });
        for (auto k : { "Resources", "Contents", "MediaBox", "Rotate" }) g("page inherited", [&] { p.GetObject().GetDictionary().FindKeyParent(k); });
        g("page resources", [&] { auto x = p.GetResources(); resources(d, x ? &x->GetObject() : nullptr); }); contents(p); if (r.chance(2, 3)) extract(p); g("page contents copy", [&] { auto c = p.GetContents(); if (c) { charbuff b = c->GetCopy(); } });
        unsigned n = 0; g("annotation count", [&] { n = p.GetAnnotations().GetCount(); }); for (unsigned i = 0; i < n && i < 60; i++) g("annotation", [&] { annotation(p.GetAnnotations().GetAnnotAt(i)); });
        if (r.chance(1, 2)) g("annotation iteration", [&] { for (auto a : p.GetAnnotations()) (void)a; });
    }
    void outlines(mm::PdfDocument& d)
    {
        using namespace mm; auto root = d.GetOutlines(); if (!root) return; std::vector<PdfOutlineItem*> todo{ root }; unsigned n = 0; std::set<PdfOutlineItem*> seen;
        while (!todo.empty() && n++ < 5000)
        {
            auto o = todo.back(); todo.pop_back(); if (!o || !seen.insert(o).second) continue; ev("outline items visited");
            if (o != root) { g("outline title", [&] { (void)o->GetTitle().GetString(); }); g("outline format", [&] { o->GetTextFormat(); }); g("outline colour", [&] { o->GetTextColorRed(); o->GetTextColorGreen(); o->GetTextColorBlue(); }); g("outline destination", [&] { auto x = o->GetDestination(); if (x) destination(*x); }); g("outline action", [&] { auto x = o->GetAction(); if (x) action(*x); }); }
            g("outline links", [&] { todo.push_back(o->Next()); todo.push_back(o->First()); o->Last(); o->Prev(); o->GetParentOutline(); });
        }
    }
    void document(mm::PdfMemDocument& d)
    {
        using namespace mm;
        std::vector<PdfReference> refs; unsigned n = 0; g("object list", [&] { for (auto o : d.GetObjects()) if (refs.size() < 3000) refs.push_back(o->GetIndirectReference()); });
        bool objectsFirst = r.chance(1, 2); auto objs = [&] { for (auto& q : refs) { PdfObject* o = nullptr; g("object found", [&] { o = d.GetObjects().GetObject(q); }); if (o) { n++; object(*o); } } ev("object lists visited"); }; if (objectsFirst) objs();
        g("trailer", [&] { (void)d.GetTrailer().GetObject().ToString(); (void)d.GetCatalog().GetObject().ToString(); });
        auto& m = d.GetMetadata(); g("metadata", [&] { text("title", [&] { return m.GetTitle(); }); text("author", [&] { return m.GetAuthor(); }); text("subject", [&] { return m.GetSubject(); }); m.GetKeywords(); m.GetCreationDate(); m.GetModifyDate(); m.GetTrapped(); m.GetPdfVersion(); m.GetPdfALevel(); });
        g("permissions", [&] { d.IsPrintAllowed(); d.IsEditAllowed(); d.IsCopyAllowed(); d.IsEditNotesAllowed(); d.IsFillAndSignAllowed(); d.IsAccessibilityAllowed(); d.IsDocAssemblyAllowed(); d.IsHighPrintAllowed(); d.IsEncrypted(); if (auto e = d.GetEncrypt()) { e->GetKeyLength(); e->IsAuthenticated(); } });
        g("extensions", [&] { d.GetPdfExtensions(); d.HasPdfExtension("ADBE", 3); }); g("catalog", [&] { auto& c = d.GetCatalog(); (void)c.GetMetadataStreamValue(); c.GetPageMode(); });
        unsigned pages = 0; g("page count", [&] { pages = d.GetPages().GetCount(); });
        for (unsigned i = 0; i < pages && i < 25; i++) g("page", [&] { page(d, d.GetPages().GetPageAt(r.chance(1, 10) ? (unsigned)r.below(pages) : i)); });
        if (!refs.empty()) g("page by reference", [&] { d.GetPages().GetPage(r.pick(refs)); });
        outlines(d);
        g("names", [&] { auto t = d.GetNames(); if (!t) return; for (auto k : { "Dests", "EmbeddedFiles", "JavaScript", "AP" }) { g("name tree", [&] { PdfDictionary x; t->ToDictionary(k, x); ev("name trees visited"); for (auto& p : x) if (*k == 'D') { PdfObject v(p.second); g("named destination", [&] { auto q = PdfDestination::Create(v); destination(*q); }); } }); g("name lookup", [&] { t->GetValue(k, PdfString("a")); t->HasValue(k, PdfString("zz")); }); } });
        g("attachment", [&] { d.GetAttachment(PdfString("file")); d.GetAttachment(PdfString("a.txt")); });
        if (auto a = d.GetAcroForm()) { unsigned c = 0; g("form", [&] { a->GetNeedAppearances(); c = a->GetFieldCount(); ev("forms visited"); }); for (unsigned i = 0; i < c && i < 60; i++) g("form field", [&] { field(a->GetFieldAt(i)); }); }
        for (auto& q : refs) if (r.chance(1, 6)) g("object as something", [&] { PdfObject* o = d.GetObjects().GetObject(q); if (!o) return; unsigned k = (unsigned)r.below(6); if (k == 0) xobject(*o); else if (k == 1) { std::unique_ptr<PdfFont> f; PdfFont::TryCreateFromObject(*o, f); if (f) font(*f); } else if (k == 2) { auto x = PdfDestination::Create(*o); if (x) destination(*x); } else if (k == 3) { PdfAction x(*o); action(x); } else if (k == 4 && o->IsDictionary()) { PdfFileSpec f(*o); (void)f.GetFilename(true).GetString(); } else { PdfColor c; PdfColor::TryCreateFromObject(*o, c); if (o->IsArray()) PdfColor::TryCreateFromArray(o->GetArray(), c); } });
        if (!objectsFirst) objs();
        if (n) ev("documents visited");
    }
    void save(mm::PdfMemDocument& d)
    {
        using namespace mm; if (r.chance(1, 6)) g("documents appended", [&] { PdfMemDocument o; o.GetPages().AppendDocumentPages(d); charbuff b; StringStreamDevice dev(b); o.Save(dev); ev("documents appended"); });
        if (r.chance(1, 8)) g("garbage collected", [&] { d.CollectGarbage(); });
        if (r.chance(1, 2)) g("saved", [&] { charbuff b; StringStreamDevice dev(b); d.Save(dev, r.chance(1, 2) ? PdfSaveOptions::None : r.chance(1, 2) ? PdfSaveOptions::NoCollectGarbage : PdfSaveOptions::Clean); ev("documents saved"); });
        else g("updated", [&] { charbuff b; StringStreamDevice dev(b); d.SaveUpdate(dev); ev("documents updated"); });
    }
};
}
#endif
