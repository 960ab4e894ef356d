// C21: what the content reader reports against the list of operations the content was written from
#include "spell.h"
#include "raw.h"
#include "codec.h"

struct OpInfo { const char* kw; PdfOperator op; int n; };
// ISO 32000-1 annex A with the number of operands (-1: depends)
static const OpInfo OPS[] = {
    { "b", PdfOperator::b, 0 }, { "B", PdfOperator::B, 0 }, { "b*", PdfOperator::b_Star, 0 }, { "B*", PdfOperator::B_Star, 0 }, { "BDC", PdfOperator::BDC, 2 },
    { "BMC", PdfOperator::BMC, 1 }, { "BT", PdfOperator::BT, 0 }, { "BX", PdfOperator::BX, 0 }, { "c", PdfOperator::c, 6 }, { "cm", PdfOperator::cm, 6 },
    { "CS", PdfOperator::CS, 1 }, { "cs", PdfOperator::cs, 1 }, { "d", PdfOperator::d, 2 }, { "d0", PdfOperator::d0, 2 }, { "d1", PdfOperator::d1, 6 },
    { "DP", PdfOperator::DP, 2 }, { "EI", PdfOperator::EI, 0 }, { "EMC", PdfOperator::EMC, 0 }, { "ET", PdfOperator::ET, 0 }, { "EX", PdfOperator::EX, 0 },
    { "f", PdfOperator::f, 0 }, { "F", PdfOperator::F, 0 }, { "f*", PdfOperator::f_Star, 0 }, { "G", PdfOperator::G, 1 }, { "g", PdfOperator::g, 1 },
    { "gs", PdfOperator::gs, 1 }, { "h", PdfOperator::h, 0 }, { "i", PdfOperator::i, 1 }, { "ID", PdfOperator::ID, 0 }, { "j", PdfOperator::j, 1 },
    { "J", PdfOperator::J, 1 }, { "K", PdfOperator::K, 4 }, { "k", PdfOperator::k, 4 }, { "l", PdfOperator::l, 2 }, { "m", PdfOperator::m, 2 },
    { "M", PdfOperator::M, 1 }, { "MP", PdfOperator::MP, 1 }, { "n", PdfOperator::n, 0 }, { "q", PdfOperator::q, 0 }, { "Q", PdfOperator::Q, 0 },
    { "re", PdfOperator::re, 4 }, { "RG", PdfOperator::RG, 3 }, { "rg", PdfOperator::rg, 3 }, { "ri", PdfOperator::ri, 1 }, { "s", PdfOperator::s, 0 },
    { "S", PdfOperator::S, 0 }, { "SC", PdfOperator::SC, -1 }, { "sc", PdfOperator::sc, -1 }, { "SCN", PdfOperator::SCN, -1 }, { "scn", PdfOperator::scn, -1 },
    { "sh", PdfOperator::sh, 1 }, { "T*", PdfOperator::T_Star, 0 }, { "Tc", PdfOperator::Tc, 1 }, { "Td", PdfOperator::Td, 2 }, { "TD", PdfOperator::TD, 2 },
    { "Tf", PdfOperator::Tf, 2 }, { "Tj", PdfOperator::Tj, 1 }, { "TJ", PdfOperator::TJ, 1 }, { "TL", PdfOperator::TL, 1 }, { "Tm", PdfOperator::Tm, 6 },
    { "Tr", PdfOperator::Tr, 1 }, { "Ts", PdfOperator::Ts, 1 }, { "Tw", PdfOperator::Tw, 1 }, { "Tz", PdfOperator::Tz, 1 }, { "v", PdfOperator::v, 4 },
    { "w", PdfOperator::w, 1 }, { "W", PdfOperator::W, 0 }, { "W*", PdfOperator::W_Star, 0 }, { "y", PdfOperator::y, 4 }, { "'", PdfOperator::Quote, 1 }, { "\"", PdfOperator::DoubleQuote, 3 },
};
enum Warn { InvOp = 1, Spurious = 2, InvX = 4, Rec = 8, InvDict = 16, MissEI = 32 };
struct Item
{
    enum Kind { Oper, Unknown, Brace, Do, Inline, OpenDict, OpenImage } k = Oper;
    std::string kw; const OpInfo* info = nullptr; std::vector<Val> operands; int warn = 0;
    std::string name;                         // Do
    Val dict; std::string data, sep; bool noEI = false; // Inline; noEI: only with a handler
};
struct Target { enum Kind { Form, Image, Bad, Missing, NoType } k = Missing; size_t form = 0; unsigned obj = 0; };
struct Canvas { std::vector<Item> items; std::vector<Val> left; std::map<std::string, Target> res; std::string text; std::vector<size_t> splits; bool resources = true; unsigned obj = 0; };
struct Event { PdfContentType type; std::string kw; PdfOperator op = PdfOperator::Unknown; std::vector<Val> operands; int warn = 0, warnAny = 0; Val dict; std::string data, sep, name; unsigned obj = 0; bool form = false; };

static std::string cleanData(Rng& r)
{
    std::string d; size_t n = r.chance(1, 8) ? 0 : r.below(r.chance(1, 12) ? 20000 : r.chance(1, 3) ? 300 : 12); unsigned m = (unsigned)r.below(4);
    for (size_t i = 0; i < n; i++) d += m == 0 ? (char)r.below(256) : m == 1 ? pickc(r, "EI \nEEI") : m == 2 ? pickc(r, "EIQ\0\xff(<%") : (char)r.range(32, 126);
    return d;
}
static bool isW(char ch) { return ch == 0 || ch == 9 || ch == 10 || ch == 12 || ch == 13 || ch == 32; }
// offset of the first EI followed by white space
static size_t endOf(const std::string& s) { for (size_t i = 0; i + 2 < s.size(); i++) if (s[i] == 'E' && s[i + 1] == 'I' && isW(s[i + 2])) return i; return std::string::npos; }

static void genCanvas(Ctx& c, Canvas& cv, bool isForm, bool handler, size_t maxItems)
{
    Rng& r = c.rng; Spell sp{ r, "", c, false }; sp.splits = &cv.splits;
    auto kwOut = [&](const std::string& k) { sp.ws(sp.needSep()); sp.out += k; };
    size_t n = r.below(maxItems + 1); std::vector<Val> stack; bool open = false;
    auto mayForms = [&]() { return !cv.res.empty() && r.chance(1, 6); };
    auto flush = [&](Item& it) { it.operands = stack; stack.clear(); };
    for (size_t i = 0; i < n && !open; i++)
    {
        Item it;
        auto operands = [&](size_t k) { for (size_t j = 0; j < k; j++) stack.push_back(sp.value(r.chance(1, 6) ? 2 : r.chance(1, 4) ? 1 : 0)); };
        auto count = [&](int want) { if (want < 0) return (size_t)r.below(6); if (r.chance(1, 20)) { c.ev("wrong operand counts"); return (size_t)r.below(8); } return (size_t)want; };
        auto judge = [&](int want) { if (want >= 0 && (int)stack.size() != want) it.warn |= (int)stack.size() < want ? InvOp : Spurious; };
        unsigned k = (unsigned)r.below(40);
        if (mayForms())
        {
            it.k = Item::Do; it.kw = "Do"; size_t no = r.chance(1, 25) ? r.below(3) : 1;
            for (size_t j = 0; j + 1 < no; j++) stack.push_back(sp.value(0));
            if (no) { if (r.chance(1, 30)) stack.push_back(sp.value(1)); else { it.name = "X" + std::to_string(r.below(6)); sp.ws(sp.needSep()); sp.name(it.name); stack.push_back(Val::name(it.name)); } }
            judge(1); if (stack.size() != 1 || stack[0].k != Val::Name) it.name = ""; else it.name = stack[0].s;
            kwOut("Do"); flush(it);
        }
        else if (k < 3)
        {
            it.k = Item::Inline; if (r.chance(1, 25)) operands(1);
            judge(0); flush(it); kwOut("BI"); it.dict = Val::dict(); size_t nk = r.below(6);
            for (size_t j = 0; j < nk; j++)
            {
                if (r.chance(1, 30)) { it.warn |= InvDict; c.ev("bad inline image dictionaries"); if (r.chance(1, 2)) { stack.clear(); sp.ws(sp.needSep()); sp.out += std::to_string(r.below(100)); } else kwOut("foo"); }
                static const char* keys[] = { "W", "H", "BPC", "CS", "F", "DP", "IM", "D", "I", "Length" };
                std::string key = r.chance(1, 4) ? rawName(r) : keys[r.below(10)]; if (it.dict.d.count(key) || key.empty()) continue;
                sp.ws(false); sp.name(key);
                if (j + 1 == nk && r.chance(1, 25)) { it.warn |= InvDict; c.ev("inline image keys without value"); break; }
                it.dict.d[key] = sp.value(1);
            }
            if (isForm && r.chance(1, 15)) { it.k = Item::OpenDict; cv.items.push_back(it); open = true; c.ev("forms that end inside an image dictionary"); break; }
            kwOut("ID"); sp.out += pickc(r, " \n\t\0\f");
            for (;;)
            {
                it.data = cleanData(r); it.sep = r.chance(1, 3) ? "" : std::string(1, pickc(r, " \n\r")); if (it.sep == "\r" && r.chance(1, 2)) it.sep = "\r\n";
                std::string all = it.data + it.sep + "EI "; if (endOf(all) == it.data.size() + it.sep.size()) break;
                if (handler && r.chance(1, 2)) { c.ev("image data with an embedded end mark"); break; }
            }
            if (!handler && isForm && r.chance(1, 12)) { it.k = Item::OpenImage; sp.out += it.data + "x"; cv.items.push_back(it); open = true; c.ev("forms that end inside image data"); break; }
            sp.out += it.data; sp.out += it.sep;
            // a handler reads the data and the reader the token after it, which needs a separator only after other regular characters
            if (handler && r.chance(1, 15)) { it.noEI = true; c.ev("missing end marks"); if (it.sep.empty()) { it.sep = " "; sp.out += " "; } cv.items.push_back(it); Item q; q.info = &OPS[39]; q.kw = "Q"; if (r.chance(1, 3)) { stack.push_back(sp.value(0)); q.warn = Spurious; } kwOut("Q"); flush(q); cv.items.push_back(q); continue; }
            sp.out += "EI"; c.ev("inline images"); if (it.data.size() > 4096) c.ev("inline images above 4 KiB");
            cv.items.push_back(it);
            if (i + 1 == n) { if (r.chance(1, 2)) sp.out += '\n'; else c.ev("images at the end of the content"); stack.clear(); open = true; break; } // nothing may follow
            sp.out += pickc(r, " \n\r\t"); continue;
        }
        else if (k == 3) { it.k = Item::Unknown; static const char* kws[] = { "foo", "BTT", "xyzzy", "q1", "Tjj", "e", "obj", "R", "T", "*", "-x", "1e5", "nul", "True", "b**", "''" }; it.kw = kws[r.below(16)]; operands(r.below(3)); kwOut(it.kw); flush(it); c.ev("unknown operators"); }
        else if (k == 4 && r.chance(1, 2)) { it.k = Item::Unknown; static const char* kws[] = { "-", "+", "--5", ".", "-.", "+-1", "++2", "..5" }; it.kw = kws[r.below(8)]; operands(r.below(3)); kwOut(it.kw); flush(it); c.ev("malformed numbers"); }
        else if (k == 5 && r.chance(1, 2)) { it.k = Item::Unknown; static const char* kws[] = { ")", "]", ">", ">>" }; it.kw = kws[r.below(4)]; operands(r.below(3)); sp.ws(sp.needSep()); if (it.kw[0] == '>' && !sp.out.empty() && sp.out.back() == '>') sp.out += ' '; sp.out += it.kw; if (it.kw == ">") sp.out += ' '; flush(it); c.ev("stray delimiters"); }
        else if (k == 6 && r.chance(1, 2)) { it.k = Item::Brace; it.kw = r.chance(1, 2) ? "{" : "}"; operands(r.below(3)); sp.ws(sp.needSep()); sp.out += it.kw; flush(it); c.ev("braces"); }
        else { it.info = &OPS[r.below(sizeof OPS / sizeof *OPS)]; it.kw = it.info->kw; operands(count(it.info->n)); judge(it.info->n); kwOut(it.kw); flush(it); c.ev("operators written"); }
        cv.items.push_back(it);
    }
    if (!open && r.chance(1, 8)) { stack.push_back(sp.value(1)); c.ev("operands left at the end"); }
    if (!open && r.chance(1, 2)) sp.ws(true);
    cv.left = stack; cv.text = sp.out;
    for (size_t& s : cv.splits) (void)s;
}

struct Gen
{
    Ctx& c; std::vector<Canvas> cv; std::vector<Event> ev; bool follow, handler, device; size_t cap = 4000;
    bool expand(size_t i, std::vector<size_t>& path)
    {
        Canvas& cc = cv[i]; int carry = 0;
        for (auto& it : cc.items)
        {
            if (ev.size() > cap) return false;
            Event e; e.operands = it.operands; e.warn = it.warn | carry; e.kw = it.kw; carry = 0;
            switch (it.k)
            {
                case Item::Oper: e.type = PdfContentType::Operator; e.op = it.info->op; ev.push_back(e); break;
                case Item::Unknown: case Item::Brace: e.type = PdfContentType::UnexpectedKeyword; ev.push_back(e); break;
                case Item::Inline:
                    e.type = PdfContentType::ImageDictionary; e.dict = it.dict; ev.push_back(e);
                    if (handler) { if (it.noEI) carry = MissEI; }
                    else { Event d; d.type = PdfContentType::ImageData; d.data = it.data; d.sep = it.sep; ev.push_back(d); }
                    break;
                case Item::OpenDict: { Event x; x.type = PdfContentType::EndXObjectForm; x.warnAny = 1; ev.push_back(x); return true; }
                case Item::OpenImage: { e.type = PdfContentType::ImageDictionary; e.dict = it.dict; ev.push_back(e); Event x; x.type = PdfContentType::EndXObjectForm; x.warnAny = 1; ev.push_back(x); return true; }
                case Item::Do:
                {
                    Target t; if (!it.name.empty() && cc.res.count(it.name)) t = cc.res[it.name];
                    if (device) { e.type = PdfContentType::Operator; e.op = PdfOperator::Do; ev.push_back(e); break; }
                    if (it.operands.size() != 1 || t.k == Target::Missing || t.k == Target::Bad) { e.type = PdfContentType::Operator; e.op = PdfOperator::Do; e.warn |= InvX; ev.push_back(e); c.ev("invalid form names"); break; }
                    e.type = PdfContentType::DoXObject; e.name = it.name; e.obj = t.obj; e.form = t.k == Target::Form;
                    if (e.form && std::find(path.begin(), path.end(), t.form) != path.end()) { e.warn |= Rec; ev.push_back(e); c.ev("recursive forms"); break; }
                    ev.push_back(e);
                    if (e.form && follow) { c.ev("forms entered"); path.push_back(t.form); if (!expand(t.form, path)) return false; path.pop_back(); }
                    break;
                }
            }
        }
        if (i != 0) { Event x; x.type = PdfContentType::EndXObjectForm; x.operands = cc.left; if (!cc.left.empty()) x.warn = Spurious; ev.push_back(x); }
        return true;
    }
};
static std::string tname(PdfContentType t) { static const char* n[] = { "Unknown", "Operator", "ImageDictionary", "ImageData", "DoXObject", "EndXObjectForm", "UnexpectedKeyword" }; return (unsigned)t < 7 ? n[(unsigned)t] : "?"; }

static void c21(Ctx& c)
{
    Rng& r = c.rng; bool handler = r.chance(1, 4), device = r.chance(1, 6), follow = device || !r.chance(1, 8), thr = r.chance(1, 8);
    Gen g{ c, {}, {}, follow, handler, device };
    size_t nf = r.below(5); g.cv.resize(nf + 1); RawPdf pdf(r);
    std::vector<std::string> body(nf + 1);
    for (size_t i = 1; i <= nf; i++) g.cv[i].obj = pdf.alloc();
    std::string img = pdf.stream("/Subtype/Image/Width 1/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray" + std::string(r.chance(1, 2) ? "/Type/XObject" : ""), "x"); unsigned imgN = pdf.add(img);
    unsigned bad1 = pdf.add("<</Type/XObject>>"), bad2 = pdf.add("17"), bad3 = pdf.add("<</Type/Font/Subtype/Form>>");
    for (size_t i = 0; i <= nf; i++)
        for (size_t k = 0; k < 6; k++)
        {
            Target t; if (r.chance(1, 5)) continue;
            unsigned q = (unsigned)r.below(10);
            if (q < 6 && nf) { t.k = Target::Form; t.form = 1 + r.below(nf); t.obj = g.cv[t.form].obj; }
            else if (q < 8) { t.k = Target::Image; t.obj = imgN; }
            else { t.k = Target::Bad; t.obj = q == 8 ? bad1 : r.chance(1, 2) ? bad2 : bad3; }
            g.cv[i].res["X" + std::to_string(k)] = t;
        }
    for (size_t i = 0; i <= nf; i++) genCanvas(c, g.cv[i], i != 0, handler, i ? 8 : 25);
    std::vector<size_t> path; if (!g.expand(0, path)) { c.ev("too many events"); return; }
    // files
    auto resources = [&](Canvas& cv) { std::string x; for (auto& p : cv.res) x += "/" + p.first + " " + pdf.ref(p.second.obj); return pdf.maybe("<</XObject " + pdf.maybe("<<" + x + ">>") + ">>"); };
    auto stream = [&](const std::string& dict, const std::string& data)
    {
        switch (r.below(5))
        {
            case 0: return pdf.stream(dict + "/Filter/FlateDecode", codec::zEncode(r, data));
            case 1: return pdf.stream(dict + "/Filter[/ASCIIHexDecode]", codec::hexEncode(r, data));
            default: return pdf.stream(dict, data);
        }
    };
    for (size_t i = 1; i <= nf; i++) pdf.objs[g.cv[i].obj] = stream(std::string(r.chance(1, 2) ? "/Type/XObject" : "") + "/Subtype/Form/BBox[0 0 9 9]/Resources " + resources(g.cv[i]), g.cv[i].text);
    std::vector<std::string> parts; std::string text = g.cv[0].text;
    if (device) parts = { text };
    else
    {
        auto sp = g.cv[0].splits; std::vector<size_t> cuts; size_t n = r.below(6);
        for (size_t i = 0; i < n && !sp.empty(); i++) cuts.push_back(r.pick(sp));
        std::sort(cuts.begin(), cuts.end()); size_t at = 0;
        for (auto x : cuts) { parts.push_back(text.substr(at, x - at)); at = x; }
        parts.push_back(text.substr(at));
    }
    std::string contents;
    if (parts.size() == 1 && r.chance(1, 2)) contents = pdf.ref(pdf.add(stream("", parts[0])));
    else
    {
        for (auto& p : parts) { if (r.chance(1, 8)) contents += " " + (r.chance(1, 2) ? pdf.ref(pdf.add(stream("", ""))) : r.chance(1, 2) ? pdf.ref(999) : "null"); contents += " " + pdf.ref(pdf.add(stream("", p))); }
        contents = pdf.maybe("[" + contents + "]"); c.ev("contents in several streams", parts.size() > 1);
    }
    unsigned page = pdf.alloc(), pages = pdf.alloc(); bool inh = r.chance(1, 3); std::string res = "/Resources " + resources(g.cv[0]);
    pdf.objs[page] = "<</Type/Page/MediaBox[0 0 99 99]/Parent " + pdf.ref(pages) + (inh ? "" : res) + (text.empty() && r.chance(1, 2) ? "" : "/Contents " + contents) + ">>";
    pdf.objs[pages] = "<</Type/Pages/Count 1/Kids[" + pdf.ref(page) + "]" + (inh ? res : "") + ">>";
    std::string file = pdf.file(pdf.add("<</Type/Catalog/Pages " + pdf.ref(pages) + ">>"));
    c.state(file); if (c.caseNo < 4) c.sample(vis(text, 300));
    if (c.verbose) { fprintf(stderr, "%s\n", vis(file, 200000).c_str()); }
    std::string what = cat(handler ? "handler " : "", device ? "device " : "", follow ? "" : "no-follow ", thr ? "throw " : "", "content ", vis(text, 700));
    c.phase("load"); auto doc = loadDoc(file); auto& pg = doc->GetPages().GetPageAt(0);
    PdfContentReaderArgs args; if (!follow) args.Flags = args.Flags | PdfContentReaderFlags::DontFollowXObjectForms; if (thr) args.Flags = args.Flags | PdfContentReaderFlags::ThrowOnWarnings;
    // images in the order in which they are met, for the handler
    std::vector<const Item*> order; size_t nextImg = 0;
    if (handler)
    {
        std::function<void(size_t, std::vector<size_t>&)> walk = [&](size_t i, std::vector<size_t>& p)
        {
            for (auto& it : g.cv[i].items)
            {
                if (it.k == Item::Inline) order.push_back(&it);
                if (it.k == Item::Do && it.operands.size() == 1 && !device && follow && g.cv[i].res.count(it.name)) { auto t = g.cv[i].res[it.name]; if (t.k == Target::Form && std::find(p.begin(), p.end(), t.form) == p.end()) { p.push_back(t.form); walk(t.form, p); p.pop_back(); } }
            }
        };
        std::vector<size_t> p; walk(0, p);
        args.InlineImageHandler = [&](const PdfDictionary& d, InputStreamDevice& dev)
        {
            if (nextImg >= order.size()) c.die("handler-called-too-often", what);
            const Item& it = *order[nextImg++]; PdfVariant v{ PdfDictionary(d) }; auto df = diff(it.dict, v, "image dictionary", true); if (!df.empty()) c.die("image-dictionary", df + " " + what);
            char ch; dev.Read(ch); std::string got; for (size_t i = 0; i < it.data.size(); i++) { if (!dev.Read(ch)) c.die("image-data", "end of content inside the data " + what); got += ch; }
            if (got != it.data) c.die("image-data", cat("handler read ", hex(got.substr(0, 60)), " wanted ", hex(it.data.substr(0, 60)), " ", what));
            c.ev("images given to the handler"); return true;
        };
    }
    c.phase("read");
    auto span = device ? std::make_shared<SpanStreamDevice>(text) : nullptr;
    std::unique_ptr<PdfContentsReader> rd(device ? new PdfContentsReader(span, args) : new PdfContentsReader(pg, args));
    PdfContent content; size_t i = 0;
    for (;; i++)
    {
        bool ok;
        // images are not judged when warnings are raised: the reader raises the ones that are flagged
        try { ok = rd->TryReadNext(content); }
        catch (PdfError& e)
        {
            if (thr && e.GetError() == PdfErrorCode::InvalidContentStream && i < g.ev.size() && (g.ev[i].warn || g.ev[i].warnAny)) { c.ev("raised warnings"); return; }
            c.die("raised", cat("error ", (int)e.GetError(), " at event ", i, " of ", g.ev.size(), " ", what));
        }
        std::string at = cat("event ", i, " of ", g.ev.size(), ": ");
        auto fail = [&](const char* key, const std::string& m) { c.die(key, at + m + " " + what); };
        if (!ok) { if (i != g.ev.size()) { auto& e = g.ev[i]; fail("events-missing", cat("end of content, expected ", tname(e.type), " ", vis(e.kw))); } break; }
        if (i >= g.ev.size()) fail("events-extra", cat("expected the end of the content, got ", tname(content.Type), " ", vis(std::string(content.Keyword))));
        auto& e = g.ev[i]; c.ev("events compared");
        std::string got = cat(tname(content.Type), " ", vis(std::string(content.Keyword)), " ", content.Stack.GetSize(), " operands"), want = cat(tname(e.type), " ", vis(e.kw), " ", e.operands.size(), " operands");
        if (content.Type != e.type) fail("event-type", got + ", expected " + want);
        if (thr && (e.warn || e.warnAny)) fail("warning-not-raised", got);
        bool isOp = e.type == PdfContentType::Operator, unk = e.type == PdfContentType::UnexpectedKeyword;
        if (isOp && (content.Operator != e.op || content.Keyword != e.kw)) fail("operator", cat(got, " (", (int)content.Operator, "), expected ", want, " (", (int)e.op, ")"));
        if (isOp && GetPdfOperatorName(content.Operator) != e.kw) fail("operator-name", std::string(GetPdfOperatorName(content.Operator)) + " is " + e.kw);
        if (unk && content.Keyword != e.kw && !(content.Keyword.empty() && (e.kw == "{" || e.kw == "}"))) fail("keyword", got + ", expected " + want);
        if (!isOp && content.Operator != PdfOperator::Unknown) fail("stale-operator", got);
        if (e.type == PdfContentType::ImageData ? content.Warnings != PdfContentWarnings::None : e.warnAny ? content.Warnings == PdfContentWarnings::None : (int)content.Warnings != e.warn) fail("warnings", cat("warnings ", (int)content.Warnings, " expected ", e.warnAny ? -1 : e.warn, " at ", got));
        // operands, in order: reverse iteration goes from the first to the last
        if (e.type != PdfContentType::ImageData && !e.warnAny)
        {
            if (content.Stack.GetSize() != e.operands.size() || content.Stack.size() != e.operands.size()) fail("operand-count", got + ", expected " + want);
            size_t k = 0; for (auto p = content.Stack.rbegin(); p != content.Stack.rend(); ++p, ++k) { auto d = diff(e.operands[k], *p, cat("operand ", k), true); if (!d.empty()) fail("operand", d + " at " + got); }
            for (size_t j = 0; j < e.operands.size(); j++) { auto d = diff(e.operands[e.operands.size() - 1 - j], content.Stack[j], cat("stack entry ", j), true); if (!d.empty()) fail("operand", d + " at " + got); }
            c.ev("operands compared", e.operands.size());
        }
        if (e.type == PdfContentType::ImageDictionary) { PdfVariant v{ content.InlineImageDictionary }; auto d = diff(e.dict, v, "image dictionary", true); if (!d.empty()) fail("image-dictionary", d); }
        else if (content.InlineImageDictionary.GetSize() != 0) fail("stale-dictionary", got);
        if (e.type == PdfContentType::ImageData)
        {
            std::string data(content.InlineImageData.data(), content.InlineImageData.size());
            if (data != e.data && data != e.data + e.sep) fail("image-data", cat(data.size(), " bytes ", hex(data.substr(0, 80)), ", expected ", e.data.size(), " bytes ", hex(e.data.substr(0, 80))));
            c.ev("image data compared");
        }
        else if (!content.InlineImageData.empty()) fail("stale-data", got);
        if (e.type == PdfContentType::DoXObject)
        {
            if (!content.XObject || content.XObject->GetObject().GetIndirectReference().ObjectNumber() != e.obj) fail("xobject", cat("expected object ", e.obj));
            if (!content.Name || content.Name->GetString() != e.name) fail("xobject-name", "expected " + e.name);
            if ((content.XObject->GetType() == PdfXObjectType::Form) != e.form) fail("xobject-type", got);
        }
        else if (content.XObject) fail("stale-xobject", got);
    }
    for (int k = 0; k < 3; k++) if (rd->TryReadNext(content)) c.die("reads-after-the-end", what);
    if (handler && nextImg != order.size()) c.die("handler-not-called", cat(nextImg, " of ", order.size(), " ", what));
    c.ev("contents read to the end");
}
int main(int argc, char** argv) { modes()["c21"] = c21; return mon::main(argc, argv, c21); }
