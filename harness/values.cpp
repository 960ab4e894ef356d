// C06 lexical round trip, C07 syntax reading, C09 text strings
#include "spell.h"
using namespace mm; using namespace mon;

static PdfVariant toVar(const Val& v)
{
    PdfObject o = toObj(v); return o.GetVariant();
}
// like toObj, but names by raw bytes
static PdfObject toObjRaw(const Val& v)
{
    if (v.k == Val::Name) return PdfObject(PdfName::FromRaw(bufferview(v.s.data(), v.s.size())));
    if (v.k == Val::Arr) { PdfArray a; for (auto& x : v.a) a.Add(toObjRaw(x)); return PdfObject(a); }
    if (v.k == Val::Dict) { PdfDictionary d; for (auto& x : v.d) d.AddKey(PdfName::FromRaw(bufferview(x.first.data(), x.first.size())), toObjRaw(x.second)); return PdfObject(d); }
    return toObj(v);
}
static double anyReal(Rng& r)
{
    switch (r.below(6))
    {
        case 0: return (r.unit() - 0.5) * std::pow(10.0, (double)r.range(-8, 14));
        case 1: return (double)r.range(-1000000000, 1000000000) / 1e6;
        case 2: { static const double e[] = { 0.0, -0.0, 1e-6, -1e-6, 1e-7, 0.9999995, 0.999999, 99999.999999, 1e15, -1e15, 123456789.125, 0.1, -0.1, 1e9, 3.4028234e38, 1e-300, 0.0000005, 100.0, -100.5 }; return e[r.below(19)]; }
        case 3: return (double)r.range(-100, 100);
        case 4: return (double)(float)(r.unit() * 1000);
        default: return genReal(r);
    }
}
static Val anyVal(Rng& r, int depth)
{
    switch (r.below(depth > 0 ? 12 : 8))
    {
        case 0: return Val::null();
        case 1: return Val::boolean(r.chance(1, 2));
        case 2: return Val::integer(genInt(r));
        case 3: return Val::real(anyReal(r));
        case 4: case 5: return Val::str(genBytes(r, r.chance(1, 30) ? 6000 : 30), r.chance(1, 3));
        case 6: return Val::name(rawName(r));
        case 7: return Val::ref((unsigned)(r.chance(1, 5) ? r.below(4294967295u) : r.range(1, 100000)), (unsigned)(r.chance(1, 3) ? r.below(65536) : 0));
        case 8: case 9: { Val v = Val::arr(); size_t n = r.below(r.chance(1, 10) ? 40 : 7); for (size_t i = 0; i < n; i++) v.a.push_back(anyVal(r, depth - 1)); return v; }
        default: { Val v = Val::dict(); size_t n = r.below(7); for (size_t i = 0; i < n; i++) v.d[r.chance(1, 8) ? std::string("Type") : r.chance(1, 12) ? std::string("Contents") : rawName(r)] = anyVal(r, depth - 1); return v; }
    }
}
static const char* kinds[] = { "null", "bool", "int", "real", "string", "name", "ref", "array", "dict" };

static void c06(Ctx& c)
{
    Rng& r = c.rng;
    Val v = anyVal(r, 1 + (int)r.below(4));
    PdfObject o = toObjRaw(v);
    c.ev(cat("values ", kinds[v.k]).c_str());
    bool scalar = v.k != Val::Arr && v.k != Val::Dict;
    std::vector<PdfWriteFlags> modes{ PdfWriteFlags::None, PdfWriteFlags::Clean, PdfWriteFlags::NoPDFAPreserve, PdfWriteFlags::Clean | PdfWriteFlags::NoPDFAPreserve, PdfWriteFlags::NoFlateCompress };
    if (scalar || c.rng.chance(1, 2)) modes.push_back(PdfWriteFlags::NoInlineLiteral | PdfWriteFlags::Clean);
    if (scalar) modes.push_back(PdfWriteFlags::NoInlineLiteral);
    for (auto m : modes)
    {
        c.phase("write");
        std::string text; charbuff buf;
        { StringStreamDevice dev(text); o.GetVariant().Write(dev, m, PdfStatefulEncrypt(), buf); }
        c.ev("texts written"); c.state(text);
        std::string framed = text + " /End%x\n[42]";
        c.phase("read");
        PdfTokenizer tok; SpanStreamDevice in(framed);
        PdfVariant back; tok.ReadNextVariant(in, back);
        auto d = diff(v, back, "", true);
        if (!d.empty()) c.fail("value-changed", cat("mode ", (int)m, " text ", vis(text, 600), " ", d));
        PdfVariant end; tok.ReadNextVariant(in, end);
        if (!end.IsName() || end.GetName() != "End") c.fail("text-not-self-delimiting", cat("mode ", (int)m, " text ", vis(text, 600)));
        PdfVariant arr; tok.ReadNextVariant(in, arr);
        if (!arr.IsArray() || arr.GetArray().GetSize() != 1 || arr.GetArray()[0].GetNumber() != 42) c.fail("text-not-self-delimiting", cat("mode ", (int)m, " text ", vis(text, 600)));
        c.ev("values read back");
        // writing what was read gives the same text again
        std::string text2; { StringStreamDevice dev(text2); back.Write(dev, m, PdfStatefulEncrypt(), buf); }
        PdfTokenizer tok2; SpanStreamDevice in2(text2); PdfVariant back2; tok2.ReadNextVariant(in2, back2);
        d = diff(v, back2, "", true);
        if (!d.empty()) c.fail("value-changed-second-write", cat("mode ", (int)m, " text ", vis(text2, 600), " ", d));
    }
    c.phase("tostring");
    std::string s = o.GetVariant().ToString();
    PdfTokenizer tok; SpanStreamDevice in(s); PdfVariant back; tok.ReadNextVariant(in, back);
    auto d = diff(v, back, "", true); if (!d.empty()) c.fail("tostring-changed", cat("text ", vis(s, 600), " ", d));
    // in sequence: two values written one after the other
    Val w = anyVal(r, 1); PdfObject o2 = toObjRaw(w);
    std::string both; { charbuff buf; StringStreamDevice dev(both); o.GetVariant().Write(dev, PdfWriteFlags::None, {}, buf); o2.GetVariant().Write(dev, PdfWriteFlags::None, {}, buf); }
    bool merges = v.k == Val::Int || w.k == Val::Ref; // "1 2 0 R" style neighbours are covered below
    (void)merges;
    both += " ]"; both = "[" + both;
    Val arr = Val::arr(); arr.a = { v, w };
    PdfTokenizer tok3; SpanStreamDevice in3(both); PdfVariant b3; tok3.ReadNextVariant(in3, b3);
    d = diff(arr, b3, "", true); if (!d.empty()) c.fail("sequence-changed", cat("text ", vis(both, 600), " ", d));
    if (c.caseNo < 3) c.sample(vis(s, 200));
}

static void c07(Ctx& c)
{
    Rng& r = c.rng;
    bool refs = r.chance(2, 3);
    Spell sp{ r, "", c, refs };
    std::vector<Val> vals; size_t n = 1 + r.below(8);
    for (size_t i = 0; i < n; i++) { vals.push_back(sp.value(1 + (int)r.below(3))); }
    if (r.chance(1, 2)) sp.ws(false);
    c.state(sp.out);
    if (c.caseNo < 4) c.sample(vis(sp.out, 300));
    std::string ctx = "text: " + vis(sp.out, 1500);
    if (r.chance(1, 8))
    {
        // an end of line that is not escaped stands for one line feed
        std::string pre = "a" + std::to_string(r.below(100)), post = "b" + std::to_string(r.below(100)), eol = r.chance(1, 2) ? "\r" : "\r\n";
        std::string text = "(" + pre + eol + post + ")"; PdfTokenizer tok; SpanStreamDevice in(text); PdfVariant v; tok.ReadNextVariant(in, v);
        std::string got = v.GetString().GetRawData(); c.ev("unescaped line ends in strings");
        if (got == pre + eol + post) c.fail("bare-cr-kept-verbatim", vis(text) + " read as " + vis(got));
        else if (got != pre + "\n" + post) c.fail("syntax-misread", vis(text) + " read as " + vis(got));
    }
    if (refs)
    {
        c.phase("tokenizer");
        PdfTokenizer tok; SpanStreamDevice in(sp.out);
        for (size_t i = 0; i < n; i++)
        {
            PdfVariant v;
            if (!tok.TryReadNextVariant(in, v)) c.die("value-not-read", cat("value ", i, " of ", n, " ", ctx));
            auto d = diff(vals[i], v, cat("#", i), true);
            if (!d.empty()) c.die("syntax-misread", d + " " + ctx);
            c.ev("values compared");
        }
        PdfVariant v; bool more = tok.TryReadNextVariant(in, v);
        if (more) c.die("extra-value", ctx);
    }
    else
    {
        c.phase("postscript tokenizer");
        PdfPostScriptTokenizer tok; SpanStreamDevice in(sp.out);
        for (size_t i = 0; i < n; i++)
        {
            PdfVariant v; PdfPostScriptTokenType t; std::string_view kw;
            if (!tok.TryReadNext(in, t, kw, v)) c.die("value-not-read", cat("value ", i, " of ", n, " ", ctx));
            if (t != PdfPostScriptTokenType::Variant) c.die("syntax-misread", cat("value ", i, " taken as keyword ", vis(std::string(kw)), " ", ctx));
            auto d = diff(vals[i], v, cat("#", i), true);
            if (!d.empty()) c.die("syntax-misread", d + " " + ctx);
            c.ev("values compared");
        }
        PdfVariant v; PdfPostScriptTokenType t; std::string_view kw;
        if (tok.TryReadNext(in, t, kw, v)) c.die("extra-value", ctx);
    }
}

// ---- C09 ----------------------------------------------------------------------------------
static std::string genText(Rng& r)
{
    std::string s; size_t n = r.chance(1, 12) ? 0 : r.below(r.chance(1, 10) ? 300 : 20); unsigned m = r.below(7);
    std::vector<char32_t> pdfdoc; for (int i = 1; i < 256; i++) if (pdfDocTable()[i]) pdfdoc.push_back(pdfDocTable()[i]);
    for (size_t i = 0; i < n; i++)
    {
        char32_t cp;
        unsigned k = m == 6 ? r.below(6) : m;
        switch (k)
        {
            case 0: cp = (char32_t)r.range(32, 126); break;
            case 1: cp = r.pick(pdfdoc); break;
            case 2: cp = (char32_t)r.range(1, 0xD7FF); break;
            case 3: cp = r.chance(1, 2) ? (char32_t)r.range(0x10000, 0x10FFFF) : (char32_t)r.range(0xE000, 0xFFFD); break;
            case 4: cp = (char32_t)r.range(0xA0, 0xFF); break;
            default: { static const char32_t e[] = { 0x7F, 0x80, 0x9F, 0xAD, 0xFEFF, 0xFFFE, 0xFFFF, 0xD7FF, 0xE000, 0x10FFFF, 0xFE, 0xFF, 0xEF, 0xBB, 0xBF, '(', ')', '\\', '\n', '\r', 9, 0x18, 0x1F, 0x20AC, 0x2022, 0 }; cp = e[r.below(26)]; }
        }
        appendUtf8(s, cp);
    }
    if (r.chance(1, 12)) { static const char* pre[] = { "\xC3\xBE\xC3\xBF", "\xC3\xBF\xC3\xBE", "\xC3\xAF\xC2\xBB\xC2\xBF", "\xEF\xBB\xBF" }; s = pre[r.below(4)] + s; }
    return s;
}
static void c09(Ctx& c)
{
    Rng& r = c.rng; std::string text = genText(r); c.state(text);
    if (c.caseNo < 4) c.sample(hex(text));
    std::string what = "text " + hex(text);
    c.phase("construct");
    PdfString s(text);
    if (s.GetString() != text) c.die("text-changed-in-memory", what + " read " + hex(s.GetString()));
    c.ev(s.GetState() == PdfStringState::Ascii ? "ascii texts" : s.GetState() == PdfStringState::PdfDocEncoding ? "PDFDoc texts" : "unicode texts");
    c.phase("write");
    std::string out; charbuff buf; PdfVariant var(s); { StringStreamDevice dev(out); var.Write(dev, r.chance(1, 2) ? PdfWriteFlags::None : PdfWriteFlags::Clean, {}, buf); }
    c.phase("read");
    PdfTokenizer tok; SpanStreamDevice in(out); PdfVariant back; tok.ReadNextVariant(in, back);
    if (!back.IsString()) c.die("not-a-string", what);
    PdfString b = back.GetString();
    std::string raw = b.GetState() == PdfStringState::RawBuffer ? b.GetRawData() : b.GetString();
    c.phase("independent decode");
    std::string dec; if (!decodeTextString(raw, dec)) c.die("written-bytes-not-a-text-string", what + " bytes " + hex(raw));
    if (dec != text) c.die("written-bytes-decode-differently", what + " bytes " + hex(raw) + " decode to " + hex(dec));
    c.ev("independently decoded");
    c.phase("reload text");
    if (b.GetString() != text) c.die("text-changed-by-reload", what + " bytes " + hex(raw) + " read " + hex(b.GetString()));
    if (!(b == s) || b != s || !(b == text) || !(s == text)) c.die("text-comparison", what);
    PdfString copy = b; if (copy.GetString() != text || !(copy == b)) c.die("text-copy", what);
    // writing the evaluated string again must keep it
    std::string out2; { StringStreamDevice dev(out2); PdfVariant(b).Write(dev, PdfWriteFlags::None, {}, buf); }
    PdfTokenizer tok2; SpanStreamDevice in2(out2); PdfVariant back2; tok2.ReadNextVariant(in2, back2);
    if (back2.GetString().GetString() != text) c.die("text-changed-by-second-write", what + " wrote " + vis(out2));
    c.ev("round trips");
    // texts of other producers: PDFDoc, UTF-16BE, UTF-8 (PDF 2.0), literal or hex
    c.phase("foreign");
    std::vector<char32_t> cps; decodeUtf8(text, cps);
    std::vector<std::pair<const char*, std::string>> forms;
    forms.push_back({ "utf16be", "\xFE\xFF" + utf16be(cps) });
    forms.push_back({ "utf8", "\xEF\xBB\xBF" + text });
    { std::string p; bool ok = true; for (auto cp : cps) { int code = -1; for (int i = 1; i < 256; i++) if (pdfDocTable()[i] == cp) { code = i; break; } if (code < 0) { ok = false; break; } p += (char)code; }
      std::string chk; if (ok && decodeTextString(p, chk) && chk == text) forms.push_back({ "pdfdoc", p }); }
    for (auto& f : forms)
    {
        PdfString x = PdfString::FromRaw(bufferview(f.second.data(), f.second.size()), r.chance(1, 2));
        if (f.second.size() && x.GetRawData() != f.second) c.die("raw-data", what);
        if (x.GetString() != text) c.die(std::string("foreign-text-misread-") + f.first, what + " bytes " + hex(f.second) + " read " + hex(x.GetString()));
        c.ev((std::string("foreign ") + f.first).c_str());
        if (!(x == s)) c.die("foreign-comparison", what + " as " + f.first);
        // and back to bytes an independent decoder understands
        std::string o3; { StringStreamDevice dev(o3); PdfVariant(x).Write(dev, PdfWriteFlags::None, {}, buf); }
        PdfTokenizer t3; SpanStreamDevice i3(o3); PdfVariant v3; t3.ReadNextVariant(i3, v3); std::string d3;
        if (!decodeTextString(v3.GetString().GetRawData(), d3) || d3 != text) c.die("foreign-text-rewritten", what + " as " + f.first + " wrote " + vis(o3));
    }
    // comparison with a different text
    std::string other = genText(r);
    PdfString os(other); if ((os == s) != (other == text) || (os != s) != (other != text)) c.die("text-comparison", what + " against " + hex(other));
}

int main(int argc, char** argv)
{
    modes()["c06"] = c06; modes()["c07"] = c07; modes()["c09"] = c09;
    return mon::main(argc, argv, c06);
}
