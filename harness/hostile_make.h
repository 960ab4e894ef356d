// Hostile files: rich documents, and mutations of their bytes, tokens, objects and payloads
#ifndef HOSTILE_MAKE_H
#define HOSTILE_MAKE_H
#include "mon.h"
#include "raw.h"
#include "codec.h"
#include <dirent.h>
#include <zlib.h>

namespace mon {
inline const std::vector<std::string>& interestingNumbers() { static const std::vector<std::string> v{ "0", "1", "-1", "2", "3", "4", "7", "8", "16", "17", "255", "256", "257", "1000", "65535", "65536", "8388607", "8388608", "16777216", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999", "0.5", "-0.5", "1e10", "3.4e38", "1000000", "-1000000", "00000000000000000001", "nan", "" }; return v; }
inline std::string flated(const std::string& s) { uLongf n = compressBound(s.size()); std::string o(n, 0); compress((Bytef*)&o[0], &n, (const Bytef*)s.data(), s.size()); o.resize(n); return o; }
inline const std::vector<std::string>& sysFonts() { static std::vector<std::string> v; if (v.empty()) for (auto p : { "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf" }) { auto s = slurp(p); if (!s.empty()) v.push_back(s); } return v; }

// ---- payloads --------------------------------------------------------------------------------------------------
inline std::string contentText(Rng& r, unsigned n)
{
    static const std::vector<std::string> ops{ "q", "Q", "BT", "ET", "1 0 0 1 10 20 cm", "0.5 0 0 0.5 0 0 cm", "/F1 12 Tf", "/F2 10 Tf", "/F3 8 Tf", "/F4 9 Tf", "/F5 7 Tf", "(Hello) Tj", "(a\\(b\\)c) Tj", "<00410042> Tj", "[(He) -120 (llo) 3 <4142>] TJ", "10 20 Td", "0 -14 TD", "1 0 0 1 50 60 Tm", "14 TL", "T*", "(x) '", "1 2 (y) \"", "0.2 Tc", "3 Tw", "90 Tz", "2 Ts", "1 Tr", "0 0 10 10 re", "1 2 m", "3 4 l", "1 2 3 4 5 6 c", "h", "f", "S", "n", "W", "W* n", "/GS0 gs", "1 0 0 rg", "0.3 g", "0 0 0 1 k", "/CS0 cs", "0.4 0.2 sc", "/P0 scn", "/X1 Do", "/X2 Do", "/X3 Do", "/Sh0 sh", "/Tag BMC", "/Tag <</MCID 0>> BDC", "/Tag /Prop BDC", "EMC", "BX", "EX", "[3 2] 0 d", "2 w", "1 J", "0 j", "10 M", "0.2 i", "/Perceptual ri", "100 0 d0", "100 0 0 0 100 100 d1", "BI /W 2 /H 2 /BPC 8 /CS /G ID abcd EI", "BI /W 4 /H 1 /BPC 8 /CS /RGB /F /AHx ID 00112233445566778899aabb> EI", "true", "null", "<</A [1 2 <</B (c)>>]>> pop", "% comment", "/MP MP", "/MP <<>> DP" };
    std::string s; while (n--) s += r.pick(ops) + (r.chance(1, 5) ? " " : "\n"); return s;
}
inline std::string cmapText(Rng& r, bool toUnicode)
{
    std::string s = "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n/CMapName /X def\n/CMapType 2 def\n"; if (r.chance(1, 4)) s += "/WMode 1 def\n"; auto h = [&](unsigned v, unsigned n) { char b[20]; snprintf(b, 20, "<%0*X>", (int)n * 2, v); return std::string(b); };
    unsigned w = r.chance(1, 3) ? 1 : 2; if (r.chance(1, 6)) s += "/Identity-H usecmap\n"; s += "1 begincodespacerange\n" + (w == 1 ? std::string("<00> <FF>") : std::string("<0000> <FFFF>")) + "\nendcodespacerange\n"; unsigned mx = w == 1 ? 255 : 65535;
    for (unsigned k = (unsigned)r.below(4); k; k--)
    {
        unsigned n = 1 + (unsigned)r.below(4); std::string nn = std::to_string(n); bool range = r.chance(1, 2);
        if (toUnicode) { s += nn + (range ? " beginbfrange\n" : " beginbfchar\n"); for (unsigned i = 0; i < n; i++) { unsigned a = (unsigned)r.below(mx), b = std::min(mx, a + (unsigned)r.below(40)); if (!range) s += h(a, w) + " " + (r.chance(1, 8) ? std::string("/space") : r.chance(1, 6) ? std::string("<D83DDE00>") : h(32 + (unsigned)r.below(300), 2)) + "\n"; else if (r.chance(1, 3)) { s += h(a, w) + " " + h(b, w) + " ["; for (unsigned q = a; q <= b; q++) s += h(65 + (q & 31), 2) + " "; s += "]\n"; } else s += h(a, w) + " " + h(b, w) + " " + h(65, 2) + "\n"; } s += range ? "endbfrange\n" : "endbfchar\n"; }
        else { s += nn + (range ? " begincidrange\n" : " begincidchar\n"); for (unsigned i = 0; i < n; i++) { unsigned a = (unsigned)r.below(mx), b = std::min(mx, a + (unsigned)r.below(40)); s += h(a, w) + (range ? " " + h(b, w) : std::string()) + " " + std::to_string(r.below(500)) + "\n"; } s += range ? "endcidrange\n" : "endcidchar\n"; }
    }
    return s + "endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n";
}
inline std::string xmpText(Rng& r)
{
    std::string b = "<?xpacket begin=\"\xEF\xBB\xBF\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?><x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"><rdf:Description rdf:about=\"\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:pdf=\"http://ns.adobe.com/pdf/1.3/\" xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\" xmlns:pdfaid=\"http://www.aiim.org/pdfa/ns/id/\">";
    static const std::vector<std::string> v{ "<dc:title><rdf:Alt><rdf:li xml:lang=\"x-default\">T</rdf:li></rdf:Alt></dc:title>", "<dc:creator><rdf:Seq><rdf:li>A</rdf:li><rdf:li>B</rdf:li></rdf:Seq></dc:creator>", "<dc:description><rdf:Alt><rdf:li>S</rdf:li></rdf:Alt></dc:description>", "<pdf:Keywords>k1,k2</pdf:Keywords>", "<pdf:Producer>P</pdf:Producer>", "<xmp:CreateDate>2020-01-02T03:04:05+01:00</xmp:CreateDate>", "<xmp:ModifyDate>2021</xmp:ModifyDate>", "<pdfaid:part>1</pdfaid:part><pdfaid:conformance>B</pdfaid:conformance>", "<xmp:CreatorTool>C</xmp:CreatorTool>", "<pdf:Trapped>True</pdf:Trapped>" };
    for (auto& x : v) if (r.chance(2, 3)) b += x; return b + "</rdf:Description></rdf:RDF></x:xmpmeta><?xpacket end=\"w\"?>";
}
inline std::string dateText(Rng& r) { static const std::vector<std::string> v{ "D:20200102030405+01'00'", "D:2020", "D:20201301", "D:20200102030405Z", "2020", "D:", "D:99991231235959-23'59'", "D:20200230", "D:20200102030405+99'99'" }; return r.pick(v); }

// ---- a document using every part -------------------------------------------------------------------------------
struct Rich
{
    Rng& r; RawPdf p; std::map<std::string, unsigned> payload; // object numbers by role
    explicit Rich(Rng& rng) : r(rng), p(rng) { p.directLengths = rng.chance(1, 2); }
    std::function<std::string(const std::string&)> change; // applied to the payloads before they are encoded
    std::string data(const std::string& d, std::string bytes)
    {
        if (change) bytes = change(bytes);
        unsigned k = (unsigned)r.below(6); if (k == 0) return p.stream(d + "/Filter/FlateDecode", flated(bytes)); if (k == 1) return p.stream(d + "/Filter[/ASCIIHexDecode]", hex(bytes) + ">"); if (k == 2) return p.stream(d + "/Filter[/ASCIIHexDecode/FlateDecode]", hex(flated(bytes)) + ">"); return p.stream(d, bytes);
    }
    unsigned font(unsigned kind)
    {
        if (kind == 0) return p.add("<</Type/Font/Subtype/Type1/BaseFont/Helvetica" + std::string(r.chance(1, 2) ? "/Encoding/WinAnsiEncoding" : r.chance(1, 2) ? "/Encoding<</Type/Encoding/BaseEncoding/MacRomanEncoding/Differences[32/space/A 65/B/Euro 200/uni20AC/u1F600/g12]>>" : "") + ">>");
        unsigned ff = sysFonts().empty() ? 0 : p.add(data(cat("/Length1 ", sysFonts()[0].size()), sysFonts()[0].substr(0, r.chance(1, 2) ? 60000 : 4000)));
        std::string fd = "<</Type/FontDescriptor/FontName/ABCDEF+Deja/Flags 4/FontBBox[-10 -20 1000 900]/ItalicAngle 0/Ascent 900/Descent -200/CapHeight 700/StemV 80/MissingWidth 250" + (ff && r.chance(1, 2) ? std::string(kind == 4 ? "/FontFile3 " : "/FontFile2 ") + p.ref(ff) : std::string()) + ">>"; unsigned fdn = p.add(fd); payload["descriptor"] = fdn; if (ff) payload["fontfile"] = ff;
        unsigned tu = p.add(data("", cmapText(r, true))); payload["tounicode"] = tu; std::string w; for (int i = 0; i < 30; i++) w += cat(200 + 10 * i, " ");
        if (kind == 1) return p.add("<</Type/Font/Subtype/TrueType/BaseFont/ABCDEF+Deja/FirstChar 32/LastChar 61/Widths[" + w + "]/FontDescriptor " + p.ref(fdn) + "/ToUnicode " + p.ref(tu) + (r.chance(1, 2) ? "/Encoding/WinAnsiEncoding" : "") + ">>");
        if (kind == 2 || kind == 4)
        {
            std::string enc = "/Identity-H"; if (r.chance(1, 2)) { unsigned e = p.add(data("/Type/CMap/CMapName/X/CIDSystemInfo<</Registry(Adobe)/Ordering(UCS)/Supplement 0>>", cmapText(r, false))); payload["cmap"] = e; enc = p.ref(e); }
            std::string gid; if (r.chance(1, 2)) { std::string m; for (int i = 0; i < 100; i++) { m += (char)0; m += (char)i; } unsigned x = p.add(data("", m)); payload["cidtogid"] = x; gid = "/CIDToGIDMap " + p.ref(x); } else gid = "/CIDToGIDMap/Identity";
            unsigned df = p.add("<</Type/Font/Subtype/CIDFontType2/BaseFont/ABCDEF+Deja/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>/DW 500/W[1 [300 400] 10 20 600 30[1 2 3]]" + gid + "/FontDescriptor " + p.ref(fdn) + ">>"); payload["cidfont"] = df;
            return p.add("<</Type/Font/Subtype/Type0/BaseFont/ABCDEF+Deja/Encoding " + enc + "/DescendantFonts[" + p.ref(df) + "]/ToUnicode " + p.ref(tu) + ">>");
        }
        unsigned gp = p.add(data("", "100 0 0 0 100 100 d1 " + contentText(r, 3))); payload["glyph"] = gp;
        return p.add("<</Type/Font/Subtype/Type3/FontBBox[0 0 100 100]/FontMatrix[0.001 0 0 0.001 0 0]/CharProcs<</a " + p.ref(gp) + "/b " + p.ref(gp) + ">>/Encoding<</Type/Encoding/Differences[65/a/b]>>/FirstChar 65/LastChar 66/Widths[100 200]/Resources<<>>/ToUnicode " + p.ref(tu) + ">>");
    }
    unsigned image()
    {
        unsigned w = 1 + (unsigned)r.below(20), h = 1 + (unsigned)r.below(20), k = (unsigned)r.below(4); std::string sm; if (r.chance(1, 3)) sm = "/SMask " + p.ref(p.add(data(cat("/Type/XObject/Subtype/Image/Width ", w, "/Height ", h, "/BitsPerComponent 8/ColorSpace/DeviceGray"), r.bytes(w * h))));
        unsigned n; if (k == 0) n = p.add(data(cat("/Type/XObject/Subtype/Image/Width ", w, "/Height ", h, "/BitsPerComponent 8/ColorSpace/DeviceRGB") + sm, r.bytes(w * h * 3)));
        else if (k == 1) n = p.add(data(cat("/Type/XObject/Subtype/Image/Width ", w, "/Height ", h, "/BitsPerComponent 8/ColorSpace/DeviceGray/Decode[1 0]") + sm, r.bytes(w * h)));
        else if (k == 2) n = p.add(data(cat("/Type/XObject/Subtype/Image/Width ", w, "/Height ", h, "/BitsPerComponent 8/ColorSpace[/Indexed/DeviceRGB 3<000000111111222222333333>]") + sm, r.bytes(w * h)));
        else { std::string raw = r.bytes(w * h * 3), f; for (unsigned y = 0; y < h; y++) { f += (char)r.below(5); f += raw.substr(y * w * 3, w * 3); } n = p.add(p.stream(cat("/Type/XObject/Subtype/Image/Width ", w, "/Height ", h, "/BitsPerComponent 8/ColorSpace/DeviceRGB/Filter/FlateDecode/DecodeParms<</Predictor ", 10 + r.below(6), "/Colors 3/Columns ", w, "/BitsPerComponent 8>>") + sm, flated(f))); }
        payload["image"] = n; return n;
    }
    unsigned root = 0; std::string trailer;
    std::string build()
    {
        unsigned cat_ = p.alloc(), pages = p.alloc(), np = 1 + (unsigned)r.below(4); std::vector<unsigned> pg; for (unsigned i = 0; i < np; i++) pg.push_back(p.alloc()); unsigned inner = r.chance(1, 2) ? p.alloc() : 0; root = cat_;
        std::string fonts; for (unsigned k = 0; k < 5; k++) if (r.chance(2, 3)) { unsigned f = font(k); payload[cat("font", k)] = f; fonts += cat("/F", k + 1, " ") + p.ref(f); }
        unsigned x3 = p.alloc(), x2 = p.alloc(); std::string xo = "/X1 " + p.ref(image()) + "/X2 " + p.ref(x2) + "/X3 " + p.ref(x3), res = "<</Font<<" + fonts + ">>/XObject<<" + xo + ">>/ExtGState<</GS0<</CA 0.5>>>>/ColorSpace<</CS0[/ICCBased " + p.ref(p.add(data("/N 3", r.bytes(40)))) + "]>>/Properties<</Prop<</Type/OCG/Name(x)>>>>>>"; unsigned resn = p.add(res); payload["resources"] = resn; payload["form"] = x2; payload["form2"] = x3;
        p.objs[x2] = data("/Type/XObject/Subtype/Form/BBox[0 0 100 100]/Matrix[1 0 0 1 5 5]/Resources " + p.ref(resn), contentText(r, 4)); p.objs[x3] = data(r.chance(1, 5) ? "/Type/XObject/Subtype/PS" : "/Type/XObject/Subtype/Form/BBox[0 0 100 100]/Resources<</XObject<</X3 " + p.ref(r.chance(1, 4) ? x3 : x2) + ">>>>", contentText(r, 2));
        // names
        unsigned dst = p.add("[" + p.ref(pg[0]) + "/XYZ 10 20 null]"), spec = p.add("<</Type/Filespec/F(a.txt)/UF(a.txt)/EF<</F " + p.ref(p.add(p.stream("/Type/EmbeddedFile/Params<</Size 3>>", "abc"))) + ">>>>"), js = p.add("<</S/JavaScript/JS(app.alert)>>"), kid1 = p.add("<</Names[(a) " + p.ref(dst) + "(b) " + p.ref(dst) + "]/Limits[(a)(b)]>>"), kid2 = p.add("<</Names[(m) " + p.ref(dst) + "]/Limits[(m)(m)]>>"); unsigned dests = p.add("<</Kids[" + p.ref(kid1) + " " + p.ref(kid2) + "]>>"); payload["dests"] = dests; payload["kid"] = kid1;
        std::string names = "/Names " + p.maybe("<</Dests " + p.ref(dests) + "/EmbeddedFiles<</Names[(file) " + p.ref(spec) + "]>>/JavaScript<</Names[(j) " + p.ref(js) + "]>>>>", 1, 2); payload["destination"] = dst; payload["filespec"] = spec;
        // outlines
        unsigned ol = p.alloc(), o1 = p.alloc(), o2 = p.alloc(), o3 = p.alloc(); p.objs[ol] = "<</Type/Outlines/First " + p.ref(o1) + "/Last " + p.ref(o2) + "/Count 2>>"; p.objs[o1] = "<</Title(One)/Parent " + p.ref(ol) + "/Next " + p.ref(o2) + "/First " + p.ref(o3) + "/Last " + p.ref(o3) + "/Count 1/Dest " + p.ref(dst) + ">>"; p.objs[o2] = "<</Title" + p.str("\xFE\xFF" + std::string("\0A", 2)) + "/Parent " + p.ref(ol) + "/Prev " + p.ref(o1) + "/A<</S/URI/URI(http://x)>>/C[1 0 0]/F 3>>"; p.objs[o3] = "<</Title(Three)/Parent " + p.ref(o1) + "/Dest(a)>>"; payload["outlines"] = ol; payload["outline"] = o1;
        // fields and annotations
        unsigned fld = p.alloc(), fk = p.alloc(), chk = p.alloc(), ch = p.alloc(), sig = p.alloc(), link = p.alloc(), btn = p.alloc(); unsigned ap = p.add("<</N<</On " + p.ref(x2) + "/Off " + p.ref(x2) + ">>/D " + p.ref(x2) + ">>"); payload["ap"] = ap; std::string wd = "/Type/Annot/Subtype/Widget/Rect[10 20 100 40]/P " + p.ref(pg[0]);
        p.objs[fld] = "<</FT/Tx/T(text)/TU(alt)/Kids[" + p.ref(fk) + "]/V(value)/DA(/F1 12 Tf)/MaxLen 20/Ff 4096>>"; p.objs[fk] = "<</Parent " + p.ref(fld) + wd + "/MK<</CA(cap)/BC[1 0 0]/BG[0.5]>>/AA<</E<</S/URI/URI(u)>>>>>>"; p.objs[chk] = "<</FT/Btn/T(check)/V/Yes/AS/On/AP " + p.ref(ap) + wd + ">>"; p.objs[btn] = "<</FT/Btn/T(push)/Ff 65536/MK<</CA(c)/RC(r)/AC(a)>>" + wd + ">>";
        p.objs[ch] = "<</FT/Ch/T(choice)/Ff 131072/Opt[(a)[(b)(Bee)](c)]/V(b)/H/P" + wd + ">>"; p.objs[sig] = "<</FT/Sig/T(sig)/V<</Type/Sig/Filter/Adobe.PPKLite/SubFilter/adbe.pkcs7.detached/ByteRange[0 10 20 30]/Contents<00112233>/Name(N)/Reason(R)/Location(L)/M(" + dateText(r) + ")>>" + wd + ">>"; payload["field"] = fld; payload["kidfield"] = fk; payload["choice"] = ch; payload["sig"] = sig;
        p.objs[link] = "<</Type/Annot/Subtype/Link/Rect[1 2 3 4]/T(title)/Contents(text)/C[1 0 0]/F 4/QuadPoints[1 2 3 4 5 6 7 8]/Dest " + p.ref(dst) + "/Border[0 0 1[2 1]]>>"; payload["link"] = link; std::string annots = p.ref(fk) + " " + p.ref(chk) + " " + p.ref(ch) + " " + p.ref(sig) + " " + p.ref(link) + " " + p.ref(btn);
        static const std::vector<std::string> subs{ "Text", "FreeText", "Highlight", "Popup", "FileAttachment", "Screen", "Redact", "Stamp", "Ink", "Movie", "Square", "RichMedia" }; for (auto& s : subs) if (r.chance(1, 3)) annots += "<</Type/Annot/Subtype/" + s + "/Rect[0 0 9 9]/QuadPoints[0 0 1 1 2 2 3 3]/Open true/FS " + p.ref(spec) + "/MK<</BC[0 1 0 0]>>/A<</S/GoTo/D(a)>>/AP " + p.ref(ap) + ">> ";
        unsigned af = p.add("<</Fields[" + p.ref(fld) + " " + p.ref(chk) + " " + p.ref(ch) + " " + p.ref(sig) + " " + p.ref(btn) + "]/NeedAppearances false/DR " + p.ref(resn) + "/DA(/F1 0 Tf 0 g)/SigFlags 1>>"); payload["acroform"] = af;
        for (unsigned i = 0; i < np; i++) { unsigned ct = p.add(data("", contentText(r, 4 + (unsigned)r.below(20)))); payload["content"] = ct; std::string cs = p.ref(ct); if (r.chance(1, 3)) cs = "[" + cs + " " + p.ref(p.add(data("", contentText(r, 3)))) + "]"; p.objs[pg[i]] = "<</Type/Page/Parent " + p.ref(inner && i ? inner : pages) + (r.chance(1, 2) ? "/MediaBox[0 0 612 792]" : "") + (r.chance(1, 3) ? "/CropBox[1 1 600 700]" : "") + (r.chance(1, 3) ? cat("/Rotate ", 90 * r.below(4)) : "") + "/Resources " + p.ref(resn) + "/Contents " + cs + (i == 0 ? "/Annots[" + annots + "]" : "") + ">>"; payload["page"] = pg[i]; }
        std::string kids = p.ref(pg[0]); if (inner) { std::string k; for (unsigned i = 1; i < np; i++) k += p.ref(pg[i]) + " "; p.objs[inner] = "<</Type/Pages/Parent " + p.ref(pages) + cat("/Count ", np - 1) + "/Kids[" + k + "]>>"; kids += " " + p.ref(inner); payload["inner"] = inner; } else for (unsigned i = 1; i < np; i++) kids += " " + p.ref(pg[i]);
        p.objs[pages] = "<</Type/Pages/MediaBox[0 0 500 500]" + cat("/Count ", np) + "/Kids[" + kids + "]>>"; payload["pages"] = pages; unsigned md = p.add(data("/Type/Metadata/Subtype/XML", xmpText(r))); payload["xmp"] = md;
        p.objs[cat_] = "<</Type/Catalog/Pages " + p.ref(pages) + names + "/Outlines " + p.ref(ol) + "/AcroForm " + p.ref(af) + "/Metadata " + p.ref(md) + "/PageMode/UseOutlines/PageLayout/SinglePage/Lang(en)/Extensions<</ADBE<</BaseVersion/1.7/ExtensionLevel 3>>>>/PageLabels<</Nums[0<</S/D>>]>>/OpenAction " + p.ref(dst) + ">>"; payload["catalog"] = cat_;
        unsigned info = p.add("<</Title(T)/Author(A)/Subject(S)/Keywords(k)/Creator(c)/Producer(p)/CreationDate(" + dateText(r) + ")/ModDate(" + dateText(r) + ")/Trapped/True>>"); payload["info"] = info; trailer = "/Info " + p.ref(info) + "/ID[<00112233445566778899aabbccddeeff><00112233445566778899aabbccddeeff>]"; return p.file(cat_, trailer);
    }
};

// ---- mutations -------------------------------------------------------------------------------------------------
// a spot and a length in s
inline std::pair<size_t, size_t> span(Rng& r, const std::string& s, size_t max) { if (s.empty()) return { 0, 0 }; size_t a = r.below(s.size()); return { a, std::min<size_t>(s.size() - a, 1 + r.below(max)) }; }
inline bool isNum(char c) { return c >= '0' && c <= '9'; }
inline const std::vector<std::string>& tokensToInsert() { static const std::vector<std::string> v{ "<<", ">>", "[", "]", "(", ")", "<", ">", "/", "/A", "null", "true", "R", "0 R", "1 0 R", "2 0 R", "3 0 R", "obj", "endobj", "stream\n", "endstream", "xref\n", "trailer", "startxref\n", "%%EOF", "%PDF-1.4", "/Type", "/Length", "/Filter", "/FlateDecode", "/LZWDecode", "/RunLengthDecode", "/ASCII85Decode", "/DCTDecode", "/CCITTFaxDecode", "/Crypt", "/DecodeParms", "/Predictor 15", "/Columns", "/Kids", "/Parent", "/Count", "/W[1 2 1]", "/Index", "/Size", "/Prev", "/XRefStm", "/Extends", "/First", "/Next", "/Encrypt", "/V", "/R", "/Subtype", "\\", "#", "#00", "\0", "\r", "\xFE\xFF", "\xEF\xBB\xBF", "{", "}", "EI", "ID ", "BI", "-", "+", ".", "e5" }; return v; }
inline std::string mutateBytes(Rng& r, std::string s, const std::vector<std::string>& others, unsigned rounds, size_t limit = 300000)
{
    while (rounds--)
    {
        if (s.size() > limit) { s.resize(limit); }
        unsigned k = (unsigned)r.below(16); size_t a, n; std::tie(a, n) = span(r, s, 40);
        if (s.empty()) { s = r.bytes(1 + r.below(20)); continue; }
        if (k == 0) s[a] = (char)r.next(); else if (k == 1) s[a] ^= (char)(1 << r.below(8));
        else if (k == 2) s.erase(a, n); else if (k == 3) s.insert(r.below(s.size() + 1), s.substr(a, n)); else if (k == 4) s.insert(a, r.bytes(1 + r.below(6)));
        else if (k == 5 || k == 6 || k == 13) { size_t b = s.find_first_of("0123456789", a); if (b == std::string::npos) b = s.find_first_of("0123456789"); if (b == std::string::npos) continue; size_t e = b; while (e < s.size() && isNum(s[e])) e++; std::string v = r.chance(1, 3) ? r.pick(interestingNumbers()) : r.chance(1, 2) ? std::to_string(r.below(40)) : std::to_string((int64_t)strtoll(s.substr(b, std::min<size_t>(e - b, 18)).c_str(), nullptr, 10) + r.range(-3, 3)); if (r.chance(1, 2)) while (v.size() < e - b) v = "0" + v; s.replace(b, e - b, v); }
        else if (k == 7 || k == 14) s.insert(a, r.pick(tokensToInsert())); else if (k == 8) { if (r.chance(1, 3)) s.resize(a); }
        else if (k == 9) { size_t b = r.below(s.size()), m = std::min(n, s.size() - b); std::string x = s.substr(a, n), y = s.substr(b, m); if (a + n <= b) { s.replace(b, m, x); s.replace(a, n, y); } }
        else if (k == 10) { if (!others.empty()) { auto& o = r.pick(others); if (!o.empty()) { auto q = span(r, o, 400); s.insert(a, o.substr(q.first, q.second)); } } }
        else if (k == 11) { size_t b = s.find('/', a); if (b == std::string::npos) continue; size_t e = b + 1; while (e < s.size() && isalnum((unsigned char)s[e])) e++; size_t b2 = s.find('/', r.below(s.size())); if (b2 == std::string::npos) continue; size_t e2 = b2 + 1; while (e2 < s.size() && isalnum((unsigned char)s[e2])) e2++; s.replace(b, e - b, s.substr(b2, e2 - b2)); }
        else if (k == 12) { size_t b = s.find(" 0 R", a); if (b == std::string::npos) continue; size_t e = b; while (e > 0 && isNum(s[e - 1])) e--; s.replace(e, b - e, std::to_string(r.below(60))); }
        else if (k == 15) { if (r.chance(1, 6)) { static const std::vector<std::string> nest{ "[", "<<", "<</A", "(", "[<<", "<</Kids[", "{" }; std::string x, u = r.pick(nest); for (unsigned q = 20 + (unsigned)r.below(r.chance(1, 3) ? 30000 : 600); q; q--) x += u; s.insert(a, x); } }
    }
    return s;
}
// objects of a plain file, by a search for "obj" ... "endobj"; the file is written anew with right offsets
struct Pieces { std::map<unsigned, std::string> objs; std::string trailer; };
inline Pieces pieces(const std::string& s)
{
    Pieces p; size_t pos = 0;
    while ((pos = s.find(" 0 obj", pos)) != std::string::npos) { size_t b = pos; while (b > 0 && isNum(s[b - 1])) b--; size_t e = s.find("endobj", pos); if (e == std::string::npos) break; if (b < pos) p.objs[(unsigned)atoi(s.substr(b, pos - b).c_str())] = s.substr(pos + 6, e - pos - 6); pos = e; }
    size_t t = s.rfind("trailer"); if (t != std::string::npos) { size_t e = s.find("startxref", t); p.trailer = s.substr(t + 7, e == std::string::npos ? std::string::npos : e - t - 7); } return p;
}
inline std::string assemble(const Pieces& p)
{
    std::string out = "%PDF-1.7\n"; unsigned max = p.objs.empty() ? 0 : p.objs.rbegin()->first; if (max > 100000) max = 100000; std::vector<size_t> off(max + 1, 0);
    for (auto& o : p.objs) if (o.first <= max) { off[o.first] = out.size(); out += cat(o.first, " 0 obj") + o.second + "endobj\n"; }
    size_t x = out.size(); out += cat("xref\n0 ", max + 1, "\n"); char b[32]; for (unsigned i = 0; i <= max; i++) { snprintf(b, 32, off[i] ? "%010zu 00000 n \n" : "%010zu 65535 f \n", off[i]); out += b; } return out + "trailer" + p.trailer + cat("startxref\n", x, "\n%%EOF\n");
}
inline std::string mutateObjects(Rng& r, Pieces p, const std::vector<std::string>& others)
{
    std::vector<unsigned> nums; for (auto& o : p.objs) nums.push_back(o.first); if (nums.empty()) return assemble(p);
    for (unsigned k = 1 + (unsigned)r.below(4); k; k--)
    {
        unsigned n = r.pick(nums); std::string& o = p.objs[n]; unsigned m = (unsigned)r.below(12);
        if (m == 0) o = p.objs[r.pick(nums)]; else if (m == 1) { static const std::vector<std::string> v{ " null ", " 5 ", " (s) ", " [] ", " <<>> ", " /N ", " true ", " 1.5 ", " <<>>stream\nendstream ", " [[[[]]]] " }; o = r.pick(v); } else if (m == 2) o = cat(" ", r.pick(nums), " 0 R "); else if (m == 3) o = cat(" ", n, " 0 R ");
        else if (m == 4) p.trailer = mutateBytes(r, p.trailer, others, 1, 5000); else if (m == 5) p.objs.erase(n);
        else if (m <= 8) { // references exchanged: cycles and wrong kinds
            size_t b = 0; std::vector<size_t> at; while ((b = o.find(" 0 R", b)) != std::string::npos) { at.push_back(b); b += 4; } if (at.empty()) continue; b = r.pick(at); size_t e = b; while (e > 0 && isNum(o[e - 1])) e--; o.replace(e, b - e, std::to_string(r.chance(1, 3) ? n : r.pick(nums))); }
        else if (m == 9) { // a value exchanged for another kind
            size_t b = o.find('/', r.below(o.size() + 1)); if (b == std::string::npos) continue; size_t e = b + 1; while (e < o.size() && isalnum((unsigned char)o[e])) e++; static const std::vector<std::string> v{ " null", " -1", " 99999999999", " 1.5", " (s)", " []", "<<>>", "/N", " true", "[1 2 3 4]", "[0 0 0 0 0 0 0 0 0]", " <FEFF00>", " 0" }; o.insert(e, r.chance(1, 4) ? cat(" ", r.pick(nums), " 0 R ") : r.pick(v)); }
        else o = mutateBytes(r, o, others, 1 + (unsigned)r.below(3), 200000);
    }
    return assemble(p);
}
inline std::vector<std::string> readDir(const std::string& d, const char* suffix, size_t maxSize, size_t maxCount)
{
    std::vector<std::string> names, out; DIR* h = opendir(d.c_str()); if (!h) return out; while (auto e = readdir(h)) { std::string n = e->d_name; size_t k = strlen(suffix); if (n.size() > k && n.substr(n.size() - k) == suffix) names.push_back(n); } closedir(h); std::sort(names.begin(), names.end()); for (auto& n : names) { if (out.size() >= maxCount) break; auto s = slurp(d + "/" + n); if (s.size() <= maxSize) out.push_back(s); } return out;
}
}
#endif
