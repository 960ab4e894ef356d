// Small documents written as bytes, without the library, and helpers to load and save
#ifndef RAW_H
#define RAW_H
#include "mon.h"
#include "model.h"
#include <list>
#include <pdfmm/pdfmm.h>

namespace mon {

struct RawPdf
{
    Rng& r; std::vector<std::string> objs{ "" };
    explicit RawPdf(Rng& rng) : r(rng) { }
    unsigned alloc() { objs.push_back("null"); return (unsigned)objs.size() - 1; }
    unsigned add(const std::string& v) { objs.push_back(v); return (unsigned)objs.size() - 1; }
    std::string ref(unsigned n) { return cat(n, " 0 R"); }
    // the value, sometimes behind a reference
    std::string maybe(const std::string& v, unsigned num = 1, unsigned den = 5) { return r.chance(num, den) ? ref(add(v)) : v; }
    std::string num(double d) { return d == floor(d) && !r.chance(1, 4) ? std::to_string((long)d) : fmtd(d); }
    std::string str(const std::string& bytes)
    {
        if (r.chance(1, 4)) return "<" + hex(bytes) + ">";
        std::string s = "("; for (char c : bytes) { unsigned char u = (unsigned char)c; if (c == '(' || c == ')' || c == '\\') { s += '\\'; s += c; } else if (c == '\r' || (r.chance(1, 20) && u < 128 && u != '\n')) { char b[8]; snprintf(b, 8, "\\%03o", u); s += b; } else s += c; } return s + ")";
    }
    bool directLengths = false;
    std::string stream(const std::string& dict, const std::string& data) { return "<<" + dict + "/Length " + (directLengths ? std::to_string(data.size()) : maybe(std::to_string(data.size()))) + ">>stream\n" + data + "\nendstream"; }
    std::string file(unsigned root, const std::string& trailer = "")
    {
        std::string out = "%PDF-1.7\n"; std::vector<size_t> off(objs.size());
        for (size_t i = 1; i < objs.size(); i++) { off[i] = out.size(); out += cat(i, " 0 obj\n") + objs[i] + "\nendobj\n"; }
        size_t x = out.size(); out += cat("xref\n0 ", objs.size(), "\n0000000000 65535 f \n"); char b[32];
        for (size_t i = 1; i < objs.size(); i++) { snprintf(b, 32, "%010zu 00000 n \n", off[i]); out += b; }
        return out + cat("trailer<</Size ", objs.size(), "/Root ", root, " 0 R", trailer, ">>\nstartxref\n", x, "\n%%EOF\n");
    }
};
// A loaded document reads its objects on demand: it keeps looking at the file it was loaded from
inline std::list<std::string>& keptFiles() { static std::list<std::string> l; return l; }
inline std::unique_ptr<mm::PdfMemDocument> loadDoc(const std::string& s)
{
    keptFiles().push_back(s); auto& k = keptFiles().back(); std::unique_ptr<mm::PdfMemDocument> d(new mm::PdfMemDocument());
    d->LoadFromBuffer(mm::bufferview(k.data(), k.size())); return d;
}
inline std::string saveDoc(mm::PdfMemDocument& d, Rng& r)
{
    mm::charbuff b; mm::StringStreamDevice dev(b); auto o = mm::PdfSaveOptions::None;
    if (r.chance(1, 3)) o = o | mm::PdfSaveOptions::NoCollectGarbage; if (r.chance(1, 3)) o = o | mm::PdfSaveOptions::NoFlateCompress;
    d.Save(dev, o); return std::string(b.data(), b.size());
}
// the bytes of a text string in one of its two forms
inline std::string textBytes(const std::string& utf8)
{
    std::vector<char32_t> cps; decodeUtf8(utf8, cps); std::string out, chk; bool ok = true;
    for (auto c : cps) { int code = -1; for (int i = 0; i < 256; i++) if (pdfDocTable()[i] == c && (c != 0 || i == 0)) { code = i; break; } if (code < 0) { ok = false; break; } out += (char)code; }
    if (ok && decodeTextString(out, chk) && chk == utf8) return out;
    return "\xFE\xFF" + utf16be(cps);
}
inline std::string randomText(Rng& r, unsigned max = 12, bool ascii = false)
{
    std::string s; unsigned kind = ascii ? 0 : (unsigned)r.below(4);
    for (unsigned n = (unsigned)r.below(max + 1); n; n--)
    {
        char32_t c;
        if (kind == 0 || r.chance(1, 2)) c = 32 + (char32_t)r.below(95);
        else if (kind == 1) c = 0xA1 + (char32_t)r.below(0x5F);
        else if (kind == 2) { static const std::vector<char32_t> v{ 0x20AC, 0x2022, 0x2020, 0x160, 0x17E, 0xFB01, 0xE9, 0xFF }; c = r.pick(v); }
        else { static const std::vector<char32_t> v{ 0x391, 0x416, 0x5D0, 0x4E2D, 0x1F600, 0x10FFFD, 0xFFFD, 0x100, 0xD7FF, 0xE000 }; c = r.pick(v); }
        if (c == 0xAD) c = 0xAE; appendUtf8(s, c);
    }
    return s;
}
inline const mm::PdfObject* derefIn(const mm::PdfIndirectObjectList& l, const mm::PdfObject* o) { for (int i = 0; o && o->IsReference() && i < 20; i++) o = l.GetObject(o->GetReference()); return o; }
}
#endif
