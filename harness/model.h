// A plain value model of PDF data, independent of the library's own value classes,
// with generators, conversion to the library's objects and canonical text for comparison.
#ifndef MODEL_H
#define MODEL_H
#include "mon.h"
#include <openssl/evp.h>
#include <openssl/md5.h>

namespace mon {

struct Val
{
    enum K { Null, Bool, Int, Real, Str, Name, Ref, Arr, Dict } k = Null;
    bool b = false, hexStr = false; int64_t i = 0; double r = 0; std::string s; unsigned g = 0;
    std::vector<Val> a; std::map<std::string, Val> d;
    static Val null() { return {}; }
    static Val boolean(bool x) { Val v; v.k = Bool; v.b = x; return v; }
    static Val integer(int64_t x) { Val v; v.k = Int; v.i = x; return v; }
    static Val real(double x) { Val v; v.k = Real; v.r = x; return v; }
    static Val str(const std::string& x, bool hex = false) { Val v; v.k = Str; v.s = x; v.hexStr = hex; return v; }
    static Val name(const std::string& x) { Val v; v.k = Name; v.s = x; return v; }
    static Val ref(unsigned n, unsigned g = 0) { Val v; v.k = Ref; v.i = n; v.g = g; return v; }
    static Val arr() { Val v; v.k = Arr; return v; }
    static Val dict() { Val v; v.k = Dict; return v; }
};

inline std::string canonReal(double r)
{
    // numbers are compared with the six decimals that are written
    char b[512]; snprintf(b, sizeof b, "%.5f", r); std::string s = b;
    while (s.back() == '0') s.pop_back();
    if (s.back() == '.') s.pop_back();
    if (s == "-0") s = "0";
    return s;
}
inline std::string canon(const Val& v)
{
    switch (v.k)
    {
        case Val::Null: return "null";
        case Val::Bool: return v.b ? "true" : "false";
        case Val::Int: return "n" + std::to_string(v.i);
        case Val::Real: return "n" + canonReal(v.r);
        case Val::Str: return "s" + hex(v.s);
        case Val::Name: return "/" + hex(v.s);
        case Val::Ref: return "R" + std::to_string(v.i) + "." + std::to_string(v.g);
        case Val::Arr: { std::string r = "["; for (auto& x : v.a) r += canon(x) + " "; return r + "]"; }
        case Val::Dict: { std::string r = "<"; for (auto& x : v.d) r += "/" + hex(x.first) + " " + canon(x.second) + " "; return r + ">"; }
    }
    return "?";
}

// ---- independent text string encoding (PDF 32000-1 annex D) ----
inline const char32_t* pdfDocTable()
{
    static char32_t t[256]; static bool init = false;
    if (!init)
    {
        for (int i = 0; i < 256; i++) t[i] = (char32_t)i;
        static const char32_t a[8] = { 0x2D8, 0x2C7, 0x2C6, 0x2D9, 0x2DD, 0x2DB, 0x2DA, 0x2DC };
        for (int i = 0; i < 8; i++) t[0x18 + i] = a[i];
        static const char32_t b[33] = { 0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018,
            0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141, 0x152, 0x160, 0x178, 0x17D, 0x131, 0x142, 0x153, 0x161, 0x17E, 0, 0x20AC };
        for (int i = 0; i < 33; i++) t[0x80 + i] = b[i];
        t[0x7F] = 0; t[0xAD] = 0; t[0x16] = 0x17; // the code 16 is listed with U+0017 in ISO 32000-1 table D.2
        init = true;
    }
    return t;
}
inline bool decodeUtf8(const std::string& s, std::vector<char32_t>& out)
{
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i]; char32_t cp; int n;
        if (c < 0x80) { cp = c; n = 0; } else if ((c >> 5) == 6) { cp = c & 31; n = 1; } else if ((c >> 4) == 14) { cp = c & 15; n = 2; } else if ((c >> 3) == 30) { cp = c & 7; n = 3; } else return false;
        if (i + n >= s.size()) return false;
        for (int k = 1; k <= n; k++) { if (((unsigned char)s[i + k] >> 6) != 2) return false; cp = cp << 6 | (s[i + k] & 63); }
        i += n + 1; out.push_back(cp);
    }
    return true;
}
inline void appendUtf8(std::string& s, char32_t c)
{
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}
inline std::string utf16be(const std::vector<char32_t>& cps)
{
    std::string r; auto put = [&](unsigned u) { r += (char)(u >> 8); r += (char)u; };
    for (auto c : cps) { if (c >= 0x10000) { c -= 0x10000; put(0xD800 + (c >> 10)); put(0xDC00 + (c & 0x3FF)); } else put(c); }
    return r;
}
// decodes the bytes of a text string to UTF-8; false if they are not valid
inline bool decodeTextString(const std::string& raw, std::string& out)
{
    out.clear();
    if (raw.size() >= 2 && ((raw[0] == '\xFE' && raw[1] == '\xFF') || (raw[0] == '\xFF' && raw[1] == '\xFE')))
    {
        bool be = raw[0] == '\xFE'; std::vector<unsigned> u;
        if (raw.size() % 2) return false;
        for (size_t i = 2; i + 1 < raw.size(); i += 2) u.push_back(be ? (unsigned char)raw[i] << 8 | (unsigned char)raw[i + 1] : (unsigned char)raw[i + 1] << 8 | (unsigned char)raw[i]);
        for (size_t i = 0; i < u.size(); i++)
        {
            if (u[i] >= 0xD800 && u[i] < 0xDC00) { if (i + 1 >= u.size() || u[i + 1] < 0xDC00 || u[i + 1] > 0xDFFF) return false; appendUtf8(out, 0x10000 + ((u[i] - 0xD800) << 10) + (u[i + 1] - 0xDC00)); i++; }
            else if (u[i] >= 0xDC00 && u[i] < 0xE000) return false;
            else appendUtf8(out, u[i]);
        }
        return true;
    }
    if (raw.size() >= 3 && raw.compare(0, 3, "\xEF\xBB\xBF") == 0) { out = raw.substr(3); std::vector<char32_t> t; return decodeUtf8(out, t); }
    for (unsigned char c : raw) { char32_t u = pdfDocTable()[c]; if (u == 0 && c != 0) return false; appendUtf8(out, u); }
    return true;
}
// text identity of a string for comparison: t<utf8 hex> if the bytes are a text string, else s<hex>
inline std::string textCanonOfBytes(const std::string& raw)
{
    std::string t; return decodeTextString(raw, t) ? "t" + hex(t) : "s" + hex(raw);
}

inline std::string md5hex(const std::string& s)
{
    unsigned char d[16]; EVP_Digest(s.data(), s.size(), d, nullptr, EVP_md5(), nullptr); return hex(std::string((char*)d, 16));
}

// ---- library objects <-> model ----
inline std::string strBytes(const mm::PdfString& s, bool& isText)
{
    if (s.GetState() == mm::PdfStringState::RawBuffer) { isText = false; return s.GetRawData(); }
    isText = true; return s.GetString();
}
// Canonical text of a library value. Strings already decoded to text are written as their text bytes.
inline std::string canonStr(const mm::PdfString& s)
{
    bool t; std::string b = strBytes(s, t);
    if (!t) return "s" + hex(b);
    std::vector<char32_t> cps; if (!decodeUtf8(b, cps)) return "badutf8:" + hex(b);
    // the text may be stored in any conforming way: compare as PDFDoc if possible else UTF-16BE
    std::string out; bool ok = true;
    for (auto c : cps) { int code = -1; for (int i = 0; i < 256; i++) if (pdfDocTable()[i] == c && (c != 0 || i == 0)) { code = i; break; } if (code < 0) { ok = false; break; } out += (char)code; }
    std::string chk;
    if (ok && (!decodeTextString(out, chk) || chk != b)) ok = false; // byte order mark look-alike
    if (!ok) out = "\xFE\xFF" + utf16be(cps);
    return "s" + hex(out);
}
struct CanonOpt { std::set<std::string> skipTop; };
inline std::string canonVar(const mm::PdfVariant& v, const std::set<std::string>* skip = nullptr)
{
    using namespace mm;
    switch (v.GetDataType())
    {
        case PdfDataType::Null: return "null";
        case PdfDataType::Bool: return v.GetBool() ? "true" : "false";
        case PdfDataType::Number: return "n" + std::to_string(v.GetNumber());
        case PdfDataType::Real: return "n" + canonReal(v.GetReal());
        case PdfDataType::String: return canonStr(v.GetString());
        case PdfDataType::Name: return "/" + hex(std::string(v.GetName().GetString()));
        case PdfDataType::Reference: return "R" + std::to_string(v.GetReference().ObjectNumber()) + "." + std::to_string(v.GetReference().GenerationNumber());
        case PdfDataType::Array: { std::string r = "["; for (auto& x : v.GetArray()) r += canonVar(x.GetVariant()) + " "; return r + "]"; }
        case PdfDataType::Dictionary:
        {
            std::map<std::string, std::string> m;
            for (auto& x : v.GetDictionary()) { std::string k(x.first.GetString()); if (skip && skip->count(k)) continue; m[k] = canonVar(x.second.GetVariant()); }
            std::string r = "<"; for (auto& x : m) r += "/" + hex(x.first) + " " + x.second + " "; return r + ">";
        }
        default: return std::string("?") + v.GetDataTypeString();
    }
}
inline std::string streamDecoded(const mm::PdfObjectStream& s)
{
    mm::charbuff b = s.GetCopySafe(); return std::string(b.data(), b.size());
}
// Canonical text of an indirect object: value (without stream bookkeeping keys) and decoded data
inline std::string canonObj(const mm::PdfObject& o, const std::set<std::string>& skip = {})
{
    const auto* st = o.GetStream();
    std::set<std::string> sk = skip;
    if (st) { sk.insert("Length"); sk.insert("Filter"); sk.insert("DecodeParms"); sk.insert("DL"); }
    std::string r = canonVar(o.GetVariant(), &sk);
    if (st) { std::string d = streamDecoded(*st); r += " stream " + std::to_string(d.size()) + " " + md5hex(d); }
    return r;
}
inline std::map<std::string, std::string> canonDoc(mm::PdfDocument& doc)
{
    std::map<std::string, std::string> m;
    for (auto o : doc.GetObjects())
    {
        auto ref = o->GetIndirectReference();
        m[std::to_string(ref.ObjectNumber()) + "." + std::to_string(ref.GenerationNumber())] = canonObj(*o);
    }
    return m;
}

inline mm::PdfObject toObj(const Val& v)
{
    using namespace mm;
    switch (v.k)
    {
        case Val::Null: return PdfObject(PdfVariant());
        case Val::Bool: return PdfObject(v.b);
        case Val::Int: return PdfObject((int64_t)v.i);
        case Val::Real: return PdfObject(v.r);
        case Val::Str: return PdfObject(PdfString::FromRaw(bufferview(v.s.data(), v.s.size()), v.hexStr));
        case Val::Name: return PdfObject(PdfName(v.s));
        case Val::Ref: return PdfObject(PdfReference((uint32_t)v.i, (uint16_t)v.g));
        case Val::Arr: { PdfArray a; for (auto& x : v.a) a.Add(toObj(x)); return PdfObject(a); }
        case Val::Dict: { PdfDictionary d; for (auto& x : v.d) d.AddKey(PdfName(x.first), toObj(x.second)); return PdfObject(d); }
    }
    return PdfObject();
}

// ---- generators ----
struct GenOpt { std::vector<std::pair<unsigned, unsigned>> refs; bool reals = true, anyName = true; unsigned maxStr = 40; };
inline std::string genName(Rng& r, const GenOpt& o, bool key = false)
{
    static const std::vector<std::string> common{ "Type", "Foo", "A", "Bar", "Kids", "Length1", "X#Y", "a b", "", "Name/With", "(paren", "Obj<>", "N\tT", "caf\xC3\xA9", "Z%", "[x]", "{y}" };
    if (r.chance(1, 3)) { auto n = r.pick(common); if (o.anyName || n.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") == std::string::npos) return n.empty() && key ? "Em" : n; }
    std::string s; size_t n = 1 + r.below(10);
    for (size_t i = 0; i < n; i++) s += o.anyName && r.chance(1, 6) ? (char)(1 + r.below(127)) : (char)("abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789"[r.below(46)]);
    return s;
}
inline double genReal(Rng& r)
{
    switch (r.below(8))
    {
        case 0: return (double)r.range(-1000, 1000);
        case 1: return (double)r.range(-99999, 99999) / 100.0;
        case 2: return (double)r.range(-9, 9) / 10000.0;
        case 3: return (double)r.range(-1000000000, 1000000000) / 8.0;
        case 4: return 0.0;
        case 5: return (double)r.range(-1000000000000LL, 1000000000000LL) + 0.5;
        default: return (double)r.range(-10000000, 10000000) / 10000.0;
    }
}
inline int64_t genInt(Rng& r)
{
    switch (r.below(7))
    {
        case 0: return r.range(-10, 10);
        case 1: return r.range(-100000, 100000);
        case 2: return INT64_MAX - (int64_t)r.below(3);
        case 3: return INT64_MIN + (int64_t)r.below(3);
        case 4: { int64_t v = (int64_t)1 << r.below(62); return r.chance(1, 2) ? v : -v; }
        case 5: return (int64_t)r.next();
        default: return r.range(0, 255);
    }
}
inline std::string genBytes(Rng& r, size_t max)
{
    size_t n = r.chance(1, 8) ? 0 : r.chance(1, 10) ? r.below(max * 8 + 1) : r.below(max + 1);
    std::string s;
    static const char nastyRaw[] = "()\\\r\n\t\b\f\0<>%/[]{}01234567\xFE\xFF\xEF\xBB\xBF"; static const std::string nasty(nastyRaw, sizeof nastyRaw - 1);
    unsigned m = r.below(4);
    for (size_t i = 0; i < n; i++)
        s += m == 0 ? (char)r.next() : m == 1 ? (char)(32 + r.below(95)) : m == 2 ? nasty[r.below(nasty.size())] : (r.chance(1, 2) ? (char)r.next() : nasty[r.below(nasty.size())]);
    return s;
}
inline Val genVal(Rng& r, const GenOpt& o, int depth)
{
    unsigned pick = (unsigned)r.below(depth > 0 ? 11 : 8);
    switch (pick)
    {
        case 0: return Val::null();
        case 1: return Val::boolean(r.chance(1, 2));
        case 2: return Val::integer(genInt(r));
        case 3: return o.reals ? Val::real(genReal(r)) : Val::integer(genInt(r));
        case 4: case 5: { auto s = genBytes(r, o.maxStr); return Val::str(s, r.chance(1, 3)); }
        case 6: return Val::name(genName(r, o));
        case 7: if (o.refs.size()) { auto& p = o.refs[r.below(o.refs.size())]; return Val::ref(p.first, p.second); } return Val::integer(7);
        case 8: case 9: { Val v = Val::arr(); size_t n = r.below(6); for (size_t i = 0; i < n; i++) v.a.push_back(genVal(r, o, depth - 1)); return v; }
        default: { Val v = Val::dict(); size_t n = r.below(6); for (size_t i = 0; i < n; i++) { std::string k = genName(r, o, true); Val x = genVal(r, o, depth - 1); if (x.k != Val::Null) v.d[k] = x; } return v; }
    }
}

inline std::string saveToString(mm::PdfMemDocument& doc, mm::PdfSaveOptions o = mm::PdfSaveOptions::None)
{
    std::string buf; mm::StringStreamDevice dev(buf); doc.Save(dev, o); return buf;
}
} // namespace mon
#endif
