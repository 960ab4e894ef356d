// Comparison of library values with model values, and a writer that spells values in every allowed way
#ifndef SPELL_H
#define SPELL_H
#include "model.h"
using namespace mm; using namespace mon;

// ---- comparison of a library value against the model --------------------------------
inline bool sameReal(double a, double b)
{
    double tol = 6e-7 + std::fabs(a) * 1e-15;
    return std::fabs(a - b) <= tol;
}
// text of the first difference or empty
inline std::string diff(const Val& v, const PdfVariant& x, const std::string& path, bool checkHex)
{
    auto bad = [&](const std::string& s) { return path + ": " + s + ", read " + vis(x.IsNull() ? "null" : x.ToString(), 200) + " (" + x.GetDataTypeString() + ")"; };
    switch (v.k)
    {
        case Val::Null: return x.IsNull() ? "" : bad("expected null");
        case Val::Bool: return x.IsBool() && x.GetBool() == v.b ? "" : bad(cat("expected bool ", (int)v.b));
        case Val::Int: return x.IsNumber() && x.GetNumber() == v.i ? "" : bad(cat("expected integer ", v.i));
        case Val::Real:
            if (x.IsNumber() || x.IsRealStrict())
            {
                double g = x.GetReal();
                if (!sameReal(v.r, g)) return bad("expected real " + fmtd(v.r));
                if (x.IsNumber() && v.r != std::floor(v.r) && !sameReal(v.r, std::round(v.r))) return bad("expected real " + fmtd(v.r) + " but integer");
                return "";
            }
            return bad("expected real " + fmtd(v.r));
        case Val::Str:
        {
            if (!x.IsString()) return bad("expected string " + hex(v.s));
            auto& s = x.GetString();
            if (s.GetState() != PdfStringState::RawBuffer) { return v.s.empty() && s.GetString().empty() ? "" : bad("string not in raw state"); }
            if (s.GetRawData() != v.s) return bad("expected string <" + hex(v.s) + "> got <" + hex(s.GetRawData()) + ">");
            if (checkHex && s.IsHex() != v.hexStr) return bad("hex flag changed");
            return "";
        }
        case Val::Name: return x.IsName() && x.GetName().GetRawData() == v.s ? "" : bad("expected name " + hex(v.s) + (x.IsName() ? " got " + hex(x.GetName().GetRawData()) : ""));
        case Val::Ref: return x.IsReference() && x.GetReference() == PdfReference((uint32_t)v.i, (uint16_t)v.g) ? "" : bad(cat("expected reference ", v.i, " ", v.g));
        case Val::Arr:
        {
            if (!x.IsArray()) return bad("expected array");
            auto& a = x.GetArray(); if (a.GetSize() != v.a.size()) return bad(cat("expected array of ", v.a.size()));
            for (size_t i = 0; i < v.a.size(); i++) { auto d = diff(v.a[i], a[(unsigned)i].GetVariant(), path + "[" + std::to_string(i) + "]", checkHex); if (!d.empty()) return d; }
            return "";
        }
        case Val::Dict:
        {
            if (!x.IsDictionary()) return bad("expected dictionary");
            auto& d = x.GetDictionary(); size_t n = 0;
            for (auto& p : d) { if (p.second.GetVariant().IsNull()) continue; n++; if (!v.d.count(p.first.GetRawData())) return bad("unexpected key " + vis(p.first.GetRawData())); }
            size_t m = 0;
            for (auto& p : v.d)
            {
                if (p.second.k == Val::Null) continue;
                m++;
                const PdfObject* o = nullptr;
                for (auto& q : d) if (q.first.GetRawData() == p.first) o = &q.second;
                if (!o) return bad("missing key " + vis(p.first));
                auto e = diff(p.second, o->GetVariant(), path + "/" + vis(p.first), checkHex); if (!e.empty()) return e;
            }
            if (m != n) return bad(cat("expected ", m, " keys, has ", n));
            return "";
        }
    }
    return "?";
}

inline std::string rawName(Rng& r)
{
    std::string s; size_t n = r.below(r.chance(1, 10) ? 120 : 12);
    unsigned m = r.below(3);
    for (size_t i = 0; i < n; i++) { char c = m == 0 ? (char)r.range(1, 255) : m == 1 ? (char)r.range(33, 126) : pickc(r, "#()<>[]{}/% \t\n\r~!}|0A"); s += c; }
    return s;
}
// ---- C07: spelling generator ---------------------------------------------------------
struct Spell
{
    Rng& r; std::string out; Ctx& c; bool refs;
    std::vector<size_t>* splits = nullptr; // offsets between tokens
    // true if the last character written is a regular character (a separator is needed before another one)
    bool needSep() const { return !out.empty() && !strchr("()<>[]{}/% \t\r\n\f", out.back()) && out.back() != 0; }
    void ws(bool must)
    {
        if (splits) splits->push_back(out.size());
        unsigned n = r.below(3); if (must && n == 0) n = 1;
        for (unsigned i = 0; i < n; i++)
        {
            switch (r.below(9))
            {
                case 0: out += '\n'; break;
                case 1: out += '\r'; break;
                case 2: out += "\r\n"; break;
                case 3: out += '\t'; break;
                case 4: out += '\f'; break;
                case 5: out += '\0'; break;
                case 6: { out += '%'; size_t k = r.below(20); for (size_t j = 0; j < k; j++) { char ch = (char)r.range(32, 255); out += ch; } out += r.chance(1, 2) ? "\n" : r.chance(1, 2) ? "\r" : "\r\n"; c.ev("comments"); break; }
                default: out += ' ';
            }
        }
    }
    void str(const std::string& s, bool& hexFlag)
    {
        hexFlag = r.chance(1, 3);
        if (hexFlag)
        {
            out += '<'; std::string h = hex(s);
            bool dropLast = !h.empty() && h.back() == '0' && r.chance(1, 2);
            if (dropLast) { h.pop_back(); c.ev("hex strings with an odd digit count"); }
            for (char ch : h) { if (r.chance(1, 6)) out += pickc(r, " \n\t\r\f"); out += r.chance(1, 2) ? (char)toupper(ch) : ch; }
            if (r.chance(1, 5)) out += ' ';
            out += '>'; c.ev("hex strings"); return;
        }
        c.ev("literal strings");
        // positions of parentheses that can stay unescaped: a matching pair
        std::vector<bool> plain(s.size(), false);
        { std::vector<size_t> st; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '(') st.push_back(i); else if (s[i] == ')' && !st.empty()) { if (r.chance(1, 2)) { plain[i] = plain[st.back()] = true; } st.pop_back(); } } }
        // an unescaped pair must also balance with respect to the escaped ones, which do not count: true for any subset of matched pairs
        out += '(';
        for (size_t i = 0; i < s.size(); i++)
        {
            unsigned char ch = (unsigned char)s[i]; unsigned char nx = i + 1 < s.size() ? (unsigned char)s[i + 1] : 0;
            if (r.chance(1, 15)) { out += '\\'; out += r.chance(1, 3) ? "\r" : r.chance(1, 2) ? "\n" : "\r\n"; c.ev("line continuations"); if (out.back() == '\r' && ch == '\n') { out += "\\n"; continue; } }
            auto octal = [&](bool full) { char b[8]; snprintf(b, 8, full ? "%03o" : "%o", ch); out += '\\'; out += b; c.ev("octal escapes"); };
            bool nextDigit = nx >= '0' && nx <= '7' && i + 1 < s.size();
            // what follows could be written as a digit, so a short octal is only safe if it can not
            switch (ch)
            {
                case '(': case ')': if (plain[i]) { out += (char)ch; c.ev("unescaped parentheses"); } else if (r.chance(1, 4)) octal(true); else { out += '\\'; out += (char)ch; } continue;
                case '\\': if (r.chance(1, 3)) octal(true); else out += "\\\\"; continue;
                case '\n': switch (r.below(3)) { case 0: out += '\n'; if (out.size() > 1 && out[out.size() - 2] == '\r') { out.pop_back(); out += "\\n"; } break; case 1: octal(true); break; default: out += "\\n"; } continue;
                case '\r': if (r.chance(1, 3)) octal(true); else out += "\\r"; continue;
                case '\t': if (r.chance(1, 2)) { out += '\t'; continue; } out += r.chance(1, 2) ? "\\t" : "\\011"; continue;
                case '\b': out += r.chance(1, 2) ? "\\b" : "\\010"; continue;
                case '\f': out += r.chance(1, 2) ? "\\f" : "\\014"; continue;
                default: break;
            }
            if (r.chance(1, 10)) octal(nextDigit || r.chance(1, 2));
            else if (r.chance(1, 25) && isalpha(ch) && !strchr("nrtbf", ch)) { out += '\\'; out += (char)ch; c.ev("ignored backslashes"); }
            else out += (char)ch;
        }
        out += ')';
    }
    void name(const std::string& s)
    {
        out += '/';
        for (unsigned char ch : s)
        {
            bool must = ch < 33 || ch > 126 || strchr("#()<>[]{}/%", ch);
            // bytes above 126 may also stand for themselves
            if ((ch > 126 && r.chance(1, 2)) || (!must && !r.chance(1, 8))) out += (char)ch;
            else { char b[4]; snprintf(b, 4, r.chance(1, 2) ? "%02x" : "%02X", ch); out += '#'; out += b; c.ev("escaped name characters"); }
        }
    }
    void integer(int64_t v)
    {
        std::string s = std::to_string(v);
        bool neg = s[0] == '-'; if (neg) s = s.substr(1);
        if (r.chance(1, 8)) s = "0" + s;
        if (r.chance(1, 30)) s = "000" + s;
        out += neg ? "-" : r.chance(1, 8) ? (c.ev("numbers with a plus sign"), "+") : ""; out += s;
    }
    // spelling decides the value
    double real()
    {
        std::string i = r.chance(1, 3) ? "" : std::to_string(r.below(r.chance(1, 4) ? 1000000000 : 1000)), f = r.chance(1, 5) ? "" : "";
        size_t nf = r.below(8); for (size_t k = 0; k < nf; k++) f += (char)('0' + r.below(10));
        if (i.empty() && f.empty()) i = "0";
        if (r.chance(1, 8) && !i.empty()) i = "00" + i;
        std::string s = std::string(r.chance(1, 4) ? "-" : r.chance(1, 8) ? "+" : "") + i + "." + f;
        out += s; c.ev("reals");
        return strtod(s.c_str(), nullptr);
    }
    Val value(int depth)
    {
        unsigned k = (unsigned)r.below(depth > 0 ? 13 : 9);
        auto sepIf = [&]() { ws(needSep()); };
        switch (k)
        {
            case 0: sepIf(); out += "null"; return Val::null();
            case 1: { bool b = r.chance(1, 2); sepIf(); out += b ? "true" : "false"; return Val::boolean(b); }
            case 2: case 3: { int64_t v = genInt(r); sepIf(); integer(v); c.ev("integers"); return Val::integer(v); }
            case 4: { sepIf(); return Val::real(real()); }
            case 5: case 6: { ws(false); std::string s = genBytes(r, 25); bool h; str(s, h); Val v = Val::str(s, h); return v; }
            case 7: { ws(false); auto s = rawName(r); if (s.size() > 127) s.resize(127); name(s); c.ev("names"); if (s.empty()) { c.ev("empty names"); ws(true); } return Val::name(s); }
            case 8: if (!refs) return value(depth); { unsigned n = (unsigned)r.range(1, 8388607), g = (unsigned)(r.chance(1, 3) ? r.below(65536) : 0); sepIf(); out += std::to_string(n); ws(true); out += std::to_string(g); ws(true); out += "R"; c.ev("references"); return Val::ref(n, g); }
            case 9: case 10:
            {
                Val v = Val::arr(); ws(false); out += '['; size_t n = r.below(r.chance(1, 10) ? 30 : 6);
                for (size_t i = 0; i < n; i++) v.a.push_back(value(depth - 1));
                ws(false); out += ']'; c.ev("arrays"); return v;
            }
            default:
            {
                Val v = Val::dict(); ws(false); out += "<<"; size_t n = r.below(6);
                for (size_t i = 0; i < n; i++)
                {
                    std::string k = r.chance(1, 10) ? "Contents" : rawName(r); if (v.d.count(k)) continue;
                    ws(false); name(k);
                    // an empty name or a name must be separated from a regular character
                    if (k.empty()) ws(true);
                    v.d[k] = value(depth - 1);
                }
                ws(false); out += ">>"; c.ev("dictionaries"); return v;
            }
        }
    }
};

#endif
