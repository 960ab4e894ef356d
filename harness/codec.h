// Independent encoders and strict decoders of the standard stream filters (ISO 32000-1 7.4)
#ifndef CODEC_H
#define CODEC_H
#include "mon.h"
#include <zlib.h>
namespace codec {
struct Bad { std::string why; };

inline bool isWs(char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
inline std::string hexDecode(const std::string& s)
{
    std::string r; int hi = -1; size_t i = 0; bool eod = false;
    for (; i < s.size(); i++)
    {
        char c = s[i]; int v;
        if (isWs(c)) continue;
        if (c == '>') { eod = true; i++; break; }
        if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'f') v = c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = c - 'A' + 10; else throw Bad{ mon::cat("hex digit ", (int)(unsigned char)c) };
        if (hi < 0) hi = v; else { r += (char)(hi * 16 + v); hi = -1; }
    }
    if (!eod) throw Bad{ "no end of data marker" };
    if (hi >= 0) r += (char)(hi * 16);
    for (; i < s.size(); i++) if (!isWs(s[i])) throw Bad{ "data after the end marker" };
    return r;
}
inline std::string a85Decode(const std::string& s)
{
    std::string r; uint64_t t = 0; int n = 0; size_t i = 0; bool eod = false;
    for (; i < s.size(); i++)
    {
        char c = s[i];
        if (isWs(c)) continue;
        if (c == '~') { if (i + 1 >= s.size() || s[i + 1] != '>') throw Bad{ "broken end marker" }; eod = true; i += 2; break; }
        if (c == 'z') { if (n) throw Bad{ "z inside a group" }; r.append(4, 0); continue; }
        if (c < '!' || c > 'u') throw Bad{ mon::cat("character ", (int)(unsigned char)c) };
        t = t * 85 + (c - '!');
        if (++n == 5) { if (t >> 32) throw Bad{ "group too large" }; for (int k = 3; k >= 0; k--) r += (char)(t >> (8 * k)); t = 0; n = 0; }
    }
    if (!eod) throw Bad{ "no end of data marker" };
    if (n == 1) throw Bad{ "single character group" };
    if (n) { int m = n; for (; n < 5; n++) t = t * 85 + 84; if (t >> 32) throw Bad{ "group too large" }; for (int k = 0; k < m - 1; k++) r += (char)(t >> (24 - 8 * k)); }
    for (; i < s.size(); i++) if (!isWs(s[i])) throw Bad{ "data after the end marker" };
    return r;
}
inline std::string inflateAll(const std::string& s)
{
    z_stream z; memset(&z, 0, sizeof z); if (inflateInit(&z) != Z_OK) throw Bad{ "init" };
    z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size(); std::string r; char buf[32768]; int rc;
    do { z.next_out = (Bytef*)buf; z.avail_out = sizeof buf; rc = inflate(&z, Z_NO_FLUSH); r.append(buf, sizeof buf - z.avail_out); } while (rc == Z_OK);
    size_t left = z.avail_in; inflateEnd(&z);
    if (rc != Z_STREAM_END) throw Bad{ mon::cat("zlib result ", rc) };
    if (left) throw Bad{ "bytes after the compressed data" };
    return r;
}
inline std::string strictDecode(mm::PdfFilterType f, const std::string& s)
{
    switch (f) { case mm::PdfFilterType::ASCIIHexDecode: return hexDecode(s); case mm::PdfFilterType::ASCII85Decode: return a85Decode(s); case mm::PdfFilterType::FlateDecode: return inflateAll(s); default: throw Bad{ "?" }; }
}

// ---- encoders with all the freedom the standard leaves
inline void ws(mon::Rng& r, std::string& o, int oneIn) { if (oneIn && r.chance(1, oneIn)) o += mon::pickc(r, " \n\r\t\f\0"); }
inline std::string hexEncode(mon::Rng& r, const std::string& d)
{
    const char* lo = "0123456789abcdef"; const char* up = "0123456789ABCDEF"; std::string o; int mode = r.below(3), w = r.chance(1, 2) ? 0 : 1 + r.below(40);
    for (size_t i = 0; i < d.size(); i++)
    {
        unsigned char c = d[i]; auto dig = [&](int v) { return (mode == 0 || (mode == 2 && r.chance(1, 2)) ? lo : up)[v]; };
        o += dig(c >> 4); ws(r, o, w);
        if (i + 1 == d.size() && (c & 15) == 0 && r.chance(2, 3)) break; // odd number of digits
        o += dig(c & 15); ws(r, o, w);
    }
    o += '>'; if (r.chance(1, 3)) o += "\n"; if (r.chance(1, 8)) o += "zz41";
    return o;
}
inline std::string a85Encode(mon::Rng& r, const std::string& d)
{
    std::string o; int w = r.chance(1, 2) ? 0 : 1 + r.below(40); bool useZ = r.chance(4, 5);
    for (size_t i = 0; i < d.size(); i += 4)
    {
        size_t n = std::min<size_t>(4, d.size() - i); uint32_t v = 0; for (size_t k = 0; k < 4; k++) v = v << 8 | (k < n ? (unsigned char)d[i + k] : 0);
        if (n == 4 && v == 0 && useZ) { o += 'z'; ws(r, o, w); continue; }
        char b[5]; for (int k = 4; k >= 0; k--) { b[k] = '!' + v % 85; v /= 85; }
        for (size_t k = 0; k < n + 1; k++) { o += b[k]; ws(r, o, w); }
    }
    o += "~>"; if (r.chance(1, 3)) o += "\r\n"; if (r.chance(1, 8)) o += "!!!";
    return o;
}
inline std::string zEncode(mon::Rng& r, const std::string& d)
{
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, (int)r.below(10), Z_DEFLATED, 9 + (int)r.below(7), 1 + (int)r.below(9), r.chance(3, 4) ? Z_DEFAULT_STRATEGY : 1 + (int)r.below(4));
    std::string o; char buf[4096]; size_t at = 0; int mode = Z_NO_FLUSH;
    do
    {
        size_t n = r.chance(1, 2) ? d.size() - at : r.below(d.size() - at + 1); z.next_in = (Bytef*)d.data() + at; z.avail_in = (uInt)n; at += n;
        mode = at == d.size() ? Z_FINISH : r.chance(1, 3) ? Z_SYNC_FLUSH : r.chance(1, 4) ? Z_FULL_FLUSH : Z_NO_FLUSH;
        do { z.next_out = (Bytef*)buf; z.avail_out = sizeof buf; deflate(&z, mode); o.append(buf, sizeof buf - z.avail_out); } while (z.avail_out == 0);
    } while (mode != Z_FINISH);
    deflateEnd(&z); return o;
}
inline std::string rlEncode(mon::Rng& r, const std::string& d)
{
    std::string o; size_t i = 0;
    while (i < d.size())
    {
        size_t run = 1; while (i + run < d.size() && d[i + run] == d[i] && run < 128) run++;
        if (run >= 2 && r.chance(7, 8)) { if (r.chance(1, 4)) run = 2 + r.below(run - 1); o += (char)(257 - run); o += d[i]; i += run; }
        else { size_t n = 1 + r.below(r.chance(1, 3) ? 128 : 8); n = std::min(n, d.size() - i); o += (char)(n - 1); o.append(d, i, n); i += n; }
    }
    if (r.chance(7, 8)) { o += (char)128; if (r.chance(1, 4)) o += "\n"; }
    return o;
}
inline std::string lzwEncode(mon::Rng& r, const std::string& d, int early)
{
    std::string o; uint64_t acc = 0; int nb = 0;
    auto put = [&](unsigned code, int len) { acc = acc << len | code; nb += len; while (nb >= 8) { o += (char)(acc >> (nb - 8)); nb -= 8; } };
    std::map<std::pair<int, int>, int> tab; int next = 258, bits = 9; int cur = -1; bool clearEarly = r.chance(1, 4); int clearAt = clearEarly ? 258 + (int)r.below(3800) : 4096 - early - (int)r.below(3);
    if (r.chance(9, 10)) put(256, 9);
    // A table that is full may go on being used without a clear
    bool neverClear = !clearEarly && r.chance(1, 4);
    for (size_t i = 0; i < d.size(); i++)
    {
        int c = (unsigned char)d[i];
        if (cur < 0) { cur = c; continue; }
        auto it = tab.find({ cur, c });
        if (it != tab.end() && !r.chance(1, 500)) { cur = it->second; continue; }
        put(cur, bits);
        // the decoder adds its entry one code later than the encoder
        if (next < 4096) { if (it == tab.end()) tab[{cur, c}] = next; next++; }
        // bits used for the next code: the decoder will have next-1 entries when it reads it
        int decSize = next - 1; bits = 9; if (decSize + early >= 512) bits = 10; if (decSize + early >= 1024) bits = 11; if (decSize + early >= 2048) bits = 12;
        cur = c;
        if (next >= clearAt && !neverClear) { put(cur, bits); /* decoder adds its entry now */ decSize = std::min(next, 4096); bits = 9; if (decSize + early >= 512) bits = 10; if (decSize + early >= 1024) bits = 11; if (decSize + early >= 2048) bits = 12; put(256, bits); tab.clear(); next = 258; bits = 9; cur = -1; if (clearEarly) clearAt = 258 + (int)r.below(3800); }
    }
    if (cur >= 0) { put(cur, bits); if (next > 258 || true) { int decSize = std::min(next, 4096); if (next == 258) decSize = 258; bits = 9; if (decSize + early >= 512) bits = 10; if (decSize + early >= 1024) bits = 11; if (decSize + early >= 2048) bits = 12; } }
    put(257, bits); if (nb) put(0, 8 - nb);
    return o;
}
// rows of predicted data; returns encoded text for `data` (length a multiple of the row size)
struct Pred { int predictor = 1, colors = 1, bpc = 8, columns = 1; size_t row() const { return ((size_t)colors * bpc * columns + 7) / 8; } };
inline std::string predict(mon::Rng& r, const Pred& p, const std::string& d)
{
    size_t row = p.row(), bpp = std::max(1, (p.colors * p.bpc + 7) / 8); std::string o;
    if (p.predictor == 1) return d;
    std::string up(row, 0); int fixed = p.predictor >= 10 && p.predictor < 15 && r.chance(1, 2) ? p.predictor - 10 : -1;
    for (size_t at = 0; at < d.size(); at += row)
    {
        std::string cur = d.substr(at, row);
        if (p.predictor == 2)
        {
            std::string e = cur;
            if (p.bpc == 8) for (size_t i = p.colors; i < row; i++) e[i] = (char)(cur[i] - cur[i - p.colors]);
            else
            {   // bit by bit for the other depths
                auto get = [&](const std::string& s, size_t k) { uint32_t v = 0; for (int b = 0; b < p.bpc; b++) { size_t q = k * p.bpc + b; v = v << 1 | ((unsigned char)s[q / 8] >> (7 - q % 8) & 1); } return v; };
                auto set = [&](std::string& s, size_t k, uint32_t v) { for (int b = 0; b < p.bpc; b++) { size_t q = k * p.bpc + b; int bit = v >> (p.bpc - 1 - b) & 1; unsigned char& c = (unsigned char&)s[q / 8]; c = (c & ~(1 << (7 - q % 8))) | bit << (7 - q % 8); } };
                for (size_t k = p.colors; k < (size_t)p.columns * p.colors; k++) set(e, k, (get(cur, k) - get(cur, k - p.colors)) & ((1u << p.bpc) - 1));
            }
            o += e; continue;
        }
        int t = fixed >= 0 ? fixed : (int)r.below(5); o += (char)t;
        for (size_t i = 0; i < row; i++)
        {
            int a = i >= bpp ? (unsigned char)cur[i - bpp] : 0, b = (unsigned char)up[i], c = i >= bpp ? (unsigned char)up[i - bpp] : 0, x = (unsigned char)cur[i], pr = 0;
            if (t == 1) pr = a; else if (t == 2) pr = b; else if (t == 3) pr = (a + b) / 2;
            else if (t == 4) { int q = a + b - c, pa = abs(q - a), pb = abs(q - b), pc = abs(q - c); pr = pa <= pb && pa <= pc ? a : pb <= pc ? b : c; }
            o += (char)(x - pr);
        }
        up = cur;
    }
    return o;
}
}
#endif
