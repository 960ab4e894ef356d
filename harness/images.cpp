// C25: images keep their pixels, through raw data and independently encoded PNG, TIFF, JPEG and fax files.
#include "mon.h"
#include <zlib.h>
#include "model.h"
#include "raw.h"
#include <csetjmp>
#include <set>
#include <png.h>
#include <tiffio.h>
#include <jpeglib.h>
#include <pdfmm/base/PdfImage.h>
using namespace mon;
using namespace mm;
using std::string; using std::vector;
namespace {
const char* S(const string& s) { static std::set<string> names; return names.insert(s).first->c_str(); }
// what an image shows: colorants and alpha in [0,1]
struct Pic { unsigned w = 0, h = 0; int n = 3; vector<double> v; vector<double> alpha; };
string show(const Pic& p) { return cat(p.w, "x", p.h, "x", p.n, p.alpha.empty() ? "" : "+alpha"); }
//---- independent interpreter of image dictionaries
const PdfObject* key(const PdfObject& o, const char* k) { return o.GetDictionary().FindKey(k); }
long num(const PdfObject& o, const char* k, long d = -1) { auto p = key(o, k); if (!p) return d; int64_t v; return p->TryGetNumber(v) ? (long)v : d; }
string interpret(const PdfObject& img, Pic& out, int depth = 0)
{
    out = Pic(); long w = num(img, "Width"), h = num(img, "Height"), bpc = num(img, "BitsPerComponent");
    auto sub = key(img, "Subtype"); if (!sub || !sub->IsName() || sub->GetName().GetString() != "Image") return "no image subtype";
    auto ty = key(img, "Type"); if (ty && (!ty->IsName() || ty->GetName().GetString() != "XObject")) return "wrong type";
    if (w < 0 || h < 0) return "no size"; out.w = (unsigned)w; out.h = (unsigned)h;
    if (bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 && bpc != 16) return cat("bits per component ", bpc);
    if (!img.HasStream()) return "no stream";
    if (auto f = key(img, "Filter")) { string fs; if (f->IsName()) fs = f->GetName().GetString(); else if (f->IsArray()) for (auto& e : f->GetArray()) fs += e.GetName().GetString() + ";"; if (fs != "" && fs != "FlateDecode" && fs != "FlateDecode;") return "filter " + fs; }
    auto data = img.GetStream()->GetCopy();
    auto cs = key(img, "ColorSpace"); if (!cs) return "no colour space";
    string family; vector<double> table; long hival = -1; int n = 0;
    auto comps = [](const string& s) { return s == "DeviceGray" ? 1 : s == "DeviceRGB" ? 3 : s == "DeviceCMYK" ? 4 : 0; };
    if (cs->IsName()) { family = cs->GetName().GetString(); n = comps(family); out.n = n; if (!n) return "colour space " + family; }
    else if (cs->IsArray())
    {
        auto& a = cs->GetArray(); if (a.GetSize() != 4) return "colour space array of " + std::to_string(a.GetSize());
        auto f = a.FindAt(0), b = a.FindAt(1), hv = a.FindAt(2), l = a.FindAt(3);
        if (!f || !f->IsName() || f->GetName().GetString() != "Indexed") return "colour space array without Indexed"; if (!b || !b->IsName() || !comps(string(b->GetName().GetString()))) return "bad base";
        if (!hv || !hv->TryGetNumber(hival) || hival < 0 || hival > 255) return "bad highest index"; out.n = comps(string(b->GetName().GetString()));
        string tab; if (l && l->IsString()) tab = string(l->GetString().GetRawData()); else if (l && l->HasStream()) { auto c = l->GetStream()->GetCopy(); tab.assign(c.data(), c.size()); } else return "no lookup table";
        if (tab.size() != (size_t)((hival + 1) * out.n)) return cat("lookup table of ", tab.size(), " bytes for ", hival + 1, " colours");
        for (unsigned char ch : tab) table.push_back(ch / 255.0); n = 1; family = "Indexed";
    }
    else return "bad colour space";
    size_t row = ((size_t)w * n * bpc + 7) / 8; if (data.size() != row * h) return cat("data of ", data.size(), " bytes, needs ", row * h);
    double mx = std::pow(2.0, (double)bpc) - 1; vector<double> dec; for (int i = 0; i < n; i++) { dec.push_back(0); dec.push_back(family == "Indexed" ? mx : 1); }
    if (auto d = key(img, "Decode")) { if (!d->IsArray() || d->GetArray().GetSize() != dec.size()) return "bad decode array"; for (size_t i = 0; i < dec.size(); i++) dec[i] = d->GetArray().MustFindAt((unsigned)i).GetReal(); }
    for (long y = 0; y < h; y++) for (long x = 0; x < w; x++) for (int k = 0; k < n; k++)
    {
        size_t bit = (size_t)(x * n + k) * bpc; unsigned v = 0; for (int b = 0; b < bpc; b++, bit++) v = v << 1 | (((unsigned char)data[y * row + bit / 8] >> (7 - bit % 8)) & 1);
        double val = dec[2 * k] + v * (dec[2 * k + 1] - dec[2 * k]) / mx;
        if (family == "Indexed") { long i = std::min(std::max(0L, std::lround(val)), hival); for (int j = 0; j < out.n; j++) out.v.push_back(table[i * out.n + j]); }
        else out.v.push_back(std::min(1.0, std::max(0.0, val)));
    }
    if (auto sm = key(img, "SMask"))
    {
        if (depth) return "soft mask of a soft mask"; Pic m; string e = interpret(*sm, m, 1); if (!e.empty()) return "soft mask: " + e;
        if (m.n != 1 || m.w != out.w || m.h != out.h) return "soft mask is " + show(m); out.alpha = m.v;
    }
    return "";
}
string compare(const Pic& g, const Pic& w, double tol = 1e-6)
{
    if (g.w != w.w || g.h != w.h || g.n != w.n) return show(g) + ", expected " + show(w); if (g.alpha.empty() != w.alpha.empty()) return g.alpha.empty() ? "soft mask missing" : "unexpected soft mask";
    for (size_t i = 0; i < w.v.size(); i++) if (std::fabs(g.v[i] - w.v[i]) > tol) { size_t px = i / w.n; return cat("pixel ", px % w.w, ",", px / w.w, " component ", i % w.n, " is ", g.v[i], ", expected ", w.v[i]); }
    for (size_t i = 0; i < w.alpha.size(); i++) if (std::fabs(g.alpha[i] - w.alpha[i]) > tol) return cat("alpha of ", i % w.w, ",", i / w.w, " is ", g.alpha[i], ", expected ", w.alpha[i]);
    return "";
}
unsigned dim(Rng& r) { return r.chance(1, 12) ? 1 : r.chance(1, 12) ? 60 + r.below(200) : 1 + r.below(24); }
void setBits(string& row, size_t idx, int depth, unsigned v) { if (depth == 16) { row[idx * 2] = (char)(v >> 8); row[idx * 2 + 1] = (char)v; return; } size_t bit = idx * depth; for (int b = depth - 1; b >= 0; b--, bit++) { int m = 1 << (7 - bit % 8); if (v >> b & 1) row[bit / 8] |= m; else row[bit / 8] &= ~m; } }
unsigned sample(Rng& r, int depth, int style, unsigned x, unsigned y) { unsigned mx = (1u << depth) - 1; switch (style) { case 0: return r.below(mx + 1); case 1: return (x * 7 + y * 3) & mx; case 2: return r.chance(1, 2) ? 0 : mx; default: return (unsigned)(mx * (double)((x + y) % 40) / 39); } }
//---- PNG
void pngWrite(png_structp p, png_bytep d, png_size_t n) { ((string*)png_get_io_ptr(p))->append((char*)d, n); } void pngFlush(png_structp) { }
string makePng(Ctx& c, Pic& pic, string& kind)
{
    auto& r = c.rng; static const int types[] = { PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB_ALPHA };
    int t = types[r.below(5)]; static const int d1[] = { 1, 2, 4, 8, 16 }; int depth = t == PNG_COLOR_TYPE_GRAY ? d1[r.below(5)] : t == PNG_COLOR_TYPE_PALETTE ? d1[r.below(4)] : d1[3 + r.below(2)];
    unsigned w = dim(r), h = dim(r); int n = t == PNG_COLOR_TYPE_GRAY || t == PNG_COLOR_TYPE_PALETTE ? 1 : t == PNG_COLOR_TYPE_RGB ? 3 : t == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 4; bool inter = r.chance(1, 3), trns = n % 2 == 1 && r.chance(1, 2); int style = r.below(4);
    kind = cat("png type ", t, " depth ", depth, inter ? " interlaced" : "", trns ? " tRNS" : "");
    size_t rowLen = ((size_t)w * n * depth + 7) / 8; vector<string> rows(h, string(rowLen, '\0')); unsigned colours = 0; vector<png_color> pal; vector<png_byte> ptr;
    if (t == PNG_COLOR_TYPE_PALETTE) { colours = 1 + r.below(1u << depth); for (unsigned i = 0; i < colours; i++) { png_color k; k.red = r.below(256); k.green = r.below(256); k.blue = r.below(256); pal.push_back(k); } if (trns) { unsigned cnt = 1 + r.below(colours); for (unsigned i = 0; i < cnt; i++) ptr.push_back((png_byte)r.below(256)); } }
    vector<unsigned> s(w * h * n); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (int k = 0; k < n; k++) { unsigned v = sample(r, depth, style, x + k, y); if (colours) v %= colours; s[(y * w + x) * n + k] = v; setBits(rows[y], x * n + k, depth, v); }
    png_color_16 key16; memset(&key16, 0, sizeof key16); size_t kp = r.below(w * h);
    if (trns && !colours) { if (n == 1) key16.gray = s[kp]; else { key16.red = s[kp * 3]; key16.green = s[kp * 3 + 1]; key16.blue = s[kp * 3 + 2]; } }
    string out; auto p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); auto info = png_create_info_struct(p); if (setjmp(png_jmpbuf(p))) { fprintf(stderr, "harness: png\n"); abort(); }
    png_set_write_fn(p, &out, pngWrite, pngFlush); png_set_IHDR(p, info, w, h, depth, t, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE);
    if (colours) png_set_PLTE(p, info, pal.data(), (int)colours); if (trns) png_set_tRNS(p, info, ptr.empty() ? nullptr : ptr.data(), (int)ptr.size(), colours ? nullptr : &key16);
    if (r.chance(1, 3)) png_set_filter(p, 0, PNG_ALL_FILTERS); if (r.chance(1, 4)) png_set_compression_buffer_size(p, 100); if (r.chance(1, 5)) png_set_gAMA(p, info, 0.45); if (r.chance(1, 4)) png_set_compression_level(p, r.below(10));
    png_write_info(p, info); vector<png_bytep> ptrs; for (auto& q : rows) ptrs.push_back((png_bytep)q.data()); png_write_image(p, ptrs.data()); png_write_end(p, info); png_destroy_write_struct(&p, &info);
    pic.w = w; pic.h = h; pic.n = t == PNG_COLOR_TYPE_GRAY || t == PNG_COLOR_TYPE_GRAY_ALPHA ? 1 : 3; double mx = (1u << depth) - 1; bool alpha = trns || n == 2 || n == 4;
    auto val = [&](unsigned v) { return depth == 16 ? (v >> 8) / 255.0 : v / mx; }; // 16 bits are reduced to 8
    for (size_t i = 0; i < (size_t)w * h; i++)
    {
        double a = 1;
        if (colours) { auto& k = pal[s[i]]; pic.v.push_back(k.red / 255.0); pic.v.push_back(k.green / 255.0); pic.v.push_back(k.blue / 255.0); if (s[i] < ptr.size()) a = ptr[s[i]] / 255.0; }
        else { for (int k = 0; k < pic.n; k++) pic.v.push_back(val(s[i * n + k])); if (n % 2 == 0) a = val(s[i * n + n - 1]); else if (trns) a = n == 1 ? s[i] != key16.gray : !(s[i * 3] == key16.red && s[i * 3 + 1] == key16.green && s[i * 3 + 2] == key16.blue); }
        if (alpha) pic.alpha.push_back(a);
    }
    c.ev("PNG files"); c.ev(S(cat("PNG type ", t, " depth ", depth))); if (inter) c.ev("PNG files interlaced"); if (alpha) c.ev("PNG files with transparency"); return out;
}
//---- TIFF
struct Mem { string d; toff_t p = 0; };
tsize_t mRead(thandle_t h, tdata_t b, tsize_t n) { auto& m = *(Mem*)h; size_t k = m.p >= m.d.size() ? 0 : std::min((size_t)n, m.d.size() - (size_t)m.p); memcpy(b, m.d.data() + (k ? m.p : 0), k); m.p += k; return (tsize_t)k; }
tsize_t mWrite(thandle_t h, tdata_t b, tsize_t n) { auto& m = *(Mem*)h; if (m.d.size() < m.p + n) m.d.resize(m.p + n); memcpy(&m.d[m.p], b, n); m.p += n; return n; }
toff_t mSeek(thandle_t h, toff_t o, int w) { auto& m = *(Mem*)h; m.p = w == SEEK_SET ? o : w == SEEK_CUR ? m.p + o : m.d.size() + o; return m.p; }
int mClose(thandle_t) { return 0; } toff_t mSize(thandle_t h) { return ((Mem*)h)->d.size(); } int mMap(thandle_t, tdata_t*, toff_t*) { return 0; } void mUnmap(thandle_t, tdata_t, toff_t) { }
string makeTiff(Ctx& c, Pic& pic, string& kind, bool& supported)
{
    auto& r = c.rng; unsigned w = dim(r), h = dim(r); int ph = r.pick(vector<int>{ PHOTOMETRIC_MINISBLACK, PHOTOMETRIC_MINISWHITE, PHOTOMETRIC_RGB, PHOTOMETRIC_SEPARATED, PHOTOMETRIC_PALETTE }); int depth = 8, n = 1, style = r.below(4), extra = 0; supported = true; bool planar = false, tiled = false; int orient = ORIENTATION_TOPLEFT;
    if (ph == PHOTOMETRIC_MINISBLACK || ph == PHOTOMETRIC_MINISWHITE) depth = r.pick(vector<int>{ 1, 8, 16 }); else if (ph == PHOTOMETRIC_PALETTE) depth = r.pick(vector<int>{ 1, 2, 4, 8 }); else n = ph == PHOTOMETRIC_RGB ? 3 : 4;
    if (r.chance(1, 6)) // what the loader does not handle must be refused, or read right
    {
        switch (r.below(5))
        {
            case 0: if (ph <= 1) { depth = r.pick(vector<int>{ 2, 4 }); supported = false; } break;
            case 1: if (ph <= 2) { extra = 1; if (depth == 1) depth = 8; if (ph <= 1 && r.chance(1, 2)) depth = 8; supported = false; } break;
            case 2: if (n > 1) { planar = true; supported = false; } break;
            case 3: orient = r.pick(vector<int>{ ORIENTATION_TOPRIGHT, ORIENTATION_BOTLEFT, ORIENTATION_LEFTTOP }); supported = false; break;
            default: if (ph == PHOTOMETRIC_RGB) { depth = r.pick(vector<int>{ 4, 16 }); supported = false; } else { tiled = true; supported = false; } break;
        }
    }
    int spp = n + extra; const char* modes[] = { "w", "wl", "wb" }; string mode = modes[r.below(3)]; Mem m; auto t = TIFFClientOpen("m", mode.c_str(), (thandle_t)&m, mRead, mWrite, mSeek, mClose, mSize, mMap, mUnmap); if (!t) { fprintf(stderr, "harness: tiff\n"); abort(); }
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, h); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, depth); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, spp); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, ph); TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG);
    if (orient != ORIENTATION_TOPLEFT || r.chance(1, 2)) TIFFSetField(t, TIFFTAG_ORIENTATION, orient); if (r.chance(1, 4)) TIFFSetField(t, TIFFTAG_FILLORDER, FILLORDER_LSB2MSB); if (extra) { uint16_t e = EXTRASAMPLE_UNASSALPHA; TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &e); }
    int comp = r.pick(vector<int>{ COMPRESSION_NONE, COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_ADOBE_DEFLATE }); if (depth == 1 && ph <= 1 && r.chance(1, 2)) comp = r.pick(vector<int>{ COMPRESSION_CCITTFAX3, COMPRESSION_CCITTFAX4 }); TIFFSetField(t, TIFFTAG_COMPRESSION, comp);
    if ((comp == COMPRESSION_LZW || comp == COMPRESSION_ADOBE_DEFLATE) && (depth == 8 || depth == 16) && r.chance(1, 2)) TIFFSetField(t, TIFFTAG_PREDICTOR, PREDICTOR_HORIZONTAL);
    uint16_t cm[3][256]; if (ph == PHOTOMETRIC_PALETTE) { for (auto& q : cm) for (int i = 0; i < (1 << depth); i++) q[i] = (uint16_t)(r.below(256) * 257); TIFFSetField(t, TIFFTAG_COLORMAP, cm[0], cm[1], cm[2]); }
    if (r.chance(1, 3)) { TIFFSetField(t, TIFFTAG_XRESOLUTION, 72.0); TIFFSetField(t, TIFFTAG_YRESOLUTION, 72.0); TIFFSetField(t, TIFFTAG_RESOLUTIONUNIT, RESUNIT_INCH); }
    vector<unsigned> s((size_t)w * h * spp); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (int k = 0; k < spp; k++) s[((size_t)y * w + x) * spp + k] = sample(r, depth, style, x + k, y);
    if (tiled) { TIFFSetField(t, TIFFTAG_TILEWIDTH, 16); TIFFSetField(t, TIFFTAG_TILELENGTH, 16); string buf(TIFFTileSize(t), '\x55'); for (unsigned y = 0; y < h; y += 16) for (unsigned x = 0; x < w; x += 16) TIFFWriteTile(t, &buf[0], x, y, 0, 0); }
    else
    {
        TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, r.chance(1, 3) ? h : 1 + r.below(h)); int per = planar ? 1 : spp;
        for (int pl = 0; pl < (planar ? spp : 1); pl++) for (unsigned y = 0; y < h; y++)
        {
            string row(((size_t)w * per * depth + 7) / 8, '\0'); for (unsigned x = 0; x < w; x++) for (int k = 0; k < per; k++) { unsigned v = s[((size_t)y * w + x) * spp + (planar ? pl : k)]; if (depth == 16) { uint16_t q = (uint16_t)v; memcpy(&row[(x * per + k) * 2], &q, 2); } else setBits(row, x * per + k, depth, v); }
            if (TIFFWriteScanline(t, &row[0], y, (uint16_t)pl) < 0) { fprintf(stderr, "harness: tiff row\n"); abort(); }
        }
    }
    TIFFClose(t); kind = cat("tiff photometric ", ph, " depth ", depth, " samples ", spp, planar ? " planar" : "", tiled ? " tiled" : "", " orientation ", orient, " compression ", comp, " ", mode);
    pic.w = w; pic.h = h; pic.n = ph == PHOTOMETRIC_PALETTE ? 3 : n; double mx = (1u << depth) - 1;
    for (size_t i = 0; i < (size_t)w * h; i++) { if (ph == PHOTOMETRIC_PALETTE) for (auto& q : cm) pic.v.push_back(q[s[i * spp]] / 257 / 255.0); else for (int k = 0; k < n; k++) { double v = s[i * spp + k] / mx; pic.v.push_back(ph == PHOTOMETRIC_MINISWHITE ? 1 - v : v); } }
    c.ev("TIFF files"); c.ev(S(supported ? cat("TIFF photometric ", ph, " depth ", depth) : string("TIFF files of unsupported kinds"))); return m.d;
}
//---- JPEG
void jpegOut(Pic& pic, const string& d, int space, bool check = true)
{
    jpeg_decompress_struct x; jpeg_error_mgr e; x.err = jpeg_std_error(&e); jpeg_create_decompress(&x); jpeg_mem_src(&x, (const unsigned char*)d.data(), d.size()); jpeg_read_header(&x, TRUE); if (space >= 0) x.out_color_space = (J_COLOR_SPACE)space; jpeg_start_decompress(&x);
    pic.w = x.output_width; pic.h = x.output_height; pic.n = x.output_components; string row((size_t)pic.w * pic.n, '\0'); for (unsigned y = 0; y < pic.h; y++) { JSAMPROW p = (JSAMPROW)&row[0]; jpeg_read_scanlines(&x, &p, 1); for (unsigned char ch : row) pic.v.push_back(ch / 255.0); } jpeg_finish_decompress(&x); jpeg_destroy_decompress(&x); (void)check;
}
string makeJpeg(Ctx& c, Pic& pic, string& kind)
{
    auto& r = c.rng; unsigned w = dim(r), h = dim(r); int n = r.pick(vector<int>{ 1, 3, 3, 4 }), style = r.below(4); jpeg_compress_struct x; jpeg_error_mgr e; x.err = jpeg_std_error(&e); jpeg_create_compress(&x); unsigned char* out = nullptr; unsigned long len = 0; jpeg_mem_dest(&x, &out, &len);
    x.image_width = w; x.image_height = h; x.input_components = n; x.in_color_space = n == 1 ? JCS_GRAYSCALE : n == 3 ? JCS_RGB : JCS_CMYK; jpeg_set_defaults(&x); jpeg_set_quality(&x, 10 + (int)r.below(91), TRUE); bool prog = r.chance(1, 3), ycck = n == 4 && r.chance(1, 2); if (prog) jpeg_simple_progression(&x); if (ycck) jpeg_set_colorspace(&x, JCS_YCCK); bool rgb = n == 3 && r.chance(1, 5); if (rgb) jpeg_set_colorspace(&x, JCS_RGB); if (r.chance(1, 4)) x.restart_interval = 1 + r.below(5);
    jpeg_start_compress(&x, TRUE); if (r.chance(1, 4)) { string com = r.bytes(r.below(60)); jpeg_write_marker(&x, JPEG_COM, (const JOCTET*)com.data(), (unsigned)com.size()); }
    for (unsigned y = 0; y < h; y++) { string row; for (unsigned i = 0; i < w * n; i++) row += (char)sample(r, 8, style, i, y); JSAMPROW p = (JSAMPROW)&row[0]; jpeg_write_scanlines(&x, &p, 1); }
    jpeg_finish_compress(&x); string d((char*)out, len); free(out); jpeg_destroy_compress(&x); pic.w = w; pic.h = h; pic.n = n; kind = cat("jpeg of ", n, " components", prog ? " progressive" : "", ycck ? " YCCK" : "", rgb ? " RGB" : ""); c.ev("JPEG files"); c.ev(S(cat("JPEG files of ", n, " components"))); return d;
}
//---- fax data: strips written by libtiff
string makeFax(Ctx& c, Pic& pic, int& K, bool& byteAlign)
{
    auto& r = c.rng; unsigned w = dim(r), h = dim(r); int kind = r.below(3); K = kind == 0 ? 0 : kind == 1 ? 1 : -1; Mem m; auto t = TIFFClientOpen("m", "w", (thandle_t)&m, mRead, mWrite, mSeek, mClose, mSize, mMap, mUnmap);
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, h); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, 1); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, 1); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_MINISWHITE); TIFFSetField(t, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
    byteAlign = K == 0; TIFFSetField(t, TIFFTAG_COMPRESSION, K == 0 ? COMPRESSION_CCITTRLE : K > 0 ? COMPRESSION_CCITTFAX3 : COMPRESSION_CCITTFAX4); if (K > 0) TIFFSetField(t, TIFFTAG_GROUP3OPTIONS, GROUP3OPT_2DENCODING); TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, h); pic.w = w; pic.h = h; pic.n = 1; int style = r.below(4);
    for (unsigned y = 0; y < h; y++) { string row((w + 7) / 8, '\0'); for (unsigned x = 0; x < w; x++) { unsigned v = style == 3 ? (x / 5 + y / 3) & 1 : sample(r, 1, style, x / (style + 1), y); setBits(row, x, 1, v); pic.v.push_back(v ? 0 : 1); } TIFFWriteScanline(t, &row[0], y, 0); }
    TIFFClose(t); m.p = 0; t = TIFFClientOpen("m", "r", (thandle_t)&m, mRead, mWrite, mSeek, mClose, mSize, mMap, mUnmap); // libtiff's own encoder may err on rare rows
    for (unsigned y = 0; y < h; y++) { string row((w + 7) / 8, '\0'); TIFFReadScanline(t, &row[0], y, 0); for (unsigned x = 0; x < w; x++) if (((unsigned char)row[x / 8] >> (7 - x % 8) & 1) == (pic.v[(size_t)y * w + x] == 1)) { TIFFClose(t); pic = Pic(); c.ev("fax data not used"); return makeFax(c, pic, K, byteAlign); } }
    string d(TIFFRawStripSize(t, 0), '\0'); TIFFReadRawStrip(t, 0, &d[0], (tsize_t)d.size()); TIFFClose(t); return d;
}
//---- decoding through the library
const char* fmtName(PdfPixelFormat f) { switch (f) { case PdfPixelFormat::Grayscale: return "Grayscale"; case PdfPixelFormat::RGB24: return "RGB24"; case PdfPixelFormat::BGR24: return "BGR24"; case PdfPixelFormat::RGBA: return "RGBA"; default: return "BGRA"; } }
// want: may this image be decoded to the format, then the pixels must be these
void decode(Ctx& c, const PdfImage& img, const Pic& pic, bool supported, const string& ctx, const Pic* gray = nullptr)
{
    auto& r = c.rng; static const PdfPixelFormat fs[] = { PdfPixelFormat::Grayscale, PdfPixelFormat::RGB24, PdfPixelFormat::BGR24, PdfPixelFormat::RGBA, PdfPixelFormat::BGRA };
    for (auto f : fs)
    {
        if (r.chance(1, 2)) continue; int bpp = f == PdfPixelFormat::Grayscale ? 1 : f == PdfPixelFormat::RGB24 || f == PdfPixelFormat::BGR24 ? 3 : 4; size_t def = 4 * (((size_t)pic.w * bpp + 3) / 4), row = def; int arg = -1; bool small = false;
        if (r.chance(1, 3)) { arg = (int)(def + r.below(9)); row = arg; } else if (r.chance(1, 8) && (size_t)pic.w * bpp > 1) { arg = (int)r.below((unsigned)std::min<size_t>(pic.w * bpp, 4000)); small = true; }
        bool ok = supported && !small; const Pic* p = &pic; if (f == PdfPixelFormat::Grayscale && pic.n == 3) { if (gray) p = gray; else ok = false; }
        string what = cat(ctx, " decoded to ", fmtName(f), " row size ", arg); string out; int how = r.below(3); bool tight = false;
        try
        {
            if (how == 0) { charbuff b; if (r.chance(1, 3)) b.resize(r.below(50)); img.DecodeTo(b, f, arg); out.assign(b.data(), b.size()); }
            else if (how == 1) { tight = r.chance(1, 6) && row * pic.h > 1; charbuff b(row * pic.h - (tight ? 1 : 0)); img.DecodeTo(bufferspan(b.data(), b.size()), f, arg); out.assign(b.data(), b.size()); }
            else { StringStreamDevice d(out); img.DecodeTo(d, f, arg); }
        }
        catch (PdfError& e) { if (ok && !tight) c.die("decoding failed", what + ": " + string(e.what()) + " " + std::to_string((int)e.GetError())); c.ev("decodings refused"); continue; }
        if (tight) c.die("buffer too small accepted", what); if (small) c.die("row size too small accepted", what);
        if (!ok) c.die("unsupported image decoded", what + " gave " + std::to_string(out.size()) + " bytes");
        if (out.size() != row * pic.h) c.die("size of decoded image", cat(what, ": ", out.size(), " bytes, expected ", row * pic.h));
        for (unsigned y = 0; y < pic.h; y++) for (unsigned x = 0; x < pic.w; x++)
        {
            double e[4]; size_t i = (size_t)y * pic.w + x; if (p->n == 1) e[0] = e[1] = e[2] = p->v[i]; else for (int k = 0; k < 3; k++) e[k] = p->v[i * 3 + k]; e[3] = pic.alpha.empty() ? 1 : pic.alpha[i]; if (f == PdfPixelFormat::BGR24 || f == PdfPixelFormat::BGRA) std::swap(e[0], e[2]);
            for (int k = 0; k < bpp; k++) { int g = (unsigned char)out[y * row + x * bpp + k]; if (std::fabs(g / 255.0 - e[k]) > 0.5001 / 255) c.die("decoded pixel differs", cat(what, ": ", x, ",", y, " byte ", k, " is ", g, ", expected ", e[k] * 255)); }
        }
        c.ev("decodings compared"); c.ev(S(cat("decodings to ", fmtName(f))));
    }
}
void exported(Ctx& c, const PdfImage& img, const Pic& pic, const string& ctx)
{
    charbuff b; PdfArray args; args.Add(1.0); if (c.rng.chance(1, 4)) b.resize(10); img.ExportTo(b, PdfExportFormat::Jpeg, args); string d(b.data(), b.size()); if (d.size() < 4 || d.compare(0, 2, "\xff\xd8") || d.compare(d.size() - 2, 2, "\xff\xd9")) c.die("exported jpeg", "is not a whole file, " + ctx);
    Pic g; jpegOut(g, d, JCS_RGB); if (g.w != pic.w || g.h != pic.h) c.die("exported jpeg", show(g) + " of " + show(pic) + ", " + ctx); bool gray = true; for (size_t i = 0; pic.n == 3 && i < pic.v.size(); i += 3) gray = gray && pic.v[i] == pic.v[i + 1] && pic.v[i] == pic.v[i + 2];
    if (gray) for (size_t i = 0; i < (size_t)pic.w * pic.h * 3; i++) { double e = pic.n == 1 ? pic.v[i / 3] : pic.v[i]; if (std::fabs(g.v[i] - e) > 12 / 255.0) c.die("exported jpeg", cat("pixel ", i / 3, " is ", g.v[i], ", not ", e, ", ", ctx)); } c.ev("exported images"); if (gray) c.ev("exported gray images compared");
}
void run(Ctx& c)
{
    auto& r = c.rng; PdfMemDocument doc; auto& page = doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    struct Item { Pic pic; string kind, raw; bool stored = true, decodable = true; int n = 0; Pic rgb, gray; bool jpeg = false, fax = false; }; std::list<Item> items; vector<std::unique_ptr<PdfImage>> imgs;
    unsigned cnt = 1 + r.below(4);
    for (unsigned i = 0; i < cnt; i++)
    {
        imgs.push_back(doc.CreateImage()); auto& img = *imgs.back(); items.emplace_back(); auto* it = &items.back(); unsigned rounds = r.chance(1, 5) ? 2 : 1;
        for (unsigned k = 0; k < rounds; k++)
        {
            if (!it->pic.alpha.empty()) break; *it = Item(); if (k) c.ev("images set again"); string file, ext; bool supported = true; c.phase("setting");
            switch (r.below(6))
            {
                case 0: file = makePng(c, it->pic, it->kind); ext = r.chance(1, 3) ? ".PNG" : ".png"; it->decodable = it->kind.compare(0, 10, "png type 3") != 0; break;
                case 1: file = makeTiff(c, it->pic, it->kind, supported); ext = r.chance(1, 2) ? ".tif" : ".tiff"; { string k2 = it->kind; it->decodable = k2.find(" depth 8 ") != string::npos && (k2.find("photometric 0") != string::npos || k2.find("photometric 1") != string::npos || k2.find("photometric 2") != string::npos); } break;
                case 2: file = makeJpeg(c, it->pic, it->kind); ext = r.chance(1, 2) ? ".jpg" : ".jpeg"; it->jpeg = true; it->raw = file; it->n = it->pic.n; if (it->n == 4) it->decodable = false; else { jpegOut(it->gray, file, JCS_GRAYSCALE); jpegOut(it->rgb, file, it->n == 1 ? JCS_GRAYSCALE : JCS_RGB); it->pic = it->rgb; } break;
                case 3:
                {   // pixel arrays
                    unsigned w = dim(r), h = dim(r); auto f = r.pick(vector<PdfPixelFormat>{ PdfPixelFormat::Grayscale, PdfPixelFormat::RGB24, PdfPixelFormat::BGR24 }); int n = f == PdfPixelFormat::Grayscale ? 1 : 3; size_t def = 4 * (((size_t)w * n + 3) / 4), row = def; int arg = -1; if (r.chance(1, 2)) { arg = (int)(w * n + r.below(10)); row = arg; }
                    it->kind = cat("pixels ", fmtName(f), " ", w, "x", h, " row size ", arg); it->pic.w = w; it->pic.h = h; it->pic.n = n; string buf = r.bytes((unsigned)(row * h)); int style = r.below(4);
                    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { unsigned char v[3]; for (int q = 0; q < n; q++) { v[q] = (unsigned char)sample(r, 8, style, style == 3 ? x : x + q * 50, y); buf[y * row + x * n + q] = (char)v[q]; } if (f == PdfPixelFormat::BGR24) std::swap(v[0], v[2]); for (int q = 0; q < n; q++) it->pic.v.push_back(v[q] / 255.0); }
                    if (r.chance(1, 8))
                    {   // misuse is refused
                        bool threw = false; auto other = doc.CreateImage(); try { if (r.chance(1, 2)) { string shorter = buf.substr(0, r.below((unsigned)(w * n * h))); other->SetData(bufferview(shorter.data(), shorter.size()), w, h, f, arg); } else if (r.chance(1, 2)) other->SetData(bufferview(buf.data(), buf.size()), w, h, r.chance(1, 2) ? PdfPixelFormat::RGBA : PdfPixelFormat::BGRA); else other->SetData(bufferview(buf.data(), buf.size()), w, h, f, (int)r.below(w * n)); } catch (PdfError&) { threw = true; }
                        if (!threw) c.die("misuse accepted", it->kind); c.ev("misuses refused");
                    }
                    if (r.chance(1, 2)) img.SetData(bufferview(buf.data(), buf.size()), w, h, f, arg); else { SpanStreamDevice d(bufferview(buf.data(), buf.size())); img.SetData(d, w, h, f, arg); } c.ev("pixel arrays"); break;
                }
                case 4:
                {   // encoded data
                    unsigned w = dim(r), h = dim(r); int bpc = r.pick(vector<int>{ 1, 2, 4, 8, 8, 8, 16 }), n = r.pick(vector<int>{ 1, 3, 4 }); bool idx = bpc <= 8 && r.chance(1, 4); int comps = idx ? 1 : n; PdfImageInfo info; info.Width = w; info.Height = h; info.BitsPerComponent = (unsigned char)bpc; info.ColorSpace = n == 1 ? PdfColorSpace::DeviceGray : n == 3 ? PdfColorSpace::DeviceRGB : PdfColorSpace::DeviceCMYK;
                    string table; unsigned colours = 1 + r.below(1u << std::min(bpc, 8)); if (idx) { table = r.bytes(colours * n); PdfArray a; a.Add(PdfName("Indexed")); a.Add(PdfName(n == 1 ? "DeviceGray" : n == 3 ? "DeviceRGB" : "DeviceCMYK")); a.Add((int64_t)colours - 1); a.Add(PdfString::FromRaw(bufferview(table.data(), table.size()))); info.ColorSpaceArray = a; }
                    vector<double> dec; if (!idx && r.chance(1, 3)) { int sh = r.below(3); for (int q = 0; q < comps; q++) { double a = sh == 0 ? 1 : sh == 1 ? 0 : r.below(101) / 100.0, b = sh == 0 ? 0 : sh == 1 ? 1 : r.below(101) / 100.0; dec.push_back(a); dec.push_back(b); info.Decode.Add(a); info.Decode.Add(b); } }
                    size_t row = ((size_t)w * comps * bpc + 7) / 8; string buf(row * h, '\0'); it->pic.w = w; it->pic.h = h; it->pic.n = n; double mx = (1u << bpc) - 1; int style = r.below(4);
                    for (unsigned y = 0; y < h; y++) { string rw(row, '\0'); for (unsigned x = 0; x < w; x++) for (int q = 0; q < comps; q++) { unsigned v = sample(r, bpc, style, x + q * 50, y); if (idx) v %= colours; setBits(rw, x * comps + q, bpc, v); if (idx) for (int z = 0; z < n; z++) it->pic.v.push_back((unsigned char)table[v * n + z] / 255.0); else it->pic.v.push_back(dec.empty() ? v / mx : dec[2 * q] + v * (dec[2 * q + 1] - dec[2 * q]) / mx); } memcpy(&buf[y * row], rw.data(), row); }
                    it->kind = cat("data of ", comps, " components ", bpc, " bits", idx ? " indexed" : "", dec.empty() ? "" : " decode"); it->decodable = bpc == 8 && !idx && n != 4;
                    if (r.chance(1, 2)) img.SetDataRaw(bufferview(buf.data(), buf.size()), info); else { SpanStreamDevice d(bufferview(buf.data(), buf.size())); img.SetDataRaw(d, info); } c.ev("raw images"); if (!dec.empty()) c.ev("images with decode arrays"); break;
                }
                default:
                {
                    int K; bool align; string d = makeFax(c, it->pic, K, align); PdfImageInfo info; info.Width = it->pic.w; info.Height = it->pic.h; info.BitsPerComponent = 1; info.ColorSpace = PdfColorSpace::DeviceGray; info.Filters = { PdfFilterType::CCITTFaxDecode }; bool inv = r.chance(1, 4), b1 = r.chance(1, 3); if (inv) { info.Decode.Add((int64_t)1); info.Decode.Add((int64_t)0); }
                    img.SetDataRaw(bufferview(d.data(), d.size()), info); PdfDictionary parms; if (K != 0 || r.chance(1, 2)) parms.AddKey("K", (int64_t)K); parms.AddKey("Columns", (int64_t)it->pic.w); if (r.chance(1, 2)) parms.AddKey("Rows", (int64_t)it->pic.h); if (align) parms.AddKey("EncodedByteAlign", true); if (b1) parms.AddKey("BlackIs1", true); img.GetDictionary().AddKey("DecodeParms", parms);
                    if (inv != b1) for (auto& v : it->pic.v) v = 1 - v; it->raw = d; it->fax = true; it->kind = cat("fax K ", K, inv ? " inverted" : "", b1 ? " BlackIs1" : ""); c.ev("fax images"); c.ev(S(cat("fax images K ", K))); break;
                }
            }
            if (!file.empty())
            {
                c.phase("loading " + it->kind);
                try { if (r.chance(1, 2)) img.LoadFromBuffer(bufferview(file.data(), file.size())); else { string path = c.scratch + "/img" + ext; spill(path, file); img.LoadFromFile(path); c.ev("files read"); } if (!supported) { c.ev("unsupported files read"); } }
                catch (PdfError& e) { if (supported) c.die("loading failed", it->kind + ": " + e.what()); c.ev("unsupported files refused"); items.pop_back(); imgs.pop_back(); it = nullptr; break; }
            }
            if (r.chance(1, 6) && it->pic.alpha.empty() && !it->jpeg && it->decodable && k + 1 == rounds)
            {   // an explicit soft mask
                auto m = doc.CreateImage(); string mask = r.bytes(it->pic.w * it->pic.h); m->SetData(bufferview(mask.data(), mask.size()), it->pic.w, it->pic.h, PdfPixelFormat::Grayscale, (int)it->pic.w); img.SetSoftmask(*m); for (unsigned char v : mask) it->pic.alpha.push_back(v / 255.0); c.ev("soft masks");
            }
        }
        if (it) page.GetOrCreateResources().AddResource("XObject", cat("Im", items.size()), img.GetObject());
    }
    if (items.empty()) return;
    auto judge = [&](const PdfImage& img, const Item& it, const string& when) {
        string ctx = it.kind + " " + when; if (img.GetWidth() != it.pic.w || img.GetHeight() != it.pic.h) c.die("size", cat(img.GetWidth(), "x", img.GetHeight(), " of ", show(it.pic), ", ", ctx));
        auto& o = img.GetObject();
        if (it.jpeg || it.fax)
        {
            auto raw = o.MustGetStream().GetCopy(true); if (string(raw.data(), raw.size()) != it.raw) c.die("stored data differs", ctx); int n = it.jpeg ? it.n : 1;
            auto cs = key(o, "ColorSpace"); string want = n == 1 ? "DeviceGray" : n == 3 ? "DeviceRGB" : "DeviceCMYK"; if (!cs || !cs->IsName() || cs->GetName().GetString() != want) c.die("colour space", "not " + want + ", " + ctx);
            auto f = key(o, "Filter"); string fw = it.jpeg ? "DCTDecode" : "CCITTFaxDecode"; if (!f || !f->IsName() || f->GetName().GetString() != fw) c.die("filter", "not " + fw + ", " + ctx); if (num(o, "Width") != (long)it.pic.w || num(o, "Height") != (long)it.pic.h || num(o, "BitsPerComponent") != (it.fax ? 1 : 8)) c.die("image dictionary", ctx);
            if (it.jpeg && n != 4 && key(o, "Decode")) c.die("unexpected decode array", ctx); c.ev("stored files compared");
        }
        else { Pic g; string e = interpret(o, g); if (!e.empty()) c.die("image is invalid", e + ", " + ctx); e = compare(g, it.pic); if (!e.empty()) c.die("pixels differ", e + ", " + ctx); c.ev("images interpreted"); }
        PdfColorSpace want = it.pic.n == 1 ? PdfColorSpace::DeviceGray : it.pic.n == 3 ? PdfColorSpace::DeviceRGB : PdfColorSpace::DeviceCMYK; if (auto cs = key(o, "ColorSpace")) if (cs->IsArray()) want = PdfColorSpace::Indexed; if (img.GetColorSpace() != want) c.die("colour space reported", ctx);
        decode(c, img, it.pic, it.decodable, ctx, it.jpeg ? &it.gray : nullptr); if (it.decodable && r.chance(1, 4)) exported(c, img, it.pic, ctx);
    };
    c.phase("checking"); size_t i = 0; for (auto& it : items) judge(*imgs[i++], it, "in memory");
    c.phase("saving"); string s = saveDoc(doc, r); c.state(s); if (c.artefacts.size() && r.chance(1, 20)) spill(c.artefacts + cat("/", c.caseNo, ".pdf"), s);
    auto back = loadDoc(s); auto res = back->GetPages().GetPageAt(0).GetResources(); c.require(res != nullptr, "resources", "lost"); i = 0;
    for (auto& it : items)
    {
        auto o = res->GetResource("XObject", cat("Im", ++i)); if (!o) c.die("image lost", it.kind); std::unique_ptr<PdfImage> img; if (!PdfXObject::TryCreateFromObject(*const_cast<PdfObject*>(o), img)) c.die("image not recognised", it.kind); judge(*img, it, "after saving"); c.ev("saved images compared");
    }
}
}
// C02: hostile image files: no outcome but an image that can be decoded and saved, or PdfError
static string damaged(Rng& r, string s)
{
    static const unsigned v[] = { 0, 1, 2, 3, 4, 7, 8, 16, 17, 32, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xffffffffu };
    for (unsigned k = (unsigned)r.below(6); k; k--)
    {
        if (s.empty()) break; size_t at = r.chance(1, 2) ? r.below(std::min<size_t>(s.size(), 200)) : r.below(s.size()); unsigned m = (unsigned)r.below(9);
        if (m == 0) s[at] ^= (char)(1 << r.below(8)); else if (m == 1) s[at] = (char)r.next(); else if (m == 2) s.erase(at, 1 + r.below(20)); else if (m == 3) s.insert(at, s.substr(at, 1 + r.below(40))); else if (m == 4) s.resize(at); else if (m == 5) { unsigned x = v[r.below(19)]; for (unsigned i = 0; i < 2 && at + i < s.size(); i++) s[at + i] = (char)(x >> (r.chance(1, 2) ? 8 * i : 8 - 8 * i)); }
        else if (m == 6) { unsigned x = v[r.below(19)]; bool le = r.chance(1, 2); for (unsigned i = 0; i < 4 && at + i < s.size(); i++) s[at + i] = (char)(x >> (le ? 8 * i : 24 - 8 * i)); } else if (m == 7) s.insert(at, string(1 + r.below(10), (char)r.next()));
        else if (s.size() > 60 && s.compare(1, 3, "PNG") == 0) { size_t p = 8; unsigned skip = (unsigned)r.below(6); auto be = [&](size_t q) { return ((unsigned)(unsigned char)s[q] << 24) | ((unsigned)(unsigned char)s[q + 1] << 16) | ((unsigned)(unsigned char)s[q + 2] << 8) | (unsigned char)s[q + 3]; }; while (skip-- && p + 12 <= s.size() && be(p) < s.size() && p + 24 + be(p) <= s.size()) p += 12 + be(p); if (p + 12 <= s.size() && be(p) && be(p) < s.size() && p + 12 + be(p) <= s.size()) { unsigned n = be(p); s[p + 8 + r.below(n)] = (char)(r.chance(1, 2) ? r.below(20) : r.next()); unsigned x = (unsigned)crc32(0, (const Bytef*)s.data() + p + 4, n + 4); for (int i = 0; i < 4; i++) s[p + 8 + n + i] = (char)(x >> (24 - 8 * i)); } }
    }
    return s;
}
static void hostileImages(Ctx& c)
{
    auto& r = c.rng; string kind; Pic pic; bool sup; unsigned k = (unsigned)r.below(3); c.phase("make"); string f = damaged(r, k == 0 ? makePng(c, pic, kind) : k == 1 ? makeTiff(c, pic, kind, sup) : makeJpeg(c, pic, kind)); if (r.chance(1, 40)) f = (k == 0 ? f.substr(0, 8) : k == 1 ? "II*" + string(1, 0) : f.substr(0, 4)) + r.bytes(r.below(100));
    auto g = [&](const char* what, auto fn) { c.phase(what); try { fn(); c.ev(cat(what, " done").c_str()); return true; } catch (const PdfError& e) { (void)e.what(); c.ev(cat(what, " refused").c_str()); c.state(cat(what, " ", k, " ", (int)e.GetError())); return false; } };
    std::unique_ptr<char[]> exact(new char[f.size() ? f.size() : 1]); memcpy(exact.get(), f.data(), f.size()); PdfMemDocument d; auto img = d.CreateImage(); bool fromFile = r.chance(1, 4); string path = c.scratch + (k == 0 ? "/i.png" : k == 1 ? "/i.tif" : "/i.jpg"); if (fromFile) spill(path, f); c.state(kind);
    bool ok = g("image loaded", [&] { if (fromFile) img->LoadFromFile(path); else img->LoadFromBuffer(bufferview(exact.get(), f.size())); }); c.ev(cat("kinds ", k).c_str());
    if (!ok && r.chance(1, 2)) { string k2; Pic p2; string g2 = makePng(c, p2, k2); img->LoadFromBuffer(bufferview(g2.data(), g2.size())); ok = true; c.ev("images loaded after a refusal"); }
    if (ok) { for (auto pf : { PdfPixelFormat::RGB24, PdfPixelFormat::BGRA, PdfPixelFormat::RGBA, PdfPixelFormat::Grayscale, PdfPixelFormat::BGR24 }) g("image decoded", [&] { charbuff b; img->DecodeTo(b, pf); }); g("image exported", [&] { charbuff b; PdfArray a; a.Add(1.0); img->ExportTo(b, PdfExportFormat::Jpeg, a); }); }
    c.phase("saved"); auto& page = d.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4)); PdfPainter p; p.SetCanvas(page); if (ok) g("image drawn", [&] { p.DrawImage(*img, 1, 1); }); p.FinishDrawing(); string out = saveDoc(d, r); (void)loadDoc(out); c.ev("documents saved");
}
int main(int argc, char** argv) { TIFFSetErrorHandler(nullptr); TIFFSetWarningHandler(nullptr); modes()["c25"] = run; modes()["c02i"] = hostileImages; return mon::main(argc, argv, run); }
