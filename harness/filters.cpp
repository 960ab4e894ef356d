// C10: encode / decode round trips and stream object histories;  C11: data encoded independently
#include "mon.h"
#include "codec.h"
using namespace mon; using namespace mm; using std::string;
static string FilterToName(PdfFilterType t) { switch (t) { case PdfFilterType::ASCIIHexDecode: return "ASCIIHexDecode"; case PdfFilterType::ASCII85Decode: return "ASCII85Decode"; case PdfFilterType::FlateDecode: return "FlateDecode"; case PdfFilterType::LZWDecode: return "LZWDecode"; case PdfFilterType::RunLengthDecode: return "RunLengthDecode"; default: return "?"; } }

static string randData(Rng& r, size_t max)
{
    size_t n = r.chance(1, 12) ? 0 : r.chance(1, 3) ? r.below(24) : r.chance(1, 2) ? r.below(600) : r.below(max); string d;
    switch (r.below(6))
    {
        case 0: d = r.bytes(n); break;
        case 1: d.assign(n, (char)r.next()); break;
        case 2: d.assign(n, 0); for (size_t i = 0; i < n / 20; i++) d[r.below(n)] = (char)r.next(); break;
        case 3: while (d.size() < n) d += "0 0 m 10 20 l S BT /F1 12 Tf (text) Tj ET\n"; d.resize(n); break;
        case 4: while (d.size() < n) d.append(1 + r.below(300), (char)r.below(3)); d.resize(n); break;
        default: for (size_t i = 0; i < n; i++) d += (char)(128 + r.below(128)); break;
    }
    return d;
}
struct ChunkIn : InputStream
{
    string d; size_t at = 0; Rng r; bool lateEof;
    ChunkIn(const string& s, uint64_t seed) : d(s), r(seed) { lateEof = r.chance(1, 2); }
    size_t readBuffer(char* b, size_t n, bool& eof) override
    {
        size_t k = std::min(n, d.size() - at); if (k > 1 && r.chance(1, 2)) k = 1 + r.below(k);
        memcpy(b, d.data() + at, k); at += k; eof = lateEof ? k == 0 && at == d.size() : at == d.size(); return k;
    }
};
struct StrOut : OutputStream { string d; protected: void writeBuffer(const char* b, size_t n) override { d.append(b, n); } };

static string readChunks(Rng& r, InputStream& in, uint64_t* reads = nullptr)
{
    string o; bool eof = false; char ch; std::vector<char> buf(9000); int mode = r.below(4);
    for (;;)
    {
        if (reads) ++*reads;
        if (mode == 3 || (mode == 2 && r.chance(1, 8))) { if (!in.Read(ch)) break; o += ch; if (o.size() > (64u << 20)) throw Violation{ "endless", "reading does not end" }; continue; }
        size_t n = mode == 0 ? buf.size() : 1 + r.below(mode == 1 ? 17 : buf.size()); size_t got = in.Read(buf.data(), n, eof); o.append(buf.data(), got); if (eof) break;
        if (o.size() > (64u << 20)) throw Violation{ "endless", "reading does not end" };
    }
    return o;
}
static void writeChunks(Rng& r, OutputStream& out, const string& d)
{
    size_t at = 0; int mode = r.below(3);
    while (at < d.size()) { size_t n = mode == 0 ? d.size() - at : 1 + r.below(mode == 1 ? 9 : 5000); n = std::min(n, d.size() - at); if (n == 1 && r.chance(1, 2)) out.Write(d[at]); else out.Write(d.data() + at, n); at += n; if (r.chance(1, 20)) out.Write("", 0); }
}
static string firstDiff(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return cat("sizes ", a.size(), "/", b.size(), " differ at ", i, ": ", hex(a.substr(i, 12)), " / ", hex(b.substr(i, 12))); }
static string names(const PdfFilterList& l) { string s; for (auto f : l) { s += string(FilterToName(f)); s += ' '; } return s; }
static PdfFilterList randChain(Rng& r, unsigned max) { PdfFilterList l; unsigned n = 1 + r.below(max); while (l.size() < n) l.push_back(r.pick(std::vector<PdfFilterType>{ PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode, PdfFilterType::FlateDecode })); return l; }
static string indep(const PdfFilterList& l, string s, Ctx& c, const string& where)
{
    for (auto f : l) try { s = codec::strictDecode(f, s); } catch (codec::Bad& b) { c.die("encoded-invalid-" + string(FilterToName(f)), cat(where, " [", names(l), "]: ", b.why, " in ", vis(s, 80), " ... ", vis(s.size() > 40 ? s.substr(s.size() - 40) : s))); }
    return s;
}

static void pureFilters(Ctx& c)
{
    Rng& r = c.rng; string d = randData(r, c.thorough && r.chance(1, 20) ? 400000 : 30000);
    auto chain = randChain(r, 4);
    {   // one filter through its own interface
        auto f = PdfFilterFactory::Create(chain[0]); string nm(FilterToName(chain[0])); c.phase(nm); charbuff enc;
        if (r.chance(1, 2)) f->EncodeTo(enc, bufferview(d.data(), d.size()));
        else { StrOut so; f->BeginEncode(so); size_t at = 0; while (at < d.size()) { size_t n = 1 + r.below(std::min<size_t>(d.size() - at, 1 + r.below(7000))); f->EncodeBlock(bufferview(d.data() + at, n)); at += n; } f->EndEncode(); enc = charbuff(so.d); }
        string e(enc.data(), enc.size()), back = indep({ chain[0] }, e, c, "filter"); if (back != d) c.die("encode-" + nm, firstDiff(d, back));
        charbuff dec; string got;
        if (r.chance(1, 2)) { f->DecodeTo(dec, bufferview(e.data(), e.size()), nullptr); got.assign(dec.data(), dec.size()); }
        else { StrOut so; f->BeginDecode(so, nullptr); size_t at = 0; unsigned step = r.chance(1, 2) ? 1 : 1 + r.below(700); while (at < e.size()) { size_t n = std::min<size_t>(e.size() - at, 1 + r.below(step)); f->DecodeBlock(bufferview(e.data() + at, n)); at += n; } f->EndDecode(); got = so.d; c.ev("block decodes"); }
        if (got != d) c.die("decode-" + nm, firstDiff(d, got)); c.ev("filter round trips");
    }
    c.phase("chain " + names(chain)); auto so = std::make_shared<StrOut>();
    { auto es = PdfFilterFactory::CreateEncodeStream(so, chain); writeChunks(r, *es, d); }
    string e = so->d, back = indep(chain, e, c, "chain"); if (back != d) c.die("encode-chain", cat(names(chain), firstDiff(d, back)));
    uint64_t reads = 0; std::vector<const PdfDictionary*> parms(chain.size());
    auto in = PdfFilterFactory::CreateDecodeStream(std::make_shared<ChunkIn>(e, r.next()), chain, parms); string got = readChunks(r, *in, &reads);
    if (got != d) c.die("decode-chain", cat(names(chain), firstDiff(d, got)));
    c.ev("chain round trips"); c.ev("chunked reads", reads); c.ev("bytes round tripped", d.size()); c.state(cat(names(chain), std::min<size_t>(d.size() / 64, 100), " ", reads % 64));
}

// histories on stream objects: model is the plain data
struct SM { PdfObject* o; string data; PdfFilterList filters; };
static PdfFilterList dictFilters(PdfObject& o)
{
    auto f = o.GetDictionary().FindKey("Filter"); return f ? PdfFilterFactory::CreateFilterList(*f) : PdfFilterList();
}
static void streams(Ctx& c)
{
    Rng& r = c.rng; std::unique_ptr<PdfMemDocument> doc; std::vector<std::unique_ptr<PdfObject>> loose; std::vector<SM> v; string trace;
    bool inDoc = r.chance(3, 4); if (inDoc) doc.reset(new PdfMemDocument());
    auto add = [&]() { PdfObject* o; if (inDoc && r.chance(3, 4)) o = &doc->GetObjects().CreateDictionaryObject(); else { loose.emplace_back(new PdfObject(PdfDictionary())); o = loose.back().get(); } o->GetOrCreateStream(); v.push_back({ o, "", {} }); };
    add(); add(); add();
    auto check = [&](SM& m, const char* after) {
        auto& s = *m.o->GetStream(); charbuff b; string got;
        switch (r.below(4)) { case 0: s.CopyTo(b); got.assign(b.data(), b.size()); break; case 1: b = s.GetCopySafe(); got.assign(b.data(), b.size()); break; case 2: { auto in = s.GetInputStream(); got = readChunks(r, in); break; } default: { StrOut so; s.CopyTo(so); got = so.d; } }
        if (got != m.data) c.die("stream-data", cat("after ", after, ": ", firstDiff(m.data, got), " history ", trace));
        if (s.GetFilters() != m.filters) c.die("stream-filters", cat("after ", after, ": filters ", names(s.GetFilters()), "expected ", names(m.filters), " history ", trace));
        if (dictFilters(*m.o) != m.filters) c.die("filter-entry", cat("after ", after, ": Filter entry ", names(dictFilters(*m.o)), "expected ", names(m.filters), " history ", trace));
        string raw; { auto in = s.GetInputStream(true); raw = readChunks(r, in); }
        if (raw.size() != s.GetLength()) c.die("stream-length", cat("after ", after, ": ", raw.size(), " bytes but length ", s.GetLength()));
        if (indep(m.filters, raw, c, string("stream after ") + after) != m.data) c.die("stream-raw", cat("after ", after, " history ", trace));
        c.ev("stream checks");
    };
    unsigned steps = 4 + r.below(14);
    for (unsigned i = 0; i < steps; i++)
    {
        size_t k = r.below(v.size()); SM& m = v[k]; auto& s = m.o->GetOrCreateStream(); const char* op = "?"; size_t k2 = k;
        switch (r.below(13))
        {
            case 0: { op = "set"; string d = randData(r, 9000); trace += cat(" set", k); c.phase(trace); s.SetData(bufferview(d.data(), d.size())); m.data = d; m.filters = { PdfFilterType::FlateDecode }; break; }
            case 1: { op = "set raw"; string d = randData(r, 9000); trace += cat(" setraw", k); c.phase(trace); s.SetData(bufferview(d.data(), d.size()), true); m.data = d; m.filters = {}; break; }
            case 2: { op = "set filters"; string d = randData(r, 9000); auto f = randChain(r, 3); trace += cat(" setf", k, "[", names(f), "]"); c.phase(trace); s.SetData(bufferview(d.data(), d.size()), f); m.data = d; m.filters = f; break; }
            case 3: { op = "set from stream"; string d = randData(r, 20000); auto f = randChain(r, 3); trace += cat(" sets", k); c.phase(trace); ChunkIn in(d, r.next()); if (r.chance(1, 2)) { s.SetData(in, f); m.filters = f; } else { s.SetData(in); m.filters = { PdfFilterType::FlateDecode }; } m.data = d; break; }
            case 4: case 5: {
                op = "append"; string d = randData(r, 5000); trace += cat(" append", k); c.phase(trace);
                if (r.chance(1, 3)) { auto out = s.GetOutputStreamRaw(true); writeChunks(r, out, d); m.filters = {}; }
                else if (r.chance(1, 2)) { auto out = s.GetOutputStream(true); writeChunks(r, out, d); m.filters = { PdfFilterType::FlateDecode }; }
                else { auto f = randChain(r, 3); auto out = s.GetOutputStream(f, true); writeChunks(r, out, d); m.filters = f; }
                m.data += d; c.ev("appends"); break; }
            case 6: { op = "write"; string d = randData(r, 9000); trace += cat(" write", k); c.phase(trace);
                if (r.chance(1, 2)) { auto out = s.GetOutputStream(); if (r.chance(1, 3)) { PdfObjectOutputStream o2(std::move(out)); writeChunks(r, o2, d); c.ev("moved output streams"); } else writeChunks(r, out, d); m.filters = { PdfFilterType::FlateDecode }; }
                else { auto f = randChain(r, 3); auto out = s.GetOutputStream(f); writeChunks(r, out, d); m.filters = f; }
                m.data = d; break; }
            case 7: { op = "copy"; k2 = r.below(v.size()); trace += cat(" copy", k2, "to", k); c.phase(trace); s = *v[k2].o->GetStream(); m.data = v[k2].data; m.filters = v[k2].filters; c.ev("stream copies"); break; }
            case 8: { op = "move"; k2 = r.below(v.size()); if (k2 == k) continue; trace += cat(" move", k2, "to", k); c.phase(trace); s = std::move(*v[k2].o->GetStream()); m.data = v[k2].data; m.filters = v[k2].filters; v[k2].o->GetStream()->SetData(bufferview("x", 1), true); v[k2].data = "x"; v[k2].filters = {}; c.ev("stream moves"); break; }
            case 9: { op = "unwrap"; trace += cat(" unwrap", k); c.phase(trace); s.Unwrap(); m.filters = {}; c.ev("unwraps"); break; }
            case 10: { op = "object copy"; k2 = r.below(v.size()); if (k2 == k) continue; trace += cat(" ocopy", k2, "to", k); c.phase(trace); *m.o = *v[k2].o; m.data = v[k2].data; m.filters = v[k2].filters; break; }
            case 11: { op = "partial read"; trace += cat(" partial", k); c.phase(trace); { auto in = s.GetInputStream(); char b[64]; bool eof; size_t n = r.below(sizeof b) + 1; size_t got = in.Read(b, n, eof); if (string(b, got) != m.data.substr(0, got) || (got < n && got != m.data.size())) c.die("partial-read", trace); if (r.chance(1, 2)) { PdfObjectInputStream in2(std::move(in)); string rest = readChunks(r, in2); if (eof) rest = ""; if (!eof && m.data.substr(got) != rest) c.die("moved-input-stream", firstDiff(m.data.substr(got), rest)); c.ev("moved input streams"); } } break; }
            case 12: { op = "stale parms"; trace += cat(" parms", k); c.phase(trace); PdfDictionary p; p.AddKey("Predictor", PdfObject((int64_t)12)); p.AddKey("Columns", PdfObject((int64_t)3)); m.o->GetDictionary().AddKey("DecodeParms", p); string d = randData(r, 5000); s.SetData(bufferview(d.data(), d.size())); m.data = d; m.filters = { PdfFilterType::FlateDecode }; c.ev("data set over old parameters"); break; }
        }
        check(v[k], op); if (k2 != k) check(v[k2], op);
    }
    if (inDoc && r.chance(1, 2))
    {   // the filters recorded must describe the data for whoever reads the file
        c.phase(trace + " save"); string file; std::vector<std::pair<PdfReference, string>> want;
        for (auto& m : v) if (m.o->IsIndirect()) { want.push_back({ m.o->GetIndirectReference(), m.data }); doc->GetTrailer().GetDictionary().AddKey(PdfName(cat("S", want.size())), m.o->GetIndirectReference()); }
        { charbuff b; StringStreamDevice dev(b); doc->Save(dev, r.chance(1, 2) ? PdfSaveOptions::None : PdfSaveOptions::NoFlateCompress); file.assign(b.data(), b.size()); }
        PdfMemDocument d2; d2.LoadFromBuffer(bufferview(file.data(), file.size()));
        for (auto& w : want) { auto o = d2.GetObjects().GetObject(w.first); if (!o || !o->HasStream()) c.die("reload-lost", trace); string got; { auto in = o->GetStream()->GetInputStream(); got = readChunks(r, in); } if (got != w.second) c.die("reload-data", cat(firstDiff(w.second, got), trace)); c.ev("streams reloaded"); }
    }
    c.ev("stream histories"); c.state(trace); if (r.chance(1, 400)) c.sample(trace);
}

// ---- C11
struct Enc { string filters, parms, data, plain; bool unsupported = false, hasFilter = false; };
static string num(int v) { return std::to_string(v); }
static Enc makeEnc(Ctx& c)
{
    Rng& r = c.rng; Enc e; unsigned n = r.chance(1, 8) ? 0 : r.chance(3, 5) ? 1 : 2 + r.below(3); std::vector<string> fs, ps; string d = randData(r, c.thorough && r.chance(1, 20) ? 300000 : 20000); bool anyParm = false;
    e.plain = d; string cur;
    // built from the innermost filter outwards, so lists are filled back to front
    for (unsigned i = 0; i < n; i++)
    {
        string f, p = "null"; int kind = r.below(6);
        if (i == 0) cur = e.plain;
        switch (kind)
        {
            case 0: f = "ASCIIHexDecode"; cur = codec::hexEncode(r, cur); break;
            case 1: f = "ASCII85Decode"; cur = codec::a85Encode(r, cur); break;
            case 2: f = "RunLengthDecode"; cur = codec::rlEncode(r, cur); break;
            default:
            {
                bool lzw = kind == 3; f = lzw ? "LZWDecode" : "FlateDecode"; string q; int early = 1;
                codec::Pred pr;
                if (r.chance(1, 2) && i == 0)
                {
                    pr.predictor = r.pick(std::vector<int>{ 1, 2, 2, 10, 11, 12, 12, 13, 14, 15, 15 }); pr.colors = 1 + r.below(4); if (r.chance(1, 10)) pr.colors = 5 + r.below(6); pr.bpc = r.pick(std::vector<int>{ 1, 2, 4, 8, 8, 8, 16 }); pr.columns = 1 + r.below(r.chance(1, 2) ? 6 : 90);
                    if (pr.predictor == 2 && pr.bpc != 8) e.unsupported = true;
                    if (pr.predictor > 1) { size_t rows = cur.size() / pr.row(); cur.resize(rows * pr.row()); e.plain = cur; }
                    if (pr.predictor != 1 || r.chance(1, 2)) q += "/Predictor " + num(pr.predictor); if (pr.colors != 1 || r.chance(1, 2)) q += "/Colors " + num(pr.colors); if (pr.bpc != 8 || r.chance(1, 2)) q += "/BitsPerComponent " + num(pr.bpc); if (pr.columns != 1 || r.chance(1, 2)) q += "/Columns " + num(pr.columns);
                    c.ev(cat("predictor ", pr.predictor).c_str()); c.ev(cat("bits ", pr.bpc).c_str());
                    cur = codec::predict(r, pr, cur);
                }
                if (lzw && r.chance(1, 2)) { early = r.below(2); q += "/EarlyChange " + num(early); if (!early) c.ev("late change"); }
                cur = lzw ? codec::lzwEncode(r, cur, early) : codec::zEncode(r, cur);
                if (!q.empty()) { p = "<<" + q + ">>"; anyParm = true; }
            }
        }
        c.ev(("filter " + f).c_str());
        fs.insert(fs.begin(), f); ps.insert(ps.begin(), p);
    }
    if (n == 0) cur = e.plain;
    e.data = cur; e.hasFilter = n != 0;
    if (n == 1 && r.chance(2, 3)) { e.filters = "/" + fs[0]; if (anyParm) e.parms = r.chance(1, 3) ? "[" + ps[0] + "]" : ps[0]; else if (r.chance(1, 8)) e.parms = "null"; }
    else if (n || r.chance(1, 2)) { e.filters = "["; for (auto& f : fs) e.filters += "/" + f; e.filters += "]"; if (anyParm || r.chance(1, 4)) { e.parms = "["; for (auto& p : ps) e.parms += p + " "; e.parms += "]"; } }
    return e;
}
static void c11(Ctx& c)
{
    Rng& r = c.rng; std::vector<Enc> es; unsigned n = 1 + r.below(5); string file = "%PDF-1.7\n"; std::vector<size_t> off; string summary;
    auto obj = [&](const string& body) { off.push_back(file.size()); file += cat(off.size(), " 0 obj\n", body, "\nendobj\n"); };
    obj("<</Type/Catalog/Pages 2 0 R>>"); obj("<</Type/Pages/Count 0/Kids[]>>");
    for (unsigned i = 0; i < n; i++)
    {
        Enc e = makeEnc(c); string d = "<<"; bool ind = r.chance(1, 5);
        if (ind && !e.filters.empty()) { obj(e.filters); d += cat("/Filter ", off.size(), " 0 R"); } else if (!e.filters.empty()) d += "/Filter " + e.filters;
        if (!e.parms.empty()) { if (r.chance(1, 5)) { obj(e.parms); d += cat("/DecodeParms ", off.size(), " 0 R"); } else d += "/DecodeParms " + e.parms; }
        size_t lenObj = 0; if (r.chance(1, 4)) { obj(num((int)e.data.size())); lenObj = off.size(); }
        d += lenObj ? cat("/Length ", lenObj, " 0 R") : cat("/Length ", e.data.size()); d += ">>\nstream"; d += r.chance(1, 2) ? "\n" : "\r\n"; obj(d + e.data + (r.chance(2, 3) ? "\nendstream" : r.chance(1, 2) ? "\r\nendstream" : "endstream"));
        summary += e.filters + e.parms + " "; es.push_back(e); es.back().filters = cat(off.size()) ;
        es.back().parms = summary;
    }
    size_t x = file.size(); file += cat("xref\n0 ", off.size() + 1, "\n0000000000 65535 f \n"); for (auto o : off) { char b[32]; snprintf(b, 32, "%010zu 00000 n \n", o); file += b; } file += cat("trailer\n<</Size ", off.size() + 1, "/Root 1 0 R>>\nstartxref\n", x, "\n%%EOF\n");
    c.phase(summary); PdfMemDocument doc; doc.LoadFromBuffer(bufferview(file.data(), file.size()));
    for (auto& e : es)
    {
        auto o = doc.GetObjects().GetObject(PdfReference(std::stoul(e.filters), 0)); c.require(o && o->HasStream(), "not-loaded", summary);
        string raw; { charbuff b; o->GetStream()->CopyTo(b, true); raw.assign(b.data(), b.size()); } if (raw != e.data) c.die("raw-data", cat(summary, firstDiff(e.data, raw)));
        string got; uint64_t reads = 0;
        try { int how = r.below(3); if (how == 0) { charbuff b; o->GetStream()->CopyTo(b); got.assign(b.data(), b.size()); } else if (how == 1) { auto in = o->GetStream()->GetInputStream(); got = readChunks(r, in, &reads); } else { auto b = o->GetStream()->GetCopySafe(); got.assign(b.data(), b.size()); } }
        catch (PdfError& x) { if (e.unsupported) { c.ev("unsupported predictions refused"); continue; } c.die("refused", cat(e.parms, excText())); }
        if (got != e.plain) c.die("decoded-data", cat(e.parms, firstDiff(e.plain, got)));
        if (e.hasFilter && r.chance(1, 3)) { o->GetStream()->Unwrap(); charbuff b; o->GetStream()->CopyTo(b, true); if (string(b.data(), b.size()) != e.plain) c.die("unwrapped", e.parms); c.require(!o->GetDictionary().HasKey("Filter") && !o->GetDictionary().HasKey("DecodeParms"), "unwrapped-keys", e.parms); c.ev("unwraps"); }
        c.ev("streams decoded"); c.ev("bytes decoded", e.plain.size()); c.ev("chunked reads", reads); 
    }
    c.state(summary); if (r.chance(1, 300)) c.sample(summary);
}
static void c11chunks(Ctx& c)
{   // the same through the decode stream factory, the encoded bytes arriving in pieces
    Rng& r = c.rng; string d = randData(r, 20000), e; PdfFilterType t; PdfDictionary parms; bool have = false; codec::Pred pr;
    int k = r.below(5); if (k > 2 && r.chance(1, 2)) { pr.predictor = 10 + r.below(6); pr.colors = 1 + r.below(4); pr.bpc = r.pick(std::vector<int>{ 1, 2, 4, 8, 16 }); pr.columns = 1 + r.below(60); d.resize(d.size() / pr.row() * pr.row()); parms.AddKey("Predictor", PdfObject((int64_t)pr.predictor)); parms.AddKey("Colors", PdfObject((int64_t)pr.colors)); parms.AddKey("BitsPerComponent", PdfObject((int64_t)pr.bpc)); parms.AddKey("Columns", PdfObject((int64_t)pr.columns)); have = true; }
    string p = codec::predict(r, pr, d);
    switch (k) { case 0: t = PdfFilterType::ASCIIHexDecode; e = codec::hexEncode(r, p); break; case 1: t = PdfFilterType::ASCII85Decode; e = codec::a85Encode(r, p); break; case 2: t = PdfFilterType::RunLengthDecode; e = codec::rlEncode(r, p); break;
        case 3: { t = PdfFilterType::LZWDecode; int early = r.below(2); if (!early || r.chance(1, 2)) { parms.AddKey("EarlyChange", PdfObject((int64_t)early)); have = true; } e = codec::lzwEncode(r, p, have && parms.HasKey("EarlyChange") ? early : 1); break; } default: t = PdfFilterType::FlateDecode; e = codec::zEncode(r, p); }
    c.phase(string(FilterToName(t))); auto in = PdfFilterFactory::CreateDecodeStream(std::make_shared<ChunkIn>(e, r.next()), { t }, { have ? &parms : nullptr }); string got;
    try { got = readChunks(r, *in); } catch (PdfError&) { c.die("refused-chunks", cat(string(FilterToName(t)), excText())); }
    if (got != d) c.die("decoded-chunks", cat(string(FilterToName(t)), " ", firstDiff(d, got)));
    c.ev("pieces decoded"); 
}
static void c10(Ctx& c) { if (c.rng.chance(1, 2)) pureFilters(c); else streams(c); }
static void c11all(Ctx& c) { if (c.rng.chance(2, 3)) c11(c); else c11chunks(c); }
int main(int argc, char** argv) {  modes()["c10"] = c10; modes()["c11"] = c11all; return mon::main(argc, argv, c10); }
