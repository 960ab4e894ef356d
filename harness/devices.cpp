// C30: every device against a byte array with a cursor.
#include "mon.h"
#include <sstream>
#include <fstream>
#include <cerrno>
using namespace mon;
using namespace mm;
using std::string; using std::vector; using std::unique_ptr; using std::make_unique;

namespace {
struct Model { string data; size_t pos = 0; size_t cap = SIZE_MAX; bool rd = true, wr = true; };

struct Sink : OutputStream
{
    string out; size_t flushes = 0;
    void writeBuffer(const char* b, size_t n) override { out.append(b, n); }
    void flush() override { flushes++; }
};

template <class F> string attempt(F f)
{
    try { f(); return ""; } catch (const PdfError& e) { return string(PdfError::ErrorName(e.GetError())); }
}

string content(Rng& r)
{
    switch (r.below(6))
    {
        case 0: return "";
        case 1: return r.bytes(1);
        case 2: return r.bytes(r.below(40));
        case 3: return r.bytes(4090 + r.below(14));
        case 4: return string(r.below(3000), (char)0xFF);
        default: return r.bytes(r.below(20000));
    }
}
size_t amount(Rng& r, size_t len)
{
    switch (r.below(8))
    {
        case 0: return 0; case 1: return 1; case 2: return len; case 3: return len + 1; case 4: return 1 + r.below(8);
        case 5: return 4095 + r.below(3); default: return r.below(len + 3);
    }
}

enum Kind { KString, KVector, KBuffer, KConst, KSpanRW, KSpanR, KSpanW, KFile, KSStream, KIStream, KOStream, KFStream, KNull, KWriteOnly, KEND };
const char* kindNames[] = { "string", "vector", "buffer", "const container", "span", "read span", "write span", "file", "stringstream", "istringstream", "ostringstream", "fstream", "null", "write container" };

void opsOn(Ctx& c, StreamDevice& d, Model& m, Kind k, const string& name, unsigned nops, std::function<string()> actual)
{
    Rng& r = c.rng; string trace;
    bool isStd = k == KFile || k == KSStream || k == KIStream || k == KOStream || k == KFStream, isFile = k == KFile || k == KFStream;
    string last = "start"; bool shortRead = false;
    auto bad = [&](const string& key, const string& msg) { c.die(string(kindNames[k]) + ":" + key, name + ": " + msg + "; history:" + (trace.size() > 1500 ? trace.substr(trace.size() - 1500) : trace)); };
    auto checkState = [&]()
    {
        size_t p = d.GetPosition();
        if (p != m.pos) bad("position", cat("position ", p, " instead of ", m.pos));
        if (r.chance(1, 3)) { size_t l = d.GetLength(); if (l != m.data.size()) bad("length", cat("length ", l, " instead of ", m.data.size())); if (d.GetPosition() != m.pos) bad("length moves", "GetLength moved the cursor"); c.ev("lengths"); }
        bool e = d.Eof();
        if (e && m.pos != m.data.size()) bad("eof early", cat("Eof at ", m.pos, " of ", m.data.size()));
        if (!e && !isStd && m.pos == m.data.size()) bad("eof late", cat("no Eof at the end ", m.pos));
        if (!e && shortRead && m.pos == m.data.size()) bad("eof not set", "no Eof after reading to the end");
    };
    for (unsigned i = 0; i < nops; i++)
    {
        c.ev("operations");
        unsigned op = (unsigned)r.below(13); size_t rem = m.data.size() - m.pos; string e;
        switch (op)
        {
            case 0: case 1:
            {
                size_t n = amount(r, rem); if (n > 40000) n = 40000; vector<char> buf(n + 1, 'Z'); bool eof = false; size_t got = 0; trace += cat(" Read(", n, ",eof)");
                e = attempt([&] { got = d.Read(buf.data(), n, eof); });
                if (!m.rd) { if (e.empty()) bad("access", "read from a write-only device"); c.ev("access errors"); break; }
                if (!e.empty()) bad("read error", e);
                size_t want = std::min(n, rem);
                if (got != want) bad("read count", cat("read ", got, " instead of ", want));
                if (string(buf.data(), got) != m.data.substr(m.pos, got)) bad("read data", cat("other bytes than at ", m.pos));
                if (buf[got] != 'Z') bad("read overrun", "wrote after the bytes read");
                m.pos += got; if (eof != (m.pos == m.data.size())) bad("read eof", cat("eof=", eof, " at ", m.pos, " of ", m.data.size()));
                shortRead = eof; c.ev("reads"); c.ev("bytes compared", got); break;
            }
            case 2:
            {
                size_t n = amount(r, rem); if (n > 40000) n = 40000; vector<char> buf(n + 1, 'Z'); trace += cat(" Read(", n, ")");
                e = attempt([&] { d.Read(buf.data(), n); });
                if (!m.rd) { if (e.empty()) bad("access", "read from a write-only device"); c.ev("access errors"); break; }
                if ((n > rem) == e.empty()) bad("exact read", cat("reading ", n, " of ", rem, ": ", e));
                if (e.empty() && string(buf.data(), n) != m.data.substr(m.pos, n)) bad("read data", "exact read: other bytes");
                m.pos += std::min(n, rem); shortRead = m.pos == m.data.size() && (n > 0); c.ev("reads"); break;
            }
            case 3:
            {
                char ch = 'Z'; bool ok = false; trace += " Read(ch)";
                e = attempt([&] { ok = d.Read(ch); });
                if (!m.rd) { if (e.empty()) bad("access", "read from a write-only device"); break; }
                if (!e.empty() || ok != (rem > 0)) bad("read char", e + cat(ok, " with ", rem, " left"));
                if (ok) { if (ch != m.data[m.pos]) bad("read char data", cat("at ", m.pos)); m.pos++; shortRead = false; } else shortRead = true;
                c.ev("single reads"); break;
            }
            case 4:
            {
                char ch = 'Z'; trace += " ReadChar";
                e = attempt([&] { ch = d.ReadChar(); });
                if (!m.rd) { if (e.empty()) bad("access", "read from a write-only device"); break; }
                if (e.empty() != (rem > 0)) bad("ReadChar", e + cat(" with ", rem, " left"));
                if (e.empty()) { if (ch != m.data[m.pos]) bad("read char data", cat("at ", m.pos)); m.pos++; shortRead = false; } else shortRead = true;
                c.ev("single reads"); break;
            }
            case 5:
            {
                char ch = 'Z'; bool ok = false; trace += " Peek";
                e = attempt([&] { ok = d.Peek(ch); });
                if (!m.rd) { if (e.empty()) bad("access", "peek in a write-only device"); break; }
                if (!e.empty() || ok != (rem > 0)) bad("peek", e + cat(ok, " with ", rem, " left"));
                if (ok && ch != m.data[m.pos]) bad("peek data", cat("at ", m.pos));
                if (!ok) shortRead = true;
                c.ev("peeks"); break;
            }
            case 6: case 7:
            {
                string s = r.chance(1, 4) ? content(r) : r.bytes(amount(r, std::min<size_t>(rem, 3000))); unsigned how = (unsigned)r.below(3); if (how == 2) s = r.bytes(1);
                trace += cat(" Write(", s.size(), ")");
                e = attempt([&] { if (how == 0) d.Write(s); else if (how == 1) d.Write(s.data(), s.size()); else d.Write(s[0]); });
                if (!m.wr) { if (!s.empty() && e.empty()) bad("access", "wrote to a read-only device"); c.ev("access errors"); break; }
                bool fits = m.pos + s.size() <= m.cap;
                if (fits != e.empty()) bad("write", fits ? "refused: " + e : string("accepted outside the span"));
                if (fits && !s.empty())
                {
                    if (m.data.size() < m.pos + s.size()) m.data.resize(m.pos + s.size());
                    if (k != KNull) m.data.replace(m.pos, s.size(), s);
                    else m.data.replace(m.pos, s.size(), string(s.size(), 0));
                    m.pos += s.size(); shortRead = false; c.ev("writes"); c.ev("bytes written", s.size());
                }
                else if (!fits) c.ev("writes refused");
                break;
            }
            case 8: case 9: case 10:
            {
                int dir = (int)r.below(3); int64_t len = (int64_t)m.data.size(), p = (int64_t)m.pos, off; bool plain = false;
                int64_t lo = dir == 0 ? 0 : dir == 1 ? -p : -len, hi = dir == 0 ? len : dir == 1 ? len - p : 0;
                switch (r.below(8))
                {
                    case 0: off = lo; break; case 1: off = hi; break; case 2: off = lo - 1 - (int64_t)r.below(5); break; case 3: off = hi + 1 + (int64_t)r.below(5); break;
                    case 4: off = r.chance(1, 2) ? INT64_MIN : INT64_MAX; if (r.chance(1, 3)) off = r.chance(1, 2) ? INT64_MIN + 1 : INT64_MAX - 3; break;
                    default: off = r.range(lo, hi);
                }
                bool valid = off >= lo && off <= hi;
                if (isFile && off > hi) { i--; c.ev("positions beyond the end of a file skipped"); break; }
                if (dir == 0 && off >= 0 && r.chance(1, 2)) plain = true;
                trace += cat(" Seek(", off, ",", dir, ")");
                e = attempt([&] { if (plain) d.Seek((size_t)off); else d.Seek((ssize_t)off, (SeekDirection)dir); });
                if (k == KNull) { if (e.empty()) bad("seek", "an unseekable device moved"); break; }
                if (valid != e.empty()) bad(valid ? "seek refused" : "seek accepted", cat("Seek(", off, ",", dir, ") from ", p, " of ", len, ": ", e));
                if (valid) { m.pos = (size_t)(dir == 0 ? off : dir == 1 ? p + off : len + off); if (off != 0 || dir != 1) shortRead = false; c.ev("seeks"); } else c.ev("seeks refused");
                shortRead = false;
                break;
            }
            case 11:
            {
                Sink s; bool all = r.chance(1, 2); size_t n = amount(r, rem); trace += all ? string(" CopyTo()") : cat(" CopyTo(", n, ")");
                e = attempt([&] { if (all) d.CopyTo(s); else d.CopyTo(s, n); });
                if (!m.rd) { if (e.empty()) bad("access", "copied from a write-only device"); if (!s.out.empty()) bad("access", "copied bytes"); c.ev("access errors"); break; }
                if (!e.empty()) bad("copy", e);
                size_t want = all ? rem : std::min(n, rem);
                if (s.out != m.data.substr(m.pos, want)) bad("copy data", cat("copied ", s.out.size(), " instead of ", want));
                m.pos += want; shortRead = m.pos == m.data.size() && (all || n > 0); c.ev("copies"); break;
            }
            default: trace += " Flush"; e = attempt([&] { d.Flush(); }); if (!e.empty() && m.wr) bad("flush", e); break;
        }
        checkState();
        if (r.chance(1, 6) && (op == 6 || op == 7 || r.chance(1, 4)))
        {
            if (isFile && m.wr) d.Flush();
            string a = actual(); if (a != m.data) { size_t x = 0; while (x < a.size() && x < m.data.size() && a[x] == m.data[x]) x++; bad("content", cat("the store holds ", a.size(), " bytes instead of ", m.data.size(), ", first difference at ", x)); }
            c.ev("stores compared");
        }
        c.state(cat((int)k, "|", op, "|", last, "|", m.pos == 0, m.pos == m.data.size(), m.data.empty(), "|", e));
        last = cat(op, e);
    }
    if (isFile && m.wr) d.Flush();
    if (actual() != m.data) bad("content", "the store differs at the end");
    c.ev("histories"); c.ev(("kind " + string(kindNames[k])).c_str());
}

void canvas(Ctx& c)
{
    Rng& r = c.rng; PdfMemDocument made, doc;
    PdfPage& page0 = made.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    string want; bool any = false;
    auto& pd = page0.GetObject().GetDictionary(); pd.RemoveKey("Contents");
    unsigned n = (unsigned)r.below(6); bool single = n == 1 && r.chance(1, 2);
    PdfArray arr;
    for (unsigned i = 0; i < n; i++)
    {
        string s = content(r); if (r.chance(1, 4)) s.clear();
        if (!single && r.chance(1, 8)) { arr.Add(PdfReference(900 + i, 0)); continue; }
        auto& o = made.GetObjects().CreateDictionaryObject(); o.GetOrCreateStream().SetData(bufferview(s.data(), s.size()));
        if (single) pd.AddKeyIndirect("Contents", o); else arr.Add(PdfObject(o.GetIndirectReference()));
        if (!s.empty()) { if (any) want += '\n'; want += s; any = true; }
    }
    if (!single && (n || r.chance(1, 2))) pd.AddKey("Contents", arr);
    charbuff saved; { StringStreamDevice out(saved); made.Save(out); } doc.LoadFromBuffer(saved); PdfPage& page = doc.GetPages().GetPageAt(0);
    PdfCanvasInputDevice d(page); size_t pos = 0; string trace;
    auto bad = [&](const string& key, const string& msg) { c.die("page contents:" + key, msg + trace + cat(" of ", want.size(), " bytes in ", n, " streams at ", pos)); };
    bool stop = false;
    for (unsigned i = 0; i < 400 && !stop; i++)
    {
        size_t rem = want.size() - pos; c.ev("operations");
        unsigned op = (unsigned)r.below(6);
        switch (op)
        {
            case 0: { char ch; bool ok = d.Peek(ch); trace += " peek"; if (ok != (rem > 0)) bad("peek", "end"); if (ok && ch != want[pos]) bad("peek", "other byte"); break; }
            case 1: { char ch; bool ok = d.Read(ch); trace += " readch"; if (ok != (rem > 0)) bad("read char", "end"); if (ok) { if (ch != want[pos]) bad("read char", "other byte"); pos++; } break; }
            case 2: case 3:
            {
                size_t k = amount(r, rem); if (k > 40000) k = 40000; vector<char> b(k + 1, 'Z'); bool eof = false; trace += cat(" read", k); size_t g = d.Read(b.data(), k, eof);
                if (g != std::min(k, rem)) bad("read count", cat("read ", g)); if (string(b.data(), g) != want.substr(pos, g)) bad("read data", "other bytes"); if (b[g] != 'Z') bad("read overrun", "");
                pos += g; if (eof && pos != want.size()) bad("eof early", ""); if (k > rem && !eof) bad("eof late", ""); break;
            }
            case 4: if (r.chance(1, 20)) { Sink s; d.CopyTo(s); trace += " copy"; if (s.out != want.substr(pos)) bad("copy", cat("copied ", s.out.size())); pos = want.size(); stop = true; } break;
            case 5: { size_t k = amount(r, rem); Sink s; d.CopyTo(s, k); trace += cat(" copy", k); if (s.out != want.substr(pos, k)) bad("copy", cat("copied ", s.out.size())); pos += s.out.size(); break; }
        }
        if (d.Eof() && pos != want.size()) bad("eof early", "Eof");
        c.state(cat("canvas", op, pos == want.size(), any, n));
        if (pos == want.size() && r.chance(1, 8)) stop = true;
    }
    string tail; char ch; while (d.Read(ch)) tail += ch;
    if (tail != want.substr(pos)) bad("tail", cat("left ", tail.size()));
    c.ev("page contents read"); c.ev("histories");
}

void files(Ctx& c)
{
    Rng& r = c.rng; string path = c.scratch + "/dev.bin"; unlink(path.c_str());
    bool exists = r.chance(2, 3); string before = exists ? content(r) : ""; if (exists) spit(path, before);
    FileMode mode = (FileMode)(1 + r.below(6)); DeviceAccess acc = (DeviceAccess)(1 + r.below(3)); bool deflt = r.chance(1, 4), deflt2 = r.chance(1, 6);
    if (deflt) acc = mode == FileMode::Append ? DeviceAccess::Write : DeviceAccess::ReadWrite;
    if (deflt2) { deflt = false; mode = FileMode::Open; acc = DeviceAccess::Read; }
    bool readOnly = acc == DeviceAccess::Read, ok; string now = before;
    switch (mode)
    {
        case FileMode::CreateNew: ok = !readOnly && !exists; now = ""; break;
        case FileMode::Create: ok = !readOnly; now = ""; break;
        case FileMode::Open: ok = exists; break;
        case FileMode::OpenOrCreate: ok = !readOnly; break;
        case FileMode::Truncate: ok = !readOnly && exists; now = ""; break;
        default: ok = acc == DeviceAccess::Write && exists; break;
    }
    string name = cat("file mode ", (int)mode, " access ", (int)acc, exists ? " existing" : " missing");
    unique_ptr<FileStreamDevice> d; string e;
    e = attempt([&] { if (deflt2) d = make_unique<FileStreamDevice>(path); else if (deflt) d = make_unique<FileStreamDevice>(path, mode); else d = make_unique<FileStreamDevice>(path, mode, acc); });
    c.state(name + e); c.ev("files opened");
    if (e.empty() != ok) c.die("file:open mode", name + (ok ? ": refused " + e : string(": accepted")));
    if (!ok)
    {
        c.ev("opens refused");
        bool there = access(path.c_str(), F_OK) == 0;
        if (there != exists || slurp(path) != before) c.die("file:refused open", name + ": changed the file");
        return;
    }
    Model m; m.data = now; m.rd = (acc & DeviceAccess::Read) != DeviceAccess{}; m.wr = (acc & DeviceAccess::Write) != DeviceAccess{}; if (mode == FileMode::Append) m.pos = now.size();
    if (slurp(path) != now) c.die("file:open content", name + cat(": holds ", slurp(path).size(), " bytes instead of ", now.size()));
    c.require(d->GetPosition() == m.pos && d->GetLength() == m.data.size(), "file:open position", name + cat(": position ", d->GetPosition(), " length ", d->GetLength()));
    opsOn(c, *d, m, KFile, name, 40 + (unsigned)r.below(120), [&] { return slurp(path); });
    bool closed = r.chance(1, 2); if (closed) d->Close();
    d.reset();
    if (slurp(path) != m.data) c.die("file:content after close", name);
    unlink(path.c_str());
}

void text(Ctx& c)
{
    // the string stream: appended text, clearing, taking, formatting of reals
    Rng& r = c.rng; PdfStringStream s; string want; unsigned prec = s.GetPrecision();
    for (int i = 0; i < 60; i++)
    {
        c.ev("operations");
        switch (r.below(8))
        {
            case 0: { string t = content(r); s << std::string_view(t); want += t; break; }
            case 1: { int v = (int)r.next(); s << v; want += std::to_string(v); break; }
            case 2: { char ch = (char)r.next(); s << ch; want += ch; break; }
            case 3: s.Clear(); want.clear(); c.ev("string stream cleared"); break;
            case 4: { string t = s.TakeString(); if (t != want) c.die("string stream:take", vis(t, 80)); want.clear(); break; }
            case 5: prec = (unsigned)r.below(10); s.SetPrecision((unsigned short)prec); if (s.GetPrecision() != prec) c.die("string stream:precision", ""); break;
            case 6:
            {
                double v = (double)r.range(-1000000, 1000000) / std::pow(10, r.below(7)); size_t at = s.GetString().size(); if (r.chance(1, 2)) s << v; else { v = (float)v; s << (float)v; }
                string t(s.GetString().substr(at)); char* end; double back = strtod(t.c_str(), &end);
                if (t.empty() || *end || t.find_first_of("eE+ ") != string::npos) c.die("string stream:real", fmtd(v) + " written as " + t);
                if (std::fabs(back - v) > 0.5000001 * std::pow(10, -(double)prec) + 1e-15 * std::fabs(v)) c.die("string stream:real value", fmtd(v) + " written as " + t + cat(" with precision ", prec));
                want += t; c.ev("reals written"); break;
            }
            default: if (s.GetString() != want || s.GetSize() != want.size()) c.die("string stream:content", cat(s.GetSize(), " instead of ", want.size()));
        }
    }
    if (s.GetString() != want) c.die("string stream:content", "at the end");
    c.ev("histories"); c.state(cat("text", want.size() / 100));
}

void c30(Ctx& c)
{
    Rng& r = c.rng;
    unsigned w = (unsigned)r.below(20);
    if (w < 3) return canvas(c);
    if (w < 7) return files(c);
    if (w < 8) return text(c);
    Kind k = (Kind)r.below(KEND); if (k == KFile) k = KSStream;
    Model m; m.data = content(r); unsigned n = 30 + (unsigned)r.below(150); string name = kindNames[k]; c.phase(name);
    switch (k)
    {
        case KString: { string s = m.data; bool ate = true; unique_ptr<StringStreamDevice> d; if (r.chance(1, 2)) d = make_unique<StringStreamDevice>(s); else { ate = r.chance(1, 2); d = make_unique<StringStreamDevice>(s, DeviceAccess::ReadWrite, ate); } if (ate) m.pos = s.size(); opsOn(c, *d, m, k, name, n, [&] { return s; }); break; }
        case KVector: { vector<char> s(m.data.begin(), m.data.end()); VectorStreamDevice d(s); m.pos = s.size(); opsOn(c, d, m, k, name, n, [&] { return string(s.begin(), s.end()); }); break; }
        case KBuffer: { charbuff s(m.data); BufferStreamDevice d(s); m.pos = s.size(); opsOn(c, d, m, k, name, n, [&] { return string(s.data(), s.size()); }); break; }
        case KConst: { const string s = m.data; StringStreamDevice d(s); m.wr = false; opsOn(c, d, m, k, name, n, [&] { return s; }); break; }
        case KWriteOnly: { string s = m.data; bool ate = r.chance(1, 2); StringStreamDevice d(s, DeviceAccess::Write, ate); m.rd = false; if (ate) m.pos = s.size(); opsOn(c, d, m, k, name, n, [&] { return s; }); break; }
        case KSpanRW: { vector<char> s(m.data.begin(), m.data.end()); s.reserve(1); SpanStreamDevice d(s.data(), s.size()); m.cap = s.size(); opsOn(c, d, m, k, name, n, [&] { return string(s.begin(), s.end()); }); break; }
        case KSpanW: { string s = m.data; SpanStreamDevice d(s, DeviceAccess::Write); m.cap = s.size(); m.rd = false; opsOn(c, d, m, k, name, n, [&] { return s; }); break; }
        case KSpanR:
        {
            vector<char> s(m.data.begin(), m.data.end()); s.reserve(1); m.wr = false; unique_ptr<SpanStreamDevice> d;
            switch (r.below(4)) { case 0: d = make_unique<SpanStreamDevice>((const char*)s.data(), s.size()); break; case 1: d = make_unique<SpanStreamDevice>(bufferview(s.data(), s.size())); break; case 2: d = make_unique<SpanStreamDevice>(std::string_view(s.data(), s.size())); break;
                default: { for (auto& x : m.data) if (!x) x = 1; s.assign(m.data.begin(), m.data.end()); s.push_back(0); d = make_unique<SpanStreamDevice>((const char*)s.data()); s.pop_back(); } }
            opsOn(c, *d, m, k, name, n, [&] { return string(s.begin(), s.end()); }); break;
        }
        case KSStream: { std::stringstream s(m.data, std::ios::in | std::ios::out | std::ios::binary); size_t at = r.chance(1, 2) ? 0 : r.below(m.data.size() + 1); if (at) { s.seekg(at); s.seekp(at); } m.pos = at; StandardStreamDevice d((std::iostream&)s); opsOn(c, d, m, k, name, n, [&] { return s.str(); }); break; }
        case KIStream: { std::istringstream s(m.data); m.wr = false; StandardStreamDevice d((std::istream&)s); opsOn(c, d, m, k, name, n, [&] { return s.str(); }); break; }
        case KOStream: { std::ostringstream s(m.data); m.rd = false; StandardStreamDevice d((std::ostream&)s); opsOn(c, d, m, k, name, n, [&] { return s.str(); }); break; }
        case KFStream:
        {
            string path = c.scratch + "/fs.bin"; spit(path, m.data);
            { std::fstream s(path, std::ios::in | std::ios::out | std::ios::binary); StandardStreamDevice d((std::iostream&)s); opsOn(c, d, m, k, name, n, [&] { return slurp(path); }); }
            if (slurp(path) != m.data) c.die("fstream:content after close", name); unlink(path.c_str()); break;
        }
        case KNull: { m.data.clear(); NullStreamDevice d; opsOn(c, d, m, k, name, n, [&] { return m.data; }); break; }
        default: break;
    }
}
}
int main(int argc, char** argv) { modes()["c30"] = c30; return mon::main(argc, argv, c30); }
