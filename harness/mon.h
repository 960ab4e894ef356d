// Monitor runtime shared by every harness: deterministic cases, event counting,
// crash attribution and violation records.
#ifndef MON_H
#define MON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <pdfmm/pdfmm.h>

extern "C" void __sanitizer_print_stack_trace(void) __attribute__((weak));

namespace mon {

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) { }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    std::string bytes(size_t n) { std::string r(n, 0); for (auto& c : r) c = (char)next(); return r; }
};

template <size_t N> inline char pickc(Rng& r, const char (&s)[N]) { return s[r.below(N - 1)]; }

// Thrown by the harness itself when the property is violated and the case can not go on
struct Violation { std::string key, msg; };

struct Cur { volatile uint64_t caseNo; volatile uint64_t done; char phase[496]; };

class Ctx
{
public:
    uint64_t seed = 1, caseNo = 0;
    bool thorough = false;
    Rng rng{1};
    std::string scratch;      // directory of this shard
    std::string artefacts;    // directory for files an offline checker reads (may be empty)
    std::string tag;          // caseNo as text
    bool verbose = false;

    void phase(const std::string& p) { strncpy(cur->phase, p.c_str(), sizeof(cur->phase) - 1); curPhase = p; if (verbose) fprintf(stderr, "phase %s\n", p.c_str()); }
    void ev(const char* name, uint64_t n = 1) { counts[name] += n; }
    void state(const std::string& s) { if (states.size() < 400000) states.insert(hashStr(s)); }
    void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s.substr(0, 600)); }
    void fail(const std::string& key, const std::string& msg)
    {
        if (violKeys[key]++ < 3) viols.push_back({ key, msg, caseNo });
        failed = true;
    }
    // record and abandon the case
    [[noreturn]] void die(const std::string& key, const std::string& msg) { throw Violation{ key, msg }; }
    void require(bool cond, const std::string& key, const std::string& msg) { if (!cond) die(key, msg); }

    struct V { std::string key, msg; uint64_t caseNo; };
    std::vector<V> viols;
    std::map<std::string, uint64_t> violKeys;
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> states;
    std::vector<std::string> samples;
    bool failed = false;
    Cur* cur = nullptr;
    std::string curPhase;
};

inline std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef"; std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
inline std::string unhex(const std::string& s)
{
    std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
inline std::string vis(const std::string& s, size_t max = 300)
{
    std::string r; char b[8];
    for (unsigned char c : s) { if (r.size() > max) { r += "..."; break; } if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } }
    return r;
}
inline std::string jesc(const std::string& s)
{
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\u%04x", c); r += b; } }
    return r + "\"";
}
inline void spill(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) { perror(p.c_str()); exit(2); } }
inline std::string slurp(const std::string& path)
{
    std::string r; FILE* f = fopen(path.c_str(), "rb"); if (!f) return r;
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r;
}
inline void spit(const std::string& path, const std::string& data)
{
    FILE* f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); exit(2); } fwrite(data.data(), 1, data.size(), f); fclose(f);
}
inline std::string fmtd(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
template <class... A> std::string cat(const A&... a) { std::string r; auto add = [&](auto const& x) { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) r += std::to_string(x); else r += x; }; (add(a), ...); return r; }

inline void onCpuLimit(int)
{
    const char m[] = "\nMON-CPU-LIMIT\n"; (void)!write(2, m, sizeof m - 1);
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    _exit(77);
}
inline void onTerminate()
{
    std::string what = "unknown";
    try { if (auto p = std::current_exception()) std::rethrow_exception(p); }
    catch (const mm::PdfError& e) { what = mm::PdfError::ErrorName(e.GetError()); }
    catch (const std::exception& e) { what = e.what(); }
    catch (...) { }
    fprintf(stderr, "\nMON-TERMINATE %s\n", what.c_str());
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    _exit(78);
}

inline std::string excName()
{
    try { throw; }
    catch (const mm::PdfError& e) { std::string s = std::string("PdfError-"); s += mm::PdfError::ErrorName(e.GetError()); return s; }
    catch (const std::bad_alloc&) { return "std::bad_alloc"; }
    catch (const std::exception& e) { return std::string("std-") + typeid(e).name(); }
    catch (...) { return "unknown-exception"; }
}
inline std::string excText()
{
    try { throw; }
    catch (const mm::PdfError& e) { std::string s = std::string(mm::PdfError::ErrorName(e.GetError())); for (auto& i : e.GetCallstack()) s += mon::cat(" | ", std::string(i.GetFilePath()), ":", i.GetLine(), " ", std::string(i.GetInformation())); return s; }
    catch (const std::exception& e) { return e.what(); }
    catch (...) { return "?"; }
}

typedef std::function<void(Ctx&)> CaseFn;
// optional named modes, chosen with --mode
inline std::map<std::string, CaseFn>& modes() { static std::map<std::string, CaseFn> m; return m; }

inline int main(int argc, char** argv, CaseFn fn)
{
    uint64_t cases = 100, first = 0; unsigned shard = 0, nshards = 1; std::string out = "/dev/stdout", curPath; int64_t only = -1;
    unsigned cpu = 60; Ctx ctx;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") ctx.seed = std::stoull(val());
        else if (a == "--cases") cases = std::stoull(val());
        else if (a == "--first") first = std::stoull(val());
        else if (a == "--shard") shard = std::stoul(val());
        else if (a == "--nshards") nshards = std::stoul(val());
        else if (a == "--out") out = val();
        else if (a == "--cur") curPath = val();
        else if (a == "--scratch") ctx.scratch = val();
        else if (a == "--artefacts") ctx.artefacts = val();
        else if (a == "--cpu") cpu = std::stoul(val());
        else if (a == "--thorough") ctx.thorough = true;
        else if (a == "--verbose") ctx.verbose = true;
        else if (a == "--only") only = std::stoll(val());
        else if (a == "--mode") { auto m = val(); auto it = modes().find(m); if (it == modes().end()) { fprintf(stderr, "no mode %s\n", m.c_str()); return 2; } fn = it->second; }
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    if (ctx.scratch.empty()) { char t[] = "/tmp/monXXXXXX"; ctx.scratch = mkdtemp(t); }
    static Cur local{}; ctx.cur = &local;
    if (!curPath.empty())
    {
        int fd = open(curPath.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Cur)) != 0) { perror("cur"); return 2; }
        ctx.cur = (Cur*)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (ctx.cur == MAP_FAILED) { perror("mmap"); return 2; }
    }
    std::set_terminate(onTerminate);
    signal(SIGPROF, onCpuLimit);
    if (!ctx.verbose) mm::PdfCommon::SetMaxLoggingSeverity(mm::PdfLogSeverity::None);
    uint64_t executed = 0;
    for (uint64_t c = first; c < cases; c++)
    {
        if (only >= 0) { if (executed) break; c = (uint64_t)only; }
        else if (c % nshards != shard) continue;
        ctx.caseNo = c; ctx.tag = std::to_string(c);
        ctx.cur->caseNo = c; ctx.rng = Rng(mix(ctx.seed) ^ mix(c + 0x1234567)); ctx.phase("start"); ctx.failed = false;
        struct itimerval tv{}; tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, nullptr);
        try { fn(ctx); }
        catch (const Violation& v) { ctx.fail(v.key, v.msg); }
        catch (...) { std::string n = excName(); ctx.fail("unexpected-error:" + ctx.curPhase + ":" + n, excText()); }
        executed++;
        if (only >= 0) { for (auto& v : ctx.viols) fprintf(stderr, "VIOL %s: %s\n", v.key.c_str(), v.msg.c_str()); break; }
    }
    struct itimerval tv{}; setitimer(ITIMER_PROF, &tv, nullptr);
    ctx.cur->done = 1;
    FILE* f = fopen(out.c_str(), "a"); if (!f) { perror("out"); return 2; }
    for (auto& v : ctx.viols) fprintf(f, "{\"t\":\"viol\",\"key\":%s,\"case\":%llu,\"msg\":%s}\n", jesc(v.key).c_str(), (unsigned long long)v.caseNo, jesc(v.msg.substr(0, 3000)).c_str());
    fprintf(f, "{\"t\":\"sum\",\"executed\":%llu,\"counts\":{", (unsigned long long)executed);
    bool f1 = true; for (auto& c : ctx.counts) { fprintf(f, "%s%s:%llu", f1 ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); f1 = false; }
    fprintf(f, "},\"samples\":["); f1 = true;
    for (auto& s : ctx.samples) { fprintf(f, "%s%s", f1 ? "" : ",", jesc(s).c_str()); f1 = false; }
    fprintf(f, "],\"states\":["); f1 = true;
    for (auto s : ctx.states) { fprintf(f, "%s%llu", f1 ? "" : ",", (unsigned long long)s); f1 = false; }
    fprintf(f, "]}\n"); fclose(f);
    return 0;
}
} // namespace mon
#define MON_MAIN(fn) int main(int argc, char** argv) { return mon::main(argc, argv, fn); }
#endif
