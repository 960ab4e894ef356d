// C32: documents used in different threads do not interfere. Every case is a process of its own, so that the threads race
// for everything the library sets up on first use; ThreadSanitizer watches, and every thread must get what it gets alone.
#include "mon.h"
#include "raw.h"
#include "hostile.h"
#include "hostile_make.h"
#include <thread>
#include <sstream>
#include <atomic>
#include <sys/wait.h>
using namespace mm; using namespace mon; using std::string; using std::vector;

struct Job { unsigned kind; uint64_t seed; string data; };
static const char* kindNames[] = { "documents made with fonts", "files visited", "files rewritten", "documents encrypted", "encodings used", "filters used", "images loaded", "metadata kept", "dates formatted", "texts extracted", "errors raised", "outlines, fields and names", "values parsed", "fonts searched", "pages imported", "system fonts embedded" };
enum { Kinds = 16 };
static string sum(const string& s) { return cat(s.size(), "/", hashStr(s)); }
static string plainly(PdfMemDocument& d) { charbuff b; BufferStreamDevice dev(b); d.Save(dev); return string(b.data(), b.size()); }
static string saved(PdfMemDocument& d, PdfSaveOptions o = PdfSaveOptions::NoModifyDateUpdate)
{
    charbuff b; BufferStreamDevice dev(b); d.Save(dev, o); string s(b.data(), b.size());
    for (auto k : { "/ID[", "/ID [", "/CreationDate(", "/ModDate(" }) for (size_t p = 0; (p = s.find(k, p)) != string::npos;) { char e = k[1] == 'I' ? ']' : ')'; size_t q = s.find(e, p); if (q == string::npos) break; s.erase(p, q - p + 1); }
    return s;
}
static PdfMemDocument& load(std::unique_ptr<PdfMemDocument>& d, const string& s, const string& pw = "") { d.reset(new PdfMemDocument()); d->LoadFromBuffer(bufferview(s.data(), s.size()), pw); return *d; }
static vector<PdfEncoding> encodings() { return { PdfEncodingFactory::CreateWinAnsiEncoding(), PdfEncodingFactory::CreateMacRomanEncoding(), PdfEncoding(PdfEncodingMapFactory::MacExpertEncodingInstance()), }; }
static const char* words[] = { "Hello", "Grüße", "naïve café", "Ωμέγα", "Żółć", "мир", "€ 12", "quick brown fox", "AVATAR To. fi" };
static string drawn(PdfMemDocument& d, Rng& r, bool system)
{
    string out;
    for (unsigned pages = 1 + (unsigned)r.below(2); pages; pages--)
    {
        auto& page = d.GetPages().CreatePage(PdfRect(0, 0, 300, 300)); PdfPainter p; p.SetCanvas(page);
        for (unsigned i = 0; i < 4; i++)
        {
            PdfFontCreateParams fp; fp.Flags = r.chance(1, 4) ? PdfFontCreateFlags::DontSubset : PdfFontCreateFlags::None; static const PdfStandard14FontType ty[] = { PdfStandard14FontType::Helvetica, PdfStandard14FontType::TimesRoman, PdfStandard14FontType::CourierBold, PdfStandard14FontType::Symbol, PdfStandard14FontType::HelveticaBold };
            if (r.chance(1, 3)) fp.Encoding = r.pick(encodings());
            PdfFontSearchParams sp; sp.Style = r.chance(1, 3) ? PdfFontStyle::Bold : PdfFontStyle::Regular; PdfFont* f = system && r.chance(2, 3) ? d.GetFonts().GetFont(r.pick(vector<string>{ "DejaVuSans", "DejaVuSerif", "DejaVuSansMono" }), sp, fp) : d.GetFonts().GetStandard14Font(ty[r.below(5)], fp);
            if (!f) { out += "none;"; continue; } p.GetTextState().SetFont(*f, 5 + (double)r.below(30));
            string w = words[r.below(9)]; PdfTextState ts; ts.Font = f; ts.FontSize = 10;
            try { out += cat(fmtd(f->GetStringLength(w, ts)), " ", fmtd(f->GetMetrics().GetAscent()), " ", f->GetMetrics().GetGlyphCount(), ";"); p.DrawText(w, (double)r.below(200), (double)r.below(200)); } catch (const PdfError& e) { out += cat("E", (int)e.GetError(), ";"); }
        }
        p.FinishDrawing();
    }
    return out;
}
static string work(const Job& j)
{
    Rng r(j.seed); string out, s; std::unique_ptr<PdfMemDocument> hold;
    switch (j.kind)
    {
        case 0: case 15: { PdfMemDocument d; out = drawn(d, r, j.kind == 15); s = plainly(d); out += cat(s.size()); auto& l = load(hold, s); out += cat(" pages ", l.GetPages().GetCount()); break; }
        case 1: { auto& d = load(hold, j.data); Visitor v(r.next()); v.document(d); out = cat(v.ok, " ", v.refused, " ", v.lastRefusal); break; }
        case 2: { auto& d = load(hold, j.data); d.GetCatalog().GetDictionary().AddKey(PdfName("Extra"), PdfObject(PdfString("x" + std::to_string(r.below(1000))))); out = sum(saved(d)); break; }
        case 3: { PdfMemDocument d; drawn(d, r, false); unsigned k = (unsigned)r.below(4); d.SetEncrypted("user", "owner", PdfPermissions::Print, k == 0 ? PdfEncryptAlgorithm::RC4V2 : k == 1 ? PdfEncryptAlgorithm::AESV2 : k == 2 ? PdfEncryptAlgorithm::AESV3 : PdfEncryptAlgorithm::AESV3R6, PdfKeyLength::L128);
            charbuff b; BufferStreamDevice dev(b); d.Save(dev); s.assign(b.data(), b.size()); auto& l = load(hold, s, "user"); out = cat(l.GetPages().GetCount(), " ", (int)l.GetEncrypt()->GetEncryptAlgorithm()); std::multiset<string> sums; for (auto o : l.GetObjects()) if (o->HasStream()) { auto c = o->MustGetStream().GetCopy(); sums.insert(sum(string(c.data(), c.size()))); } for (auto& x : sums) out += " " + x;
            try { PdfMemDocument w; w.LoadFromBuffer(bufferview(s.data(), s.size()), "wrong"); out += " opened"; } catch (const PdfError& e) { out += cat(" ", (int)e.GetError()); } break; }
        case 4: { auto v = encodings(); for (auto& e : v) { auto& m = e.GetEncodingMap(); for (unsigned i = 0; i < 256; i++) { vector<char32_t> cp; if (m.TryGetCodePoints(PdfCharCode(i, 1), cp)) for (char32_t x : cp) { PdfCharCode cc; bool ok = m.TryGetCharCode(x, cc); out += cat((unsigned)x, ok ? cc.Code : 0, ","); } } charbuff b; try { bool ok = e.TryConvertToEncoded(words[r.below(9)], b); out += cat(ok, hex(string(b.data(), b.size())), ";"); } catch (const PdfError& x) { out += cat("E", (int)x.GetError()); } }
            PdfDifferenceList l; for (unsigned i = 0; i < 20; i++) l.AddDifference((unsigned char)r.below(256), 0x41 + (char32_t)r.below(2000)); out += cat(l.GetCount(), ";"); for (unsigned i = 0; i < 300; i++) out += PdfDifferenceEncoding::CodePointToName(0x20 + (char32_t)r.below(0x2200)).GetString(); for (auto w : words) { PdfString s(w); out += PdfVariant(s).ToString(); } break; }
        case 5: { string in = r.bytes(1 + r.below(3000)); for (auto f : { PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode, PdfFilterType::RunLengthDecode, PdfFilterType::FlateDecode }) { auto filter = PdfFilterFactory::Create(f); if (!filter || !filter->CanEncode()) continue; charbuff e, d; filter->EncodeTo(e, bufferview(in.data(), in.size())); filter->DecodeTo(d, e); out += cat(sum(string(e.data(), e.size())), (string(d.data(), d.size()) == in), ";"); } break; }
        case 6: { PdfMemDocument d; auto img = d.CreateImage(); unsigned w = 1 + (unsigned)r.below(20), h = 1 + (unsigned)r.below(20); string px = r.bytes(w * h * 3); SpanStreamDevice in(px); PdfImageInfo info; info.Width = w; info.Height = h; info.BitsPerComponent = 8; info.ColorSpace = PdfColorSpace::DeviceRGB; img->SetDataRaw(in, info); charbuff jpg; try { img->ExportTo(jpg, PdfExportFormat::Jpeg, {}); } catch (const PdfError& e) { out += cat("E", (int)e.GetError()); }
            out += sum(string(jpg.data(), jpg.size())); if (jpg.size()) { auto i2 = d.CreateImage(); i2->LoadFromBuffer(jpg); charbuff b; i2->DecodeTo(b, PdfPixelFormat::BGRA); out += " " + sum(string(b.data(), b.size())); } if (j.data.size()) { auto i3 = d.CreateImage(); i3->LoadFromBuffer(bufferview(j.data.data(), j.data.size())); out += cat(" ", i3->GetWidth()); charbuff b; i3->DecodeTo(b, PdfPixelFormat::BGRA); out += " " + sum(string(b.data(), b.size())); } break; }
        case 7: { PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 9, 9)); auto& m = d.GetMetadata(); m.SetTitle(PdfString(words[r.below(9)])); m.SetAuthor(PdfString(words[r.below(9)])); m.SetKeywords(vector<string>{ "a", "b" }); m.SetPdfALevel(PdfALevel::L2B); m.SetCreationDate(PdfDate(std::chrono::seconds(1000000000 + r.below(100000)), std::chrono::minutes(60))); m.SyncXMPMetadata(true); charbuff b; BufferStreamDevice dev(b); d.Save(dev, PdfSaveOptions::NoModifyDateUpdate); s.assign(b.data(), b.size());
            auto& l = load(hold, s); auto& k = l.GetMetadata(); out = cat(k.GetTitle()->GetString(), "|", k.GetAuthor()->GetString(), "|", (int)k.GetPdfALevel(), "|", k.GetCreationDate()->ToString().GetString()); auto x = l.GetCatalog().GetMetadataStreamValue(); out += cat("|", x.size()); break; }
        case 8: { for (unsigned i = 0; i < 20; i++) { PdfDate d(std::chrono::seconds((int64_t)r.below(4000000000u)), std::chrono::minutes((int)r.range(-700, 700))); auto t = d.ToString(); PdfDate e = PdfDate::Parse(t.GetString()); out += t.GetString() + d.ToStringW3C().GetString(); if (!(e == d)) out += "!"; auto n = PdfDate::LocalNow(); out += cat(n.GetMinutesFromUtc()->count(), ";"); } break; }
        case 9: { PdfMemDocument d; drawn(d, r, true); s = plainly(d); auto& l = load(hold, s); for (unsigned i = 0; i < l.GetPages().GetCount(); i++) { vector<PdfTextEntry> v; l.GetPages().GetPageAt(i).ExtractTextTo(v, PdfTextExtractParams{}); for (auto& e : v) out += cat(e.Text, "@", fmtd(e.X), ",", fmtd(e.Y), ";"); } break; }
        case 10: { for (unsigned i = 0; i < 20; i++) try { string bad = "%PDF-1.4\n" + r.bytes(50) + (r.chance(1, 2) ? "\nstartxref\n3\n%%EOF" : ""); PdfMemDocument d; d.LoadFromBuffer(bufferview(bad.data(), bad.size())); out += "loaded;"; } catch (const PdfError& e) { out += cat((int)e.GetError(), string(PdfError::ErrorName(e.GetError())), " ", e.GetCallstack().size(), ";"); string w = e.what(); out += sum(w); } break; }
        case 11: { PdfMemDocument d; auto& page = d.GetPages().CreatePage(PdfRect(0, 0, 100, 100)); auto o = d.GetOrCreateOutlines().CreateRoot(PdfString(words[r.below(9)])); o->CreateChild(PdfString("child"), std::make_shared<PdfDestination>(page)); auto& tb = page.CreateField<PdfTextBox>("text" + std::to_string(r.below(9)), PdfRect(1, 2, 30, 40)); tb.SetText(PdfString(words[r.below(9)])); auto& an = page.GetAnnotations().CreateAnnot<PdfAnnotationText>(PdfRect(5, 5, 20, 20)); an.SetTitle(PdfString(words[r.below(9)]));
            auto& nt = d.GetOrCreateNameTree(); for (unsigned i = 0; i < 30; i++) nt.AddValue("Dests", PdfString("n" + std::to_string(r.below(100))), PdfObject((int64_t)i)); out = sum(saved(d)); break; }
        case 12: { for (unsigned i = 0; i < 30; i++) { string t = cat("<</A[", r.range(-9, 9), " ", fmtd(r.unit()), "(str)/N#20x null true<48>]/B<</C ", r.below(99), " 0 R>>>>"); SpanStreamDevice dev(t); PdfTokenizer tok; PdfVariant v; if (tok.TryReadNextVariant(dev, v)) out += v.ToString(); auto x = PdfColor::FromString("#FF8800"); out += fmtd(x.GetRed()) + string(PdfColor::FromString("red").GetColorSpace() == PdfColorSpace::DeviceRGB ? "r" : "n"); } break; }
        case 13: { for (auto n : { "DejaVuSans", "DejaVuSerif", "Nothing", "Helvetica", "DejaVuSansMono" }) { PdfFontSearchParams sp; sp.Style = r.chance(1, 2) ? PdfFontStyle::Bold : PdfFontStyle::Regular; auto m = PdfFontManager::GetFontMetrics(n, sp); if (!m) { out += "none;"; continue; } out += cat(m->GetFontName(), " ", fmtd(m->GetLineSpacing()), " ", m->GetGlyphCount(), " "); unsigned gid; if (m->TryGetGID(U'A', gid)) out += fmtd(m->GetGlyphWidth(gid)); out += ";"; } break; }
        case 14: { auto& from = load(hold, j.data); PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 9, 9)); unsigned n = from.GetPages().GetCount(); d.GetPages().AppendDocumentPages(from, 0, std::min(n, 2u)); out = cat(n, " ", sum(saved(d))); break; }
    }
    return out;
}
static string guarded(const Job& j) { try { return work(j); } catch (const PdfError&) { return excText(); } catch (const std::exception& e) { return string("exception ") + e.what(); } }

static void fn(Ctx& c)
{
    auto& r = c.rng; unsigned threads = r.chance(1, 2) ? 2 : 3 + (unsigned)r.below(6), per = 1 + (unsigned)r.below(4); vector<vector<Job>> jobs(threads); bool same = r.chance(1, 3); unsigned base = (unsigned)r.below(Kinds); std::set<unsigned> kinds; string how;
    for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < per; i++)
    {
        Job j; j.kind = same ? (base + i) % Kinds : (unsigned)r.below(Kinds); j.seed = same && r.chance(1, 2) ? 7 + i : r.next();
        if (j.kind == 1 || j.kind == 2 || j.kind == 14) { if (same && t && jobs[0][i].data.size() && r.chance(1, 2)) j.data = jobs[0][i].data; else { Rich f(r); j.data = f.build(); } }
        kinds.insert(j.kind); how += cat(j.kind, ","); jobs[t].push_back(std::move(j));
    }
    c.phase(cat(threads, " threads: ", how)); string file = c.scratch + "/child", res = c.scratch + "/result"; unlink(res.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        if (!c.verbose) { FILE* f = freopen(file.c_str(), "w", stderr); (void)f; }
        vector<vector<string>> got(threads); std::atomic<unsigned> ready{ 0 }; std::atomic<bool> go{ false }; vector<std::thread> ts;
        for (unsigned t = 0; t < threads; t++) ts.emplace_back([&, t] { ready++; while (!go.load()) std::this_thread::yield(); for (auto& j : jobs[t]) got[t].push_back(guarded(j)); });
        while (ready.load() < threads) std::this_thread::yield(); go = true; for (auto& t : ts) t.join(); std::map<string, unsigned> refused;
        string out; for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < per; i++) { auto alone = guarded(jobs[t][i]); if (alone != got[t][i] && out.empty()) out = cat("differs:", kindNames[jobs[t][i].kind], "\nalone ", vis(alone, 700), "\nthread ", vis(got[t][i], 700)); if (c.verbose) fprintf(stderr, "%s: %s\n", kindNames[jobs[t][i].kind], vis(alone, 200).c_str()); if (alone.rfind("PdfErrorCode", 0) == 0 || alone.rfind("exception", 0) == 0) refused[cat("refused ", kindNames[jobs[t][i].kind])]++; }
        string n; for (auto& x : refused) n += cat(x.first, "=", x.second, "\n"); spit(res, "done\n" + n + "\n" + out); exit(0);
    }
    int st = 0; waitpid(pid, &st, 0); string err = c.verbose ? "" : slurp(file), done = slurp(res); bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && done.rfind("done", 0) == 0;
    if (!ok)
    {
        string key = "crash"; size_t p = err.find("WARNING: ThreadSanitizer"); if (p != string::npos) { key = "race"; vector<string> frames; size_t q = p; bool lib = false; std::istringstream is(err.substr(p)); string line; unsigned taken = 0; (void)q; while (std::getline(is, line) && taken < 2) { if (line.find("    #") == 0) { if (!lib && line.find("/src/pdfmm/") != string::npos) { size_t a = line.find(' ', 5) + 1, b = line.find_first_of("(/", a); frames.push_back(line.substr(a, b - a)); lib = true; taken++; } } else if (line.empty()) lib = false; } std::sort(frames.begin(), frames.end()); for (auto& f : frames) key += ":" + f; }
        else if (WIFSIGNALED(st)) key += cat(":signal", WTERMSIG(st)); else if (WIFEXITED(st)) key += cat(":exit", WEXITSTATUS(st));
        c.die(key, err.substr(p == string::npos ? 0 : p).substr(0, 2500));
    }
    size_t d = done.find("differs:"); if (d != string::npos) c.die(done.substr(d, done.find('\n', d) - d), done.substr(d));
    for (size_t p = 0; (p = done.find("refused ", p)) != string::npos;) { size_t e = done.find('\n', p); string l = done.substr(p, e - p); size_t q = l.find('='); c.ev(l.substr(0, q).c_str(), std::stoul(l.substr(q + 1))); p = e; }
    c.ev("processes"); c.ev("threads", threads); c.ev("jobs compared", threads * per); for (auto& t : jobs) for (auto& j : t) c.ev(kindNames[j.kind]); c.state(how); c.sample(cat(threads, " threads doing ", how));
}
int main(int argc, char** argv) { return mon::main(argc, argv, fn); }
