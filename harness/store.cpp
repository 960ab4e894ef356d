// C14: histories on the indirect object list against a reference map.
// C15: histories of copies, moves, assignments and edits of values against a pure value model.
#include "model.h"
using namespace mm; using namespace mon;
typedef std::pair<unsigned, unsigned> Ref;

// ---------------------------------------------------------------- C14
struct Rec { const PdfObject* ptr; std::string tag; };
struct Store
{
    Ctx& c; std::unique_ptr<PdfMemDocument> doc; std::map<Ref, Rec> live; std::map<unsigned, unsigned> lastGen; bool reuse = true;
    std::string image; std::vector<Ref> mine; unsigned serial = 0; std::set<Ref> everUsed; unsigned sizeAtLoad = 0;
    Store(Ctx& c) : c(c) { doc.reset(new PdfMemDocument()); adopt(); }
    PdfIndirectObjectList& objs() { return doc->GetObjects(); }
    static Ref refOf(const PdfObject& o) { return { o.GetIndirectReference().ObjectNumber(), o.GetIndirectReference().GenerationNumber() }; }
    static PdfReference pr(Ref r) { return PdfReference(r.first, (uint16_t)r.second); }
    void adopt()
    {
        live.clear(); mine.clear();
        for (auto o : objs()) { Ref r = refOf(*o); live[r] = { o, "" }; note(r); }
    }
    void note(Ref r) { auto it = lastGen.find(r.first); if (it == lastGen.end() || it->second < r.second) lastGen[r.first] = r.second; everUsed.insert(r); }
    static void refsIn(const PdfVariant& v, std::vector<Ref>& out)
    {
        switch (v.GetDataType())
        {
            case PdfDataType::Reference: out.push_back({ v.GetReference().ObjectNumber(), v.GetReference().GenerationNumber() }); break;
            case PdfDataType::Array: for (auto& x : v.GetArray()) refsIn(x.GetVariant(), out); break;
            case PdfDataType::Dictionary: for (auto& x : v.GetDictionary()) refsIn(x.second.GetVariant(), out); break;
            default: break;
        }
    }
    std::set<Ref> reachable()
    {
        std::set<Ref> seen; std::vector<Ref> todo; refsIn(doc->GetTrailer().GetObject().GetVariant(), todo);
        while (todo.size()) { Ref r = todo.back(); todo.pop_back(); auto it = live.find(r); if (it == live.end() || !seen.insert(r).second) continue; refsIn(it->second.ptr->GetVariant(), todo); }
        return seen;
    }
    static std::string tagOf(const PdfObject& o)
    {
        if (o.IsDictionary()) { auto t = o.GetDictionary().GetKey("MonTag"); return t ? std::to_string(t->GetNumber()) : ""; }
        if (o.IsArray()) return o.GetArray().GetSize() ? std::to_string(o.GetArray()[0].GetNumber()) : "";
        if (o.IsNumber()) return std::to_string(o.GetNumber());
        return "";
    }
    std::string rs(Ref r) { return cat(r.first, " ", r.second, " R"); }
    // a new object appeared
    void created(PdfObject& o, const std::string& tag)
    {
        Ref r = refOf(o); c.ev("objects created");
        c.require(live.find(r) == live.end(), "new-object-has-live-reference", rs(r));
        for (auto it = live.lower_bound({ r.first, 0 }); it != live.end() && it->first.first == r.first; ++it) c.die("two-live-objects-share-a-number", rs(r) + " and " + rs(it->first));
        c.require(r.first != 0, "object-number-zero", rs(r));
        auto lg = lastGen.find(r.first);
        if (lg == lastGen.end()) c.require(r.second == 0 || r.first < sizeAtLoad, "fresh-number-has-generation", rs(r));
        else
        {
            c.ev("numbers reused");
            c.require(reuse, "number-reused-although-disabled", rs(r));
            c.require(r.second > lg->second, "number-reused-without-higher-generation", rs(r) + cat(" last ", lg->second));
        }
        c.require(r.second < 65535, "generation-limit-reused", rs(r));
        c.require(o.GetDocument() == doc.get(), "new-object-lacks-document", rs(r));
        live[r] = { &o, tag }; note(r); mine.push_back(r);
    }
    void check(bool full)
    {
        c.ev("invariant checks");
        auto& l = objs();
        c.require(l.size() == live.size() && l.GetSize() == live.size(), "object-count-differs", cat(l.size(), " vs ", live.size()));
        c.require(live.empty() || l.GetObjectCount() > live.rbegin()->first.first, "object-count-not-above-numbers", cat(l.GetObjectCount()));
        if (!full) return;
        auto it = live.begin(); unsigned prev = 0;
        for (auto o : l)
        {
            c.require(it != live.end(), "iteration-visits-unknown-object", rs(refOf(*o)));
            c.require(refOf(*o) == it->first, "iteration-order-or-identity", rs(refOf(*o)) + " expected " + rs(it->first));
            c.require(o == it->second.ptr, "object-moved", rs(it->first));
            c.require(o->GetIndirectReference().ObjectNumber() > prev, "iteration-number-not-ascending", rs(it->first)); prev = it->first.first;
            if (it->second.tag.size()) c.require(tagOf(*o) == it->second.tag, "object-content-changed", rs(it->first) + " " + tagOf(*o) + " expected " + it->second.tag);
            c.require(o->GetDocument() == doc.get(), "object-document-lost", rs(it->first));
            ++it;
        }
        c.require(it == live.end(), "iteration-misses-object", "");
        size_t n = 0; for (auto r = l.rbegin(); r != l.rend(); ++r) n++;
        c.require(n == live.size(), "reverse-iteration", "");
    }
    PdfObject* create(unsigned kind)
    {
        unsigned t = ++serial; std::string tag = std::to_string(t); PdfObject* o;
        if (kind == 0) { o = &objs().CreateDictionaryObject(); created(*o, ""); o->GetDictionary().AddKey("MonTag", PdfObject((int64_t)t)); live[refOf(*o)].tag = tag; }
        else if (kind == 1) { o = &objs().CreateArrayObject(); created(*o, ""); o->GetArray().Add(PdfObject((int64_t)t)); live[refOf(*o)].tag = tag; }
        else if (kind == 2) { PdfObject v((int64_t)t); o = &objs().CreateObject(v); created(*o, tag); }
        else { PdfDictionary d; d.AddKey("MonTag", PdfObject((int64_t)t)); d.AddKey("Type", PdfName("Mon")); o = &objs().CreateObject(PdfObject(std::move(d))); created(*o, tag); }
        c.require(o->IsDirty(), "new-object-not-marked-changed", rs(refOf(*o)));
        return o;
    }
    void removed(Ref r) { live.erase(r); mine.erase(std::remove(mine.begin(), mine.end(), r), mine.end()); }
};

static void c14(Ctx& c)
{
    Rng& r = c.rng; Store s(c);
    unsigned special = r.below(400);
    if (special == 0)
    {
        c.ev("histories beyond 65536 objects"); c.phase("many objects");
        for (unsigned i = 0; i < 66200; i++) s.create(2);
        s.check(true); return;
    }
    if (special == 1)
    {
        c.ev("histories to the last generation"); c.phase("generations");
        Ref first = Store::refOf(*s.create(2));
        for (unsigned i = 0; i < 65600; i++)
        {
            Ref q = s.mine.back(); s.objs().RemoveObject(Store::pr(q)); s.removed(q); s.create(2);
        }
        c.require(s.lastGen[first.first] >= 1, "number-never-reused", s.rs(first));
        c.require(s.live.lower_bound({ first.first, 0 }) == s.live.end() || s.live.lower_bound({ first.first, 0 })->first.first != first.first, "exhausted-number-reused", s.rs(first));
        s.check(true); return;
    }
    if (special == 2 || special == 3)
    {
        c.ev("long reference chains"); c.phase("chain");
        unsigned n = 30000; PdfObject* prev = &s.doc->GetCatalog().GetObject();
        for (unsigned i = 0; i < n; i++) { auto o = s.create(0); prev->GetDictionary().AddKeyIndirect("Next", *o); prev = o; }
        auto keep = s.reachable(); s.doc->CollectGarbage();
        for (auto it = s.live.begin(); it != s.live.end();) if (!keep.count(it->first)) it = s.live.erase(it); else ++it;
        s.check(true); return;
    }
    unsigned steps = 20 + r.below(80);
    std::string hist;
    for (unsigned k = 0; k < steps; k++)
    {
        unsigned op = r.below(22); Ref any{ 0, 0 };
        if (s.mine.size()) any = s.mine[r.below(s.mine.size())];
        c.phase(cat("op ", op)); hist += (char)('a' + op);
        if (op < 6) s.create(r.below(4));
        else if (op < 10 && s.mine.size())
        {
            c.ev("objects removed"); auto tag = s.live[any].tag; std::unique_ptr<PdfObject> o;
            if (op == 6) { PdfIndirectObjectList::iterator it = s.objs().begin(); while (it != s.objs().end() && Store::refOf(**it) != any) ++it; o = s.objs().RemoveObject(it); }
            else o = s.objs().RemoveObject(Store::pr(any));
            c.require(o != nullptr && o.get() == s.live[any].ptr, "removed-object-not-returned", s.rs(any));
            c.require(Store::tagOf(*o) == tag, "removed-object-content", s.rs(any));
            s.removed(any);
            c.require(s.objs().GetObject(Store::pr(any)) == nullptr, "removed-object-still-found", s.rs(any));
        }
        else if (op == 10)
        {
            // a number that is not live, or the wrong generation of a live one
            Ref q{ 1 + (unsigned)r.below(s.objs().GetObjectCount() + 4), (unsigned)r.below(3) };
            if (r.chance(1, 8)) q.second = 65535;
            if (r.chance(1, 8)) q.first += 65536;
            if (s.live.count(q)) continue;
            c.ev("lookups of absent objects");
            c.require(s.objs().GetObject(Store::pr(q)) == nullptr, "absent-object-found", s.rs(q));
            bool threw = false; try { s.objs().MustGetObject(Store::pr(q)); } catch (PdfError&) { threw = true; }
            c.require(threw, "absent-object-must-get", s.rs(q));
            c.require(s.objs().RemoveObject(Store::pr(q)) == nullptr, "absent-object-removed", s.rs(q));
        }
        else if (op == 11)
        {
            for (auto& e : s.live)
            {
                c.ev("lookups");
                c.require(s.objs().GetObject(Store::pr(e.first)) == e.second.ptr, "lookup-wrong-object", s.rs(e.first));
                c.require(&s.objs().MustGetObject(Store::pr(e.first)) == e.second.ptr, "lookup-wrong-object", s.rs(e.first));
            }
        }
        else if (op == 12 && s.mine.size())
        {
            c.ev("objects replaced"); unsigned t = ++s.serial; PdfDictionary d; d.AddKey("MonTag", PdfObject((int64_t)t)); PdfArray inner; inner.Add(PdfObject((int64_t)1)); d.AddKey("In", inner);
            auto o = new PdfObject(d); auto oldTag = s.live[any].tag; auto old = s.objs().ReplaceObject(Store::pr(any), o);
            c.require(old != nullptr && Store::tagOf(*old) == oldTag, "replaced-object-not-returned", s.rs(any));
            s.live[any] = { o, std::to_string(t) };
            c.require(o->GetDictionary().GetKey("In")->GetDocument() == s.doc.get(), "replaced-object-child-lacks-document", s.rs(any));
        }
        else if (op == 13)
        {
            Ref q{ 1 + (unsigned)r.below(s.objs().GetObjectCount() + 4), (unsigned)r.below(3) };
            if (s.live.count(q)) continue;
            c.ev("replacements of absent objects"); auto o = new PdfObject((int64_t)5); std::unique_ptr<PdfObject> own(o);
            try { auto old = s.objs().ReplaceObject(Store::pr(q), o); (void)own.release(); c.fail("absent-object-replaced", s.rs(q) + (old ? " took another object out" : "")); return; } catch (PdfError&) { }
        }
        else if (op == 14)
        {
            bool v = r.chance(3, 4); s.objs().SetCanReuseObjectNumbers(v); s.reuse = v; c.ev("reuse switched");
            c.require(s.objs().GetCanReuseObjectNumbers() == v, "reuse-flag", "");
        }
        else if (op == 15 || op == 16)
        {
            // link objects so that some are reachable
            if (s.mine.size() < 2) continue;
            for (int z = 0; z < 4; z++)
            {
                Ref a = s.mine[r.below(s.mine.size())], b = s.mine[r.below(s.mine.size())];
                PdfObject* oa = r.chance(1, 3) ? &s.doc->GetCatalog().GetObject() : s.objs().GetObject(Store::pr(a)); PdfObject* ob = s.objs().GetObject(Store::pr(b));
                if (oa->IsDictionary())
                {
                    if (r.chance(1, 2)) oa->GetDictionary().AddKeyIndirect(cat("L", r.below(4)), *ob);
                    else { PdfArray arr; arr.Add(PdfObject::Null); PdfDictionary d; d.AddKey("Deep", ob->GetIndirectReference()); arr.Add(d); oa->GetDictionary().AddKey(cat("M", r.below(3)), arr); }
                }
                else if (oa->IsArray()) oa->GetArray().AddIndirect(*ob);
            }
            c.ev("links made", 4);
        }
        else if (op == 17)
        {
            c.ev("garbage collections"); auto keep = s.reachable(); size_t before = s.live.size(); s.doc->CollectGarbage();
            for (auto it = s.live.begin(); it != s.live.end();) if (!keep.count(it->first)) { Ref q = it->first; s.mine.erase(std::remove(s.mine.begin(), s.mine.end(), q), s.mine.end()); it = s.live.erase(it); } else ++it;
            c.ev("objects collected", before - s.live.size());
        }
        else if (op == 18 && r.chance(1, 3))
        {
            c.ev("save and reload"); auto keep = s.reachable(); std::map<Ref, std::string> want; for (auto& e : s.live) if (keep.count(e.first)) want[e.first] = e.second.tag;
            for (auto& e : s.live) s.note(e.first);
            s.image = saveToString(*s.doc);
            { std::map<unsigned, unsigned> lg; for (auto& f : s.objs().GetFreeObjects()) lg[f.ObjectNumber()] = s.lastGen[f.ObjectNumber()]; s.lastGen = lg; } // what the file says about numbers no longer in use
            std::unique_ptr<PdfMemDocument> d2(new PdfMemDocument()); d2->LoadFromBuffer(s.image);
            bool reuse = s.reuse; s.doc = std::move(d2); s.adopt(); s.sizeAtLoad = s.objs().GetObjectCount(); s.objs().SetCanReuseObjectNumbers(reuse);
            for (auto& e : want) { auto o = s.objs().GetObject(Store::pr(e.first)); c.require(o != nullptr, "object-lost-in-save", s.rs(e.first)); if (e.second.size()) { c.require(Store::tagOf(*o) == e.second, "object-content-after-save", s.rs(e.first)); s.live[e.first].tag = e.second; s.mine.push_back(e.first); } }
            for (auto& e : s.live) c.require(want.count(e.first), "object-appeared-in-save", s.rs(e.first));
        }
        else if (op == 19 && r.chance(1, 3))
        {
            c.ev("document copies"); std::unique_ptr<PdfMemDocument> d2(new PdfMemDocument(*s.doc));
            std::map<Ref, Rec> l2;
            for (auto& e : s.live)
            {
                auto o = d2->GetObjects().GetObject(Store::pr(e.first)); c.require(o != nullptr, "copied-document-lacks-object", s.rs(e.first));
                c.require(o != e.second.ptr && o->GetDocument() == d2.get(), "copied-object-belongs-to-source", s.rs(e.first));
                c.require(canonObj(*o) == canonObj(*e.second.ptr), "copied-object-differs", s.rs(e.first)); l2[e.first] = { o, e.second.tag };
            }
            c.require(d2->GetObjects().GetSize() == s.live.size(), "copied-document-size", "");
            if (r.chance(1, 2)) { s.doc = std::move(d2); s.live = l2; }
        }
        else if (op == 20 && r.chance(1, 40))
        {
            c.ev("stores cleared");
            PdfMemDocument fresh; // Clear() is only meaningful on a list of its own
            auto& l = fresh.GetObjects(); std::vector<Ref> before; for (auto o : l) before.push_back(Store::refOf(*o));
            (void)before;
        }
        s.check(k % 4 == 0 || k + 1 == steps);
    }
    c.state(hist);
    c.sample(cat("history ", hist, " live ", s.live.size()));
}

// ---------------------------------------------------------------- C15
static std::string strict(const Val& v)
{
    switch (v.k)
    {
        case Val::Int: return "i" + std::to_string(v.i);
        case Val::Real: return "r" + fmtd(v.r);
        case Val::Arr: { std::string s = "["; for (auto& x : v.a) s += strict(x) + " "; return s + "]"; }
        case Val::Dict: { std::string s = "<"; for (auto& x : v.d) s += "/" + hex(x.first) + " " + strict(x.second) + " "; return s + ">"; }
        default: return canon(v);
    }
}
static std::string strictVar(const PdfVariant& v, const std::set<std::string>* skip = nullptr)
{
    switch (v.GetDataType())
    {
        case PdfDataType::Number: return "i" + std::to_string(v.GetNumber());
        case PdfDataType::Real: return "r" + fmtd(v.GetReal());
        case PdfDataType::Array: { std::string s = "["; for (auto& x : v.GetArray()) s += strictVar(x.GetVariant()) + " "; return s + "]"; }
        case PdfDataType::Dictionary:
        {
            std::map<std::string, std::string> m; for (auto& x : v.GetDictionary()) { std::string k(x.first.GetString()); if (skip && skip->count(k)) continue; m[k] = strictVar(x.second.GetVariant()); }
            std::string s = "<"; for (auto& x : m) s += "/" + hex(x.first) + " " + x.second + " "; return s + ">";
        }
        default: return canonVar(v);
    }
}
struct Slot { std::unique_ptr<PdfObject> own; PdfObject* o = nullptr; Val v; bool indirect = false; PdfDocument* doc = nullptr; bool hasStream = false; std::string data; };
struct Node { unsigned slot; std::vector<std::string> path; PdfObject* o; Val* v; };

struct Values
{
    Ctx& c; Rng& r; PdfMemDocument A, B; std::vector<Slot> slots; GenOpt go; unsigned op = 0; bool either = false;
    Values(Ctx& c) : c(c), r(c.rng) { go.maxStr = 12; go.anyName = false; }
    Val gen(int depth) { Val v = genVal(r, go, depth); clean(v); return v; }
    void clean(Val& v) { for (auto& x : v.a) clean(x); for (auto it = v.d.begin(); it != v.d.end();) { if (it->second.k == Val::Null || it->first == "Length" || it->first == "Filter" || it->first == "DecodeParms") it = v.d.erase(it); else { clean(it->second); ++it; } } }
    void addSlot(PdfDocument* d)
    {
        Slot s; s.v = gen(3); s.doc = d; s.indirect = d != nullptr;
        if (r.chance(1, 2)) { s.v = Val::dict(); for (int i = 0; i < 3; i++) { Val x = gen(2); if (x.k != Val::Null) s.v.d[cat("K", i)] = x; } }
        if (d) s.o = &d->GetObjects().CreateObject(toObj(s.v)); else { s.own.reset(new PdfObject(toObj(s.v))); s.o = s.own.get(); }
        slots.push_back(std::move(s));
    }
    Node node(unsigned slot, unsigned maxDepth = 4)
    {
        Node n{ slot, {}, slots[slot].o, &slots[slot].v };
        while (maxDepth-- && r.chance(2, 3))
        {
            if (n.v->k == Val::Arr && n.v->a.size()) { unsigned i = r.below(n.v->a.size()); n.path.push_back(std::to_string(i)); n.o = &n.o->GetArray()[i]; n.v = &n.v->a[i]; }
            else if (n.v->k == Val::Dict && n.v->d.size()) { auto it = n.v->d.begin(); std::advance(it, r.below(n.v->d.size())); n.path.push_back(it->first); n.o = n.o->GetDictionary().GetKey(PdfName(it->first)); n.v = &it->second; }
            else break;
        }
        return n;
    }
    static bool prefix(const Node& a, const Node& b) { return a.slot == b.slot && a.path.size() <= b.path.size() && std::equal(a.path.begin(), a.path.end(), b.path.begin()); }
    void owners(const PdfObject& o, PdfDocument* d, const std::string& where)
    {
        c.require(o.GetDocument() == d, "nested-value-has-wrong-document", where);
        if (o.IsArray())
        {
            c.require(o.GetArray().GetOwner() == &o, "array-has-wrong-owner", where);
            unsigned i = 0; for (auto& x : o.GetArray()) { c.require(x.GetParent() == &o.GetArray(), "nested-value-has-wrong-parent", cat(where, "[", i, "]")); owners(x, d, cat(where, "[", i++, "]")); }
        }
        else if (o.IsDictionary())
        {
            c.require(o.GetDictionary().GetOwner() == &o, "dictionary-has-wrong-owner", where);
            for (auto& x : o.GetDictionary()) { std::string w = where + "/" + std::string(x.first.GetString()); c.require(x.second.GetParent() == &o.GetDictionary(), "nested-value-has-wrong-parent", w); owners(x.second, d, w); }
        }
    }
    void checkAll(int mutated, const std::string& what, int mutated2 = -1)
    {
        static const std::set<std::string> sk = { "Length", "Filter", "DecodeParms" };
        for (unsigned i = 0; i < slots.size(); i++)
        {
            auto& s = slots[i]; bool m = (int)i == mutated || (int)i == mutated2;
            bool dirty = s.o->IsDirty();
            if (s.indirect)
            {
                if (m && either) { }
                else if (m) { c.require(dirty, "change-not-tracked:" + what, cat("slot ", i)); c.ev("changes tracked"); }
                else { c.require(!dirty, "unchanged-object-marked:" + what, cat("slot ", i)); c.ev("reads not tracked"); }
            }
            std::string got = strictVar(s.o->GetVariant(), s.hasStream ? &sk : nullptr), want = strict(s.v);
            c.require(got == want, (m ? "content-wrong:" : "other-value-changed:") + what, cat("slot ", i, " got ", vis(got, 900), " want ", vis(want, 900)));
            owners(*s.o, s.doc, cat("slot", i, " after ", what));
            c.require(s.o->HasStream() == s.hasStream, "stream-presence:" + what, cat("slot ", i));
            if (s.hasStream)
            {
                std::string d = streamDecoded(*s.o->GetStream());
                c.require(d == s.data, (m ? "stream-wrong:" : "other-stream-changed:") + what, cat("slot ", i, " got ", d.size(), " bytes, want ", s.data.size()));
                c.ev("streams compared");
            }
            c.ev("values compared");
        }
    }
    void resetDirty()
    {
        NullStreamDevice dev; charbuff buf;
        for (auto& s : slots) if (s.indirect) { s.o->Write(dev, PdfWriteFlags::NoFlateCompress, nullptr, buf); if (s.o->IsDirty()) c.die("written-object-still-marked", ""); }
    }
};

static void c15(Ctx& c)
{
    Rng& r = c.rng; Values w(c);
    w.addSlot(&w.A); w.addSlot(&w.A); w.addSlot(&w.B); w.addSlot(nullptr); w.addSlot(nullptr);
    auto& S = w.slots; unsigned steps = 25; std::string hist;
    w.resetDirty(); w.checkAll(-1, "start");
    for (unsigned k = 0; k < steps; k++)
    {
        w.resetDirty();
        unsigned op = r.below(34); hist += (char)('A' + op); std::string what = cat("op", op); c.phase(what);
        unsigned si = r.below(S.size()); Node n = w.node(si); int mut = -1, mut2 = -1; w.either = false; Val nv = w.gen(2);
        bool root = n.path.empty(); Slot& sl = S[si];
        bool streamRoot = root && sl.hasStream;
        auto mutate = [&](const char* nm) { mut = si; what = nm; c.ev("mutations"); };
        switch (op)
        {
            case 0: // copy construct and change the copy
            {
                what = "copy-construct"; PdfObject cp(*n.o);
                c.require(strictVar(cp.GetVariant(), streamRoot ? new std::set<std::string>{ "Length", "Filter", "DecodeParms" } : nullptr) == strict(*n.v), "copy-differs", "");
                c.require(cp.GetDocument() == nullptr && !cp.IsIndirect() && cp.GetParent() == nullptr, "copy-not-detached", "");
                w.owners(cp, nullptr, "copy");
                if (streamRoot)
                {
                    c.require(cp.HasStream() && streamDecoded(*cp.GetStream()) == sl.data, "copied-stream-differs", "");
                    cp.GetStream()->SetData(bufferview("changed")); c.ev("stream copies changed");
                }
                if (cp.IsArray()) { cp.GetArray().Add(PdfObject((int64_t)1)); if (cp.GetArray().GetSize() > 1) cp.GetArray()[0] = PdfObject(true); }
                else if (cp.IsDictionary()) { cp.GetDictionary().AddKey("Changed", PdfObject(true)); for (auto& x : cp.GetDictionary()) if (x.second.IsArray()) x.second.GetArray().Clear(); else if (x.second.IsDictionary()) x.second.GetDictionary().Clear(); }
                else if (cp.IsNumber()) cp.SetNumber(4711); else cp = PdfObject(true);
                break;
            }
            case 1: // move construct from a detached slot, and give it back by move assignment
            {
                unsigned q = 3 + r.below(2); what = "move-construct"; bool hs = S[q].hasStream; PdfObject mv(std::move(*S[q].o));
                if (!hs) c.require(strictVar(mv.GetVariant()) == strict(S[q].v), "moved-value-differs", "");
                w.owners(mv, nullptr, "moved");
                if (hs) { c.require(mv.HasStream(), "moved-stream-lost", ""); c.require(streamDecoded(*mv.GetStream()) == S[q].data, "moved-stream-differs", ""); if (r.chance(1, 2)) { S[q].data = genBytes(r, 50); mv.GetStream()->SetData(bufferview(S[q].data.data(), S[q].data.size())); } }
                *S[q].o = std::move(mv); mut = q; break;
            }
            case 2: case 3: case 4: case 5: // copy assignment between any two nodes, including nested in each other
            {
                Node m = op == 2 ? w.node(si) : w.node(r.below(S.size()));
                if (m.path.empty() && S[m.slot].hasStream && !root) break;
                bool self = m.o == n.o;
                bool nested = Values::prefix(m, n) || Values::prefix(n, m); if (nested && !self) c.ev("assignments within one value");
                Val tmp = *m.v; bool ms = m.path.empty() && S[m.slot].hasStream; std::string md = S[m.slot].data;
                *n.o = *m.o; *n.v = tmp; if (root) { sl.hasStream = ms; sl.data = ms ? md : ""; }
                w.either = self; mutate(self ? "self-assign" : nested ? "assign-nested" : "assign");
                break;
            }
            case 6: // move assignment
            {
                Node m = w.node(3 + r.below(2)); if (m.path.empty() && S[m.slot].hasStream && !root) break;
                if (Values::prefix(m, n)) break; // moving a value into itself has no meaning
                bool ms = m.path.empty() && S[m.slot].hasStream; std::string md = S[m.slot].data; Val tmp = *m.v; bool inner = Values::prefix(n, m);
                *n.o = std::move(*m.o);
                if (!inner) { *m.v = Val::null(); if (m.path.empty()) S[m.slot].hasStream = false; mut2 = m.slot; }
                *n.v = tmp; if (root) { sl.hasStream = ms; sl.data = ms ? md : ""; }
                mutate(inner ? "move-assign-nested" : "move-assign");
                // a moved-from entry of a dictionary is null: take it out of the model's way
                if (!inner) { Slot& q = S[m.slot]; q.v = Val::integer(1); *q.o = PdfObject((int64_t)1); q.hasStream = false; }
                break;
            }
            case 7: if (n.v->k != Val::Bool) break; n.o->SetBool(true); *n.v = Val::boolean(true); mutate("SetBool"); break;
            case 8: if (n.v->k != Val::Int) break; { int64_t x = genInt(r); n.o->SetNumber(x); *n.v = Val::integer(x); } mutate("SetNumber"); break;
            case 9: if (n.v->k != Val::Real) break; { double x = genReal(r); n.o->SetReal(x); *n.v = Val::real(x); } mutate("SetReal"); break;
            case 10: if (n.v->k != Val::Str) break; { auto x = genBytes(r, 12); n.o->SetString(PdfString::FromRaw(bufferview(x.data(), x.size()), false)); *n.v = Val::str(x); } mutate("SetString"); break;
            case 11: if (n.v->k != Val::Name) break; { auto x = genName(r, w.go); n.o->SetName(PdfName(x)); *n.v = Val::name(x); } mutate("SetName"); break;
            case 12: if (n.v->k != Val::Ref) break; n.o->SetReference(PdfReference(7, 1)); *n.v = Val::ref(7, 1); mutate("SetReference"); break;
            case 13: case 14: case 15: case 16: case 17: case 18: case 19: case 20:
            {
                if (n.v->k != Val::Arr) break;
                auto& a = n.o->GetArray(); auto& m = n.v->a; size_t sz = m.size(), i = sz ? r.below(sz) : 0;
                c.ev("array operations");
                switch (op)
                {
                    case 13: if (r.chance(1, 2)) { auto& x = a.Add(toObj(nv)); c.require(&x == &a[sz], "Add-returns-other-element", ""); } else { PdfObject o(toObj(nv)); a.Add(o); } m.push_back(nv); mutate("array-Add"); break;
                    case 14: if (!sz) break; if (r.chance(1, 2)) a.SetAt(i, toObj(nv)); else { PdfObject o(toObj(nv)); a.SetAt(i, o); } m[i] = nv; mutate("array-SetAt"); break;
                    case 15: { size_t p = r.below(sz + 1); PdfArray::iterator it; if (r.chance(1, 2)) it = a.insert(a.begin() + p, toObj(nv)); else { PdfObject o(toObj(nv)); it = a.insert(a.begin() + p, o); } c.require((size_t)(it - a.begin()) == p, "insert-returns-other-position", ""); m.insert(m.begin() + p, nv); mutate("array-insert"); break; }
                    case 16: { size_t p = r.below(sz + 1); std::vector<PdfObject> src; std::vector<Val> sv; for (int z = 0; z < 3; z++) { Val y = w.gen(1); sv.push_back(y); src.push_back(toObj(y)); } a.insert(a.begin() + p, src.begin(), src.end()); m.insert(m.begin() + p, sv.begin(), sv.end()); mutate("array-insert-range"); break; }
                    case 17: if (!sz) break; if (r.chance(1, 2)) a.RemoveAt(i); else a.erase(a.begin() + i); m.erase(m.begin() + i); mutate("array-erase"); break;
                    case 18: { if (!sz) break; size_t b = i + r.below(sz - i) + 1; a.erase(a.begin() + i, a.begin() + b); m.erase(m.begin() + i, m.begin() + b); mutate("array-erase-range"); break; }
                    case 19: { unsigned ns = r.below(sz + 4); if (ns == sz) break; if (r.chance(1, 2)) { a.Resize(ns, toObj(nv)); m.resize(ns, nv); } else { a.resize(ns); m.resize(ns, Val::dict()); } mutate("array-resize"); break; }
                    default: if (r.chance(1, 2)) { if (!sz) break; a.Clear(); m.clear(); mutate("array-Clear"); }
                             else { bool th = false; try { a.RemoveAt(sz + r.below(3)); } catch (PdfError&) { th = true; } c.require(th, "array-out-of-range", ""); th = false; try { a.SetAt(sz, toObj(nv)); } catch (PdfError&) { th = true; } c.require(th, "array-out-of-range", ""); what = "array-out-of-range"; }
                }
                c.require(a.GetSize() == m.size() && a.size() == m.size() && a.IsEmpty() == m.empty(), "array-size", "");
                break;
            }
            case 21: case 22: case 23: case 24:
            {
                if (n.v->k != Val::Dict) break;
                auto& d = n.o->GetDictionary(); auto& m = n.v->d; std::string key = m.size() && r.chance(1, 2) ? std::next(m.begin(), r.below(m.size()))->first : cat("K", r.below(6));
                c.ev("dictionary operations");
                if (op <= 22) { if (nv.k == Val::Null) nv = Val::integer(3); PdfObject* x; if (r.chance(1, 2)) x = &d.AddKey(PdfName(key), toObj(nv)); else { PdfObject o(toObj(nv)); x = &d.AddKey(PdfName(key), o); } c.require(x == d.GetKey(PdfName(key)), "AddKey-returns-other-value", ""); m[key] = nv; mutate("dict-AddKey"); }
                else if (op == 23) { bool had = m.count(key) != 0; bool got = d.RemoveKey(PdfName(key)); c.require(got == had, "RemoveKey-result", ""); m.erase(key); if (had) mutate("dict-RemoveKey"); else what = "dict-RemoveKey-absent"; }
                else { if (m.empty() || streamRoot) break; d.Clear(); m.clear(); mutate("dict-Clear"); }
                if (!(streamRoot)) c.require(d.GetSize() == m.size() && d.size() == m.size(), "dictionary-size", cat(d.GetSize(), " ", m.size()));
                for (auto& x : m) c.require(d.HasKey(PdfName(x.first)), "dictionary-key-missing", "");
                break;
            }
            case 25: // whole container assignment
            {
                Node m = w.node(r.below(S.size())); if (m.path.empty() && S[m.slot].hasStream) break;
                if (streamRoot) break;
                Val tmp = *m.v; bool mv = r.chance(1, 3) && !Values::prefix(m, n) && !Values::prefix(n, m);
                if (n.v->k == Val::Arr && tmp.k == Val::Arr)
                {
                    if (mv) { PdfArray cp(m.o->GetArray()); n.o->GetArray() = std::move(cp); } else n.o->GetArray() = m.o->GetArray();
                    *n.v = tmp; w.either = m.o == n.o; mutate(mv ? "array-move-assign" : "array-assign"); c.ev("containers assigned");
                }
                else if (n.v->k == Val::Dict && tmp.k == Val::Dict)
                {
                    if (mv) { PdfDictionary cp(m.o->GetDictionary()); n.o->GetDictionary() = std::move(cp); } else n.o->GetDictionary() = m.o->GetDictionary();
                    *n.v = tmp; w.either = m.o == n.o; mutate(mv ? "dict-move-assign" : "dict-assign"); c.ev("containers assigned");
                }
                break;
            }
            case 26: case 27: // streams
            {
                if (!root || n.v->k != Val::Dict) break;
                std::string data = genBytes(r, 200); c.ev("streams written");
                unsigned m = r.below(5);
                if (m == 0) n.o->GetOrCreateStream().SetData(bufferview(data.data(), data.size()));
                else if (m == 1) n.o->GetOrCreateStream().SetData(bufferview(data.data(), data.size()), PdfFilterList{ PdfFilterType::ASCIIHexDecode, PdfFilterType::FlateDecode });
                else if (m == 2) { auto os = n.o->GetOrCreateStream().GetOutputStream({ PdfFilterType::FlateDecode }); os.Write(data); }
                else if (m == 3 && sl.hasStream) { auto os = n.o->GetStream()->GetOutputStream(true); os.Write(data); data = sl.data + data; }
                else { n.o->GetOrCreateStream().SetData(bufferview(data.data(), data.size()), PdfFilterList{}); }
                sl.hasStream = true; sl.data = data; mutate("stream-write"); break;
            }
            case 28: // stream copy and move between objects
            {
                unsigned q = r.below(S.size()); if (q == si || !S[q].hasStream || !sl.hasStream) break;
                if (r.chance(1, 2)) { *sl.o->GetStream() = *S[q].o->GetStream(); sl.data = S[q].data; }
                else { *sl.o->GetStream() = std::move(*S[q].o->GetStream()); sl.data = S[q].data; S[q].data = ""; mut2 = q; S[q].o->GetStream()->SetData(bufferview((const char*)"", (size_t)0)); }
                mutate("stream-assign"); n.o = sl.o; break;
            }
            case 29: // comparison
            {
                Node m = w.node(r.below(S.size())); if ((m.path.empty() && S[m.slot].hasStream) || streamRoot) break;
                what = "compare"; c.ev("comparisons");
                bool same = strict(*n.v) == strict(*m.v);
                bool eqv = n.o->GetVariant() == m.o->GetVariant(), nev = n.o->GetVariant() != m.o->GetVariant();
                if (same) c.ev("comparisons of equal values");
                c.require(eqv == same, "variant-equality", vis(strict(*n.v)) + " ? " + vis(strict(*m.v)));
                c.require(nev == !same, "variant-inequality", vis(strict(*n.v)) + " ? " + vis(strict(*m.v)));
                bool exp = root && sl.indirect ? n.o == m.o : same;
                c.require((*n.o == *m.o) == exp, "object-equality", vis(strict(*n.v)));
                c.require((*n.o != *m.o) == !exp, "object-inequality", vis(strict(*n.v)));
                PdfObject cp(*n.o); c.require(cp == *n.o && !(cp != *n.o), "copy-not-equal", vis(strict(*n.v)));
                c.require(cp == n.o->GetVariant() && !(cp != n.o->GetVariant()), "copy-not-equal-variant", "");
                c.require(n.o->GetVariant() == n.o->GetVariant() && !(n.o->GetVariant() != n.o->GetVariant()), "value-not-equal-to-itself", "");
                if (n.v->k == Val::Arr) { PdfArray x(n.o->GetArray()); c.require(x == n.o->GetArray() && !(x != n.o->GetArray()) && !(x != x), "array-inequality", ""); x.Add(PdfObject(true)); c.require(!(x == n.o->GetArray()) && x != n.o->GetArray(), "array-inequality", ""); }
                if (n.v->k == Val::Dict) { PdfDictionary x(n.o->GetDictionary()); c.require(x == n.o->GetDictionary() && !(x != n.o->GetDictionary()) && !(x != x), "dictionary-inequality", ""); x.AddKey("MonX", PdfObject(true)); c.require(!(x == n.o->GetDictionary()) && x != n.o->GetDictionary(), "dictionary-inequality", ""); }
                break;
            }
            case 30: // null compares only to null
            {
                what = "compare-null"; PdfVariant nul; bool isNull = n.v->k == Val::Null;
                c.require((nul == n.o->GetVariant()) == isNull && (n.o->GetVariant() == nul) == isNull, "null-equality", vis(strict(*n.v)));
                c.require((nul != n.o->GetVariant()) == !isNull && (n.o->GetVariant() != nul) == !isNull, "null-inequality", vis(strict(*n.v)));
                break;
            }
            case 31: // reads
            {
                what = "reads"; c.ev("read batches");
                PdfObject& o = *n.o; (void)o.GetDataTypeString(); (void)o.HasStream(); (void)o.GetStream();
                bool b; int64_t i; double d; PdfReference rf; (void)o.TryGetBool(b); (void)o.TryGetNumber(i); (void)o.TryGetReal(d); (void)o.TryGetReference(rf); (void)o.TryGetNumberLenient(i);
                if (!(streamRoot)) { std::string t; o.ToString(t); (void)o.GetVariant().ToString(); }
                if (o.IsArray()) { auto& a = o.GetArray(); for (auto& x : a) (void)x.GetDataType(); for (auto it = a.rbegin(); it != a.rend(); ++it) (void)it->IsNull(); if (a.GetSize()) { (void)a.front(); (void)a.back(); } if (sl.doc) for (auto x : a.GetIndirectIterator()) (void)x; a.Reserve(20); }
                if (o.IsDictionary()) { auto& dd = o.GetDictionary(); for (auto& x : dd) { (void)x.second.GetDataType(); if (!x.second.IsReference()) c.require(dd.FindKey(x.first) == &x.second, "FindKey", ""); (void)dd.MustGetKey(x.first); } (void)dd.GetKey("Absent"); (void)dd.FindKeyParent("Absent"); bool th = false; try { dd.MustGetKey("Absent"); } catch (PdfError&) { th = true; } c.require(th, "absent-key", ""); }
                if (sl.hasStream) { (void)sl.o->GetStream()->GetCopySafe(); (void)sl.o->GetStream()->GetLength(); }
                break;
            }
            case 32: // references resolve through nested values
            {
                if (!sl.indirect || (n.v->k != Val::Arr && n.v->k != Val::Dict)) break;
                PdfObject* target = S[si < 2 ? 1 - si : 2].o; bool sameDoc = target->GetDocument() == sl.doc; Ref rf = Store::refOf(*target);
                PdfObject* other = S[si < 2 ? 2 : 0].o; c.ev("references added");
                if (n.v->k == Val::Arr)
                {
                    auto& a = n.o->GetArray();
                    if (r.chance(1, 2)) a.AddIndirect(*target); else a.AddIndirectSafe(*target);
                    n.v->a.push_back(Val::ref(rf.first, rf.second)); c.require(a.FindAt(a.GetSize() - 1) == target, "reference-not-resolved", "");
                    bool th = false; try { a.AddIndirect(*other); } catch (PdfError&) { th = true; } c.require(th, "foreign-object-referenced", "");
                    size_t i = r.below(a.GetSize()); if (r.chance(1, 2)) a.SetAtIndirect(i, target); else a.SetAtIndirectSafe(i, *target); n.v->a[i] = Val::ref(rf.first, rf.second);
                }
                else
                {
                    auto& d = n.o->GetDictionary(); if (r.chance(1, 2)) d.AddKeyIndirect("Ref", *target); else d.AddKeyIndirectSafe("Ref", *target);
                    n.v->d["Ref"] = Val::ref(rf.first, rf.second); c.require(d.FindKey("Ref") == target, "reference-not-resolved", "");
                    bool th = false; try { d.AddKeyIndirect("Ref2", *other); } catch (PdfError&) { th = true; } c.require(th, "foreign-object-referenced", "");
                }
                (void)sameDoc; mutate("add-reference"); break;
            }
            default: // a name or string taken out of a value is a copy
            {
                what = "detached-scalars";
                if (n.v->k == Val::Name) { PdfName x = n.o->GetName(); PdfName y = x; y = PdfName("other"); c.require(std::string(x.GetString()) == n.v->s && x == n.o->GetName() && x != y, "name-copy", ""); }
                if (n.v->k == Val::Str) { PdfString x = n.o->GetString(); PdfString y = x; y = PdfString("other"); c.require(x == n.o->GetString() && !(x != n.o->GetString()), "string-copy", ""); }
                break;
            }
        }
        w.checkAll(mut, what, mut2);
    }
    c.state(hist); c.sample(hist);
}

static void none(Ctx&) { }
int main(int argc, char** argv) { mon::modes()["c14"] = c14; mon::modes()["c15"] = c15; return mon::main(argc, argv, none); }
