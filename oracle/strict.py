# strict reading of saved files and comparison with what was meant to be in them
import os, re, glob, multiprocessing as mp, collections
import pdfread
def check_file(path, decrypt=None):
    """-> (list of (key, message), counts)"""
    data = open(path, "rb").read(); facts, want = {}, {}
    for l in open(path[:-4] + ".exp", encoding="latin1"):
        k, _, v = l.rstrip("\n").partition(" ")
        (want if k[0].isdigit() else facts).__setitem__(k, v)
    out, n = [], collections.Counter()
    try:
        p = pdfread.Pdf(data, decrypt=decrypt); got = p.canon() if p.sections else {}
        if p.sections: p.check_free_chain()
    except Exception as e: return [("unreadable", "%s: %r" % (type(e).__name__, e))], n
    out += p.problems
    if not p.sections: return out or [("no-section", "")], n
    if "version" in facts and p.version != tuple(int(x) for x in facts["version"].split(".")): out.append(("header-version", "%r for %s" % (p.version, facts["version"])))
    for k in ("Root", "Info"):
        if "trailer " + k in facts: pass
    if "trailer" in facts:
        k, v = facts["trailer"].split(" "); r = p.trailer.get(k.encode())
        if not isinstance(r, pdfread.Ref) or v not in ("R%d.%d" % r, "%d.%d" % r): out.append(("trailer-root", "%r, expected %s" % (r, v)))
    for k, v in want.items():
        if k not in got: out.append(("object-missing", "%s %s" % (k, v[:150])))
        elif got[k] != v:
            i = next((i for i, (a, b) in enumerate(zip(got[k], v)) if a != b), min(len(v), len(got[k]))); i = max(0, i - 30)
            out.append(("object-differs", "%s: expected ...%s have ...%s" % (k, v[i:i + 150], got[k][i:i + 150])))
    # entry 0 heads the free list, it is not an object; helper streams are not part of the graph
    for k in got:
        if k not in want:
            v = p.objs.get(tuple(int(x) for x in k.split(".")))
            if isinstance(v, pdfread.Stream) and v.d.get(b"Type") in (b"XRef", b"ObjStm"): continue
            out.append(("object-unexpected", "%s %s" % (k, got[k][:150])))
    # every in-use offset is written exactly once and every gap between objects is white space
    ids = p.trailer.get(b"ID")
    if ids is not None and not (isinstance(ids, list) and len(ids) == 2 and all(isinstance(x, bytes) for x in ids)): out.append(("trailer-id", repr(ids)))
    n["files read strictly"] += 1; n["objects read strictly"] += len(got); n["sections read strictly"] += len(p.sections); n["entries checked"] += sum(len(s.entries) for s in p.sections)
    n["free entries"] += sum(1 for e in p.entries.values() if e[0] == "f")
    if "changed" in facts:
        ch, may = set(facts["changed"].split()), set(facts["edited"].split()); first = p.sections[0]
        if True:
            for num, e in first.entries.items():
                if e[0] == "n":
                    k = "%d.%d" % (num, e[2]); v = p.objs.get((num, e[2]))
                    if isinstance(v, pdfread.Stream) and v.d.get(b"Type") in (b"XRef", b"ObjStm"): continue
                    if k not in may: out.append(("unchanged-object-rewritten", k))
        for k in ch:
            num = int(k.split(".")[0])
            if k in want and first.entries.get(num, ("f",))[0] != "n": out.append(("changed-object-not-in-update", k))
        n["updates read strictly"] += 1
    return out, n
def check_dir(d, pattern="s*.pdf", procs=8, fn=None):
    """yields (path, problems) of the bad files; returns counts through the last item (None, counts)"""
    files = sorted(glob.glob(os.path.join(d, pattern))); tot = collections.Counter()
    with mp.Pool(procs) as pool:
        for f, (bad, n) in zip(files, pool.imap(fn or check_file, files, chunksize=16)):
            tot.update(n)
            if bad: yield f, bad
    yield None, tot
if __name__ == "__main__":
    import sys
    keys = collections.Counter()
    for f, x in check_dir(sys.argv[1]):
        if f is None: print(dict(x))
        else:
            for k, m in x:
                keys[k] += 1
                if keys[k] <= 3: print(os.path.basename(f), k, m[:300])
    print(dict(keys))
