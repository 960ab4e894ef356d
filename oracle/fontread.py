# text of strings shown with the fonts of a saved file, read independently: CMaps, code spaces, ToUnicode, encodings of simple fonts
import pdfread, collections
class CMap:
    def __init__(self): self.spaces, self.map, self.vertical = [], {}, False
    def put(self, size, code, v): self.map[(size, code)] = v
def toks(data):
    lx = pdfread.Lexer(data); out = []
    while True:
        lx.skip()
        if lx.p >= len(data): return out
        out.append(lx.obj())
def parse_cmap(data):
    m, t, i = CMap(), toks(data), 0
    num = lambda b: int.from_bytes(b, "big")
    def u16(b): return b.decode("utf-16-be")
    while i < len(t):
        k = t[i]; i += 1
        if not isinstance(k, pdfread.Kw): continue
        if k == b"begincodespacerange":
            while t[i] != b"endcodespacerange": m.spaces.append((len(t[i]), t[i], t[i + 1])); assert len(t[i]) == len(t[i + 1]); i += 2
        elif k == b"beginbfchar":
            n0 = i
            while t[i] != b"endbfchar": m.put(len(t[i]), num(t[i]), u16(t[i + 1])); i += 2
            assert (i - n0) // 2 <= 100, "more than 100 entries"
        elif k == b"beginbfrange":
            n0 = i
            while t[i] != b"endbfrange":
                lo, hi, d = num(t[i]), num(t[i + 1]), t[i + 2]; assert hi >= lo and hi - lo < 256, "range"
                for c in range(lo, hi + 1):
                    if isinstance(d, list): m.put(len(t[i]), c, u16(d[c - lo]))
                    else:
                        assert d[-1] + hi - lo < 256; m.put(len(t[i]), c, u16(d[:-1] + bytes([d[-1] + c - lo])))
                i += 3
            assert (i - n0) // 3 <= 100, "more than 100 entries"
        elif k == b"begincidchar":
            n0 = i
            while t[i] != b"endcidchar": m.put(len(t[i]), num(t[i]), t[i + 1]); i += 2
            assert (i - n0) // 2 <= 100, "more than 100 entries"
        elif k == b"begincidrange":
            while t[i] != b"endcidrange":
                for c in range(num(t[i]), num(t[i + 1]) + 1): m.put(len(t[i]), c, t[i + 2] + c - num(t[i]))
                i += 3
    return m
def split(m, b):
    """codes of a string: by the code space ranges (ISO 32000-1 9.7.6.3)"""
    out, i = [], 0
    while i < len(b):
        for size, lo, hi in sorted(m.spaces):
            c = b[i:i + size]
            if len(c) == size and all(l <= x <= h for l, x, h in zip(lo, c, hi)): out.append((size, int.from_bytes(c, "big"))); i += size; break
        else: return None
    return out
def check_texts(path):
    out, n = [], collections.Counter()
    try:
        p = pdfread.Pdf(open(path, "rb").read()); fonts = {}
        if not p.sections: return [("no-section", "")], n
        for l in open(path[:-4] + ".exp"):
            no, enc, txt = l.split(); no = int(no); enc = b"" if enc == "-" else bytes.fromhex(enc); txt = "" if txt == "-" else bytes.fromhex(txt).decode("utf8")
            if no not in fonts:
                f = p.resolve(pdfread.Ref(no, 0)); tu = p.resolve(f.get(b"ToUnicode")) if b"ToUnicode" in f else None
                tu = parse_cmap(pdfread.decode_stream(tu, p.resolve)[0]) if isinstance(tu, pdfread.Stream) else None
                e = p.resolve(f.get(b"Encoding")); ecm = parse_cmap(pdfread.decode_stream(e, p.resolve)[0]) if isinstance(e, pdfread.Stream) else e
                fonts[no] = (f[b"Subtype"], ecm, tu); n["fonts read"] += 1
                # a code space is needed by every reader
                for cm, w in ((tu, "ToUnicode"), (ecm, "Encoding")):
                    if isinstance(cm, CMap):
                        for (size, code) in cm.map:
                            b = code.to_bytes(size, "big")
                            if split(cm, b) != [(size, code)]: out.append(("code-outside-code-space", "font %d %s <%s> in %r" % (no, w, b.hex(), cm.spaces))); break
            sub, ecm, tu = fonts[no]
            if sub == b"Type0":
                codes = split(ecm, enc) if isinstance(ecm, CMap) else [(2, int.from_bytes(enc[i:i + 2], "big")) for i in range(0, len(enc), 2)]
                if codes is None: out.append(("string-outside-code-space", "font %d <%s> in %r" % (no, enc.hex(), ecm.spaces))); continue
                if isinstance(ecm, CMap):
                    miss = [c for c in codes if c not in ecm.map]
                    if miss: out.append(("code-without-cid", "font %d <%s> %r" % (no, enc.hex(), miss[:3])))
            else: codes = [(1, x) for x in enc]
            if tu is None: n["fonts without text map"] += 1; continue
            got = "".join(tu.map.get(c, "\0") for c in codes)
            if got != txt: out.append(("text-of-string", "font %d <%s> is %r instead of %r" % (no, enc.hex(), got, txt)))
            n["strings read independently"] += 1
    except Exception as e: return [("unreadable", "%s: %r" % (type(e).__name__, e))], n
    return out, n
if __name__ == "__main__":
    import sys, strict
    keys = collections.Counter()
    for f, x in strict.check_dir(sys.argv[1], "f*.pdf", fn=check_texts):
        if f is None: print(dict(x))
        else:
            for k, m in x:
                keys[k] += 1
                if keys[k] <= 3: print(f, k, m[:300])
    print(dict(keys))
