"""Independent writer of conforming PDF files in every layout ISO 32000-1 7.5 allows, with the
object graph each file stands for.  `make(rng)` returns (bytes, revisions) where revisions is a list
of (length of the file at the end of the revision, {"num.gen": canonical text}, trailer facts)."""
import sys, os, random, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pdfread import Name, Ref, Stream, canon, canon_obj
REG = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

class GStream(Stream): pass   # with the decoded data and the length object
class W:
    """Serialises values with random spacing"""
    def __init__(self, r): self.r = r; self.style = r.randrange(4)
    def sp(self, must=False):
        r = self.r
        if self.style == 0: return b" " if must else b""
        if self.style == 1: return b"\n" if r.random() < .3 else b" "
        s = b""
        while (must and not s) or r.random() < .3: s += r.choice([b" ", b"\n", b"\r", b"\r\n", b"\t", b"\0", b"\f", b"% a (comment) <<\n"] if self.style == 3 else [b" ", b"\n", b"\r\n", b"\t"])
        return s
    def name(self, n):
        o = b"/"
        for c in n: o += bytes([c]) if c in REG and self.r.random() < .97 else b"#%02x" % c
        return o
    def string(self, s):
        r = self.r
        if r.random() < .35: return b"<" + b"".join((b"%02x" if r.random() < .5 else b"%02X") % c + (b" " if self.style > 1 and r.random() < .05 else b"") for c in s) + b">"
        o = b"("; paren = s.count(b"(") == s.count(b")") and r.random() < .3 and (lambda d: all((d.append(d[-1] + (c == 40) - (c == 41)) or d[-1] >= 0) for c in s))([0])
        for i, c in enumerate(s):
            if c in b"()" and paren: o += bytes([c])
            elif c in b"()\\": o += b"\\" + bytes([c])
            elif c == 13: o += b"\\r" if r.random() < .5 else b"\\015"
            elif c == 10 and r.random() < .5: o += b"\\n"
            elif r.random() < .04: o += b"\\%03o" % c
            else: o += bytes([c])
            if r.random() < .01: o += b"\\\n"
        return o + b")"
    def val(self, v):
        r = self.r
        if v is None: return b"null"
        if v is True: return b"true"
        if v is False: return b"false"
        if isinstance(v, int): return b"%s%d" % (b"+" if v >= 0 and r.random() < .05 else b"", v)
        if isinstance(v, float):
            t = b"%.4f" % v
            if r.random() < .3: t = t.rstrip(b"0")
            if t.startswith(b"0.") and len(t) > 2 and r.random() < .3: t = t[1:]
            if t.startswith(b"-0.") and len(t) > 3 and r.random() < .3: t = b"-" + t[2:]
            return t
        if isinstance(v, Name): return self.name(v)
        if isinstance(v, Ref): return b"%d%s%d%sR" % (v[0], self.sp(True), v[1], self.sp(True))
        if isinstance(v, bytes): return self.string(v)
        if isinstance(v, list):
            o = b"[" + self.sp()
            for i, x in enumerate(v): o += self.val(x) + self.sp(True)
            return o + b"]"
        if isinstance(v, dict):
            o = b"<<" + self.sp(); ks = list(v.items()); r.shuffle(ks)
            for k, x in ks:
                t = self.val(x); o += self.name(k) + self.sp(t[:1] not in b"/(<[") + t + self.sp(True)
            return o + b">>"
        raise TypeError(v)

class Gen:
    def __init__(self, r, opts=()):
        self.r, self.opts = r, opts
        self.out = bytearray(); self.objs = {}; self.gens = {0: 65535}; self.free = set(); self.w = W(r); self.hdr = 0
        self.revs, self.prev, self.next = [], None, r.choice([1, 1, 1, 1, 2, 3, 9])
        self.kind0 = r.choice(["table", "table", "stream", "stream", "hybrid"])
        self.crypt = None      # security handler of encrypted files
        self.helpers = set()   # object and cross-reference streams
        self.bodyEntries = {}  # num -> entry in the newest revision
    # values
    def rname(self):
        r = self.r
        if r.random() < .6: return Name(r.choice([b"A", b"Bc", b"Key", b"Value", b"X1", b"Zoom", b"Obj", b"Stream", b"Parent", b"Kids2", b"N"]))
        return Name(bytes(r.choice(REG) if r.random() < .9 else r.randrange(33, 126) for _ in range(r.randrange(1, 12))))
    def rstr(self):
        r = self.r; n = r.choice([0, 3, 10, 30]) if r.random() < .95 else r.randrange(1000)
        return bytes(r.randrange(256) if r.random() < .3 else r.choice(b"abc ()\\[]<>endobj 0R\n\r") for _ in range(n))
    def value(self, d=2):
        r = self.r; k = r.randrange(12 if d else 9)
        if k == 0: return r.randrange(-1000, 1000)
        if k == 1: return r.choice([0, 1, -1, 2147483647, -2147483648, 4294967296, 65536, 9223372036854775807, -9223372036854775808])
        if k == 2: return round(r.uniform(-1000, 1000), r.randrange(1, 5))
        if k in (3, 4): return self.rstr()
        if k == 5: return self.rname()
        if k == 6: return r.choice([True, False])
        if k == 7: return None if d else 5
        if k == 8: return self.rref()
        if k in (9,): return [self.value(d - 1) for _ in range(r.randrange(6))]
        return {bytes(self.rname()): self.nn(self.value(d - 1)) for _ in range(r.randrange(6))}
    def nn(self, v): return 0 if v is None else v
    def rref(self):
        live = [n for n, v in self.objs.items() if v != "helper"]
        if live: n = self.r.choice(live); return Ref(n, self.gens[n])
        return 17
    # encoders
    def encode(self, data, allowParm=True):
        r = self.r; f = r.choice(["", "", "fl", "fl", "hex", "flp", "a85"])
        if f == "": return data, {}
        if f == "fl": return zlib.compress(data, r.randrange(10)), {b"Filter": Name(b"FlateDecode") if r.random() < .7 else [Name(b"FlateDecode")]}
        if f == "hex": return b"".join(b"%02X" % c for c in data) + b">", {b"Filter": Name(b"ASCIIHexDecode")}
        if f == "a85":
            import base64
            return base64.a85encode(zlib.compress(data), adobe=False) + b"~>", {b"Filter": [Name(b"ASCII85Decode"), Name(b"FlateDecode")]}
        return self.predicted(data, r.choice([1, 3, 4, 5]))
    def predicted(self, data, cols):
        r = self.r
        pad = (-len(data)) % cols
        if pad: return zlib.compress(data), {b"Filter": Name(b"FlateDecode")}
        o = bytearray(); prev = bytes(cols)
        for i in range(0, len(data), cols):
            row = data[i:i + cols]; t = r.choice([0, 2, 2, 1]); o.append(t)
            for j, c in enumerate(row): o.append((c - (prev[j] if t == 2 else row[j - 1] if t == 1 and j else 0)) & 255)
            prev = row
        return zlib.compress(bytes(o)), {b"Filter": Name(b"FlateDecode"), b"DecodeParms": {b"Predictor": r.choice([12, 15, 10]), b"Columns": cols}}
    # body
    def emit(self, num, gen, body):
        off = len(self.out) - self.hdr
        s = self.w.sp
        self.out += b"%d%s%d%sobj" % (num, self.sp1(), gen, self.sp1()) + (self.r.choice([b"\n", b"\r\n", b" ", b"\r"]) if body[:1] not in b"<[(/" or self.r.random() < .8 else b"") + body
        self.out += self.r.choice([b"\n", b"\r\n", b"\r", b" "]) + b"endobj" + self.r.choice([b"\n", b"\r\n", b"\r", b"\n\n"])
        if self.r.random() < .08: self.out += b"% between objects 1 0 obj\n"
        return off
    def sp1(self): return self.r.choice([b" "] * 8 + [b"\n", b"  "])
    def stream_body(self, d, raw, length=None):
        d = dict(d); d[b"Length"] = len(raw) if length is None else length
        eol = self.r.choice([b"\n", b"\r\n"])
        tail = self.r.choice([b"\n", b"\r\n", b"\n", b""]) 
        return self.w.val(d) + self.w.sp() + b"stream" + eol + raw + tail + b"endstream"
    def newnum(self, compressed=False):
        r = self.r; fr = [n for n in self.free if self.gens[n] < 65535]
        if fr and r.random() < .5 and not compressed: n = r.choice(fr); self.free.discard(n); self.reused = True; return n
        n = self.next; self.next += 1
        if r.random() < .05: self.next += r.randrange(1, 4)   # numbers that are never used
        self.gens[n] = r.choice([1, 3, 65534]) if not compressed and r.random() < .04 else 0; return n
    def revision(self, first):
        r = self.r; kind = self.kind0 if first or r.random() < .85 else r.choice(["table", "stream", "hybrid"])
        changed, deleted = set(), set(); self.reused = False
        if first:
            self.root = self.newnum(); self.pages = self.newnum(); self.objs[self.root] = None; self.objs[self.pages] = None
            for _ in range(r.randrange(0, 14)): self.objs[self.newnum()] = None
            for n in list(self.objs): self.assign(n); changed.add(n)
            if self.crypt and self.meta:
                n = self.newnum(); data = b"<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'?><x:xmpmeta xmlns:x='adobe:ns:meta/'></x:xmpmeta><?xpacket end='w'?>"
                raw, d = (data, {}) if r.random() < .6 else (zlib.compress(data), {b"Filter": [Name(b"FlateDecode")]})
                if not self.crypt.em and r.random() < .6: d[b"Filter"] = [Name(b"Crypt")] + d.get(b"Filter", []); d[b"DecodeParms"] = [{b"Name": Name(b"Identity"), b"Type": Name(b"CryptFilterDecodeParms")}] + ([None] if len(d[b"Filter"]) > 1 else [])
                d.update({b"Type": Name(b"Metadata"), b"Subtype": Name(b"XML")}); st = GStream(d, raw); st.plain = data; self.objs[n] = st; changed.add(n); self.metanum = n; self.assign(self.root)
        else:
            live = [n for n in self.objs if n not in (self.root, self.pages, getattr(self, "metanum", None)) and n not in self.helpers]
            for n in live:
                x = r.random()
                if x < .2: self.assign(n); changed.add(n)
                elif x < .32 and n not in self.helpers:
                    del self.objs[n]; deleted.add(n); self.free.add(n); self.gens[n] = min(65535, self.gens[n] + 1)
            for _ in range(r.randrange(0, 5)):
                n = self.newnum(); self.objs[n] = None; self.assign(n); changed.add(n); deleted.discard(n)
            if r.random() < .3: self.assign(self.root); changed.add(self.root)
        # helper numbers
        entries = {}
        if first and self.crypt:
            if r.random() < .6:
                n = self.newnum(True); self.helpers.add(n); self.objs[n] = "helper"; self.encobj = Ref(n, 0); encnum = n
            else: self.encobj = self.crypt.dict(r); encnum = None
        useObjStm = kind != "table" and r.random() < .8
        comp = []
        for n in sorted(changed):
            v = self.objs[n]
            if useObjStm and not isinstance(v, Stream) and self.gens[n] == 0 and r.random() < .7 and not (kind == "hybrid" and n in (self.root, self.pages)): comp.append(n)
        plain = [n for n in changed if n not in comp]; r.shuffle(plain)
        # lengths stored as objects of their own
        for n in list(plain):
            v = self.objs[n]
            if isinstance(v, Stream): v.out = self.enc(n, self.gens[n], v.d, v.raw)
            if isinstance(v, Stream) and r.random() < .25:
                ln = self.newnum(); self.objs[ln] = len(v.out); v.lenref = ln; plain.insert(r.randrange(len(plain) + 1), ln); changed.add(ln); self.helpers.add(ln); deleted.discard(ln)
        groups = []
        r.shuffle(comp)
        while comp: k = r.randrange(1, 8); groups.append(comp[:k]); comp = comp[k:]
        jobs = [("o", n) for n in plain] + [("s", g) for g in groups]; r.shuffle(jobs)
        if first and self.crypt and encnum: entries[encnum] = ("n", self.emit(encnum, 0, self.w.val(self.crypt.dict(r))), 0)
        for t, n in jobs:
            if t == "o":
                v = self.objs[n]
                if isinstance(v, Stream):
                    ref = Ref(v.lenref, self.gens[v.lenref]) if getattr(v, "lenref", None) else None
                    body = self.stream_body(self.encval(v.d, n, self.gens[n]), v.out, ref)
                else: body = self.w.val(self.encval(v, n, self.gens[n]))
                entries[n] = ("n", self.emit(n, self.gens[n], body), self.gens[n])
            else:
                sn = self.newnum(True); self.helpers.add(sn)
                bodies = [self.w.val(self.objs[x]) for x in n]; hdr, data = [], b""
                for x, b in zip(n, bodies): hdr.append(b"%d %d" % (x, len(data))); data += b + r.choice([b" ", b"\n"])
                h = r.choice([b" ", b"\n"]).join(hdr) + b" "; raw, d = self.encode(h + data)
                d = dict(d); d.update({b"Type": Name(b"ObjStm"), b"N": len(n), b"First": len(h)})
                entries[sn] = ("n", self.emit(sn, 0, self.stream_body(d, self.enc(sn, 0, d, raw))), 0)
                self.objs[sn] = "helper"
                for i, x in enumerate(n): entries[x] = ("c", sn, i)
        for n in deleted: entries[n] = ("f", 0, self.gens[n])
        if first: entries[0] = ("f", 0, 65535)
        elif deleted or self.reused or r.random() < .3:
            entries[0] = ("f", 0, 65535)
            for n in self.free:
                if n not in entries: entries[n] = ("f", 0, self.gens[n])
        if first:
            for n in range(1, self.next):
                if n not in entries: entries[n] = ("f", 0, self.r.choice([0, 1, 65535])); self.gens[n] = entries[n][2]; self.free.add(n)
        # chain of free entries
        fr = sorted(n for n, e in entries.items() if e[0] == "f" and n)
        if 0 in entries:
            chain = [0] + fr
            for a, b in zip(chain, chain[1:] + [0]): entries[a] = ("f", b, entries[a][2])
        hidden = {}
        if kind == "hybrid":
            hidden = {n: e for n, e in entries.items() if e[0] == "c"}
            for n in list(hidden): del entries[n]
            if r.random() < .6:
                for n in hidden: entries[n] = ("f", 0, 65535) if r.random() < .5 else ("f", 0, 0)
        tr = {b"Root": Ref(self.root, self.gens[self.root])}
        if r.random() < .6: tr[b"ID"] = [self.rid(), self.rid()]
        if self.crypt: tr[b"ID"] = [self.crypt.id0, self.rid()]; tr[b"Encrypt"] = self.encobj
        if self.prev is not None: tr[b"Prev"] = self.prev
        if kind == "hybrid" and hidden:
            xoff = self.xrefstream(hidden, {}, None); tr[b"XRefStm"] = xoff
            if r.random() < .5 and self.hs: entries[self.hs] = ("n", xoff, 0)
        if kind == "stream":
            sx = self.xrefstream(entries, tr, True)
        else:
            sx = self.table(entries, tr)
        self.prev = sx
        self.out += b"startxref" + self.eol() + b"%d" % sx + self.eol() + b"%%EOF" + r.choice([b"\n", b"\r\n", b"", b"\r"])
        exp = {}
        for n, v in self.objs.items():
            if v == "helper": continue
            exp["%d.%d" % (n, self.gens[n])] = self.canon(v)
        self.revs.append((len(self.out), exp, {"Root": "%d.%d" % (self.root, self.gens[self.root])}, kind))
        if self.out[-1:] not in b"\r\n": self.out += b"\n"
    def enc(self, n, g, d, raw): return self.crypt.crypt(n, g, raw, self.crypt.stream_method(d), True, self.rnd) if self.crypt else raw
    def encval(self, v, n, g): return self.crypt.value(v, n, g, True, self.rnd) if self.crypt else v
    def rnd(self, n): return bytes(self.r.getrandbits(8) for _ in range(n))
    def eol(self): return self.r.choice([b"\n", b"\r\n", b"\r"])
    def rid(self): return bytes(self.r.randrange(256) for _ in range(16))
    def canon(self, v):
        if isinstance(v, Stream):
            import hashlib
            return canon({k: x for k, x in v.d.items() if k not in (b"Filter", b"DecodeParms", b"Length", b"DL")}) + " stream %d %s" % (len(v.plain), hashlib.md5(v.plain).hexdigest())
        return canon(v)
    def assign(self, n):
        r = self.r
        if n == self.root:
            self.objs[n] = {b"Type": Name(b"Catalog"), b"Pages": Ref(self.pages, self.gens[self.pages]), b"Rnd": self.value(1)}
            if self.objs[n][b"Rnd"] is None: del self.objs[n][b"Rnd"]
            if getattr(self, "metanum", None): self.objs[n][b"Metadata"] = Ref(self.metanum, self.gens[self.metanum])
        elif n == self.pages: self.objs[n] = {b"Type": Name(b"Pages"), b"Kids": [], b"Count": 0}
        elif r.random() < .3:
            x = r.random(); size = r.randrange(0, 60) if x < .6 else r.randrange(0, 4000)
            data = bytes(r.choice(b"endstream endobj \n\r<<>>") if r.random() < .5 else r.randrange(256) for _ in range(size)) if size < 300 else os.urandom(0) + bytes(r.getrandbits(8) for _ in range(size))
            raw, d = self.encode(data); e = self.value(1)
            if isinstance(e, dict): d.update({k: v for k, v in e.items() if k not in (b"Length", b"Filter", b"DecodeParms", b"Type", b"F", b"FFilter")})
            if self.crypt and self.crypt.V >= 4 and r.random() < .08:
                f = d.get(b"Filter", []); f = f if isinstance(f, list) else [f]; p = d.get(b"DecodeParms"); p = p if isinstance(p, list) else [p] * len(f)
                d[b"Filter"] = [Name(b"Crypt")] + f; d[b"DecodeParms"] = [{b"Name": Name(b"Identity")} if r.random() < .6 else None] + p
                if all(x is None for x in d[b"DecodeParms"]): del d[b"DecodeParms"]
            s = GStream(d, raw); s.plain = data; self.objs[n] = s
        else:
            v = self.value(3)
            if isinstance(v, Ref) or v is None: v = [v]
            if isinstance(v, dict): v.pop(b"Type", None)
            self.objs[n] = v
    def subsections(self, entries):
        nums = sorted(entries); out = []
        for n in nums:
            if out and out[-1][-1] + 1 == n and not (self.r.random() < .08 and self.prev is not None): out[-1].append(n)
            else: out.append([n])
        return out
    def table(self, entries, tr):
        r = self.r; off = len(self.out) - self.hdr
        self.out += b"xref" + self.eol(); eol = r.choice([b" \n", b" \r", b"\r\n"])
        subs = self.subsections(entries) or [[0]]
        if subs == [[0]] and 0 not in entries: entries = {0: ("f", 0, 65535)}
        for sub in subs:
            self.out += b"%d %d" % (sub[0], len(sub)) + self.eol()
            for n in sub: t, a, b = entries[n]; self.out += b"%010d %05d %s" % (a, b, t.encode()) + eol
        tr = dict(tr); tr[b"Size"] = self.next
        self.out += b"trailer" + self.eol() + self.w.val(tr) + self.eol()
        return off
    def xrefstream(self, entries, tr, own):
        r = self.r; sn = self.newnum(True); self.helpers.add(sn); self.objs[sn] = "helper"; self.hs = sn
        off = len(self.out) - self.hdr; entries = dict(entries)
        if own: entries[sn] = ("n", off, 0)
        mx1 = max([e[1] for e in entries.values()] + [off]); mx2 = max([e[2] for e in entries.values()] + [0])
        need = lambda x: max(1, (x.bit_length() + 7) // 8)
        w = [1, need(mx1) + r.choice([0, 0, 0, 1, 2, 4, 5]), need(mx2) if mx2 or r.random() < .7 else 0]
        if r.random() < .1: w[0] = 2
        if all(e[0] == "n" for e in entries.values()) and r.random() < .7: w[0] = 0
        w[1] = min(w[1], 8); subs = self.subsections(entries); data = b""
        for sub in subs:
            for n in sub:
                t, a, b = entries[n]; data += ({"f": 0, "n": 1, "c": 2}[t]).to_bytes(w[0], "big") if w[0] else b""
                data += a.to_bytes(w[1], "big") + (b.to_bytes(w[2], "big") if w[2] else b"")
        d = dict(tr); d.update({b"Type": Name(b"XRef"), b"W": w, b"Size": self.next})
        if not (len(subs) == 1 and subs[0][0] == 0 and len(subs[0]) == self.next) or r.random() < .5:
            d[b"Index"] = [x for sub in subs for x in (sub[0], len(sub))]
        x = r.random()
        if x < .25: raw = data
        elif x < .6: raw, e = zlib.compress(data), {b"Filter": Name(b"FlateDecode")}; d.update(e)
        else: raw, e = self.predicted(data, sum(w)); d.update(e)
        self.emit(sn, 0, self.stream_body(d, raw))
        return off
    def make(self):
        r = self.r
        if "junk" in self.opts and r.random() < .2: self.out += r.choice([b"\n", b"junk before the header\r\n", b"\xef\xbb\xbf", b"x" * 700 + b"\n"]); self.hdr = len(self.out)
        self.out += b"%PDF-1." + r.choice([b"5", b"6", b"7"]) + r.choice([b"\n", b"\r\n", b"\r"])
        if r.random() < .8: self.out += b"%\xe2\xe3\xcf\xd3" + self.eol()
        self.revision(True)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])): self.revision(False)
        return bytes(self.out), self.revs

PWS = [b"user", b"p", b"secret password", b"0123456789012345678901234567890123456789", b"pass\xc3\xa9w\xc3\xb6rd", b"\xe2\x82\xac 100", b"tab\tand(paren)\\", b"\xd0\xbf\xd0\xb0\xd1\x80\xd0\xbe\xd0\xbb\xd1\x8c", b"x" * 127, b"y" * 200, b"a\xcc\x8a", b"\xef\xbd\x81bc"]
def password(r, R):
    x = r.random()
    if x < .15: return b""
    if x < .5: return bytes(r.choice(REG) for _ in range(r.randrange(1, 40)))
    return r.choice(PWS).replace(b"\t", b" " if R >= 5 else b"\t")
def crypted(r):
    """-> (handler, user password, owner password)"""
    import pdfcrypt
    V, R, bits, m = r.choice([(1, 2, 40, "V2")] * 2 + [(2, 3, r.choice([40, 48, 56, 64, 80, 96, 104, 120, 128, 128, 128]), "V2")] * 3 + [(4, 4, 128, "V2")] + [(4, 4, 128, "AESV2")] * 3 + [(5, 5, 256, "AESV3")] * 2 + [(5, 6, 256, "AESV3")] * 3)
    P = (0xFFFFF0C0 | r.getrandbits(32) & 0xF3C) & 0xFFFFFFFF
    rnd = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    h = pdfcrypt.Handler(V, R, bits, P, rnd(16) if r.random() < .9 else rnd(r.randrange(1, 33)), V < 4 or r.random() < .6, m, m)
    user, owner = password(r, R), password(r, R)
    h.setup(user, owner, rnd)
    return h, user, owner
def corpus_crypt(outdir, seed, first, count, opts=()):
    for i in range(first, first + count):
        r = random.Random(seed * 1000003 + i); g = Gen(r, opts); g.crypt, user, owner = crypted(r); g.meta = r.random() < .6; g.metanum = None
        if g.crypt.R <= 4 and not owner: owner = user
        data, revs = g.make(); n, exp, tr, kind = revs[-1]; data = data[:n]; base = "%s/e%06d" % (outdir, i)
        with open(base + ".pdf", "wb") as f: f.write(data)
        with open(base + ".exp", "w") as f:
            h = g.crypt
            f.write("trailer Root %s\nkinds %s\ncrypt V%d.R%d.%d.%s%s\nuser %s\nowner %s\nperms %d\n" % (tr["Root"], ",".join(x[3] for x in revs), h.V, h.R, h.n * 8, h.stmf, "" if h.em else ".plainmeta", user.hex(), owner.hex(), h.P & 0xFFFFFFFF))
            for k, v in sorted(exp.items()): f.write("%s %s\n" % (k, v))
def corpus(outdir, seed, first, count, opts=("junk",)):
    for i in range(first, first + count):
        data, revs = Gen(random.Random(seed * 1000003 + i), opts).make()
        # drop the end-of-line added after the last revision
        n, exp, tr, kind = revs[-1]; data = data[:n]
        base = "%s/g%06d" % (outdir, i)
        with open(base + ".pdf", "wb") as f: f.write(data)
        with open(base + ".exp", "w") as f:
            f.write("trailer Root %s\n" % tr["Root"]); f.write("kinds %s\n" % ",".join(x[3] for x in revs)); f.write("lengths %s\n" % ",".join(str(x[0]) for x in revs))
            for k, v in sorted(exp.items()): f.write("%s %s\n" % (k, v))
def corpus_parallel(outdir, seed, count, opts=("junk",), procs=8, fn=None):
    import multiprocessing as mp
    os.makedirs(outdir, exist_ok=True)
    step = (count + procs * 4 - 1) // (procs * 4)
    with mp.Pool(procs) as p: p.starmap(fn or corpus, [(outdir, seed, i, min(step, count - i), opts) for i in range(0, count, step)])
if __name__ == "__main__":
    import time; t = time.time()
    corpus_parallel(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])); print("%.1fs" % (time.time() - t))
