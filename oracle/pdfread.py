"""A strict reader of PDF files, written from ISO 32000-1 and independent of the library under test.

It reports every structural defect it meets in `problems` instead of repairing it.
"""
import re, zlib, hashlib

WS = b"\0\t\n\f\r "
DELIM = b"()<>[]{}/%"

class Name(bytes):
    __slots__ = ()
    def __repr__(self): return "/" + self.decode("latin1")
class Ref(tuple):
    __slots__ = ()
    def __new__(cls, n, g): return tuple.__new__(cls, (n, g))
    def __repr__(self): return "%d %d R" % self
class Kw(bytes):
    __slots__ = ()
class Stream:
    __slots__ = ("d", "raw", "off")
    def __init__(self, d, raw, off=0): self.d, self.raw, self.off = d, raw, off

class HexBytes(bytes):
    """a string written in hexadecimal form"""
class PdfSyntaxError(Exception):
    pass

class Lexer:
    def __init__(self, data, pos=0):
        self.b, self.p = data, pos
    def skip(self):
        b, n = self.b, len(self.b)
        while self.p < n:
            c = b[self.p]
            if c in WS: self.p += 1
            elif c == 0x25:
                while self.p < n and b[self.p] not in b"\r\n": self.p += 1
            else: return
    def regular(self):
        s = self.p
        b, n = self.b, len(self.b)
        while self.p < n and b[self.p] not in WS and b[self.p] not in DELIM: self.p += 1
        return b[s:self.p]
    def obj(self, depth=0):
        """Reads one value; keywords come back as Kw."""
        if depth > 500: raise PdfSyntaxError("nested too deeply")
        self.skip()
        b = self.b
        if self.p >= len(b): raise PdfSyntaxError("end of data")
        c = b[self.p]
        if c == 0x28: return self.litstr()
        if c == 0x2F: return self.name()
        if c == 0x3C:
            if b[self.p:self.p + 2] == b"<<":
                self.p += 2
                d = {}
                while True:
                    self.skip()
                    if b[self.p:self.p + 2] == b">>": self.p += 2; return d
                    k = self.obj(depth + 1)
                    if not isinstance(k, Name): raise PdfSyntaxError("dictionary key %r at %d" % (k, self.p))
                    v = self.obj(depth + 1)
                    if isinstance(v, Kw): raise PdfSyntaxError("keyword %r in dictionary at %d" % (v, self.p))
                    if bytes(k) in d: self.dupkey = True
                    d[bytes(k)] = v
            return self.hexstr()
        if c == 0x5B:
            self.p += 1
            a = []
            while True:
                self.skip()
                if self.p < len(b) and b[self.p] == 0x5D: self.p += 1; return a
                v = self.obj(depth + 1)
                if isinstance(v, Kw): raise PdfSyntaxError("keyword %r in array at %d" % (v, self.p))
                a.append(v)
        if c in b"{}":
            self.p += 1
            return Kw(bytes([c]))
        if c in DELIM: raise PdfSyntaxError("unexpected %r at %d" % (chr(c), self.p))
        t = self.regular()
        v = number(t)
        if v is not None:
            if isinstance(v, int) and t.isdigit():
                m = re.compile(rb"(?:[\0\t\n\f\r ]|%[^\r\n]*[\r\n])+(\d{1,5})(?:[\0\t\n\f\r ]|%[^\r\n]*[\r\n])+R(?=[\0\t\n\f\r ()<>\[\]{}/%]|$)").match(b, self.p)
                if m:
                    self.p = m.end()
                    return Ref(v, int(m.group(1)))
            return v
        if t == b"true": return True
        if t == b"false": return False
        if t == b"null": return None
        return Kw(t)
    def name(self):
        self.p += 1
        t = self.regular()
        out = bytearray(); i = 0
        while i < len(t):
            if t[i] == 0x23:
                try: out.append(int(t[i + 1:i + 3].decode("ascii"), 16)); i += 3; continue
                except ValueError: raise PdfSyntaxError("bad name escape in %r" % t)
            if t[i] < 33 or t[i] > 126: self.rawname = True
            out.append(t[i]); i += 1
        return Name(bytes(out))
    def hexstr(self):
        e = self.b.find(b">", self.p)
        if e < 0: raise PdfSyntaxError("unterminated hex string")
        t = bytes(c for c in self.b[self.p + 1:e] if c not in WS)
        self.p = e + 1
        if len(t) % 2: t += b"0"
        try: return HexBytes(bytes.fromhex(t.decode("ascii")))
        except ValueError: raise PdfSyntaxError("bad hex string")
    def litstr(self):
        b, n = self.b, len(self.b)
        self.p += 1
        out = bytearray(); depth = 1
        while True:
            if self.p >= n: raise PdfSyntaxError("unterminated string")
            c = b[self.p]; self.p += 1
            if c == 0x5C:
                if self.p >= n: raise PdfSyntaxError("unterminated string")
                c = b[self.p]; self.p += 1
                if c in b"01234567":
                    v = c - 48
                    for _ in range(2):
                        if self.p < n and b[self.p] in b"01234567": v = v * 8 + b[self.p] - 48; self.p += 1
                        else: break
                    out.append(v & 255)
                elif c == 0x0D:
                    if self.p < n and b[self.p] == 0x0A: self.p += 1
                elif c == 0x0A: pass
                else: out.append({0x6E: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12}.get(c, c))
            elif c == 0x28: depth += 1; out.append(c)
            elif c == 0x29:
                depth -= 1
                if depth == 0: return bytes(out)
                out.append(c)
            elif c == 0x0D:
                if self.p < n and b[self.p] == 0x0A: self.p += 1
                out.append(10)
            else: out.append(c)

NUM = re.compile(rb"[+-]?(\d+\.?\d*|\.\d+)$")
def number(t):
    if not NUM.match(t): return None
    return float(t) if b"." in t else int(t)

# ---- filters -------------------------------------------------------------------------------
def lzw_decode(data, early=1):
    out = bytearray(); table = []; bits = 9; buf = nb = 0; prev = None
    def reset(): return [bytes([i]) for i in range(256)] + [b"", b""]
    table = reset()
    for byte in data:
        buf = (buf << 8) | byte; nb += 8
        while nb >= bits:
            code = (buf >> (nb - bits)) & ((1 << bits) - 1); nb -= bits; buf &= (1 << nb) - 1
            if code == 256: table = reset(); bits = 9; prev = None; continue
            if code == 257: return bytes(out)
            if prev is None: e = table[code]
            elif code < len(table): e = table[code]; table.append(prev + e[:1])
            elif code == len(table): e = prev + prev[:1]; table.append(e)
            else: raise PdfSyntaxError("lzw code")
            out += e; prev = e
            n = len(table) + early
            bits = 12 if n >= 2048 else 11 if n >= 1024 else 10 if n >= 512 else 9
    return bytes(out)
def a85_decode(data):
    out = bytearray(); g = []
    for c in data:
        if c in WS: continue
        if c == 0x7E: break
        if c == 0x7A and not g: out += b"\0\0\0\0"; continue
        if not 33 <= c <= 117: raise PdfSyntaxError("ascii85 char %d" % c)
        g.append(c - 33)
        if len(g) == 5:
            v = 0
            for x in g: v = v * 85 + x
            if v >> 32: raise PdfSyntaxError("ascii85 overflow")
            out += v.to_bytes(4, "big"); g = []
    if g:
        n = len(g); g += [84] * (5 - n); v = 0
        for x in g: v = v * 85 + x
        out += (v & 0xffffffff).to_bytes(4, "big")[:n - 1]
    return bytes(out)
def hex_decode(data):
    t = bytearray()
    for c in data:
        if c in WS: continue
        if c == 0x3E: break
        t.append(c)
    if len(t) % 2: t += b"0"
    return bytes.fromhex(t.decode("ascii"))
def rl_decode(data):
    out = bytearray(); i = 0
    while i < len(data):
        n = data[i]; i += 1
        if n == 128: break
        if n < 128: out += data[i:i + n + 1]; i += n + 1
        else: out += data[i:i + 1] * (257 - n); i += 1
    return bytes(out)
def unpredict(data, p):
    pred = p.get(b"Predictor", 1)
    if pred == 1: return data
    cols, colors, bpc = p.get(b"Columns", 1), p.get(b"Colors", 1), p.get(b"BitsPerComponent", 8)
    row = (cols * colors * bpc + 7) // 8; bpp = max(1, colors * bpc // 8)
    out = bytearray()
    if pred == 2:
        for o in range(0, len(data), row):
            r = bytearray(data[o:o + row])
            if bpc == 8:
                for i in range(colors, len(r)): r[i] = (r[i] + r[i - colors]) & 255
            elif bpc == 16:
                for i in range(2 * colors, len(r) - 1, 2):
                    v = ((r[i] << 8 | r[i + 1]) + (r[i - 2 * colors] << 8 | r[i - 2 * colors + 1])) & 0xffff
                    r[i], r[i + 1] = v >> 8, v & 255
            else: raise PdfSyntaxError("tiff predictor depth")
            out += r
        return bytes(out)
    prev = bytearray(row)
    for o in range(0, len(data), row + 1):
        t = data[o]; r = bytearray(data[o + 1:o + 1 + row])
        for i in range(len(r)):
            a = r[i - bpp] if i >= bpp else 0; b = prev[i]; c = prev[i - bpp] if i >= bpp else 0
            if t == 1: r[i] = (r[i] + a) & 255
            elif t == 2: r[i] = (r[i] + b) & 255
            elif t == 3: r[i] = (r[i] + (a + b) // 2) & 255
            elif t == 4:
                pa, pb, pc = abs(b - c), abs(a - c), abs(a + b - 2 * c)
                r[i] = (r[i] + (a if pa <= pb and pa <= pc else b if pb <= pc else c)) & 255
        out += r; prev = r + bytearray(row - len(r))
    return bytes(out)

def decode_stream(st, resolve=lambda x: x):
    """Decoded bytes and the list of media filters left undecoded."""
    f = resolve(st.d.get(b"Filter")); p = resolve(st.d.get(b"DecodeParms"))
    fl = [] if f is None else [resolve(x) for x in f] if isinstance(f, list) else [f]
    pl = [] if p is None else [resolve(x) for x in p] if isinstance(p, list) else [p]
    data = st.raw
    for i, n in enumerate(fl):
        parm = pl[i] if i < len(pl) and pl[i] is not None else {}
        parm = {k: resolve(v) for k, v in parm.items()}
        if n in (b"FlateDecode", b"Fl"): data = unpredict(zlib.decompressobj().decompress(data), parm)
        elif n in (b"ASCIIHexDecode", b"AHx"): data = hex_decode(data)
        elif n in (b"ASCII85Decode", b"A85"): data = a85_decode(data)
        elif n in (b"LZWDecode", b"LZW"): data = unpredict(lzw_decode(data, parm.get(b"EarlyChange", 1)), parm)
        elif n in (b"RunLengthDecode", b"RL"): data = rl_decode(data)
        elif n in (b"DCTDecode", b"JPXDecode", b"CCITTFaxDecode", b"JBIG2Decode"): return data, fl[i:]
        elif n == b"Crypt": pass
        else: raise PdfSyntaxError("filter %r" % n)
    return data, []

# ---- canonical text ------------------------------------------------------------------------
def canon_real(r):
    s = "%.5f" % r
    s = s.rstrip("0").rstrip(".") if "." in s else s
    return "0" if s == "-0" else s
def canon(v, skip=()):
    if v is None: return "null"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, int): return "n%d" % v
    if isinstance(v, float): return "n" + canon_real(v)
    if isinstance(v, Name): return "/" + bytes(v).hex()
    if isinstance(v, Ref): return "R%d.%d" % v
    if isinstance(v, bytes): return "s" + v.hex()
    if isinstance(v, list): return "[" + "".join(canon(x) + " " for x in v) + "]"
    if isinstance(v, dict): return "<" + "".join("/%s %s " % (k.hex(), canon(x)) for k, x in sorted(v.items()) if k not in skip) + ">"
    raise TypeError(type(v))
STREAMKEYS = (b"Length", b"Filter", b"DecodeParms", b"DL")
def canon_obj(v, resolve=lambda x: x):
    if isinstance(v, Stream):
        data, _ = decode_stream(v, resolve)
        return canon(v.d, STREAMKEYS) + " stream %d %s" % (len(data), hashlib.md5(data).hexdigest())
    return canon(v)

# ---- file structure ------------------------------------------------------------------------
class Section:
    def __init__(self): self.entries, self.trailer, self.offset, self.is_stream, self.end = {}, {}, 0, False, 0

class Pdf:
    """Reads a whole file strictly; .problems lists violations of the file format."""
    def __init__(self, data, upto=None, decrypt=None):
        self.decrypt = decrypt   # called with the reader once the plain objects are there
        self.b = data if upto is None else data[:upto]
        self.problems, self.sections = [], []
        self.objs, self.objstm = {}, {}
        self.read()
    def bad(self, key, msg): self.problems.append((key, msg))
    def read(self):
        b = self.b
        m = re.match(rb"%PDF-(\d)\.(\d)[\r\n]", b)
        if not m: self.bad("header", "no header at offset 0: %r" % b[:12]); self.version = None
        else: self.version = (int(m.group(1)), int(m.group(2)))
        m = re.search(rb"startxref[\r\n]+(\d+)[\r\n]+%%EOF[\r\n]*$", b)
        if not m:
            self.bad("eof", "no startxref/%%%%EOF at the end: %r" % b[-60:]); return
        self.startxref = int(m.group(1))
        off, seen = self.startxref, set()
        while off is not None:
            if off in seen: self.bad("prev-loop", "cross-reference sections loop at %d" % off); break
            seen.add(off)
            try: s = self.section(off)
            except (PdfSyntaxError, ValueError, IndexError) as e:
                self.bad("xref-syntax", "section at %d: %s" % (off, e)); break
            self.sections.append(s)
            if b"XRefStm" in s.trailer:
                try:
                    h = self.section(s.trailer[b"XRefStm"]); 
                    for k, v in h.entries.items(): s.entries.setdefault(k, v) if s.entries.get(k, ("f",))[0] != "f" else s.entries.__setitem__(k, v)
                except (PdfSyntaxError, ValueError, IndexError) as e: self.bad("xrefstm", str(e))
            off = s.trailer.get(b"Prev")
            if off is not None and not isinstance(off, int): self.bad("prev-type", repr(off)); break
        if not self.sections: return
        self.trailer = self.sections[0].trailer
        self.entries = {}
        for s in reversed(self.sections): self.entries.update(s.entries)
        size = self.trailer.get(b"Size")
        if not isinstance(size, int): self.bad("size", "no /Size")
        elif self.entries and size <= max(self.entries): self.bad("size", "/Size %d with object %d" % (size, max(self.entries)))
        if not isinstance(self.trailer.get(b"Root"), Ref): self.bad("root", "no /Root reference")
        for num, e in self.entries.items():
            if e[0] == "n": self.load(num, e[2], e[1])
        if self.decrypt: self.decrypt(self)
        for num, e in self.entries.items():
            if e[0] == "c": self.load_compressed(num, e[1], e[2])
    def section(self, off):
        b = self.b
        s = Section(); s.offset = off
        if b[off:off + 4] == b"xref":
            p = off + 4
            m = re.compile(rb"[ ]*\r?\n|[ ]*\r").match(b, p)
            if not m: raise PdfSyntaxError("no end of line after xref")
            p = m.end()
            while True:
                m = re.compile(rb"(\d+) (\d+)[ ]*(\r\n|\n|\r)").match(b, p)
                if not m: break
                first, cnt = int(m.group(1)), int(m.group(2)); p = m.end()
                for i in range(cnt):
                    e = b[p:p + 20]
                    mm = re.match(rb"(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)$", e)
                    if not mm: raise PdfSyntaxError("entry %d of %d is %r" % (first + i, cnt, e))
                    if first + i in s.entries: self.bad("xref-duplicate", "object %d listed twice in one section" % (first + i))
                    s.entries[first + i] = (mm.group(3).decode(), int(mm.group(1)) if mm.group(3) == b"n" else int(mm.group(1)), int(mm.group(2)))
                    p += 20
            if b[p:p + 7] != b"trailer": raise PdfSyntaxError("no trailer at %d: %r" % (p, b[p:p + 20]))
            lx = Lexer(b, p + 7)
            s.trailer = lx.obj(); s.end = lx.p
            if not isinstance(s.trailer, dict): raise PdfSyntaxError("trailer is not a dictionary")
            # (type, offset, gen): in-use has offset first
            s.entries = {k: (t, o, g) for k, (t, o, g) in s.entries.items()}
            return s
        num, gen, val, end = self.indirect(off)
        if not isinstance(val, Stream) or val.d.get(b"Type") != b"XRef": raise PdfSyntaxError("no cross-reference section here: %r" % b[off:off + 20])
        s.is_stream, s.end = True, end
        s.trailer = val.d; s.num = num
        w = val.d[b"W"]
        if not (isinstance(w, list) and len(w) >= 3 and all(isinstance(x, int) and x >= 0 for x in w)): raise PdfSyntaxError("/W %r" % (w,))
        idx = val.d.get(b"Index") or [0, val.d[b"Size"]]
        data, _ = decode_stream(val)
        tot = sum(w[:3]); n = sum(idx[1::2])
        if len(data) != tot * n: self.bad("xrefstream-length", "%d bytes for %d entries of %d" % (len(data), n, tot))
        p = 0
        for k in range(0, len(idx), 2):
            for i in range(idx[k + 1]):
                f = []
                for j in range(3): f.append(int.from_bytes(data[p:p + w[j]], "big")); p += w[j]
                if w[0] == 0: f[0] = 1
                if idx[k] + i in s.entries: self.bad("xref-duplicate", "object %d twice" % (idx[k] + i))
                s.entries[idx[k] + i] = ("f", f[1], f[2]) if f[0] == 0 else ("n", f[1], f[2]) if f[0] == 1 else ("c", f[1], f[2])
        return s
    def indirect(self, off):
        b = self.b
        m = re.compile(rb"(\d+)[\0\t\n\f\r ]+(\d+)[\0\t\n\f\r ]+obj").match(b, off)
        if not m: raise PdfSyntaxError("no object header at %d: %r" % (off, b[off:off + 20]))
        lx = Lexer(b, m.end())
        v = lx.obj()
        if isinstance(v, Kw):
            if v == b"endobj": return int(m.group(1)), int(m.group(2)), None, lx.p
            raise PdfSyntaxError("keyword %r as object at %d" % (v, off))
        k = lx.obj()
        if k == b"stream" and isinstance(k, Kw):
            if not isinstance(v, dict): raise PdfSyntaxError("stream without dictionary at %d" % off)
            p = lx.p
            if b[p:p + 2] == b"\r\n": p += 2
            elif b[p:p + 1] == b"\n": p += 1
            else: raise PdfSyntaxError("stream keyword not followed by end of line at %d" % p)
            ln = v.get(b"Length")
            if isinstance(ln, Ref): ln = self.lookup_int(ln)
            if not isinstance(ln, int) or ln < 0 or p + ln > len(b): raise PdfSyntaxError("stream length %r at %d" % (ln, off))
            raw = b[p:p + ln]
            m2 = re.compile(rb"(\r\n|\n|\r)?endstream[\0\t\n\f\r ]+endobj").match(b, p + ln)
            if not m2: raise PdfSyntaxError("stream of object at %d does not end after /Length %d: %r" % (off, ln, b[p + ln:p + ln + 30]))
            return int(m.group(1)), int(m.group(2)), Stream(v, raw, off), m2.end()
        if k != b"endobj" or not isinstance(k, Kw): raise PdfSyntaxError("no endobj of object at %d: %r" % (off, k))
        return int(m.group(1)), int(m.group(2)), v, lx.p
    def lookup_int(self, ref):
        e = getattr(self, "entries", {}).get(ref[0])
        if not e or e[0] != "n": raise PdfSyntaxError("indirect length %r" % (ref,))
        return self.indirect(e[1])[2]
    def load(self, num, gen, off):
        try: n, g, v, end = self.indirect(off)
        except (PdfSyntaxError, IndexError, RecursionError) as e:
            self.bad("object-at-offset", "object %d %d: %s" % (num, gen, e)); return
        if (n, g) != (num, gen): self.bad("object-at-offset", "entry %d %d leads to object %d %d" % (num, gen, n, g)); return
        self.objs[(num, gen)] = v
        self.extent = getattr(self, "extent", {}); self.extent[(num, gen)] = (off, end)
    def load_compressed(self, num, stmnum, index):
        e = self.entries.get(stmnum)
        st = self.objs.get((stmnum, e[2])) if e and e[0] == "n" else None
        if not isinstance(st, Stream): self.bad("object-stream", "object %d in missing stream %d" % (num, stmnum)); return
        if stmnum not in self.objstm:
            data, _ = decode_stream(st, self.resolve)
            n, first = st.d[b"N"], st.d[b"First"]
            hdr = [int(x) for x in data[:first].split()]
            self.objstm[stmnum] = [(hdr[2 * i], Lexer(data, first + hdr[2 * i + 1])) for i in range(n)]
        lst = self.objstm[stmnum]
        if index >= len(lst) or lst[index][0] != num: self.bad("object-stream", "object %d not at index %d of stream %d" % (num, index, stmnum)); return
        try: self.objs[(num, 0)] = lst[index][1].obj()
        except PdfSyntaxError as ex: self.bad("object-stream", "object %d: %s" % (num, ex))
    def resolve(self, v):
        n = 0
        while isinstance(v, Ref):
            v = self.objs.get((v[0], v[1])); n += 1
            if n > 50: return None
        return v
    def check_free_chain(self):
        """Free entries form one list from object 0 (ISO 32000-1, 7.5.4)."""
        ent = self.entries
        if 0 not in ent: self.bad("free-head", "no entry for object 0"); return
        if ent[0][0] != "f" or ent[0][2] != 65535: self.bad("free-head", "entry 0 is %r" % (ent[0],)); return
        free = {n for n, e in ent.items() if e[0] == "f"}
        seen, n = set(), 0
        while True:
            if n in seen: self.bad("free-chain", "free list loops at %d" % n); return
            seen.add(n)
            nx = ent[n][1]
            if nx == 0: break
            if nx not in free: self.bad("free-chain", "free list leads from %d to %d, which is not free" % (n, nx)); return
            n = nx
        # entries outside the list must link back to object 0; numbers that can not be used again may stay as they were
        for f in free - seen:
            if ent[f][1] != 0 and ent[f][2] != 65535: self.bad("free-chain", "free object %d is outside the free list" % f); return
    def canon(self):
        out = {}
        for (n, g), v in self.objs.items():
            if isinstance(v, Stream) and v.d.get(b"Type") in (b"XRef",): continue
            try: out["%d.%d" % (n, g)] = canon_obj(v, self.resolve)
            except (PdfSyntaxError, zlib.error, ValueError, TypeError) as e:
                self.bad("stream-decode", "object %d %d: %s" % (n, g, e))
        return out
