"""Independent implementation of the standard security handler (ISO 32000-1 7.6, Adobe supplement
extension level 3, ISO 32000-2 7.6): derives keys, authenticates, decrypts and encrypts.  Only the
AES block cipher comes from libcrypto; RC4 and all of the handler are written here."""
import hashlib, ctypes, ctypes.util, os, sys, unicodedata, stringprep
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pdfread import Name, Ref, Stream, HexBytes
PAD = bytes.fromhex("28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A")
_c = None
def _lib():
    global _c
    if _c is None:
        _c = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
        for f in ("EVP_CIPHER_CTX_new", "EVP_aes_128_cbc", "EVP_aes_256_cbc", "EVP_aes_256_ecb"): getattr(_c, f).restype = ctypes.c_void_p
        _c.EVP_CipherInit_ex.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]
        _c.EVP_CIPHER_CTX_set_padding.argtypes = [ctypes.c_void_p, ctypes.c_int]; _c.EVP_CIPHER_CTX_free.argtypes = [ctypes.c_void_p]
        _c.EVP_CipherUpdate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int), ctypes.c_char_p, ctypes.c_int]
    return _c
def aes(key, iv, data, enc, mode="cbc"):
    """raw AES without padding"""
    c = _lib(); assert len(data) % 16 == 0
    if not data: return b""
    ctx = c.EVP_CIPHER_CTX_new(); ci = c.EVP_aes_128_cbc() if len(key) == 16 else c.EVP_aes_256_ecb() if mode == "ecb" else c.EVP_aes_256_cbc()
    try:
        assert c.EVP_CipherInit_ex(ctx, ci, None, key, iv, 1 if enc else 0) == 1
        c.EVP_CIPHER_CTX_set_padding(ctx, 0); out = ctypes.create_string_buffer(len(data) + 32); n = ctypes.c_int()
        assert c.EVP_CipherUpdate(ctx, out, ctypes.byref(n), data, len(data)) == 1 and n.value == len(data)
        return out.raw[:len(data)]
    finally: c.EVP_CIPHER_CTX_free(ctx)
def rc4(key, data):
    s = list(range(256)); j = 0; n = len(key)
    for i in range(256): j = (j + s[i] + key[i % n]) & 255; s[i], s[j] = s[j], s[i]
    i = j = 0; o = bytearray()
    for b in data: i = (i + 1) & 255; j = (j + s[i]) & 255; s[i], s[j] = s[j], s[i]; o.append(b ^ s[(s[i] + s[j]) & 255])
    return bytes(o)
def md5(x): return hashlib.md5(x).digest()
def pkcs(d): n = 16 - len(d) % 16; return d + bytes([n]) * n
class BadData(Exception): pass
def unpkcs(d):
    if not d: return d
    n = d[-1]
    if not 1 <= n <= 16 or d[-n:] != bytes([n]) * n: raise BadData("padding %r" % d[-16:])
    return d[:-n]
def saslprep(s):
    # RFC 4013 with unassigned code points prohibited as in stored strings
    o = "".join(" " if stringprep.in_table_c12(c) else c for c in s if not stringprep.in_table_b1(c))
    return unicodedata.ucd_3_2_0.normalize("NFKC", o)
def prep(pw, R):
    """bytes of a password as given by a user -> bytes used by the handler"""
    if R >= 5: return saslprep(pw.decode("utf-8")).encode("utf-8")[:127]
    return (pw + PAD)[:32]
def hash2b(pw, salt, udata, R):
    k = hashlib.sha256(pw + salt + udata).digest()
    if R < 6: return k
    i = 0
    while True:
        k1 = (pw + k + udata) * 64
        e = aes(k[:16], k[16:32], k1, True)
        k = [hashlib.sha256, hashlib.sha384, hashlib.sha512][int.from_bytes(e[:16], "big") % 3](e).digest()
        i += 1
        if i >= 64 and e[-1] <= i - 32: return k[:32]
class Handler:
    """V, R, bits, P, id0, encryptMetadata, filters: stmf / strf in ('Identity','V2','AESV2','AESV3')"""
    def __init__(self, V, R, bits, P, id0, em=True, stmf=None, strf=None):
        self.V, self.R, self.n, self.P, self.id0, self.em = V, R, bits // 8, P & 0xFFFFFFFF, id0, em
        self.stmf, self.strf = stmf, strf; self.key = None
    # ---- revision 2 to 4
    def key4(self, padded):
        h = padded + self.O + self.P.to_bytes(4, "little") + self.id0 + (b"\xff" * 4 if self.R >= 4 and not self.em else b"")
        k = md5(h)
        if self.R >= 3:
            for _ in range(50): k = md5(k[:self.n])
        return k[:self.n]
    def okey4(self, padded):
        k = md5(padded)
        if self.R >= 3:
            for _ in range(50): k = md5(k[:self.n])   # as every implementation does; the text of algorithm 3 does not mention the length
        return k[:self.n]
    def u4(self, key):
        if self.R == 2: return rc4(key, PAD)
        x = rc4(key, md5(PAD + self.id0))
        for i in range(1, 20): x = rc4(bytes(b ^ i for b in key), x)
        return x
    def setup(self, user, owner, rnd, emptyOwnerIsUser=True):
        """computes the dictionary values for new passwords"""
        if self.R <= 4:
            u = prep(user, self.R); o = prep(owner if owner or not emptyOwnerIsUser else user, self.R)
            k = self.okey4(o); x = rc4(k, u)
            if self.R >= 3:
                for i in range(1, 20): x = rc4(bytes(b ^ i for b in k), x)
            self.O = x; self.key = self.key4(u); self.U = self.u4(self.key)
            if self.R >= 3: self.U += rnd(16)
            return
        u, o = prep(user, self.R), prep(owner, self.R); self.key = rnd(32); z = bytes(16)
        vs, ks = rnd(8), rnd(8); self.U = hash2b(u, vs, b"", self.R) + vs + ks; self.UE = aes(hash2b(u, ks, b"", self.R), z, self.key, True)
        vs, ks = rnd(8), rnd(8); self.O = hash2b(o, vs, self.U, self.R) + vs + ks; self.OE = aes(hash2b(o, ks, self.U, self.R), z, self.key, True)
        p = self.P.to_bytes(4, "little") + b"\xff\xff\xff\xff" + (b"T" if self.em else b"F") + b"adb" + rnd(4)
        self.Perms = aes(self.key, None, p, True, "ecb")
    def auth(self, pw):
        """-> 'user', 'owner' or None; sets the key"""
        p = prep(pw, self.R)
        if self.R <= 4:
            k = self.key4(p); u = self.u4(k)
            if u[:16 if self.R >= 3 else 32] == self.U[:16 if self.R >= 3 else 32]: self.key = k; return "user"
            ok = self.okey4(p); x = self.O
            for i in (range(19, -1, -1) if self.R >= 3 else [0]): x = rc4(bytes(b ^ i for b in ok), x)
            k = self.key4(x); u = self.u4(k)
            if u[:16 if self.R >= 3 else 32] == self.U[:16 if self.R >= 3 else 32]: self.key = k; return "owner"
            return None
        z = bytes(16)
        if hash2b(p, self.O[32:40], self.U[:48], self.R) == self.O[:32]: self.key = aes(hash2b(p, self.O[40:48], self.U[:48], self.R), z, self.OE, False); return "owner"
        if hash2b(p, self.U[32:40], b"", self.R) == self.U[:32]: self.key = aes(hash2b(p, self.U[40:48], b"", self.R), z, self.UE, False); return "user"
        return None
    def perms_ok(self):
        if self.R < 5: return True
        p = aes(self.key, None, self.Perms, False, "ecb")
        return p[9:12] == b"adb" and p[:4] == self.P.to_bytes(4, "little") and p[8:9] == (b"T" if self.em else b"F")
    # ---- data
    def objkey(self, num, gen, method):
        if method == "AESV3": return self.key
        k = self.key + num.to_bytes(4, "little")[:3] + gen.to_bytes(4, "little")[:2] + (b"sAlT" if method == "AESV2" else b"")
        return md5(k)[:min(16, self.n + 5)]
    def crypt(self, num, gen, data, method, enc, rnd=None):
        if method == "Identity": return data
        k = self.objkey(num, gen, method)
        if method == "V2": return rc4(k, data)
        if enc: iv = rnd(16); return iv + aes(k, iv, pkcs(data), True)
        if not data: return data
        if len(data) % 16 or len(data) < 32: raise BadData("%d bytes of AES data" % len(data))
        return unpkcs(aes(k, data[:16], data[16:], False))
    def stream_method(self, d):
        f = d.get(b"Filter"); f = f if isinstance(f, list) else [f]; p = d.get(b"DecodeParms"); p = p if isinstance(p, list) else [p]
        if d.get(b"Type") == b"XRef": return "Identity"
        if self.V >= 4 and b"Crypt" in f:
            i = f.index(b"Crypt"); q = p[i] if i < len(p) and isinstance(p[i], dict) else {}
            n = q.get(b"Name", Name(b"Identity"))
            return "Identity" if n == b"Identity" else self.stmf
        if self.V >= 4 and not self.em and d.get(b"Type") == b"Metadata": return "Identity"
        return self.stmf
    def value(self, v, num, gen, enc, rnd=None, top=True):
        if isinstance(v, (Name, Ref)): return v
        if isinstance(v, bytes): return self.crypt(num, gen, v, self.strf, enc, rnd)
        if isinstance(v, list): return [self.value(x, num, gen, enc, rnd, False) for x in v]
        if isinstance(v, dict):
            sig = v.get(b"Type") in (b"Sig", b"DocTimeStamp")
            return {k: x if sig and k == b"Contents" and isinstance(x, HexBytes) else self.value(x, num, gen, enc, rnd, False) for k, x in v.items()}
        return v
    def dict(self, r=None):
        """the encryption dictionary for the values computed by setup"""
        d = {b"Filter": Name(b"Standard"), b"V": self.V, b"R": self.R, b"O": self.O, b"U": self.U, b"P": self.P - (1 << 32) if self.P >> 31 else self.P}
        if self.V in (2, 4) : d[b"Length"] = self.n * 8
        if self.V == 5: d[b"Length"] = 256; d[b"OE"], d[b"UE"], d[b"Perms"] = self.OE, self.UE, self.Perms
        if self.V >= 4:
            cf = {}; nm = {}
            for m in (self.stmf, self.strf):
                if m != "Identity" and m not in nm: nm[m] = b"StdCF" if not nm else b"Other"; cf[nm[m]] = {b"Type": Name(b"CryptFilter"), b"CFM": Name(m.encode()), b"AuthEvent": Name(b"DocOpen"), b"Length": self.n}
            d[b"CF"] = cf; d[b"StmF"] = Name(nm.get(self.stmf, b"Identity")); d[b"StrF"] = Name(nm.get(self.strf, b"Identity"))
            if not self.em: d[b"EncryptMetadata"] = False
            elif r and r.random() < .3: d[b"EncryptMetadata"] = True
        return d
def from_dict(d, id0, resolve=lambda x: x):
    """reads an encryption dictionary strictly -> (handler, problems)"""
    bad = []; g = lambda k: resolve(d.get(k))
    if g(b"Filter") != b"Standard": bad.append(("filter", repr(g(b"Filter"))))
    V, R, P, O, U = g(b"V"), g(b"R"), g(b"P"), g(b"O"), g(b"U")
    if not isinstance(P, int) or not -(1 << 31) <= P < (1 << 31): bad.append(("P-range", repr(P)))   # a signed 32-bit integer
    if P & 3 or (P & 0xC0) != 0xC0 or ((P >> 12) & 0xFFFFF) != 0xFFFFF: bad.append(("P-reserved", "%x" % (P & 0xFFFFFFFF)))
    want = {1: (2,), 2: (3,), 4: (4,), 5: (5, 6)}
    if R not in want.get(V, ()): bad.append(("V-R", "%r %r" % (V, R)))
    if V == 1 and P & 0xF00 != 0xF00: bad.append(("P-revision-2", "%x" % (P & 0xFFFFFFFF))) if False else None
    bits = 40; ln = g(b"Length")
    if V == 2:
        bits = 40 if ln is None else ln
        if bits % 8 or not 40 <= bits <= 128: bad.append(("Length", repr(ln)))
    em = g(b"EncryptMetadata"); em = True if em is None else em
    stmf = strf = "V2"
    if V >= 4:
        cf = g(b"CF") or {}
        def m(k):
            n = g(k) or Name(b"Identity")
            if n == b"Identity": return "Identity"
            f = resolve(cf.get(bytes(n)))
            if not isinstance(f, dict): bad.append(("crypt-filter", "%r" % n)); return "Identity"
            return bytes(f.get(b"CFM", b"None")).decode()
        stmf, strf = m(b"StmF"), m(b"StrF"); bits = 128 if V == 4 else 256
        for x in (stmf, strf):
            if x not in (("V2", "AESV2") if V == 4 else ("AESV3",)): bad.append(("crypt-method", "%s with V %d" % (x, V)))
    ol = 32 if R <= 4 else 48
    if len(O) != ol or len(U) != ol: bad.append(("O-U-length", "%d %d" % (len(O), len(U))))
    h = Handler(V, R, bits, P, id0, em, stmf, strf); h.O, h.U = O, U
    if V == 5:
        h.OE, h.UE, h.Perms = g(b"OE"), g(b"UE"), g(b"Perms")
        if (len(h.OE), len(h.UE), len(h.Perms)) != (32, 32, 16): bad.append(("OE-UE-Perms-length", ""))
    return h, bad
if __name__ == "__main__":
    import random
    r = random.Random(1); rnd = lambda n: bytes(r.randrange(256) for _ in range(n))
    assert rc4(b"Key", b"Plaintext").hex() == "bbf316e8d940af0ad3"
    for V, R, b, m in ((1, 2, 40, "V2"), (2, 3, 128, "V2"), (4, 4, 128, "AESV2"), (5, 5, 256, "AESV3"), (5, 6, 256, "AESV3")):
        h = Handler(V, R, b, -44, rnd(16), True, m, m); h.setup(b"user", b"owner", rnd)
        g, bad = from_dict(h.dict(), h.id0); assert not bad, bad
        assert g.auth(b"user") == "user" and g.key == h.key and g.auth(b"owner") == "owner" and g.key == h.key and g.auth(b"x") is None and (g.auth(b"user"), g.perms_ok())[1]
        x = rnd(100); assert g.crypt(7, 0, h.crypt(7, 0, x, m, True, rnd), m, False) == x
    print("ok")
