"""Opens encrypted files with the independent security handler and compares them with the value model."""
import os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pdfread, pdfcrypt, strict
from pdfread import Stream, Ref
def check_file(path):
    facts = {}
    for l in open(path[:-4] + ".exp", encoding="latin1"):
        k, _, v = l.rstrip("\n").partition(" ")
        if not k[0].isdigit(): facts[k] = v
    user, owner = bytes.fromhex(facts.get("user", "")), bytes.fromhex(facts.get("owner", "")); owner = owner or user; bad = []; cnt = collections.Counter()
    def decrypt(p):
        e = p.trailer.get(b"Encrypt")
        if e is None: bad.append(("not-encrypted", "")); return
        d = p.resolve(e)
        if not isinstance(d, dict): bad.append(("no-encrypt-dictionary", repr(e))); return
        ids = p.trailer.get(b"ID")
        if not isinstance(ids, list): bad.append(("no-id", "")); return
        h, b = pdfcrypt.from_dict(d, ids[0], p.resolve); bad.extend(b)
        want = {"RC4V1": (1, 2, 40, "V2"), "AESV2": (4, 4, 128, "AESV2"), "AESV3": (5, 5, 256, "AESV3"), "AESV3R6": (5, 6, 256, "AESV3")}.get(facts.get("algorithm")) or ((2, 3, int(facts["bits"]), "V2") if "bits" in facts else None)
        have = (h.V, h.R, h.n * 8, h.stmf)
        if want and have != want: bad.append(("algorithm", "%r for %r" % (have, want)))
        if "perms" in facts and h.P != int(facts["perms"]): bad.append(("permissions", "%x for %x" % (h.P, int(facts["perms"]))))
        keys = {}
        for who, pw in (("owner", owner), ("user", user)):
            try: r = h.auth(pw)
            except UnicodeError as x: bad.append(("password-unusable", repr(x))); return
            cnt["passwords authenticated"] += 1
            if r is None: bad.append((who + "-password-refused", "%r R%d %d bits" % (pw, h.R, h.n * 8))); continue
            if who == "owner" and r == "user" and pdfcrypt.prep(user, h.R) != pdfcrypt.prep(owner or user, h.R): bad.append(("owner-password-acts-as-user", repr(pw)))
            keys[who] = h.key
        if len(set(keys.values())) > 1: bad.append(("keys-differ", "user and owner password lead to different keys"))
        if not keys: return
        if not h.perms_ok(): bad.append(("perms-value", "the encrypted permissions differ from /P"))
        for pw in (b"", b"wrong", user + b"x", owner[:-1]):
            try: pw.decode("utf-8") if h.R >= 5 else 0
            except UnicodeError: continue
            if pdfcrypt.prep(pw, h.R) in (pdfcrypt.prep(user, h.R), pdfcrypt.prep(owner, h.R)) or (not owner and not user): continue
            k = h.key; cnt["wrong passwords tried"] += 1
            if h.auth(pw): bad.append(("wrong-password-opens", "%r (user %r, owner %r)" % (pw, user, owner)))
            h.key = k
        for (n, g), v in list(p.objs.items()):
            if isinstance(e, Ref) and (n, g) == tuple(e): del p.objs[(n, g)]; continue
            if isinstance(v, dict) and v.get(b"Filter") == b"Standard" and b"O" in v and b"U" in v and b"P" in v: del p.objs[(n, g)]; continue   # of an earlier revision
            try:
                if isinstance(v, Stream):
                    if v.d.get(b"Type") == b"XRef": continue
                    raw = h.crypt(n, g, v.raw, h.stream_method(v.d), False)
                    p.objs[(n, g)] = Stream(h.value(v.d, n, g, False), raw, v.off); cnt["streams decrypted"] += 1
                else: p.objs[(n, g)] = h.value(v, n, g, False)
                cnt["objects decrypted"] += 1
            except pdfcrypt.BadData as x: bad.append(("not-decryptable", "object %d %d: %s" % (n, g, x)))
        cnt["R%d %d bits%s" % (h.R, h.n * 8, "" if h.em else " plain metadata")] += 1
    out, n = strict.check_file(path, decrypt)
    return out + bad, n + cnt
if __name__ == "__main__":
    keys = collections.Counter()
    for f, x in strict.check_dir(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "*.pdf", fn=check_file):
        if f is None: print(dict(x))
        else:
            for k, m in x:
                keys[k] += 1
                if keys[k] <= 3: print(os.path.basename(f), k, m[:300])
    print(dict(keys))
