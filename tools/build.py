#!/usr/bin/env python3
"""Builds the library from /repo's working tree and the harnesses from /verif/harness.

Objects are cached by content (of the source and of every header it read), never by
modification time, so a stale object can not be linked after /repo changed.
"""
import os, sys, hashlib, json, subprocess, fcntl, time, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PDFMON_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = "PDFMM_VERIF_HOOKS"
COMMON = ["-std=gnu++17", "-w", "-gline-tables-only", "-fno-omit-frame-pointer", "-DNDEBUG",
          "-DHAS_UNCAUGHT_EXCEPTIONS=1", "-DPDFMM_STATIC", "-D" + GUARD]
CLANG_COMPAT = ["-DCHARCONV_COMPAT_H", "-include", "charconv"]
UBSAN_OFF = "-fno-sanitize=vptr,null,alignment,object-size,function,nonnull-attribute"
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined", UBSAN_OFF, "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "fuzz": ["-O1", "-fsanitize=address,undefined", UBSAN_OFF, "-fno-sanitize-recover=all",
             "-fsanitize=fuzzer-no-link"],
    "plain": ["-O1"],
}
LIBS = ["-lssl", "-lcrypto", "-lfontconfig", "-lfreetype", "-lxml2", "-lpng16", "-ltiff", "-ljpeg",
        "-lz", "-lidn", "-lpthread"]

class BuildError(Exception):
    pass

_hash = {}
def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[path] = h
    return h

def includes(gen):
    return ["-I" + gen, "-I" + REPO + "/src", "-I" + REPO + "/3rdparty",
            "-I/usr/include/freetype2", "-I/usr/include/libxml2"]

def gen_config(gen):
    os.makedirs(gen, exist_ok=True)
    src = open(REPO + "/src/pdfmm/pdfmm_config.h.in").read()
    cm = open(REPO + "/CMakeLists.txt").read()
    for part in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r'set\(PDFMM_VERSION_%s "(\d+)"' % part, cm)
        src = re.sub(r"[@$]\{?PDFMM_VERSION_%s\}?@?" % part, m.group(1) if m else "0", src)
    have = {"PDFMM_HAVE_JPEG_LIB", "PDFMM_HAVE_PNG_LIB", "PDFMM_HAVE_TIFF_LIB", "PDFMM_HAVE_FONTCONFIG",
            "PDFMM_HAVE_LIBIDN"}
    src = re.sub(r"#cmakedefine\s+(\w+)",
                 lambda m: "#define " + m.group(1) if m.group(1) in have else "/* #undef %s */" % m.group(1), src)
    p = gen + "/pdfmm_config.h"
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)

def lib_sources():
    out = []
    for root in ("src/pdfmm/base", "src/pdfmm/common", "src/pdfmm/contrib", "src/pdfmm/private", "3rdparty/pdfium"):
        for d, _, files in os.walk(os.path.join(REPO, root)):
            out += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
    return sorted(out)

def parse_deps(path):
    txt = open(path).read().replace("\\\n", " ")
    return [d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/")]

def compile_one(job):
    src, flags, objdir, cc = job
    key = hashlib.sha256((src + "\0" + " ".join(flags) + cc).encode()).hexdigest()[:24]
    man = os.path.join(objdir, key + ".json")
    try:
        for ent in json.load(open(man)):
            if os.path.exists(ent["obj"]) and all(fhash(p) == h for p, h in ent["deps"]):
                return ent["obj"], False
        entries = json.load(open(man))
    except (OSError, ValueError):
        entries = []
    tmp = os.path.join(objdir, key + ".tmp%d" % os.getpid())
    r = subprocess.run([cc] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s:\n%s" % (src, r.stdout[-4000:]))
    deps = [[p, fhash(p)] for p in parse_deps(tmp + ".d")]
    name = hashlib.sha256(json.dumps(deps).encode()).hexdigest()[:16]
    obj = os.path.join(objdir, "%s-%s-%s.o" % (os.path.basename(src), key[:8], name))
    os.rename(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    entries = [{"obj": obj, "deps": deps}] + [e for e in entries if e["obj"] != obj]
    for e in entries[3:]:
        try: os.unlink(e["obj"])
        except OSError: pass
    with open(man + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(entries[:3], f)
    os.rename(man + ".tmp%d" % os.getpid(), man)
    return obj, True

def build(variant, harness_sources, out_name, extra=(), link_extra=()):
    """Compiles the library (variant) and the harness sources; returns the executable."""
    vdir = os.path.join(BUILD, variant)
    objdir = os.path.join(vdir, "obj")
    os.makedirs(objdir, exist_ok=True)
    with open(os.path.join(vdir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _hash.clear()
        gen = os.path.join(vdir, "gen")
        gen_config(gen)
        san = VARIANTS[variant]
        inc = includes(gen)
        def run(cc, compat):
            jobs = [(s, (COMMON if cc == "clang++" else [f for f in COMMON if f != "-gline-tables-only"]) + san + inc + compat, objdir, cc) for s in lib_sources()]
            hs = [(os.path.join(VERIF, "harness", s), (COMMON if cc == "clang++" else [f for f in COMMON if f != "-gline-tables-only"]) + san + inc + compat + ["-I" + VERIF + "/harness"] + list(extra),
                   objdir, cc) for s in harness_sources]
            # biggest first
            jobs = hs + sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                return [o for o, _ in ex.map(compile_one, jobs)]
        cc, compat = "clang++", CLANG_COMPAT
        try:
            objs = run(cc, compat)
        except BuildError as e:
            if variant == "fuzz" or str(e).startswith(os.path.join(VERIF, "harness")):
                raise
            sys.stderr.write("clang++ failed, trying g++\n%s\n" % e)
            san = [f for f in san if not f.startswith("-fno-sanitize=")]
            cc, compat = "g++", ["-g1"]
            objs = run(cc, compat)
        exe = os.path.join(vdir, out_name)
        sig = hashlib.sha256((cc + "".join(objs)).encode()).hexdigest()
        try:
            if open(exe + ".sig").read() == sig and os.path.exists(exe):
                return exe
        except OSError:
            pass
        rsp = exe + ".rsp"
        open(rsp, "w").write("\n".join(objs))
        ld = ["-fuse-ld=lld"] if cc == "clang++" and os.path.exists("/usr/bin/ld.lld") or os.path.exists("/usr/bin/lld") else []
        cmd = [cc] + [f for f in san if f.startswith("-f") and "no-link" not in f] + list(link_extra) + ["@" + rsp, "-o", exe + ".tmp"] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("link: " + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
        open(exe + ".sig", "w").write(sig)
        return exe

if __name__ == "__main__":
    t = time.time()
    v = sys.argv[1]
    print(build(v, sys.argv[3:], sys.argv[2]), "%.1fs" % (time.time() - t))
