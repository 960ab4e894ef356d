"""Runs monitored workloads, attributes crashes, applies the known-findings file, writes evidence."""
import os, sys, json, subprocess, time, re, shutil, struct, hashlib, random, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

class Inconclusive(Exception):
    pass

class Check:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv: self.tier = "thorough"
        if self.tier != "thorough": self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.viols = []; self.inputs = None      # dict key,msg,replay-info
        self.counts, self.samples, self.states = {}, [], set()
        self.executed = 0
        self.errors = []
        self.rules = []
        self.assumptions = []
        self.work = os.path.join(B.BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(B.BUILD, "replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    def build(self, variant, sources, **kw):
        try:
            return B.build(variant, sources, "h_" + os.path.splitext(os.path.basename(sources[0]))[0], **kw)
        except B.BuildError as e:
            print("build failed:", e, file=sys.stderr)
            self.finish_error("build failed")

    def violation(self, key, msg, replay=""):
        key = re.sub(r"\s+", "_", key)
        self.viols.append({"key": key, "msg": msg, "replay": replay})

    # -- running a C++ harness over case numbers -----------------------------------------
    def env(self, extra=None):
        e = dict(os.environ)
        e.update({
            "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:"
                            "hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:malloc_context_size=12:quarantine_size_mb=64:detect_odr_violation=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
            "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4",
            "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": self.work,
        })
        if os.path.exists("/usr/bin/llvm-symbolizer-18"):
            e["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18"
        e.update(extra or {})
        return e

    def run(self, exe, cases, mode=None, cpu=60, args=(), env=None, shards=None, artefacts=None, wall=780, label=None, max_restarts=25, only_artefacts=False):
        """Runs case numbers 0..cases-1 of a harness in parallel shards."""
        label = label or (mode or "main"); self.inputs = artefacts; args = list(args) + (["--artefacts", artefacts] if artefacts else [])
        n = shards or min(os.cpu_count() or 4, 8, max(1, cases))
        procs = []
        def start(i, first):
            d = os.path.join(self.work, "%s.%d" % (label, i)); os.makedirs(d, exist_ok=True)
            out, cur, err = d + "/out.jsonl", d + "/cur", d + "/err.%d" % first
            cmd = [exe, "--seed", str(self.seed), "--cases", str(cases), "--first", str(first), "--shard", str(i), "--nshards", str(n),
                   "--out", out, "--cur", cur, "--scratch", d, "--cpu", str(cpu)]
            if mode: cmd += ["--mode", mode]
            if self.thorough: cmd += ["--thorough"]
            cmd += list(args)
            if os.path.exists(cur): os.unlink(cur)
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(err, "wb"), env=self.env(env), cwd=d)
            return {"i": i, "p": p, "d": d, "cur": cur, "err": err, "out": out, "restarts": 0}
        procs = [start(i, 0) for i in range(n)]
        deadline = time.time() + wall
        live = list(procs); allout = [p["out"] for p in procs]
        while live:
            time.sleep(0.05)
            for pr in list(live):
                rc = pr["p"].poll()
                if rc is None:
                    if time.time() > deadline:
                        pr["p"].kill(); pr["p"].wait(); live.remove(pr)
                        self.errors.append("%s shard %d did not finish in %ds" % (label, pr["i"], wall))
                    continue
                live.remove(pr)
                if rc == 0: continue
                try:
                    raw = open(pr["cur"], "rb").read()
                    case, done = struct.unpack("QQ", raw[:16]); phase = raw[16:].split(b"\0")[0].decode("latin1")
                except (OSError, struct.error):
                    self.errors.append("%s shard %d ended with %s before the first case: %s" % (label, pr["i"], rc, open(pr["err"], "rb").read()[-2000:].decode("latin1")))
                    continue
                errtxt = open(pr["err"], "rb").read().decode("latin1")
                if rc == 2 or done:
                    self.errors.append("%s shard %d ended with %s: %s" % (label, pr["i"], rc, errtxt[-2000:])); continue
                key = crash_key(rc, errtxt)
                if key.startswith("killed"):
                    # ended from outside: not a verdict; run that case again alone
                    r = subprocess.run([exe, "--seed", str(self.seed), "--only", str(case), "--scratch", pr["d"], "--cpu", str(cpu)] +
                                       (["--mode", mode] if mode else []) + (["--thorough"] if self.thorough else []) + list(args),
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=self.env(env), cwd=pr["d"])
                    if r.returncode == 0: key = None
                    else: key = crash_key(r.returncode, r.stderr.decode("latin1"))
                elif key.startswith("hang"):
                    r = subprocess.run([exe, "--seed", str(self.seed), "--only", str(case), "--scratch", pr["d"], "--cpu", str(cpu * 2)] +
                                       (["--mode", mode] if mode else []) + (["--thorough"] if self.thorough else []) + list(args),
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=self.env(env), cwd=pr["d"])
                    if r.returncode == 0: key = None
                    else: key = crash_key(r.returncode, r.stderr.decode("latin1"))
                if key:
                    rep = self.replay(exe, mode, case, args, key, errtxt)
                    self.violation(key, "phase %s, case %d: %s" % (phase, case, errtxt[-1500:]), rep)
                if pr["restarts"] >= max_restarts:
                    self.errors.append("%s shard %d crashed too often" % (label, pr["i"])); continue
                nx = start(pr["i"], case + 1); nx["restarts"] = pr["restarts"] + 1
                self.counts["restarts after a crash"] = self.counts.get("restarts after a crash", 0) + 1
                live.append(nx)
        for out in allout:
            if not os.path.exists(out): continue
            for line in open(out):
                j = json.loads(line)
                if j["t"] == "viol":
                    if only_artefacts: continue     # judged by the check of another property
                    rep = self.replay(exe, mode, j["case"], args, j["key"], j["msg"])
                    self.violation(j["key"], "case %d: %s" % (j["case"], j["msg"]), rep)
                else:
                    self.executed += j["executed"]
                    for k, v in j["counts"].items(): self.counts[k] = self.counts.get(k, 0) + v
                    self.states.update(j["states"])
                    if len(self.samples) < 12: self.samples += j["samples"][:2]

    def strict(self, d, pattern="s*.pdf", fn=None, ext=".exp"):
        """Reads the files a harness left with the strict reader (or with fn) and compares them with the recorded expectations."""
        import strict
        seen = {}
        for f, bad in strict.check_dir(d, pattern, fn=fn):
            if f is None:
                for k, v in bad.items(): self.counts[k] = self.counts.get(k, 0) + v
                continue
            for key, msg in bad:
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 3: continue
                exp = open(f[:-4] + ext, encoding="latin1").read()
                self.violation("file:" + key, "%s: %s" % (os.path.basename(f), msg), self.replay_note(key, msg + "\n" + f + "\n" + exp[:2000], open(f, "rb").read()))

    def replay(self, exe, mode, case, args, key, text):
        name = hashlib.sha256((key + str(case)).encode()).hexdigest()[:12]
        p = os.path.join(self.replays, name + ".txt")
        inp = self.inputs and "%s/g%06d.pdf" % (self.inputs, case)
        if inp and os.path.exists(inp): shutil.copy(inp, p[:-4] + ".pdf"); text += "\ninput: " + p[:-4] + ".pdf"
        with open(p, "w") as f:
            f.write("property: %s\nkey: %s\n" % (self.prop, key))
            f.write("replay: %s --seed %d --only %d%s%s %s\n\n%s\n" % (exe, self.seed, case, " --mode " + mode if mode else "",
                    " --thorough" if self.thorough else "", " ".join(args), text))
        return p

    def replay_note(self, key, text, data=None):
        name = hashlib.sha256((key + text[:200]).encode()).hexdigest()[:12]
        p = os.path.join(self.replays, name + ".txt")
        open(p, "w").write("property: %s\nkey: %s\nseed: %d\n\n%s\n" % (self.prop, key, self.seed, text))
        if data is not None: open(p + ".bin", "wb").write(data)
        return p

    # -- verdict --------------------------------------------------------------------------
    def need(self, name, minimum):
        """The run must have observed at least this many events, or it decides nothing."""
        have = self.counts.get(name, 0)
        if have < minimum: self.errors.append("only %d of at least %d '%s' observed" % (have, minimum, name))

    def finish_error(self, why):
        print("ERROR property=%s %s" % (self.prop, why), file=sys.stderr)
        shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(2)

    def finish(self, rule=""):
        known = known_findings(self.prop)
        fresh, seen = {}, {}
        for v in self.viols:
            hit = [d for k, d in known if k == v["key"]]
            (seen if hit else fresh).setdefault(v["key"], v)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.executed, "distinct_nontrivial": len(self.states), "rule": rule or "; ".join(self.rules),
                           "samples": self.samples[:12] or ["(none)"], "observed": dict(sorted(self.counts.items()))},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.prop, "w"), indent=1)
        for k, d in known:
            print("KNOWN-FINDING: property=%s %s [%s]%s" % (self.prop, d, k, "" if k in seen else " (not reached in this run)"))
        for k, v in fresh.items():
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"] or "-"))
            print("  key=%s\n  %s" % (k, v["msg"][:1800].replace("\n", "\n  ")))
        for e in self.errors: print("ERROR property=%s %s" % (self.prop, e[:1500]), file=sys.stderr)
        print("%s: %d cases, %d distinct, %s, %.1fs" % (self.prop, self.executed, len(self.states),
              ", ".join("%s=%d" % i for i in sorted(self.counts.items())), time.time() - self.t0))
        if not os.environ.get("MON_KEEP"): shutil.rmtree(self.work, ignore_errors=True)
        if fresh: sys.exit(1)
        if self.errors: sys.exit(2)
        sys.exit(0)

def crash_key(rc, err):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", err)
    if not kind and m2:
        t = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m2.group(1)); kind = "ubsan-" + re.sub(r"[^\w]+", "-", t)[:60]
    if "MON-CPU-LIMIT" in err: kind = "hang"
    m = re.search(r"MON-TERMINATE (.*)", err)
    if m: kind = "terminate-" + re.sub(r"[^\w]+", "-", m.group(1))[:40]
    if not kind and "hard rss limit" in err.lower(): kind = "memory-limit"
    if not kind: kind = "killed-by-signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    frames = []
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):\d+", err, re.M):
        if "/repo" in m.group(2) or B.REPO in m.group(2):
            if "/harness/" in m.group(2): continue
            fn = re.sub(r"\(.*", "", m.group(1)).strip().split(" ")[-1]
            if fn not in frames: frames.append(fn)
        if len(frames) >= (1 if kind != "hang" else 1): break
    return kind + ("@" + frames[0] if frames else "")
