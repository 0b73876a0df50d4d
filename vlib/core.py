"""Build, sharded execution, crash/hang attribution, replay and evidence."""
import os, sys, json, time, hashlib, subprocess, glob, struct, signal, tempfile, shutil, fcntl, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
NCPU = max(1, min(8, os.cpu_count() or 8))

COMMON = ["-std=c++14", "-DNDEBUG", "-DSTENOS_BUILD_STATIC_LIBRARY", "-w", "-fno-gnu-unique", "-fPIC"]
NATIVE = ["-march=native"]
O2 = COMMON + NATIVE + ["-O2"]
# ubsan is limited to what the properties state (memory accesses, termination): misaligned loads or overflowing
# shifts are deliberate in this code base and change nothing that can be observed
ASAN = COMMON + NATIVE + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,null,return,unreachable",
                          "-fno-sanitize-recover=bounds,null,return,unreachable"]
ASAN_LINK = ["-fsanitize=address,bounds"]

class BuildError(Exception):
    pass

def log(*a):
    print("[verif]", *a, file=sys.stderr, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]

def cpu_id():
    try:
        r = subprocess.run(["g++", "-march=native", "-Q", "--help=target"], capture_output=True)
        return sha(r.stdout)
    except Exception:
        return "?"

_src_hash = None
def repo_files():
    fs = []
    for root, dirs, files in os.walk(os.path.join(REPO, "stenos")):
        dirs.sort()
        for f in sorted(files):
            fs.append(os.path.join(root, f))
    return fs

def src_hash():
    """hash of the library sources"""
    global _src_hash
    if _src_hash is None:
        h = hashlib.sha256()
        for f in repo_files() + [os.path.join(REPO, "stenos_config.h.in")]:
            h.update(f.encode())
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
        h.update(cpu_id().encode())
        _src_hash = h.hexdigest()[:20]
    return _src_hash

def config_include():
    """stenos_config.h is generated by cmake; provide one if the tree has none"""
    d = os.path.join(BUILD, "inc")
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(REPO, "stenos", "stenos_config.h")):
        t = open(os.path.join(REPO, "stenos_config.h.in")).read()
        t = t.replace("@PROJECT_VERSION_MAJOR@", "0").replace("@PROJECT_VERSION_MINOR@", "2").replace("@PROJECT_VERSION@", "0.2")
        p = os.path.join(d, "stenos_config.h")
        tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
        with open(tmp, "w") as f:
            f.write(t)
        os.replace(tmp, p)
    return ["-I" + REPO, "-I" + os.path.join(REPO, "stenos"), "-I" + d, "-I" + os.path.join(VERIF, "harness")]

def run_jobs(cmds, par=NCPU):
    """runs commands in parallel; raises BuildError on the first failure"""
    procs, todo, err = [], list(cmds), None
    while todo or procs:
        while todo and len(procs) < par:
            c = todo.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = procs.pop(0)
        o, _ = p.communicate()
        if p.returncode != 0 and err is None:
            err = "command failed: %s\n%s" % (" ".join(c), o.decode(errors="replace")[-6000:])
            todo = []
    if err:
        raise BuildError(err)

def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "stenos", "internal", "*.cpp")))

def build_lib(name, flags, cxx="g++"):
    """compiles the library sources; returns the list of objects"""
    # the build of the project gives the AVX2 file its own flags
    own = lambda f: ["-mavx2"] if "avx2" in os.path.basename(f) and "-march=x86-64-v2" in flags else []
    key = sha(src_hash(), cxx, " ".join(flags))
    d = os.path.join(BUILD, "lib-%s-%s" % (name, key))
    if not os.path.exists(os.path.join(d, "ok")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        inc = config_include()
        srcs = sorted(lib_sources(), key=lambda f: -os.path.getsize(f))
        run_jobs([[cxx] + flags + own(f) + inc + ["-c", f, "-o", os.path.join(d, os.path.basename(f)[:-4] + ".o")] for f in srcs])
        open(os.path.join(d, "ok"), "w").close()
    return sorted(glob.glob(os.path.join(d, "*.o")))

def build_libs(variants):
    """compiles several variants [(name, flags)] with all cores"""
    cmds, done = [], []
    for name, flags in variants:
        key = sha(src_hash(), "g++", " ".join(flags))
        d = os.path.join(BUILD, "lib-%s-%s" % (name, key))
        if os.path.exists(os.path.join(d, "ok")):
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        inc = config_include()
        for f in lib_sources():
            cmds.append((os.path.getsize(f), ["g++"] + flags + inc + ["-c", f, "-o", os.path.join(d, os.path.basename(f)[:-4] + ".o")]))
        done.append(d)
    run_jobs([c for _, c in sorted(cmds, key=lambda x: -x[0])])
    for d in done:
        open(os.path.join(d, "ok"), "w").close()

def build_exe(name, sources, flags, objs, link, cxx="g++", with_repo=True):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))):
        h.update(open(f, "rb").read())
    key = sha(src_hash(), h.hexdigest(), cxx, " ".join(flags), " ".join(link), " ".join(objs), repr(sources))
    d = os.path.join(BUILD, "exe-%s-%s" % (name, key))
    exe = os.path.join(d, name)
    if not os.path.exists(os.path.join(d, "ok")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        inc = config_include()
        os_ = []
        cmds = []
        for s in sources:
            path, sflags = s if isinstance(s, tuple) else (s, flags)
            o = os.path.join(d, os.path.basename(path) + ".o")
            os_.append(o)
            cmds.append([cxx] + sflags + inc + ["-c", os.path.join(VERIF, "harness", path), "-o", o])
        run_jobs(cmds)
        run_jobs([[cxx] + os_ + objs + link + ["-o", exe, "-lzstd", "-lpthread", "-ldl"]])
        open(os.path.join(d, "ok"), "w").close()
    return exe

def build_so(name, flags, shim=None):
    """one build variant of the library as a shared object; None when its shim does not compile"""
    objs = build_lib(name, flags)
    key = sha(" ".join(objs), " ".join(flags), str(shim), open(os.path.join(VERIF, "harness", "simd_shim.cpp"), "rb").read())
    d = os.path.join(BUILD, "so-%s-%s" % (name, key))
    so = os.path.join(d, name + ("_m%d" % shim if shim else "") + ".so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        extra = []
        if shim:
            o = os.path.join(d, "shim.o")
            r = subprocess.run(["g++"] + flags + config_include() + ["-DVH_MASK=%d" % shim, "-c", os.path.join(VERIF, "harness", "simd_shim.cpp"), "-o", o], capture_output=True)
            if r.returncode:
                return None
            extra = [o, "-Wl,--wrap=_ZN6stenos6detail19compute_cpu_featureEv"]
        tmp = so + ".tmp"
        run_jobs([["g++", "-shared", "-Wl,-Bsymbolic"] + objs + extra + ["-o", tmp, "-lzstd", "-lpthread"]])
        os.replace(tmp, so)
    return so

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "LSAN_OPTIONS": "exitcode=78",
}

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []          # (what, replay dict)
        self.known = {}
        self.coverage = {}
        self.assumptions = []
        self.level = "exploration"
        self.unconfirmed = []
        self.work = os.path.join(OUT, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.thorough = tier == "thorough"
        self.total_budget = 3600 * 6 if self.thorough else 780

    def remaining(self):
        return self.total_budget - (time.time() - self.t0)

    # ---- running a harness
    def run_one(self, exe, extra, outfile, curfile, env, limit, hang):
        """runs one process; returns (rc, kind, stderr) with kind in ok/violation/crash/hang/timeout"""
        cmd = [exe] + extra + ["--out", outfile, "--cur", curfile]
        errf = outfile + ".err"
        with open(errf, "wb") as ef, open(outfile + ".stdout", "wb") as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=env, cwd=self.work)
        return p, cmd, errf

    def _counter(self, cur):
        try:
            with open(cur, "rb") as f:
                b = f.read(4096)
            return struct.unpack("<Q", b[:8])[0], b[8:].split(b"\0")[0].decode(errors="replace")
        except Exception:
            return 0, ""

    def shards(self, name, exe, nshards=None, args="", env=None, cap=None, hang=60, extra=None, leak_check=False):
        """runs exe over nshards shards in parallel; merges results, confirms violations by replay"""
        nshards = nshards or NCPU
        e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
        if not leak_check:
            e["ASAN_OPTIONS"] += ":detect_leaks=0" if "detect_leaks=1" in e["ASAN_OPTIONS"] else ""
        cap = cap or (3000 if self.thorough else 420)
        cap = max(20, min(cap, self.remaining() - 60))
        base = ["--tier", self.tier, "--cap", str(int(cap)), "--nshards", str(nshards)] + (["--args", args] if args else []) + (extra or [])
        pend, live, res = list(range(nshards)), [], []
        while pend or live:
            while pend and len(live) < NCPU:
                i = pend.pop(0)
                out = os.path.join(self.work, "%s.%d.json" % (name, i)); cur = os.path.join(self.work, "%s.%d.cur" % (name, i))
                p, cmd, errf = self.run_one(exe, base + ["--shard", str(i)], out, cur, e, cap + 60, hang)
                live.append(dict(i=i, p=p, out=out, cur=cur, err=errf, last=-1, tick=time.time(), start=time.time(), cmd=cmd))
            time.sleep(0.05)
            for l in list(live):
                rc = l["p"].poll()
                if rc is None:
                    c, d = self._counter(l["cur"])
                    if c != l["last"]:
                        l["last"], l["tick"] = c, time.time()
                    if time.time() - l["tick"] <= hang:
                        continue
                    l["p"].kill(); l["p"].wait()
                    l["hang"] = True
                    rc = -9
                live.remove(l)
                l["rc"] = rc
                res.append(l)
        merged = dict(enumerated=0, executed=0, distinct=0, capped=False, stats={}, samples=[], hashes=set(), known={})
        for l in sorted(res, key=lambda x: x["i"]):
            d = None
            try:
                d = json.load(open(l["out"]))
            except Exception:
                pass
            if d:
                merged["enumerated"] = max(merged["enumerated"], d["enumerated"])
                merged["executed"] += d["executed"]
                merged["distinct"] += d["distinct"]
                merged["capped"] |= d["capped"]
                for k, v in d["stats"].items():
                    if k.startswith("max_"):
                        merged["stats"][k] = max(merged["stats"].get(k, 0), v)
                    else:
                        merged["stats"][k] = merged["stats"].get(k, 0) + v
                merged["samples"] += d["samples"]
                merged["hashes"].update(d["hashes"])
                merged["known"].update(d["known"])
                for case, msg in d["violations"]:
                    self.confirm(name, exe, base, e, case, msg, l)
            if l["rc"] not in (0, 3) or (l["rc"] == 3 and not d):
                _, case = self._counter(l["cur"])
                err = open(l["err"], errors="replace").read()
                kind = "no progress (hang)" if l.get("hang") else "process ended with status %d" % l["rc"]
                self.confirm(name, exe, base, e, case, kind + ": " + summarize(err), l, crash=True, hang=hang)
        self.known.update(merged["known"])
        return merged

    def confirm(self, name, exe, base, env, case, msg, l, crash=False, hang=60):
        if len(self.violations) >= 5:
            return
        extra = [x for x in base]
        rep = dict(property=self.prop, harness=name, exe=os.path.basename(exe), base=extra, case=case, message=msg, shard=l["i"], tier=self.tier)
        ok = False
        if case:
            for _ in range(2):
                out = os.path.join(self.work, "replay.json"); cur = os.path.join(self.work, "replay.cur")
                try:
                    if os.path.exists(out): os.unlink(out)
                    p = subprocess.run([exe] + extra + ["--shard", "0", "--out", out, "--cur", cur, "--case", case], env=env, cwd=self.work,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=max(60, hang * 2))
                    ok = p.returncode != 0
                except subprocess.TimeoutExpired:
                    ok = True
                    rep["message"] += " (and again when replayed alone with twice the time)"
                if not ok:
                    break
        if not ok:
            # depends on the cases before it: run the shard again as a whole
            try:
                out = os.path.join(self.work, "replay.json"); cur = os.path.join(self.work, "replay.cur")
                p = subprocess.run([exe] + extra + ["--shard", str(l["i"]), "--out", out, "--cur", cur], env=env, cwd=self.work,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=max(60, self.remaining() - 10))
                ok = p.returncode != 0
                rep["needs_whole_shard"] = True
            except subprocess.TimeoutExpired:
                ok = True
        if not ok and ("AddressSanitizer" in msg or "runtime error" in msg or "LeakSanitizer" in msg):
            ok = True
            rep["note"] = "sanitizer report, not reproduced in a second run"
        if ok:
            self.violate(rep)
        else:
            self.unconfirmed.append(rep)

    def violate(self, rep):
        rep["property"] = self.prop
        p = os.path.join(self.work, "violation-%d.json" % len(self.violations))
        json.dump(rep, open(p, "w"), indent=1)
        self.violations.append((rep.get("message", ""), p))

    # ---- end
    def execute(self, fn):
        rc = 2
        try:
            fn(self)
            rc = 1 if self.violations else 0
        except BuildError as ex:
            print("BUILD ERROR in check of %s:\n%s" % (self.prop, ex), file=sys.stderr)
            self.coverage.setdefault("explanation", "build error")
        cov = dict(self.coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.unconfirmed:
            ev["coverage"]["unconfirmed_reports"] = [dict(case=u["case"], message=u["message"][:400]) for u in self.unconfirmed]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        listed = known_findings()
        for key, what in sorted(self.known.items()):
            if (self.prop, key) in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
            else:
                self.violate(dict(harness="known", case=key, message="unlisted finding: " + what))
                rc = 1
        for msg, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
            print("  " + msg.replace("\n", "\n  ")[:1500], file=sys.stderr)
        brief = {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))}
        print("%s %s: %s in %.1fs %s" % (self.prop, self.tier, "ok" if rc == 0 else "VIOLATED" if rc == 1 else "ERROR", time.time() - self.t0, json.dumps(brief)))
        return rc

def summarize(err):
    lines = [l for l in err.splitlines() if l.strip()]
    keep = []
    for i, l in enumerate(lines):
        if "ERROR:" in l or "runtime error" in l or "terminate called" in l or "FAIL" in l or "what():" in l:
            keep += lines[i:i + 8]
            break
    return "\n".join(keep or lines[-6:])[:1500]

def known_findings():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' lines suppress exactly that key"""
    s = set()
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                s.add((f["property"], f["key"]))
    except OSError:
        pass
    return s
