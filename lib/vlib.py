"""Shared machinery of all checks: scratch space, building harnesses against /repo, running TLC,
known findings, evidence.  A check either returns normally (exit 0), calls ctx.violation() (exit 1),
or raises (exit 2: error of the check)."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)

class CheckError(Exception):
    pass

class TlcResult:
    pass

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(self.cleanup)
        self.violations = []     # (key, description, detail)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"
        self.models = []
        self.log_lines = []

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    # ------------------------------------------------------------------ build
    def run(self, cmd, timeout=600, env=None, cwd=None, check=True, inp=None):
        e = dict(os.environ)
        if env: e.update(env)
        try:
            r = subprocess.run(cmd, cwd=cwd or self.scratch, env=e, input=inp, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        except subprocess.TimeoutExpired as ex:
            if check: raise CheckError("timeout after %ss: %s" % (timeout, cmd))
            class R: pass
            r = R(); r.returncode = -999; r.stdout = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""); r.stderr = "TIMEOUT"
            return r
        if check and r.returncode != 0:
            raise CheckError("command failed (%d): %s\n%s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-3000:], "\n".join([l for l in r.stderr.splitlines() if "error" in l or "undefined ref" in l][:12])[:4000] or r.stderr[-3000:]))
        return r

    def cxx(self, jobs, link=None):
        """jobs: list of (src, obj, [flags]); compiled in parallel.  link: list of (out, [objs], [flags])."""
        cc = ["ccache", "g++"] if os.environ.get("VERIF_CCACHE") else ["g++"]
        def one(j):
            src, obj, flags = j
            cmd = cc + ["-std=c++17", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-w"] + flags + ["-c", src, "-o", self.path(obj)]
            return self.run(cmd, timeout=600)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, jobs))
        for out, objs, flags in (link or []):
            self.run(["g++"] + [self.path(o) for o in objs] + ["-o", self.path(out)] + flags + ["-lpthread"])

    HWY_LIB = ["abort.cc", "aligned_allocator.cc", "per_target.cc", "print.cc", "stats.cc", "targets.cc", "timer.cc"]
    def hwy_lib_jobs(self, flags, which=None):
        return [(os.path.join(REPO, "hwy", s), "lib_" + os.path.basename(s)[:-3] + ".o", flags) for s in (which or self.HWY_LIB)]
    def hwy_lib_objs(self, which=None):
        return ["lib_" + os.path.basename(s)[:-3] + ".o" for s in (which or self.HWY_LIB)]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, specdirs, env=None, workers=None, timeout=600, extra=None, heap="4g", jprops=None, count=True):
        """Runs TLC on spec/<dir>/<module>.tla with configuration text `cfg`."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for sd in specdirs:
            for f in os.listdir(os.path.join(VERIF, "spec", sd)):
                if f.endswith(".tla"): shutil.copy(os.path.join(VERIF, "spec", sd, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f: f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap] + (jprops or []) + ["-cp", JARS, "tlc2.TLC",
               "-workers", str(workers or NPROC), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + (extra or []) + [module + ".tla"]
        r = self.run(cmd, timeout=timeout, env=env, cwd=d, check=False)
        o = TlcResult()
        o.rc, o.out, o.err = r.returncode, r.stdout, r.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        o.generated, o.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", r.stdout)
        if m and not o.generated: o.generated = int(m[-1])
        o.ok = o.rc == 0
        o.violated = o.rc in (10, 11, 12, 13)
        if not o.ok and not o.violated:
            raise CheckError("TLC failed on %s (rc %d):\n%s\n%s" % (module, o.rc, r.stdout[-4000:], r.stderr[-2000:]))
        if count:
            self.cov["states"] += o.distinct
            self.cov["transitions"] += o.generated
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return o

    def model(self, name, module, cfg, specdirs, **kw):
        """Exhaustive model checking of the design; a failure here is an error of the machinery, since
        the specification is committed and does not depend on /repo (unless the caller says so)."""
        o = self.tlc(module, cfg, specdirs, **kw)
        if not o.ok:
            raise CheckError("model %s: TLC reports a violation of the specification:\n%s" % (name, o.out[-6000:]))
        self.models.append({"model": name, "distinct_states": o.distinct, "states_generated": o.generated})
        self.log("model", name, "ok:", o.distinct, "distinct states,", o.generated, "generated")
        return o

    def tlc_parallel(self, runs):
        """runs: list of kwargs for self.tlc; run concurrently."""
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(lambda kw: self.tlc(**kw), runs))

    # ------------------------------------------------------------------ verdicts
    def known(self):
        res = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid: res.append((m.group(2), m.group(3)))
        return res

    def violation(self, key, desc, detail=""):
        self.violations.append((key, desc, detail))

    def finish(self):
        known = dict(self.known())
        fresh = [v for v in self.violations if v[0] not in known]
        seen = set()
        for k, d, _ in self.violations:
            if k in known and k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s key=%s %s" % (self.pid, k, known[k]))
        self.cov["design_models"] = self.models
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%d.txt" % (self.pid, os.getpid()))
            with open(rp, "w") as f:
                f.write("property %s tier %s seed %d\nreproduce: VERIF_SEED=%d ./check %s %s\n\n" % (self.pid, self.tier, self.seed, self.seed, self.pid, self.tier))
                for k, d, det in fresh[:50]: f.write("== %s\n%s\n%s\n" % (k, d, det))
            for k, d, _ in fresh[:8]: print("  violation:", k, d[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        print("OK property=%s tier=%s states=%s transitions=%s traces=%s wall=%.1fs" % (self.pid, self.tier, self.cov.get("states"),
              self.cov.get("transitions"), self.cov.get("traces_validated_against_impl"), time.time() - self.t0), flush=True)
        return 0
