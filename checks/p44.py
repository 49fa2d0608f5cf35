import json, os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import vlib, p43
from vlib import VERIF, REPO
sys.path.insert(0, os.path.join(VERIF, "harness/target"))
import gen
H = os.path.join(VERIF, "harness/target")

def configs(ctx, n):
    r = random.Random(ctx.seed * 104729 + 3)
    out, probe = [], ctx.path("probe.h")
    open(probe, "w").write(p43.probe())
    archs = ["a64"] * 9 + ["ppc64"] * 3 + ["s390x"] * 2 + ["riscv"] * 3 + ["v7"] * 3 + ["wasm"] * 2 + ["loong64", "none", "armold"]
    while len(out) < n:
        c = gen.gen(r, archs[len(out) % len(archs)])
        c.update(comp="gcc", ver=1501, patch=0, os=c["os"] if c["os"] == "apple" else "linux", auxv=True)
        if c["arch"] == "a64" and r.random() < .25: c["os"] = "apple"
        c["user"] = [u for u in c["user"] if u not in ("HWY_NO_LIBCXX", "NO_RUNTIME")]
        if c["arch"] == "none": c["obase"] = []      # several targets need an architecture with a dispatch table
        if c["arch"] in ("riscv", "loong64"): c["user"] = sorted(set(c["user"]) | {"YES_RUNTIME"})
        if len(out) < len(archs) and r.random() < .8: c["user"] = [u for u in c["user"] if not u.startswith("HWY_COMPILE_ONLY")]; c["disabled"] = []
        o = json.loads(p43.run_one(probe, c))
        few = {"a64": 3, "ppc64": 2, "s390x": 2, "riscv": 2}.get(c["arch"], 1)      # mostly builds with something to choose from
        if not o["err"] and (len(o["targets"]) >= few or r.random() < .1): out.append(c)
    return out
def build(ctx, k, c):
    d = ctx.path("arch%d" % k)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "sim_arch.h"), "w") as f:
        dd = dict(gen.defines(c), __fp16="_Float16")
        for n, v in dd.items(): f.write("#undef %s\n#define %s %s\n" % (n, n, v))
    cmd = ["g++", "-std=c++17", "-O1", "-w", "-I" + d, "-I" + H + "/fake", "-I" + H, "-I" + REPO, "-include", "sim_pre.h"]
    ctx.run(cmd + ["-c", H + "/sim.cc", "-o", d + "/sim.o"])
    ctx.run(cmd + ["-c", REPO + "/hwy/targets.cc", "-o", d + "/targets.o"])
    ctx.run(["g++", d + "/sim.o", d + "/targets.o", ctx.path("sim_mock.o"), ctx.path("abort.o"), ctx.path("print.o"), "-o", d + "/sim"])
def macros_probe(ctx, arch):
    """For every target compiled for: its macros, expanded by the preprocessor."""
    f = ctx.path("macros-%s.h" % arch)
    s = '#include "hwy/detect_targets.h"\n'
    for t in gen.ARCHT.get(arch, []) + ["EMU128", "SCALAR"]:
        s += "#if HWY_TARGETS & HWY_%s\n#undef HWY_TARGET\n#define HWY_TARGET HWY_%s\n#include \"hwy/ops/set_macros-inl.h\"\n@t %s\n@ns HWY_NAMESPACE\n@max HWY_MAX_BYTES\n@scalable HWY_HAVE_SCALABLE\n@ge256 HWY_CAP_GE256\n@ge512 HWY_CAP_GE512\n@fault HWY_MEM_OPS_MIGHT_FAULT\n@dot HWY_NATIVE_DOT_BF16\n#ifdef HWY_TARGET_STR\n@str HWY_TARGET_STR\n#endif\n@.\n#endif\n" % (t, t, t + "_X")
    open(f, "w").write(s + "@end@\n")
    return f
def attributes(ctx, n):
    cs = gen.configs(ctx.seed + 77, n)
    probes = {a: macros_probe(ctx, a) for a in set(c["arch"] for c in cs)}
    def one(c):
        r = subprocess.run(["g++", "-E", "-P", "-undef", "-nostdinc", "-x", "c++", "-I" + REPO] + ["-D%s=%s" % kv for kv in gen.defines(c).items()] + [probes[c["arch"]]], capture_output=True, text=True, timeout=120)
        if r.returncode:
            if "#error" in r.stderr and "Logic error" not in r.stderr: return None
            if "#error" not in r.stderr: raise vlib.CheckError("preprocessor: " + r.stderr[-1500:])
        ms = []
        for m in re.findall(r"@t (\w+)_X(.*?)@\.", r.stdout, re.S):
            d = dict(re.findall(r"@(\w+)\s+([^@]*)", m[1]))
            q = {"t": m[0], "ns": d["ns"].strip(), "attrs": sorted(set(re.split(r"[,+]", "".join(re.findall(r'"([^"]*)"', d.get("str", "")))))  - {""})}
            for k in ("max", "scalable", "ge256", "ge512", "fault", "dot"):
                v = d[k].strip()
                q[k] = int(v) if re.fullmatch(r"\d+", v) else -1
            ms.append(q)
        return json.dumps(dict(c, macros=ms)) + "\n"
    with ThreadPoolExecutor(8) as ex: lines = [l for l in ex.map(one, cs) if l]
    tf = ctx.path("attrs.json")
    with open(tf, "w") as fh: fh.writelines(lines)
    o = ctx.tlc("TargetAttrs", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", ["target", "core"], env={"TRACE": tf}, heap="6g", timeout=700)
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    bad = re.findall(r'"BAD (\d+) (\w+) (\w+) (.*)"', o.out)
    recs = [json.loads(l) for l in lines]
    ctx.cov["target_attribute_sets"] = sum(len(r["macros"]) for r in recs)
    ctx.log(len(lines), "simulated compilations,", ctx.cov["target_attribute_sets"], "target attribute sets,", len(bad), "rejected")
    for b, what, t, e in bad[:10]:
        r = recs[int(b) - 1]
        ctx.violation("%s-%s-%s" % (what, t, r["comp"]), "%s of %s: %s" % (what, t, e), json.dumps(r))
def check(ctx):
    quick = ctx.tier == "quick"
    cs = configs(ctx, 60 if quick else 400)
    ctx.run(["g++", "-O1", "-c", H + "/sim_mock.cc", "-o", ctx.path("sim_mock.o")])
    for s in ("abort", "print"): ctx.run(["g++", "-std=c++17", "-O1", "-w", "-I" + REPO, "-c", REPO + "/hwy/%s.cc" % s, "-o", ctx.path(s + ".o")])
    attributes(ctx, 1600 if quick else 12000)
    broken = []
    def go(k):
        try: build(ctx, k, cs[k])
        except vlib.CheckError as e:
            # The tables of targets refer to a target for which no code was compiled, or it was compiled twice.
            m = re.search(r"N_\w+. has not been declared|redefinition of [^\n]*\bN_\w+|error \"Logic error[^\n]*", str(e))
            if not m: raise
            broken.append((k, m.group(0))); return ""
        f = ctx.path("sim-%d.json" % k)
        r = ctx.run([ctx.path("arch%d" % k) + "/sim", f, str(ctx.seed * 1000 + k), "60" if quick else "400", "40"], check=False)
        if r.returncode: raise vlib.CheckError("simulation of %s: rc %d %s" % (json.dumps(cs[k]), r.returncode, r.stderr[-500:]))
        o = json.loads(open(f).read()); o["compiled"] = [gen.NAME.get(b, "BIT%d" % b) for b in o["compiled"]]; o.update(cs[k])
        return json.dumps(o) + "\n"
    with ThreadPoolExecutor(8) as ex: lines = list(ex.map(go, range(len(cs))))
    for k, e in broken[:10]: ctx.violation("inconsistent", "targets compiled and dispatched differ: " + e, json.dumps(cs[k]))
    lines = [l for l in lines if l]
    if not lines: return
    tf = ctx.path("trace.json")
    with open(tf, "w") as fh: fh.writelines(lines)
    o = ctx.tlc("ArchDispatchTrace", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", ["target"], env={"TRACE": tf}, heap="6g", timeout=700)
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    recs = [json.loads(l) for l in lines]
    ctx.cov["traces_validated_against_impl"] += sum(len(r["episodes"]) for r in recs)
    ctx.cov["events_validated"] = ctx.cov.get("events_validated", 0) + sum(len(e) for r in recs for e in r["episodes"])
    ctx.cov["simulated_builds"] = len(cs)
    ctx.cov["targets_run"] = sorted(set(q[0] for r in recs for q in r["infos"]))
    ctx.cov["samples"] += [lines[0][:800]]
    bad = re.findall(r'"BAD (\d+) (\S+) (\d+) (\d+)"', o.out)
    ctx.log(len(cs), "simulated builds,", ctx.cov["events_validated"], "events; targets run:", *ctx.cov["targets_run"], ";", len(bad), "rejected")
    for b, what, j, k in sorted(bad, key=lambda x: int(x[3]))[:15]:
        r = recs[int(b) - 1]
        c = {x: r[x] for x in cs[0]}
        if j == "0": ctx.violation("%s-%s" % (r["arch"], what), "wrong compile-time value", json.dumps({"config": c, "infos": r["infos"], "names": r["names"], "targets": r["targets"], "static": r["static"]}))
        else: ctx.violation("%s-%s" % (r["arch"], what), "event %s is not a step of ArchDispatch: %s" % (k, r["episodes"][int(j) - 1][int(k) - 1]), json.dumps({"config": c, "targets": r["targets"], "episode": r["episodes"][int(j) - 1][:int(k)]}))
    ctx.assumptions += ["Other architectures are simulated: the real headers and targets.cc are compiled on the host with the other architecture's predefined macros, empty SIMD op headers, and simulated capability sources (getauxval, sysctl, vector-length instructions).",
                        "Capability bits are the Linux kernel's; the kernel reports SVE whenever it reports SVE2."]
