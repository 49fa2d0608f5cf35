import json, os, re
from concurrent.futures import ThreadPoolExecutor
import simd_common, vlib
from vlib import VERIF
LIB = ["abort.cc", "aligned_allocator.cc", "per_target.cc", "targets.cc", "print.cc"]
def check(ctx, sel):
    ts = simd_common.targets(ctx, None if ctx.thorough else ("AVX3", "AVX2", "SSE4", "SSE2", "EMU128", "SCALAR"))
    opt = "-O1" if ctx.thorough else "-O0"
    pairs = [(t, p) for t in ts for p in range(5)]
    def flags(t, p): return [opt, "-DNDEBUG", "-DHWY_COMPILE_ONLY_STATIC", "-DHWY_BASELINE_TARGETS=HWY_" + t, "-DVPART=%d" % p, "-DVSEL=%d" % sel] + (["-DHWY_BROKEN_EMU128=0"] if t == "EMU128" else [])
    jobs = [(os.path.join(VERIF, "harness/sort/sort.cc"), "sort_%s_%d.o" % (t, p), flags(t, p)) for t, p in pairs]
    srcs = sorted("contrib/sort/" + f for f in os.listdir(os.path.join(vlib.REPO, "hwy/contrib/sort")) if re.match(r"vqsort.*\.cc$", f))
    dyn = "AVX2" if "AVX2" in ts else ts[-2]
    jobs += [(os.path.join(VERIF, "harness/sort/sort.cc"), "sort_dyn_0.o", flags(dyn, 0) + ["-DVDYN"])]
    sf = ["-O0", "-DNDEBUG", "-DHWY_COMPILE_ONLY_STATIC", "-DHWY_BASELINE_TARGETS=HWY_" + dyn]
    ctx.cxx(jobs + ctx.hwy_lib_jobs(["-O1", "-DNDEBUG"], LIB) + ctx.hwy_lib_jobs(sf, srcs))
    libs = [ctx.path(o) for o in ctx.hwy_lib_objs(LIB)]
    dlibs = [ctx.path(o) for o in ctx.hwy_lib_objs(srcs)]
    pairs = [("dyn", 0)] + pairs
    def go(tp):
        exe = "sort_%s_%d" % tp
        ctx.run(["g++", ctx.path(exe + ".o")] + dlibs + libs + ["-o", ctx.path(exe), "-lpthread"])
        r = ctx.run([ctx.path(exe), ctx.path(exe + ".json"), str(ctx.seed), ctx.tier], timeout=600, check=False)
        if r.returncode != 0: raise vlib.CheckError("%s rc %d %s" % (exe, r.returncode, r.stderr[-800:]))
        return [(l, tp[0]) for l in open(ctx.path(exe + ".json"))]
    with ThreadPoolExecutor(8) as ex: lines = [x for g in ex.map(go, pairs) for x in g]
    ctx.log("ran", len(lines), "calls on", " ".join(ts))
    merged = {}
    for l, t in lines: merged.setdefault(l, []).append(t)
    lines = sorted(merged.items(), key=lambda x: -len(x[0]))
    f = ctx.path("sort.json")
    with open(f, "w") as fh: fh.writelines(l for l, _ in lines)
    o = ctx.tlc("SortTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", ["sort", "simd"], env={"TRACE": f}, timeout=800, heap="12g")
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    ctx.cov["traces_validated_against_impl"] += len(lines)
    ctx.cov["targets"] = ts
    ctx.cov["samples"] += [lines[-1][0][:400], lines[len(lines) // 2][0][:400]]
    bad = 0
    for m in re.finditer(r'"BAD <<(\d+)>>"', o.out):
        l, t = lines[int(m.group(1)) - 1]
        r = json.loads(l); bad += 1
        ctx.violation("%s-%s" % (r["op"], r["t"]), "%s of %d %s keys (%s, k=%d) on %s%s" % (r["op"], r["n"], r["t"], "ascending" if r["asc"] else "descending", r["k"], ",".join(t), " crashed" if "crash" in r else ""), l[:20000])
    ctx.log("validated", len(lines), "distinct runs,", bad, "rejected")
    ctx.assumptions += ["All NaN are one value, and so are both zeros (their sign is not promised to survive).", "The order of elements with equal keys is unspecified."]
