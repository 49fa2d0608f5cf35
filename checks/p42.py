import json, os, re
import trace_common as tc, vlib
from vlib import VERIF, REPO
def check(ctx):
    inc = ["-O1", "-DNDEBUG", "-include", os.path.join(VERIF, "harness/bench/bench_pre.h")]
    lj = ctx.hwy_lib_jobs(["-O1", "-DNDEBUG"], ["abort.cc", "print.cc", "targets.cc"])
    ctx.cxx([(os.path.join(VERIF, "harness/bench/bench.cc"), "bench.o", inc),
             (os.path.join(REPO, "hwy/nanobenchmark.cc"), "nano.o", inc)] + lj, [("bench", ["bench.o", "nano.o"] + [j[1] for j in lj], [])])
    lines = tc.run(ctx, "bench", [[p] for p in range(8)])
    tf = ctx.path("trace.json")
    with open(tf, "w") as fh: fh.writelines(lines)
    o = ctx.tlc("BenchTrace", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", ["bench"], env={"TRACE": tf}, heap="8g", timeout=700)
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    recs = [json.loads(l) for l in lines]
    n = sum(len(r["results"]) for r in recs)
    ctx.cov["traces_validated_against_impl"] += len(lines)
    ctx.cov["intervals"] = sum(len(g["samples"]) for r in recs for g in r["groups"])
    ctx.cov["results"] = n
    ctx.cov["samples"] += [lines[0][:400], lines[-1][:400]]
    bad = [int(b) - 1 for b in re.findall(r'"BAD (\d+)"', o.out)]
    ctx.log(len(lines), "episodes,", ctx.cov["intervals"], "intervals,", n, "results validated,", len(bad), "rejected")
    if not bad and n < len(lines): raise vlib.CheckError("only %d results" % n)
    for b in sorted(bad, key=lambda x: len(lines[x]))[:20]:
        r = recs[b]
        ctx.violation("crash" if r["crash"] else "result", "%s inputs %s cost %s noise %d results %s" % (r["crash"], r["inputs"], r["cost"], r["noise"], r["results"]), lines[b][:20000])
    ctx.assumptions += ["The clock is simulated: a timed interval contains the calls, a constant timer overhead and the generated disturbances.",
                        "Durations below 10^6 ticks; at least two subsets (subset_ratio >= 2) as documented."]
