import json, os, random, re
import trace_common as tc, vlib
from vlib import VERIF
def check(ctx):
    th = ctx.thorough
    base = "SPECIFICATION Spec\nINVARIANT Correct\nINVARIANT Written\nCHECK_DEADLOCK FALSE\nCONSTANTS Buffer = 2 Storage = 4 Emit = TRUE MaxEvents = %d Threads = %s\n"
    hist = []
    for name, n, thr in (("profiler design, one thread", 9 if th else 8, "{1}"), ("profiler design, two threads", 7 if th else 6, "{1, 2}")):
        o = ctx.model(name, "ProfilerModel", base % (n, thr), ["prof"], heap="8g")
        hist += [json.loads(json.loads('"%s"' % m)) for m in sorted(set(re.findall(r'"HIST (.*)"', o.out)))]
    ctx.log(len(hist), "histories generated")
    if len(hist) < 500: raise vlib.CheckError("no histories")
    cap = 20000 if th else 1800
    if len(hist) > cap: hist = random.Random(ctx.seed).sample(hist, cap)
    f = ctx.path("hist.txt")
    with open(f, "w") as fh:
        for h in hist: fh.write(" ".join("t " + " ".join(",".join(map(str, e)) for e in t) for t in h) + "\n")
    tc.build(ctx, "prof", ["prof/prof.cc"], lib=["abort.cc", "aligned_allocator.cc", "per_target.cc", "print.cc", "targets.cc"],
             link=["-Wl,--wrap=_ZN3hwy20AllocateAlignedBytesEmPFPvS0_mES0_"])
    lines = tc.run(ctx, "prof", [[p, f] for p in range(8)])
    tf = ctx.path("trace.json")
    with open(tf, "w") as fh: fh.writelines(lines)
    o = ctx.tlc("ProfilerTrace", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", ["prof"], env={"TRACE": tf}, heap="8g", timeout=700)
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    ctx.cov["traces_validated_against_impl"] += len(lines)
    ctx.cov["samples"] += [lines[0][:400], lines[-1][:400]]
    bad = re.findall(r'"BAD <<(\d+), (.*)>>"', o.out)
    ctx.log(len(lines), "episodes validated,", len(bad), "rejected")
    for b, exp in sorted(bad, key=lambda x: len(lines[int(x[0]) - 1]))[:20]:
        r = json.loads(lines[int(b) - 1])
        ctx.violation("crash" if r["crash"] else "report", "%s rows %s expected %s" % (r["crash"], r["rows"], exp), lines[int(b) - 1][:20000])
    ctx.assumptions += ["Clocks are simulated, so the timer overhead is known exactly: zero delay before, a constant after each reading.",
                        "At most 64 nested zones, 256 zones and 256 threads, as documented; PrintResults is called once after all threads left their zones."]
