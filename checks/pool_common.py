"""P01-P03: the real thread pool under the deterministic scheduler, checked against spec/pool."""
import json, os, re
import vlib
from vlib import VERIF, REPO

FL = ["-O1", "-DNDEBUG"]
TRACE_CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"

def build(ctx):
    jobs = [(os.path.join(VERIF, "harness/pool.cc"), "pool.o", FL), (os.path.join(VERIF, "harness/vqsort_stub.cc"), "vqs.o", FL),
            (os.path.join(REPO, "hwy/contrib/thread_pool/topology.cc"), "topo.o", FL)] + ctx.hwy_lib_jobs(FL)
    ctx.cxx(jobs, [("pool", ["pool.o", "vqs.o", "topo.o"] + ctx.hwy_lib_objs(), [])])

def schedules(ctx, nt, num, maxops, tasks, seed):
    """Histories and schedules generated by TLC from ThreadPool.tla."""
    cfg = """SPECIFICATION SSpec
CONSTANTS NT = %d MaxOps = %d Tasks = %s Configs <- SimConfigs Init0 <- SimInit0 CtrBase = 8 E0 = 0 CtrDir = 1
INVARIANT Report AbsInv Quiescent
CHECK_DEADLOCK FALSE
""" % (nt, maxops, tasks)
    o = ctx.tlc("PoolSim", cfg, ["pool"], extra=["-simulate", "num=%d" % num, "-depth", "2000", "-seed", str(seed)], workers=8, timeout=400)
    if not o.ok: raise vlib.CheckError("simulation of ThreadPool.tla: " + o.out[-3000:])
    res = []
    for m in re.finditer(r'"SCHED <<(\d+), <<([^>]*)>>, <<([^>]*)>>>>"', o.out):
        ops = [x.strip() for x in m.group(2).split(",") if x.strip()]
        ops = ["B" if x == "-1" and i % 2 else "S" if x == "-1" else x for i, x in enumerate(ops)]
        res.append("%s %d %s %s" % (m.group(1), len(ops), " ".join(ops), " ".join(x.strip() for x in m.group(3).split(","))))
    return res

def run_traces(ctx, pid, modes, hint_lines=None):
    """modes: list of (mode, seed, budget)."""
    from concurrent.futures import ThreadPoolExecutor
    files = []
    if hint_lines:
        hf = ctx.path("hints.txt")
        with open(hf, "w") as f: f.write("\n".join(hint_lines) + "\n")
    def go(m):
        mode, seed, budget = m
        tf = ctx.path("trace-%s-%d.json" % (mode, seed))
        cmd = [ctx.path("pool"), tf, str(seed), mode, str(budget)] + ([ctx.path("hints.txt")] if mode == "hints" else [])
        r = ctx.run(cmd, timeout=400, check=False)
        m2 = re.findall(r"^\{.*\}$", r.stdout, re.M)
        if r.returncode != 0 or not m2: raise vlib.CheckError("harness failed: %s rc %d %s" % (cmd, r.returncode, r.stderr[-2000:]))
        return tf, json.loads(m2[-1]), mode, seed
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, modes))
    lines = []
    for tf, st, mode, seed in outs:
        ctx.log("harness", mode, seed, st)
        for ln in open(tf): lines.append((ln, mode, seed))
    all_file = ctx.path("all.json")
    with open(all_file, "w") as f: f.writelines(l[0] for l in lines)
    o = ctx.tlc("PoolTrace", TRACE_CFG, ["pool"], env={"TRACE": all_file}, timeout=700, heap="8g")
    ctx.cov["traces_validated_against_impl"] += len(lines)
    if not ctx.cov["samples"]:
        ctx.cov["samples"] = [lines[i][0][:600] for i in (0, len(lines) // 2, len(lines) - 1)]
    ctx.log("validated", len(lines), "episodes,", o.distinct, "states")
    for m in re.finditer(r'"REJECT <<\{([^}]*)\}, (\d+), (\d+), (.*)>>"', o.out):
        props = re.findall(r"P\d\d", m.group(1))
        if pid in props:
            ln, mode, seed = lines[int(m.group(2)) - 1]
            rec = json.loads(ln)
            ctx.violation("event", "%s: event %s of episode %s: %s is not a step of ParallelFor" % (pid, m.group(3), rec.get("info"), m.group(4)),
                          "mode %s seed %s\n%s" % (mode, seed, ln[:4000]))
    if o.violated: ctx.violation("invariant", "trace leads to a state outside the specification", o.out[-3000:])

MODEL = """SPECIFICATION Spec
CONSTANTS NT = %d MaxOps = %d Tasks = %s Configs <- %s Init0 <- I0 CtrBase = %d E0 <- %s CtrDir = 1
INVARIANTS AbsInv Quiescent
%s
CHECK_DEADLOCK TRUE
"""
