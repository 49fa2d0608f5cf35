"""Checks that record episodes from the real code and validate them with a TLA+ trace specification."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import VERIF, REPO

CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"

def build(ctx, exe, srcs, flags=("-O1", "-DNDEBUG"), lib=None, repo=(), link=()):
    """srcs: harness sources below /verif/harness; repo: further sources below /repo/hwy."""
    flags = list(flags)
    jobs = [(os.path.join(VERIF, "harness", s), "%s_%d.o" % (exe, i), flags) for i, s in enumerate(srcs)]
    jobs += [(os.path.join(REPO, "hwy", s), "%s_r%d.o" % (exe, i), flags) for i, s in enumerate(repo)]
    objs = [j[1] for j in jobs]
    lj = ctx.hwy_lib_jobs(["-O1", "-DNDEBUG"], lib) if lib != [] else []
    ctx.cxx(jobs + lj, [(exe, objs + [j[1] for j in lj], list(link))])

def run(ctx, exe, runs=None, timeout=600, env=None):
    """runs: list of extra argument lists; every run writes its own trace file.  Returns the lines."""
    runs = runs or [[]]
    def go(k):
        tf = ctx.path("%s-%d.json" % (exe, k))
        r = ctx.run([ctx.path(exe), tf, str(ctx.seed), ctx.tier] + [str(x) for x in runs[k]], timeout=timeout, check=False, env=env)
        m = re.findall(r"^\{.*\}$", r.stdout, re.M)
        if not m:
            if r.returncode in (-999,): raise vlib.CheckError("harness %s timed out" % exe)
            raise vlib.CheckError("harness %s rc %d: %s %s" % (exe, r.returncode, r.stdout[-500:], r.stderr[-1500:]))
        ctx.log(exe, *runs[k], m[-1])
        return tf
    with ThreadPoolExecutor(8) as ex: files = list(ex.map(go, range(len(runs))))
    lines = []
    for f in files: lines += open(f, errors="replace").readlines()
    return lines

def validate(ctx, module, lines, specdirs=("core",), timeout=700, heap="6g", describe=None, cfg=CFG, key=None):
    f = ctx.path("trace-%s.json" % module)
    with open(f, "w") as fh: fh.writelines(lines)
    o = ctx.tlc(module, cfg, list(specdirs), env={"TRACE": f}, timeout=timeout, heap=heap)
    ctx.cov["traces_validated_against_impl"] += len(lines)
    nev = sum(l.count("[\"") for l in lines)
    ctx.cov["events_validated"] = ctx.cov.get("events_validated", 0) + nev
    if len(ctx.cov["samples"]) < 4 and lines: ctx.cov["samples"] += [lines[i][:500] for i in (0, len(lines) // 2)]
    if not o.ok: raise vlib.CheckError("TLC on %s: %s" % (module, o.out[-3000:]))
    n = 0
    for m in re.finditer(r'"REJECT <<(\d+), (\d+), (.*)>>"', o.out):
        n += 1
        ln = lines[int(m.group(1)) - 1]
        rec = json.loads(ln)
        e = m.group(3)
        try: ev = json.dumps(rec["ev"][int(m.group(2)) - 1])
        except IndexError: ev = "end"
        k = key(rec, int(m.group(2)), ev) if key else (json.loads(ev)[0] if ev != "end" else "end")
        ctx.violation(k, "event %s (%s) is not a step of %s" % (m.group(2), ev[:400], module), "state/expected: %s\nepisode: %s" % (e[:2000], ln[:6000]))
    acc = len(set(re.findall(r'"ACCEPT (\d+)"', o.out)))
    if "ACCEPT" in o.out or getattr(ctx, "need_accept", False):
        ctx.log("accepted", acc, "of", len(lines))
    ctx.log(module, "validated", len(lines), "episodes,", nev, "events,", n, "rejected,", o.distinct, "states")
    return o
