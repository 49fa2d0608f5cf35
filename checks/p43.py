import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import VERIF, REPO
sys.path.insert(0, os.path.join(VERIF, "harness/target"))
import gen

SETS = [("baseline", "HWY_BASELINE_TARGETS"), ("broken", "HWY_BROKEN_TARGETS"), ("static", "HWY_STATIC_TARGET"), ("targets", "HWY_TARGETS"), ("cur", "HWY_TARGET")]
def probe():
    """Prints every bit of the target masks, evaluated by the preprocessor itself."""
    s = '#include "hwy/detect_targets.h"\n'
    for f, m in SETS:
        for b in range(63): s += "#if (%s) & (1LL << %d)\n@%s %d@\n#endif\n" % (m, b, f, b)
    return s + "@end@\n"
def run_one(p, c):
    cmd = ["g++", "-E", "-P", "-undef", "-nostdinc", "-x", "c++", "-I" + REPO] + ["-D%s=%s" % kv for kv in gen.defines(c).items()] + [p]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    if "@end@" not in r.stdout: raise vlib.CheckError("preprocessor: " + r.stderr[-1500:])
    o = dict(c, err=r.returncode != 0)
    if o["err"] and "#error" not in r.stderr: raise vlib.CheckError("preprocessor: " + r.stderr[-1500:])
    for f, _ in SETS: o[f] = [gen.NAME.get(int(b), "BIT" + b) for b in re.findall(r"@%s (\d+)@" % f, r.stdout)]
    return json.dumps(o) + "\n"
def check(ctx):
    ctx.model("guarantees and monotonicity of the selection", "MCTargetSelect", "CONSTANT Deep = %s\nSPECIFICATION Spec\nINVARIANT Ok\nINVARIANT Monotone\nCHECK_DEADLOCK FALSE\n" % ("FALSE" if ctx.tier == "quick" else "TRUE"), ["target"])
    n = 5000 if ctx.tier == "quick" else 30000
    cs = gen.configs(ctx.seed, n)
    p = ctx.path("probe.h")
    open(p, "w").write(probe())
    with ThreadPoolExecutor(8) as ex: lines = list(ex.map(lambda c: run_one(p, c), cs))
    tf = ctx.path("trace.json")
    with open(tf, "w") as fh: fh.writelines(lines)
    o = ctx.tlc("TargetSelectTrace", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", ["target"], env={"TRACE": tf}, heap="6g", timeout=700)
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    ctx.cov["traces_validated_against_impl"] += len(lines)
    ctx.cov["samples"] += [lines[0][:600], lines[-1][:600]]
    errs = sum('"err": true' in l for l in lines)
    ctx.cov["configurations"] = len(lines); ctx.cov["rejected_configurations"] = errs
    spec = re.findall(r'"SPEC (\d+)"', o.out)
    if spec: raise vlib.CheckError("the specification itself breaks Good on " + lines[int(spec[0]) - 1])
    for m in re.finditer(r'"DEV (\w+) (\d+)"', o.out): ctx.violation(m.group(1), "targets differ from the documented selection", lines[int(m.group(2)) - 1])
    bad = re.findall(r'"BAD (\d+)"\s*\n(\[.*?\])\s*\n(?="|\w|$)', o.out, re.S)
    nb = len(re.findall(r'"BAD (\d+)"', o.out))
    ctx.log(len(lines), "simulated compilations,", errs, "rejected by #error,", nb, "do not match")
    for b, e in sorted(bad, key=lambda x: len(lines[int(x[0]) - 1]))[:20]:
        ctx.violation("select-" + cs[int(b) - 1]["arch"], "expected %s" % re.sub(r"\s+", " ", e), lines[int(b) - 1])
    if nb and not bad: ctx.violation("select", "%d configurations" % nb, o.out[-3000:])
    ctx.assumptions += ["The compilers are simulated by GCC's preprocessor with the macros they predefine; whether the macros are what the real compilers define is taken from their documentation.", "Macro sets are consistent as real compilers' are (an instruction set implies its prerequisites)."]
