"""Checks of the SIMD ops: the harness is compiled once per target, its observations are merged and
validated by TLC against the machine specification in spec/simd."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import VERIF, REPO

FLAGS = {"AVX3": {"avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"}, "AVX2": {"avx2", "fma", "f16c", "bmi1", "bmi2"}, "SSE4": {"sse4_1", "sse4_2", "pclmulqdq", "aes"},
         "SSSE3": {"ssse3"}, "SSE2": set(), "EMU128": set(), "SCALAR": set()}
FLAGS["AVX3_DL"] = FLAGS["AVX3"] | {"avx512_vnni", "avx512_vbmi2", "avx512vbmi", "avx512ifma", "avx512_bitalg", "avx512_vpopcntdq", "gfni", "vaes", "vpclmulqdq"}
FLAGS["AVX3_ZEN4"] = FLAGS["AVX3_DL"] | {"avx512_bf16"}
FLAGS["AVX3_SPR"] = FLAGS["AVX3_ZEN4"] | {"avx512_fp16"}

def targets(ctx, want=None):
    cpu = set()
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"): cpu = set(l.split(":")[1].split()); break
    ok = [t for t in ("AVX3_SPR", "AVX3_ZEN4", "AVX3_DL", "AVX3", "AVX2", "SSE4", "SSSE3", "SSE2", "EMU128", "SCALAR") if FLAGS[t] <= cpu]
    if os.environ.get("VERIF_TARGETS"): return [t for t in ok if t in os.environ["VERIF_TARGETS"].split(",")]   # development only
    if want: ok = [t for t in ok if t in want]
    elif not ctx.thorough:   # the most capable AVX3 variant stands for the others
        big = [t for t in ("AVX3_SPR", "AVX3_ZEN4", "AVX3_DL") if t in ok]
        ok = [t for t in ok if t not in big[1:]]
    return ok

LIB = ["abort.cc", "aligned_allocator.cc", "per_target.cc", "targets.cc", "print.cc"]

def observe(ctx, src, extra_flags=(), want=None, opt="-O0", chunk=64, parts=1, link=(), lib=LIB, constant=True):
    """Compiles and runs harness/simd/<src> for every target; returns merged lines [(line, {targets})]."""
    ts = targets(ctx, want)
    def flags(t):
        return [opt, "-DNDEBUG", "-DHWY_COMPILE_ONLY_STATIC", "-DHWY_BASELINE_TARGETS=HWY_" + t] + (["-DHWY_BROKEN_EMU128=0"] if t == "EMU128" else []) + list(extra_flags)
    base = os.path.splitext(os.path.basename(src))[0]
    pairs = [(t, p) for t in ts for p in range(parts)]
    jobs = [(os.path.join(VERIF, "harness/simd", src), "%s_%s_%d.o" % (base, t, p), flags(t) + ["-DVPART=%d" % p]) for t, p in pairs]
    ctx.cxx(jobs + ctx.hwy_lib_jobs(["-O1", "-DNDEBUG"], lib))
    def go(tp):
        exe = "%s_%s_%d" % ((base,) + tp)
        ctx.run(["g++", ctx.path(exe + ".o")] + [ctx.path(o) for o in ctx.hwy_lib_objs(lib)] + ["-o", ctx.path(exe), "-lpthread"] + list(link))
        outs = []
        # x86 ops have separate paths for arguments known to the compiler.
        for how in ["plain"] + (["constant"] if constant and tp[0] not in ("EMU128", "SCALAR") else []):
            out = ctx.path(exe + "." + how + ".json"); outs.append((tp[0], out))
            r = ctx.run([ctx.path(exe), out, str(ctx.seed), ctx.tier, how], timeout=600, check=False)
            if r.returncode != 0: raise vlib.CheckError("%s rc %d %s %s" % (exe, r.returncode, r.stdout[-500:], r.stderr[-1500:]))
        return outs
    with ThreadPoolExecutor(8) as ex: outs = sum(ex.map(go, pairs), [])
    merged, order, done = {}, [], {}
    for t, out in outs:
        seen = done.setdefault(t, set())
        for ln in open(out, errors="replace"):
            if ln in seen or ln.count("\t") != 3: continue
            seen.add(ln)
            if ln not in merged: merged[ln] = []; order.append(ln)
            merged[ln].append(t)
    groups = {}
    for ln in order:
        op, t, extra, c = ln.rstrip("\n").split("\t")
        groups.setdefault((op, t, extra), []).append((c, merged[ln]))
    lines = []    # (json line, [targets per case])
    for (op, t, extra), cs in groups.items():
        for i in range(0, len(cs), chunk):
            part = cs[i:i + chunk]
            lines.append(('{"op":"%s","t":"%s"%s,"c":[%s]}\n' % (op, t, "," + extra if extra else "", ",".join(c for c, _ in part)), [x for _, x in part]))
    ctx.cov.setdefault("targets", ts)
    ctx.log(src, "on", " ".join(ts), ":", len(order), "distinct observations")
    return lines

def validate(ctx, pid, lines, module, specdirs=("simd",), timeout=700, only=None, heap="8g", key=None, detail=False):
    f = ctx.path("obs-%s.json" % module)
    with open(f, "w") as fh: fh.writelines(l for l, _ in lines)
    o = ctx.tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", list(specdirs), env={"TRACE": f}, timeout=timeout, heap=heap)
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    n = 0
    ops = {}
    for l, _ in lines:
        r = json.loads(l)
        n += len(r["c"])
        ops[r["op"]] = ops.get(r["op"], 0) + len(r["c"])
    ctx.cov["traces_validated_against_impl"] += n
    ctx.cov.setdefault("cases_per_op", {}).update(ops)
    if len(ctx.cov["samples"]) < 3 and lines:
        ctx.cov["samples"] += [lines[i][0][:400] for i in (0, len(lines) // 2)]
    bad = 0; rej = {}
    for m in re.finditer(r'"BAD <<(\d+), (\d+), (.*)>>"', o.out):
        l, ts = lines[int(m.group(1)) - 1]
        r = json.loads(l)
        case = r["c"][int(m.group(2)) - 1]
        bad += 1; kk = (r["op"], r["t"]); rej[kk] = rej.get(kk, 0) + 1
        ts = ts[int(m.group(2)) - 1]
        if os.environ.get("VERIF_DEBUG"): open(os.environ["VERIF_DEBUG"], "a").write(json.dumps([r["op"], r["t"], r.get("n"), ts, case]) + "\n")
        r["_bad"] = m.group(3)
        k = key(r, case, ts) if key else "%s-%s" % (r["op"], r["t"])
        ctx.violation(k, "%s on %s lanes (%s): operands/result bytes %s are not a step of the machine" % (r["op"], r["t"], ",".join(sorted(ts)), json.dumps(case)[:400]),
                      json.dumps({k: v for k, v in r.items() if k not in ("c", "_bad")})[:8000])
    ctx.log(module, "validated", n, "cases,", bad, "rejected"); [ctx.log("rejected", k, v) for k, v in rej.items()]
    return o
