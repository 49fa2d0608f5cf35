import os, trace_common as tc
from vlib import VERIF
def check(ctx):
    ctx.model("DispatchImpl (racing calls, all settings)", "DispatchImpl",
              "SPECIFICATION ISpec\nCONSTANTS D = {1, 2, 3} Base = 3 Sites = {{1, 2, 3}, {2, 3}%s} Threads = {t1, t2}\nINVARIANT Correct\nCHECK_DEADLOCK FALSE\n" % (", {3}, {1, 3}" if ctx.thorough else ""), ["core"], timeout=600)
    fl = ["-O1", "-DNDEBUG"]
    A, S = "HWY_AVX3", "HWY_AVX3_SPR"
    tus = [[], ["-DHWY_DISABLED_TARGETS=(HWY_AVX3|HWY_AVX3_DL)"], ["-DHWY_DISABLED_TARGETS=(~(HWY_AVX2|HWY_SSE2))"],
           ["-DHWY_COMPILE_ALL_ATTAINABLE"], ["-DHWY_DISPATCH_MAP=1", "-std=c++14"], ["-march=haswell"], ["-DHWY_COMPILE_ONLY_STATIC"]]
    src = os.path.join(VERIF, "harness/core/dispatch_tu.cc")
    jobs = [(src, "dtu%d.o" % i, fl + ["-DVTU=%d" % i] + f) for i, f in enumerate(tus)]
    jobs += [(os.path.join(VERIF, "harness/core/dispatch.cc"), "dispatch.o", fl)]
    lj = ctx.hwy_lib_jobs(fl)
    ctx.cxx(jobs + lj, [("dispatch", [j[1] for j in jobs + lj], [])])
    tc.validate(ctx, "DispatchTrace", tc.run(ctx, "dispatch"))
    ctx.assumptions += ["Settings change only between calls, as documented.", "x86-64 with SSE2 baseline; the CPU's own target set is taken from the first query (P07 decides it)."]
