import os
import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "matvec.cc", parts=2, lib=sc.LIB + ["timer.cc", "stats.cc", "nanobenchmark.cc", "perf_counters.cc", "contrib/thread_pool/topology.cc", os.path.join(sc.VERIF, "harness/vqsort_stub.cc")])
    sc.validate(ctx, "P22", lines, "DotMatTrace", specdirs=("algo",), key=lambda r, c, ts: "%s-%s" % (r["op"], r["t"]))
    ctx.assumptions += ["The output is aligned to HWY_ALIGNMENT, as the streaming stores require.", "A sample of template shapes; operands as in P21."]
