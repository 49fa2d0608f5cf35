import os, trace_common as tc
def check(ctx):
    for n, m, c in ((2, 2, 2), (3, 1, 2)) if not ctx.thorough else ((2, 2, 3), (3, 1, 3), (3, 2, 2), (2, 4, 2)):
        ctx.model("AutoTuneImpl refines AutoTune (n=%d, minimum samples %d, %d costs)" % (n, m, c), "AutoTuneImpl",
                  "SPECIFICATION ISpec\nCONSTANTS N = %d MinS = %d Costs = {%s}\nINVARIANTS BestIsMinimal Bounded\nPROPERTIES Refines Terminates\nCHECK_DEADLOCK FALSE\n" % (n, m, ", ".join(str(4 + 3 * i) for i in range(c))), ["core"], timeout=500)
    tc.build(ctx, "autotune", ["core/autotune.cc", "vqsort_stub.cc"])
    tc.validate(ctx, "AutoTuneTrace", tc.run(ctx, "autotune"))
    ctx.assumptions += ["Costs below 2^16 times a power of two up to 2^40; fewer than 31 candidates.", "The sort used for medians is replaced by std::sort (VQSort has its own check)."]
