import pool_common as pc
def check(ctx):
    T = ctx.thorough
    s = ctx.seed + 20
    pc.build(ctx)
    ctx.model("ThreadPool NT=2 AllConfigs, 1 call", "MCThreadPool", pc.MODEL % (2, 1, "{2,3,4}", "AllConfigs", 4, "Em0", "PROPERTY Refines"), ["pool"], timeout=600)
    if T:
        ctx.model("ThreadPool NT=2 AllConfigs, 2 calls", "MCThreadPool", pc.MODEL % (2, 2, "{2,4}", "AllConfigs", 4, "Em0", "PROPERTY Refines"), ["pool"], timeout=3000, heap="12g")
    hints = pc.schedules(ctx, 2, 100 if not T else 3000, 3, "{2,3,4,5,7}", s)
    b = 10 if T else 1
    modes = [("small", s, 300000 * b), ("small", s + 1000, 300000 * b), ("history", s, 150000 * b), ("max", s, 100000 * b), ("hints", s, 0)]
    pc.run_traces(ctx, "P02", modes, hints)
    ctx.assumptions += ["Visibility is judged by vector clocks over the C++11 happens-before order of the atomics and fences the pool executes in each run."]
