import pool_common as pc
def check(ctx):
    T = ctx.thorough
    s = ctx.seed
    pc.build(ctx)
    ctx.model("ThreadPool NT=2", "MCThreadPool", pc.MODEL % (2, 2, "{2,4}", "MixConfigs", 4, "Em0", "PROPERTY Refines"), ["pool"], timeout=600)
    if T:
        ctx.model("ThreadPool NT=2 AllConfigs", "MCThreadPool", pc.MODEL % (2, 2, "{2,3,4}", "AllConfigs", 4, "Em0", "PROPERTY Refines"), ["pool"], timeout=3000, heap="12g")
        ctx.model("ThreadPool NT=3", "MCThreadPool", pc.MODEL % (3, 1, "{2,5}", "MixConfigs", 4, "Em3", "PROPERTY Refines"), ["pool"], timeout=3000, heap="12g")
    hints = pc.schedules(ctx, 2, 150 if not T else 3000, 3, "{2,3,4,5,7}", s) + pc.schedules(ctx, 3, 60 if not T else 1000, 3, "{2,4,5,9}", s + 1)
    ctx.log(len(hints), "schedules from TLC")
    b = 10 if T else 1
    modes = [("small", s, 300000 * b), ("small", s + 1000, 200000 * b), ("history", s, 150000 * b), ("max", s, 120000 * b), ("max", s + 1000, 120000 * b), ("hints", s, 0)]
    pc.run_traces(ctx, "P01", modes, hints)
    ctx.assumptions += ["Scheduling points are the atomics, futex and monitor operations the pool performs; the C++ memory model is simulated "
                        "(stale values allowed by happens-before), not exhaustively enumerated on the real code.",
                        "ThreadPool.tla is exhausted for NT<=3 threads; larger pools are covered by traces (up to the maximum of 64 workers)."]
