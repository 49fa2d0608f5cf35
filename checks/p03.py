import pool_common as pc
def check(ctx):
    T = ctx.thorough
    s = ctx.seed + 40
    pc.build(ctx)
    ctx.model("ThreadPool NT=2 termination under fairness", "MCThreadPool", pc.MODEL % (2, 1, "{2,4}", "MixConfigs", 4, "Em0", "PROPERTY Terminates"), ["pool"], timeout=600)
    ctx.model("ThreadPool NT=3 deadlock freedom", "MCThreadPool", pc.MODEL % (3, 1, "{2}", "CtrConfigs", 4, "Em3", ""), ["pool"], timeout=600)
    if T:
        ctx.model("ThreadPool NT=2 termination, all configurations", "MCThreadPool", pc.MODEL % (2, 1, "{2,4}", "AllConfigs", 4, "Em0", "PROPERTY Terminates"), ["pool"], timeout=3000, heap="12g")
        ctx.model("ThreadPool NT=2 termination, two calls", "MCThreadPool", pc.MODEL % (2, 2, "{2,4}", "MixConfigs", 4, "Em0", "PROPERTY Terminates"), ["pool"], timeout=3000, heap="12g")
    hints = pc.schedules(ctx, 2, 100 if not T else 3000, 4, "{2,3,4}", s)
    b = 10 if T else 1
    modes = [("small", s, 250000 * b), ("small", s + 1000, 250000 * b), ("history", s, 150000 * b), ("history", s + 1000, 150000 * b), ("max", s, 100000 * b), ("max", s + 1000, 100000 * b), ("hints", s, 0)]
    pc.run_traces(ctx, "P03", modes, hints)
    ctx.assumptions += ["Termination is checked under weak fairness of every thread in the model; in recorded runs a call counts as hung when no thread can make progress "
                        "(every runnable thread repeats loads that nothing will change) or after two million scheduling steps."]
