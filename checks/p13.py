import trace_common as tc
def check(ctx):
    tc.build(ctx, "stats", ["core/stats.cc"])
    tc.validate(ctx, "StatsTrace", tc.run(ctx, "stats"), specdirs=("core", "simd"))
    ctx.assumptions += ["Integer samples of bounded spread (20), at most 16 per object; floating-point results compared after rounding to about 1/1000.",
                        "Robust estimators on unsigned integers, as documented."]
