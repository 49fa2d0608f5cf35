import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "unroll.cc")
    sc.validate(ctx, "P19", lines, "UnrollTrace", specdirs=("algo",), key=lambda r, c, ts: "%s-%s" % (r["op"], r["kind"]))
    ctx.assumptions += ["Units treat lanes that are zero in all inputs as padding."]
