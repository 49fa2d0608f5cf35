import simd_common as sc
def check(ctx, sel=0):
    lines = sc.observe(ctx, "algo.cc", extra_flags=["-DVSEL=%d" % sel], parts=2)
    sc.validate(ctx, ctx.pid, lines, "ArrayTrace", specdirs=("algo", "simd"), detail=True)
    ctx.assumptions += ["User functions are pure lane-wise functions, as the documentation requires."]
