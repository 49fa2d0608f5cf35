import trace_common as tc
def check(ctx):
    tc.build(ctx, "abort", ["core/abort.cc"], lib=["abort.cc"])
    tc.validate(ctx, "AbortTrace", tc.run(ctx, "abort"))
    ctx.assumptions += ["Handlers are installed from one thread; 800 bytes is the buffer size of the pinned tree (longer messages may also arrive whole)."]
