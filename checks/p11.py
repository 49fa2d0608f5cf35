import trace_common as tc
def check(ctx):
    tc.build(ctx, "image", ["core/image.cc"], repo=["contrib/image/image.cc"], link=["-Wl,--wrap=malloc,--wrap=free"])
    tc.validate(ctx, "PaddedTrace", tc.run(ctx, "image"), specdirs=("core",))
    ctx.assumptions += ["Non-empty shapes for multi-dimensional arrays; at most four axes and a few hundred elements per row.", "External image memory aligned to 128 bytes."]
