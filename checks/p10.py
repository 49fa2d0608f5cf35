import trace_common as tc
def check(ctx):
    tc.build(ctx, "owner", ["core/owner.cc"], link=["-Wl,--wrap=malloc,--wrap=free"])
    tc.validate(ctx, "AlignedOwnerTrace", tc.run(ctx, "owner"))
    ctx.assumptions += ["Arrays of zero elements abort by design (zero-byte request) and are excluded; constructors do not throw."]
