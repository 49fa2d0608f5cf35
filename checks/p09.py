import trace_common as tc
CFG = "SPECIFICATION TSpec\nCONSTANT Align = 128\nCHECK_DEADLOCK FALSE\n"
def check(ctx):
    tc.build(ctx, "alloc", ["core/alloc.cc"], link=["-Wl,--wrap=malloc,--wrap=free"])
    tc.validate(ctx, "AlignedAllocTrace", tc.run(ctx, "alloc"), specdirs=("core", "simd"), cfg=CFG)
    ctx.assumptions += ["Requests of zero bytes abort by design and are excluded.", "The underlying allocator returns 8-byte aligned blocks."]
