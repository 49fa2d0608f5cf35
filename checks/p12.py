import trace_common as tc
def check(ctx):
    ctx.model("BitSetImpl refines BitSet", "BitSetImpl", "SPECIFICATION ISpec\nCONSTANTS Cap = %d WS = 3\nINVARIANTS Summary FirstOk CountOk\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n" % (10 if ctx.thorough else 7), ["core"])
    tc.build(ctx, "bitset", ["core/bit_set.cc"])
    tc.validate(ctx, "BitSetTrace", tc.run(ctx, "bitset"))
    ctx.assumptions += ["Indices below the capacity, as the class requires.", "During iteration only the word being visited is modified (what the class promises to be safe)."]
