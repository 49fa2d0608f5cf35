import simd_common as sc
def check(ctx):
    lines = sc.observe(ctx, "int.cc")
    sc.validate(ctx, "P23", lines, "IntTrace")
    ctx.assumptions += ["x86 targets and the portable EMU128/SCALAR targets only (no Arm, RISC-V, Power, Wasm toolchain here).",
                        "8-bit unary ops are exhaustive, 8-bit binary ops exhaustive in the thorough tier, other widths use boundary cross products and random operands."]
