import os, re, trace_common as tc
import vlib
from vlib import VERIF, REPO
def check(ctx):
    ctx.model("requirement tables are monotone", "MCX86Targets", "SPECIFICATION Spec\nINVARIANT Chain\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n", ["core"])
    fl = ["-O1", "-DNDEBUG", "-fno-pie", "-mno-red-zone", "-fcf-protection=none"]
    # The real target detection, with the two instructions replaced by calls of the simulated processor.
    ctx.run(["g++", "-std=c++17", "-I" + REPO, "-w", "-S", os.path.join(REPO, "hwy/targets.cc"), "-o", ctx.path("targets.s")] + fl)
    s = open(ctx.path("targets.s")).read()
    s, n1 = re.subn(r"(?m)^\s*cpuid\b", "\tcall verif_cpuid", s)
    s, n2 = re.subn(r"(?m)^\s*(\.byte\s+0x0F,\s*0x01,\s*0xD0|xgetbv\b)", "\tcall verif_xgetbv", s, flags=re.I)
    if not n1 or not n2: raise vlib.CheckError("cpuid/xgetbv not found in the generated code")
    open(ctx.path("targets.s"), "w").write(s)
    lib = ["abort.cc", "print.cc"]
    H = os.path.join(VERIF, "harness/core")
    ctx.cxx([(os.path.join(H, "cpuid.cc"), "cpuid.o", fl), (os.path.join(H, "cpuid_stub.S"), "stub.o", []), (ctx.path("targets.s"), "targets.o", []),
             (os.path.join(H, "cpuid_mock.cc"), "mock.o", ["-O1", "-mgeneral-regs-only"])] + ctx.hwy_lib_jobs(fl, lib),
            [("cpuid", ["cpuid.o", "stub.o", "targets.o", "mock.o"] + ctx.hwy_lib_objs(lib), ["-no-pie"])])
    tc.validate(ctx, "X86TargetsTrace", tc.run(ctx, "cpuid"))
    ctx.assumptions += ["x86-64 Linux; the bit positions of features in CPUID leaves are taken from the vendors' manuals.", "Replacing the instructions cpuid and xgetbv by calls does not change the rest of the code."]
