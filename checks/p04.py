import os, re
import vlib, trace_common as tc
from vlib import VERIF
MODEL = """SPECIFICATION Spec
CONSTANTS Locs = {1} Waiters = {%s} Writers = {%s} Initial = 0 Values = {0, 1, 2} MaxStores = %d Kind = "%s" Arg = %d
INVARIANTS NoLost Returned
%s
CHECK_DEADLOCK FALSE
"""
def check(ctx):
    for kind, arg in (("block", 0), ("spin", 0), ("eq", 2)):
        ctx.model("WaitImpl " + kind, "WaitImpl", MODEL % ('"a", "b"', '"p"' if not ctx.thorough else '"p", "q"', 2 if not ctx.thorough else 3, kind, arg, "PROPERTY Live" if not ctx.thorough else ""), ["pool"], timeout=800)
    fl = ["-O1", "-DNDEBUG", "-fno-pie", "-mno-red-zone", "-fcf-protection=none"]
    src = os.path.join(VERIF, "harness/wait.cc")
    ctx.run(["g++", "-std=c++17", "-I" + vlib.REPO, "-I" + os.path.join(VERIF, "harness"), "-w", "-S", src, "-o", ctx.path("wait.s")] + fl)
    s = open(ctx.path("wait.s")).read()
    def call(kind): return "\tmovq $%d, verif_kind(%%rip)\n\tcall verif_instr" % kind
    def R(r): return {"eax": "rax", "ebx": "rbx", "ecx": "rcx", "edx": "rdx", "esi": "rsi", "edi": "rdi", "ebp": "rbp"}.get(r, r.rstrip("d") if re.match(r"r\d+d", r) else r)
    s, n1 = re.subn(r"(?m)^\s*umonitor\s+%(\w+).*$", lambda m: "\tmovq %%%s, verif_arg(%%rip)\n" % R(m.group(1)) + call(1), s)
    s, n2 = re.subn(r"(?m)^\s*umwait\s+%(\w+).*$", lambda m: "\tmovq %%%s, verif_arg(%%rip)\n" % R(m.group(1)) + call(2), s)
    s, n3 = re.subn(r"(?m)^\s*monitorx\b.*$", lambda m: call(3), s)
    s, n4 = re.subn(r"(?m)^\s*mwaitx\b.*$", lambda m: call(4), s)
    if not (n1 and n2 and n3 and n4): raise vlib.CheckError("monitor instructions not found in the generated code: %s" % ((n1, n2, n3, n4),))
    open(ctx.path("wait.s"), "w").write(s)
    lib = ["abort.cc", "print.cc"]
    ctx.cxx([(ctx.path("wait.s"), "wait_asm.o", []), (os.path.join(VERIF, "harness/wait_stub.S"), "stub.o", []), (src, "wait_intrin.o", fl + ["-DVINTRIN"])] + ctx.hwy_lib_jobs(fl, lib),
            [("waitasm", ["wait_asm.o", "stub.o"] + ctx.hwy_lib_objs(lib), ["-no-pie"]), ("waitintrin", ["wait_intrin.o"] + ctx.hwy_lib_objs(lib), ["-no-pie"])])
    b = 2000000 if ctx.thorough else 100000
    lines = tc.run(ctx, "waitasm", [[b]]) + tc.run(ctx, "waitintrin", [[b // 2]])
    cfg = "SPECIFICATION TSpec\nCONSTANTS Locs = {1, 2} Waiters = {1, 2, 3, 4} Initial = \"0\"\nCHECK_DEADLOCK FALSE\n"
    tc.validate(ctx, "WaitTrace", lines, ["pool"], cfg=cfg)
    ctx.assumptions += ["Linux futexes; processors and kernels wake waiters as documented (monitored cache line written, futex woken) and may wake spuriously.", "Interleavings of the real code are sampled, those of the model WaitImpl.tla exhausted."]
