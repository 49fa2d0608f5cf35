"""Simulated compilations: what a compiler for some architecture would predefine, plus the user's configuration macros."""
import random
BIT = dict(AVX10_2_512=3, AVX3_SPR=4, AVX10_2=5, AVX3_ZEN4=6, AVX3_DL=7, AVX3=8, AVX2=9, SSE4=11, SSSE3=12, SSE2=14, SVE2_128=18, SVE_256=19,
           SVE2=23, SVE=24, NEON_BF16=26, NEON=28, NEON_WITHOUT_AES=29, RVV=37, LASX=40, LSX=41, PPC10=47, PPC9=48, PPC8=49, Z15=50, Z14=51,
           WASM_EMU256=58, WASM=59, EMU128=61, SCALAR=62)
NAME = {v: k for k, v in BIT.items()}
X86 = [t for t in BIT if BIT[t] <= 14]
ARM = [t for t in BIT if 15 <= BIT[t] <= 29]
PPC = ["PPC10", "PPC9", "PPC8"]
ARCHT = dict(x86_64=X86, x86_32=X86, a64=ARM, v7=ARM, ppc64=PPC, ppc32=PPC, s390x=["Z15", "Z14"], riscv=["RVV"], loong64=["LASX", "LSX"], loong32=["LASX", "LSX"], wasm=["WASM", "WASM_EMU256"])
ARCHS = ["x86_64"] * 6 + ["x86_32"] * 2 + ["a64"] * 5 + ["v7"] * 3 + ["ppc64"] * 3 + ["ppc32", "s390x", "s390x", "riscv", "riscv", "loong64", "loong32", "wasm", "armold", "none"]
GCC = [407, 504, 700, 800, 801, 900, 910, 1000, 1002, 1100, 1200, 1202, 1203, 1204, 1300, 1301, 1302, 1303, 1400, 1402, 1500]
CLANG = [309, 600, 700, 800, 900, 1000, 1300, 1400, 1500, 1600, 1601, 1700, 1800, 1801, 1900, 1901, 2000, 2100]
# (macro, implied macros that real compilers define too)
X86F = ["__SSE2__", "__SSSE3__", "__SSE4_1__", "__SSE4_2__", "__AVX__", "__AVX2__", "__AVX512F__"]
DL = ["__AVX512VNNI__", "__VAES__", "__VPCLMULQDQ__", "__AVX512VBMI__", "__AVX512VBMI2__", "__AVX512VPOPCNTDQ__", "__AVX512BITALG__", "__GFNI__"]
AVX3 = ["__AVX512BW__", "__AVX512CD__", "__AVX512DQ__", "__AVX512VL__"]
def x86_feats(r, comp):
    lvl = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 7])
    f = set(X86F[:lvl])
    ex = ["__PCLMUL__", "__AES__"] if lvl >= 4 else []
    if lvl >= 6: ex += ["__BMI2__", "__FMA__", "__F16C__"]
    if lvl >= 7: ex += AVX3
    if lvl >= 7 and r.random() < .7: ex += DL
    if set(DL) <= set(ex) and r.random() < .6: ex += ["__AVX512BF16__", "__AVX512FP16__"]
    if r.random() < .45 and ex:
        for x in r.sample(ex, min(len(ex), r.choice([1, 1, 1, 2, 3]))): ex.remove(x)
    if comp == "msvc":
        f -= {"__SSSE3__", "__SSE4_1__", "__SSE4_2__", "__SSE2__"}
        ex = [x for x in ex if x in AVX3]
    f |= set(ex)
    if lvl >= 7 and r.random() < .75: f.add("__EVEX512__")
    if set(AVX3) <= f and r.random() < .12: f |= set(DL) | {"__AVX512BF16__", "__AVX512FP16__", "__AVX10_2__"} | ({"__AVX10_2_512__"} if r.random() < .5 else set())
    return f
def gen(r, arch=None):
    c = dict(arch=arch or r.choice(ARCHS), big=False, os=r.choice(["linux"] * 6 + ["none"]), auxv=r.random() < .9, num=0, patch=0, obase=[], obroken=False)
    a = c["arch"]
    kinds = ["gcc", "gcc", "clang", "clang"]
    if a.startswith("x86"): kinds += ["msvc", "msvc", "clangcl", "icc", "icx"]
    if a == "a64": kinds += ["msvc"]
    if a == "wasm": kinds = ["clang"]
    k = c["comp"] = r.choice(kinds)
    c["ver"] = {"gcc": r.choice(GCC), "msvc": r.choice([1900, 1910, 1930, 1939]), "icc": r.choice([1800, 1910, 2021])}.get(k, r.choice(CLANG))
    if k == "clang": c["patch"] = r.choice([0, 0, 1, 5])
    if k in ("msvc", "clangcl"): c["os"] = "win"
    elif a in ("a64", "x86_64") and k != "gcc" and r.random() < .2: c["os"] = "apple"
    f = set()
    if a.startswith("x86"):
        f = x86_feats(r, k)
        if a == "x86_64" and k != "msvc": f.add("__SSE2__")
        if a == "x86_32" and r.random() < .6: f.add("IX86_SSE2")
    elif a in ("a64", "v7"):
        c["big"] = k != "msvc" and r.random() < .15
        if a == "a64" or r.random() < .8: f.add(r.choice(["__ARM_NEON", "__ARM_NEON", "__ARM_NEON__"]))
        if a == "v7":
            for m in ["PROFILE_A", "__ARM_VFPV4__", "FP_HALF", "__ARM_FEATURE_FMA"]:
                if r.random() < .6: f.add(m)
        else:
            if r.random() < .7:
                f.add("__ARM_FEATURE_AES")
                if r.random() < .6: f |= {"__ARM_FEATURE_FP16_VECTOR_ARITHMETIC", "__ARM_FEATURE_DOTPROD", "__ARM_FEATURE_BF16_VECTOR_ARITHMETIC"}
            ex = [x for x in f if "FP16" in x or "DOT" in x or "BF16" in x]
            if ex and r.random() < .3: f.discard(r.choice(sorted(ex)))
            if r.random() < .5:
                f.add("__ARM_FEATURE_SVE")
                if r.random() < .6: f.add("__ARM_FEATURE_SVE2")
                c["num"] = r.choice([0, 0, 128, 256, 512])
    elif a.startswith("ppc"):
        c["big"] = r.random() < .5
        fs = ["__ALTIVEC__", "__VSX__", "__POWER8_VECTOR__", "__CRYPTO__", "__POWER9_VECTOR__", r.choice(["_ARCH_PWR10", "__POWER10_VECTOR__"])]
        f = set(fs[:r.randint(0, 6)])
        if r.random() < .25 and f: f.discard(r.choice(sorted(f)))
    elif a == "s390x":
        c["big"] = True; c["num"] = r.choice([0, 11, 12, 12, 13, 13, 14])
        if r.random() < .85: f.add("__VEC__")
    elif a == "riscv": c["num"] = r.choice([0, 10000, 11000, 11000, 12000, 1000000])
    elif a.startswith("loong"): f = set(["__loongarch_sx", "__loongarch_asx"][:r.randint(0, 2)])
    elif a == "wasm": f = {"__wasm_simd128__"} if r.random() < .8 else set()
    u = set()
    p = r.random()
    if p < .3: u.add(r.choice(["HWY_COMPILE_ALL_ATTAINABLE", "HWY_IS_TEST"]))
    elif p < .55:
        u.add(r.choice(["HWY_COMPILE_ONLY_SCALAR", "HWY_COMPILE_ONLY_EMU128", "HWY_COMPILE_ONLY_STATIC"]))
        if r.random() < .1: u.add(r.choice(["HWY_COMPILE_ONLY_SCALAR", "HWY_COMPILE_ONLY_EMU128", "HWY_COMPILE_ONLY_STATIC"]))
        if r.random() < .3: u.add("HWY_COMPILE_ALL_ATTAINABLE")
    if r.random() < .1: u.add("HWY_SKIP_NON_BEST_BASELINE")
    if r.random() < .1: u.add("HWY_NO_LIBCXX")
    if r.random() < .1: u.add("EMU_OK")
    if r.random() < .08: u.add("NO_RUNTIME")
    if a.startswith("x86"):
        for m, q in [("HWY_WANT_SSE2", .06), ("HWY_WANT_SSSE3", .1), ("HWY_WANT_SSE4", .12), ("HWY_DISABLE_PCLMUL_AES", .12), ("HWY_DISABLE_BMI2_FMA", .12), ("HWY_DISABLE_F16C", .12), ("HWY_SLOW_MSVC", .15)]:
            if r.random() < q: u.add(m)
        if "__AVX512BF16__" in f and r.random() < .3: u.add("HWY_WANT_AVX3_ZEN4")
    if a.startswith("ppc") and r.random() < .25: u.add("HWY_DISABLE_PPC8_CRYPTO")
    if a == "wasm" and r.random() < .4: u.add("HWY_WANT_WASM2")
    if a == "riscv" and "NO_RUNTIME" not in u and r.random() < .3: u.add("YES_RUNTIME")
    ts = ARCHT.get(a, [])
    c["disabled"] = []
    if r.random() < .4: c["disabled"] = sorted(set(r.sample(ts + ["SCALAR", "EMU128"] if r.random() < .15 else ts, r.randint(0, len(ts)))))
    if r.random() < .06: c["obase"] = sorted(set(r.sample(ts, r.randint(0, len(ts))) + ["SCALAR", "EMU128"]))
    if r.random() < .08: c["obroken"] = True
    c["feat"] = sorted(f); c["user"] = sorted(u)
    return c
def expr(ts): return "(" + ("|".join("HWY_" + t for t in ts) if ts else "0") + ")"
def defines(c):
    """The macros of this compilation as {name: value}."""
    d = {}
    k, v, a = c["comp"], c["ver"], c["arch"]
    if k in ("gcc",): d.update(__GNUC__=v // 100, __GNUC_MINOR__=v % 100)
    if k in ("clang", "icx"): d.update(__GNUC__=4, __GNUC_MINOR__=2)
    if k in ("clang", "clangcl", "icx"): d.update(__clang__=1, __clang_major__=v // 100, __clang_minor__=v % 100, __clang_patchlevel__=c["patch"])
    if k == "clangcl": d["_MSC_VER"] = 1930
    if k == "msvc": d["_MSC_VER"] = v
    if k == "icc": d.update(__INTEL_COMPILER=v, __GNUC__=9, __GNUC_MINOR__=4)
    if k == "icx": d["__INTEL_LLVM_COMPILER"] = 20230000
    if k != "msvc": d.update(__ORDER_LITTLE_ENDIAN__=1234, __ORDER_BIG_ENDIAN__=4321, __BYTE_ORDER__=4321 if c["big"] else 1234)
    win = k in ("msvc", "clangcl")
    d.update({"x86_64": {"_M_X64": 100} if win else {"__x86_64__": 1}, "x86_32": {"_M_IX86": 600} if win else {"__i386__": 1},
              "a64": {"_M_ARM64": 1} if win else {"__aarch64__": 1, "__ARM_ARCH": 8, "__ARM_ARCH_ISA_A64": 1}, "v7": {"__arm__": 1, "__ARM_ARCH": 7}, "armold": {"__arm__": 1, "__ARM_ARCH": 6},
              "ppc64": {"__powerpc__": 1, "__powerpc64__": 1}, "ppc32": {"__powerpc__": 1}, "s390x": {"__s390x__": 1}, "riscv": {"__riscv": 1, "__riscv_xlen": 64},
              "loong64": {"__loongarch__": 1, "__loongarch_grlen": 64}, "loong32": {"__loongarch__": 1, "__loongarch_grlen": 32}, "wasm": {"__EMSCRIPTEN__": 1}, "none": {}}[a])
    d.update({"linux": {"__linux__": 1}, "win": {"_WIN32": 1}, "apple": {"__APPLE__": 1}, "none": {}}[c["os"]])
    for f in c["feat"]:
        if f == "PROFILE_A": d["__ARM_ARCH_PROFILE"] = 65
        elif f == "FP_HALF": d["__ARM_NEON_FP"] = 6
        elif f == "IX86_SSE2": d["_M_IX86_FP"] = 2
        else: d[f] = 1
    if a == "v7": d.setdefault("__ARM_ARCH_PROFILE", 82); d.setdefault("__ARM_NEON_FP", 4)
    if c["num"]: d[{"s390x": "__ARCH__", "riscv": "__riscv_v_intrinsic"}.get(a, "__ARM_FEATURE_SVE_BITS")] = c["num"]
    for u in c["user"]:
        if u == "EMU_OK": d["HWY_BROKEN_EMU128"] = 0
        elif u == "YES_RUNTIME": d["HWY_HAVE_RUNTIME_DISPATCH"] = 1
        elif u == "NO_RUNTIME": d["HWY_HAVE_RUNTIME_DISPATCH"] = 0
        else: d[u] = 1
    d["HWY_HAVE_AUXV"] = int(c["auxv"])
    if c["disabled"]: d["HWY_DISABLED_TARGETS"] = expr(c["disabled"])
    if c["obase"]: d["HWY_BASELINE_TARGETS"] = expr(c["obase"])
    if c["obroken"]: d["HWY_BROKEN_TARGETS"] = 0
    return d
def configs(seed, n):
    r = random.Random(seed * 7919 + 17)
    return [gen(r) for _ in range(n)]
