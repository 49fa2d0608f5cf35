#!/usr/bin/env python3
"""Development helper: plants many small changes at once in one ops file of a scratch clone and reports which of
the changed ops the SIMD checks reject.  campaign.py FILE FRACTION SEED TARGETS [PROPS...]"""
import json, os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
F, frac, seed, targets = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
props = sys.argv[5:] or ["P%d" % i for i in list(range(23, 36)) + [38]]
R = "/tmp/camp/%s-%d" % (os.path.basename(F), seed)
subprocess.run(["rm", "-rf", R]); os.makedirs("/tmp/camp", exist_ok=True)
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
P = os.path.join(R, F)
orig = open(P).read()
rng = random.Random(seed)
funcs = []
for m in re.finditer(r"^HWY_(?:API|INLINE|SVE_INLINE)[^;{}]*?\b(\w+)\s*\(", orig, re.M):
    i = orig.find("{", m.end()); j = orig.find(";", m.end())
    if i < 0 or (0 <= j < i): continue
    # parameter list must end before {
    d = 0; k = i
    while k < len(orig):
        if orig[k] == "{": d += 1
        elif orig[k] == "}":
            d -= 1
            if d == 0: break
        k += 1
    if "\n}" not in orig[i-2:k+1] and "\n" in orig[i:k]: pass
    funcs.append((m.group(1), m.start(), i, k + 1))
PAIRS = [("<=", "<"), (r"\bLt\(", "Le("), (r"\bGt\(", "Ge("), (r"\bGe\(", "Gt("), (r"\bLe\(", "Lt("), (r"\bEq\(", "Ne("), (r"\bAnd\(", "Or("), (r"\bOr\(", "Xor("), (r"\bXor\(", "Or("), (r"\bAndNot\(", "And("),
         (r"\bMin\(", "Max("), (r"\bMax\(", "Min("), (r"\bAdd\(", "Sub("), (r"\bSub\(", "Add("), (r"_min_", "_max_"), (r"_max_", "_min_"), (r"unpacklo", "unpackhi"), (r"unpackhi", "unpacklo"),
         (r"\bShiftRight<", "ShiftLeft<"), (r"_add_", "_sub_"), (r"_sub_", "_add_"), (r"_adds_", "_add_"), (r"_subs_", "_sub_"), (r"_and_", "_or_"), (r"_or_", "_xor_"), (r"_xor_", "_or_"), (r"_andnot_", "_and_"),
         (r"_cmpgt_", "_cmpeq_"), (r"_cmplt_", "_cmple_"), (r"_packs_", "_packus_"), (r"_packus_", "_packs_"), (r"_srli_", "_srai_"), (r"_srai_", "_srli_"), (r"_slli_", "_srli_"), (r"_mullo_", "_mulhi_"),
         (r"epi16\(", "epi8("), (r"epi32\(", "epi16("), (r"epu8\(", "epi8("), (r"epu16\(", "epi16("), (r"epu32\(", "epi32("), (r"epi8\(", "epu8("), (r"epi32\(", "epu32("), (r"epi64\(", "epu64("),
         (r"\bInterleaveLower\(", "InterleaveUpper("), (r"\bConcatEven\(", "ConcatOdd("), (r"\bConcatOdd\(", "ConcatEven("), (r"\bDupEven\(", "DupOdd("), (r"\bLowerHalf\(", "UpperHalf("), (r"PromoteLowerTo\(", "PromoteUpperTo("), (r"PromoteUpperTo\(", "PromoteLowerTo("),
         (r"PromoteEvenTo\(", "PromoteOddTo("), (r"PromoteOddTo\(", "PromoteEvenTo("), (r"\bNearestInt", "ConvertInt"), (r"_floor", "_ceil"), (r"ROUND\b", "FLOOR"), (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r" \+ ", " - "), (r" - ", " + "),
         (r" & ", " | "), (r" \| ", " & "), (r" == ", " != "), (r"IfThenElseZero\(", "IfThenZeroElse("), (r"IfThenZeroElse\(", "IfThenElseZero("), (r"\bTrue\b", "False"), (r"int32_t\b", "int16_t")]
def mutate(name, body):
    c = []
    for a, b in PAIRS:
        for m in re.finditer(a, body): c.append((m.start(), m.end(), b))
    for m in re.finditer(r"(?<![\w.])(\d+)(?=[,;)\]> ])(?!\s*>=)", body):
        n = int(m.group(1)); c += [(m.start(), m.end(), str(n + 1))] + ([(m.start(), m.end(), str(n - 1))] if n else [])
    for m in re.finditer(r"0x([0-9A-Fa-f]{1,2})\b", body):
        c.append((m.start(), m.end(), hex(int(m.group(0), 16) ^ (1 << rng.randrange(8)))))
    for m in re.finditer(r"\b(\w+)\((\w+(?:\.raw)?), (\w+(?:\.raw)?)\)", body):   # exchange two arguments
        if m.group(2) != m.group(3) and m.group(2) not in ("d", "d8", "du"): c.append((m.start(), m.end(), "%s(%s, %s)" % (m.group(1), m.group(3), m.group(2))))
    c = [x for x in c if '//' not in body[body.rfind('\n', 0, x[0]) + 1:x[0]]]
    if not c: return None
    s, e, b = rng.choice(c)
    return body[:s] + b + body[e:], (body[max(0, s - 30):s] + "[[" + body[s:e] + "=>" + b + "]]" + body[e:e + 25]).replace("\n", " ")
SKIP = {"GetLane", "Load", "LoadU", "StoreU", "Store", "BitCast", "Zero", "Set", "Undefined", "VFromD", "LoadDup128", "MaskFromVec", "VecFromMask", "RebindMask"}
muts = {}
byname = {}
for f in funcs: byname.setdefault(f[0], []).append(f)
for name, fs in sorted(byname.items()):
    if name in SKIP or rng.random() > frac: continue
    for f in rng.sample(fs, len(fs)):
        r = mutate(name, orig[f[2]:f[3]])
        if r: muts[name] = (f, r[0], r[1]); break
def write():
    out, pos, where = [], 0, {}
    for name, (f, body, d) in sorted(muts.items(), key=lambda x: x[1][0][1]):
        if f[2] < pos: continue
        out.append(orig[pos:f[2]]); out.append(body); pos = f[3]
        where[name] = (orig[:f[1]].count("\n") + 1, orig[:f[3]].count("\n") + 1)
    out.append(orig[pos:]); open(P, "w").write("".join(out)); return where
TS = targets.split(",")
SRC = {"P23": 0}
harness = sorted(x for x in os.listdir("/verif/harness/simd") if x.endswith(".cc") and x not in ("algo.cc", "bitpack.cc", "dot.cc", "math.cc", "matvec.cc", "random.cc", "unroll.cc", "scalar_float.cc", "scalar_int.cc"))
def syntax():
    def one(a):
        t, h, p = a
        return subprocess.run(["g++", "-fsyntax-only", "-std=c++17", "-w", "-I" + R, "-I/verif/harness", "-DNDEBUG", "-DHWY_COMPILE_ONLY_STATIC", "-DHWY_BASELINE_TARGETS=HWY_" + t, "-DVPART=%d" % p, "-DHWY_BROKEN_EMU128=0", "-fmax-errors=20", "/verif/harness/simd/" + h], capture_output=True, text=True).stderr
    with ThreadPoolExecutor(8) as ex: return "\n".join(ex.map(one, [(t, h, p) for t in TS for h in harness for p in range(int(os.environ.get("PARTS", "4")))]))
for it in range(12):
    where = write()
    err = syntax()
    if "error:" not in err: break
    lines = set(int(x) for x in re.findall(re.escape(os.path.basename(F)) + r":(\d+)", err))
    drop = [n for n, (a, b) in where.items() if any(a <= l <= b for l in lines)]
    print("compile errors, dropping", drop, flush=True)
    if not drop: print(err[:3000]); sys.exit(1)
    for n in drop: del muts[n]
where = write()
print(len(muts), "changes of", len(byname), "ops", flush=True)
dbg = R + ".dbg"
if os.path.exists(dbg): os.remove(dbg)
def chk(p):
    r = subprocess.run(["timeout", "900", "/verif/check", p, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R, VERIF_DEBUG=dbg, VERIF_TARGETS=targets))
    return p, r.returncode, [l for l in r.stdout.splitlines() if "rejected" in l or "crash" in l][:400], r.stderr[-600:] if r.returncode == 2 else ""
rej = {}
todo = list(props); crashed = []
for it in range(6):
    again = []
    with ThreadPoolExecutor(3) as ex:
        for p, rc, ls, e in ex.map(chk, todo):
            print(p, rc, e, flush=True)
            for l in ls:
                m = re.search(r"rejected \('(\w+)', '(\w+)'\) (\d+)", l)
                if m: rej.setdefault(m.group(1), set()).add(p + ":" + m.group(2))
                m = re.search(r"rejected \('crash', '(\w+) ", l)
                if m:
                    rej.setdefault(m.group(1), set()).add(p + ":crash"); rej.pop("crash", None)
                    c = [n for n in muts if n in m.group(1)]
                    if c: again.append(p)
                    else: print("   crash in", m.group(1), "not attributed")
                    crashed += c
    crashed = [n for n in crashed if n in muts]
    if not crashed: break
    print("crashing:", sorted(set(crashed)), flush=True)
    for n in set(crashed): muts.pop(n, None)
    crashed = []; where = write(); todo = sorted(set(again))
print("rejected ops:", " ".join(sorted(rej)))
for n, (f, body, d) in sorted(muts.items()):
    hit = [r for r in rej if r.lower().startswith(n.lower())]
    print("%-9s %-28s line %-5d %s %s" % ("caught" if n in rej else "similar" if hit else "MISSED", n, where.get(n, (0,))[0], d, ",".join(sorted(rej.get(n, []))[:4])), flush=True)
# every change not seen rejected under its own name, alone, with the checks whose harness mentions the op
import glob
H = {}
for p in props:
    for h in re.findall(r'"([a-z_]+\.cc)"', open("/verif/checks/%s.py" % p.lower()).read()):
        H.setdefault(h, []).append(p)
full = dict(muts)
for n in sorted(full):
    if n in rej: continue
    ps = [p for h in H if os.path.exists("/verif/harness/simd/" + h) and re.search(r"\b%s\b" % n, open("/verif/harness/simd/" + h).read()) for p in H[h]]
    muts = {n: full[n]}; write(); got = []
    if ps:
        with ThreadPoolExecutor(3) as ex:
            for p, rc, ls, e in ex.map(chk, sorted(set(ps))):
                if rc: got.append("%s(%d)" % (p, rc))
    print("ALONE %-7s %-28s line %-5d %s by %s of %s" % ("caught" if got else "MISSED" if ps else "UNUSED", n, where.get(n, (0,))[0], full[n][2], got, sorted(set(ps))), flush=True)
subprocess.run(["rm", "-rf", R])
