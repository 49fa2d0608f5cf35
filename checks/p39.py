"""P39: processor topology, cache detection and thread affinity against a simulated operating system."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import VERIF, REPO

CPU = "/sys/devices/system/cpu/cpu%d/"
def ranges(l):
    """The kernel's rendering of a list of processors."""
    out = []; l = sorted(set(l)); i = 0
    while i < len(l):
        j = i
        while j + 1 < len(l) and l[j + 1] == l[j] + 1: j += 1
        out.append(str(l[i]) if i == j else "%d-%d" % (l[i], l[j])); i = j + 1
    return ",".join(out) + "\n"

def files(c, g, plain=False):
    """The files that present configuration c; g chooses how reading them goes (but not what they say)."""
    fs = {}
    def put(path, text, missing=False):
        if missing:
            k = 0 if plain else g.randrange(4)
            if k == 1: fs[path] = (1, text)             # may not be opened
            if k == 2: fs[path] = (2, text)             # input/output error
            if k == 3: fs[path] = (0, "")               # empty
            return
        fs[path] = (0 if plain else g.choice([0, 0, 0, 0, 3, 4]), text)
    for what, path in (("pkg", "topology/physical_package_id"), ("core", "topology/core_id"), ("l3", "cache/index3/id")):
        for l, v in enumerate(c[what]):
            if v != "": put(CPU % l + path, v + "\n")
            elif what != "l3" and not plain and g.randrange(4) == 0: fs[CPU % l + path] = (0, "-1\n")
            else: put(CPU % l + path, "0\n", missing=True)
    for what, path in (("l2k", "cache/index2/size"), ("l3k", "cache/index3/size")):
        for l, v in enumerate(c[what]):
            if v: put(CPU % l + path, ("%dM\n" % (v // 1024)) if v % 1024 == 0 and g.randrange(2) else "%dK\n" % v)
    for n, l in enumerate(c["nodes"]): put("/sys/devices/system/node/node%d/cpulist" % n, ranges(l))
    for i, e in enumerate(c["caches"]):
        d = "/sys/devices/system/cpu/cpu0/cache/index%d/" % i
        for k, text in (("type", e["type"]), ("level", str(e["level"] or "")), ("ways_of_associativity", str(e["ways"] or "")), ("number_of_sets", str(e["sets"] or ""))):
            if text: put(d + k, text + "\n")
        fs.pop(d + "size", None)
        if e["size"]: put(d + "size", "%dK\n" % e["size"])
        if e["shared"]: put(d + "shared_cpu_list", ranges(e["shared"]))
    return fs

def machine(g):
    """A random machine."""
    packages = g.choice([1, 1, 1, 2, 2, 3, 4]); l3s = g.choice([1, 1, 2, 4]); cores = g.choice([1, 2, 3, 4, 8]); smt = g.choice([1, 1, 2, 2, 4])
    if g.randrange(14) == 0: packages, l3s, cores = g.choice([(2, 16, 8), (2, 8, 32), (8, 4, 8), (1, 1, 16)])
    if g.randrange(60) == 0: packages, l3s, cores, smt = 2, 16, 24, 2        # more processors than the maximum
    if g.randrange(40) == 0: packages, l3s, cores, smt = 200, 1, 1, 1        # each processor its own package
    big = g.choice([1, 1, 7, 1000, 123456789, 2147483647 // 200, 1]) 
    off = g.choice([0, 0, 5, 1 << 30, 4000000000])
    idf = g.choice([lambda x: x, lambda x: x * big, lambda x: off + x, lambda x: 17 - x if x < 17 else x + 1])
    lp = [(p, k, co, s) for p in range(packages) for k in range(l3s) for co in range(cores) for s in range(smt)]
    order = g.randrange(4)
    if order == 1: lp.sort(key=lambda x: (x[3], x[0], x[1], x[2]))          # siblings last
    if order == 2: lp.sort(key=lambda x: (x[3], x[2], x[1], x[0]))          # packages interleaved
    if order == 3: g.shuffle(lp)
    per_l3 = g.randrange(2)
    c = {"online": len(lp), "pkg": [str(idf(p)) for p, _, _, _ in lp], "core": [str(idf(k * cores + co) if per_l3 else idf((p * l3s + k) * cores + co)) for p, k, co, _ in lp],
         "l3": [str(idf(k)) if per_l3 else str(idf(p * l3s + k)) for p, k, _, _ in lp]}
    n2, n3 = g.choice([256, 512, 1024, 2048, 1280]), g.choice([8192, 16384, 32768, 36608, 512])
    c["l2k"] = [n2] * len(lp); c["l3k"] = [n3] * len(lp)
    nn = g.choice([1, 2, packages, packages * l3s]); how = g.randrange(3)
    c["nodes"] = [[l for l, x in enumerate(lp) if (x[0] if how == 0 else x[0] * l3s + x[1] if how == 1 else l) % nn == n] for n in range(nn)]
    # caches of processor 0
    me = lp[0]
    l3set = [l for l, x in enumerate(lp) if x[:2] == me[:2]]; coreset = [l for l, x in enumerate(lp) if x[:3] == me[:3]]
    def e(type, level, line, ways, sets, shared): return {"type": type, "level": level, "size": line * ways * sets // 1024, "ways": ways, "sets": sets, "shared": shared}
    c["caches"] = [e("Data", 1, 64, g.choice([8, 12]), 64, coreset), e("Instruction", 1, 64, 8, 64, coreset), e("Unified", 2, g.choice([64, 128]), g.choice([8, 16]), g.choice([1024, 2048]), coreset),
                   e("Unified", 3, 64, g.choice([11, 12, 16, 20]), g.choice([8192, 16384, 32768, 2048, 512]), l3set)]
    if g.randrange(6) == 0: c["caches"] = c["caches"][:g.randrange(4)]
    if g.randrange(8) == 0: g.shuffle(c["caches"])
    if g.randrange(8) == 0: c["caches"].insert(g.randrange(len(c["caches"]) + 1), e("Unified", g.choice([1, 2, 3, 4]), 64, 8, 128, []))
    if c["caches"] and g.randrange(6) == 0: g.choice(c["caches"])[g.choice(["level", "ways", "sets", "size"])] = 0
    if c["caches"] and g.randrange(10) == 0: g.choice(c["caches"])["type"] = ""
    if c["caches"] and g.randrange(10) == 0: g.choice(c["caches"])["shared"] = []
    # what is missing or surprising
    k = g.randrange(12)
    if k == 0:
        for w in ("l3", "l3k"): c[w] = ["" if w == "l3" else 0] * len(lp)
    if k == 1:
        for l in range(len(lp)):
            if lp[l][1] % 2 == 0: c["l3"][l] = ""; c["l3k"][l] = 0
    if k == 2: c[g.choice(["pkg", "core"])][g.randrange(len(lp))] = ""
    if k == 3: c["nodes"].append([])                                        # a node with memory only
    if k == 4: c["nodes"].insert(g.randrange(len(c["nodes"])), [])
    if k == 5: c["online"] = max(1, len(lp) - g.randrange(1, 4))            # fewer than the files describe (containers)
    if k == 6: c["online"] = len(lp) + g.randrange(1, 3)                    # more than the files describe
    if k == 7: c["online"] = g.choice([0, -1])
    if k == 8: c["l2k"] = [0] * len(lp)
    if k == 9: c["nodes"] = []
    if k == 10:                                                             # a cluster without size
        c["l3k"] = [0 if lp[l][1] == 0 else v for l, v in enumerate(c["l3k"])]
    for w, i in (("l2k", 2), ("l3k", 3)):                                   # the same files of processor 0
        if len(c["caches"]) > i: c[w][0] = c["caches"][i]["size"]
    return c

def ok_domain(c):
    """Documented or representational limits: at most 254 packages, 16 processors per core."""
    if len(set(c["pkg"])) > 254: return False
    cnt = {}
    for p, co in zip(c["pkg"], c["core"]): cnt[p, co] = cnt.get((p, co), 0) + 1
    return max(cnt.values(), default=0) <= 16

def check(ctx):
    th = ctx.thorough
    o = ctx.model("renumbering design", "TopologyModel", "CONSTANT N = 3\nCONSTANT Emit = TRUE\nSPECIFICATION Spec\nINVARIANT Meets\nINVARIANT Written\nCHECK_DEADLOCK FALSE\n", ["topo"])
    gen = [json.loads(json.loads('"%s"' % m)) for m in sorted(set(re.findall(r'"CFG (.*)"', o.out)))]
    if len(gen) < 20000: raise vlib.CheckError("only %d configurations generated" % len(gen))
    g = random.Random(ctx.seed * 7919 + 3)
    small = [c for c in gen if len(c["pkg"]) < 3]; rest = [c for c in gen if len(c["pkg"]) == 3]
    chosen = small + (rest if th else g.sample(rest, 2500))
    cfgs = []
    for c in chosen:
        cfgs.append({"online": len(c["pkg"]), "pkg": c["pkg"], "core": c["core"], "l3": c["l3"], "l2k": [], "l3k": [], "nodes": [], "caches": []})
    while len(cfgs) < len(chosen) + (12000 if th else 1500):
        c = machine(g)
        if ok_domain(c): cfgs.append(c)
    fl = ["-O1", "-g", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    lib = ["abort.cc", "print.cc", "targets.cc", "timer.cc", "per_target.cc", "aligned_allocator.cc"]
    ctx.cxx([(os.path.join(VERIF, "harness/topo/topo.cc"), "topo.o", ["-O1"]), (os.path.join(REPO, "hwy/contrib/thread_pool/topology.cc"), "topology.o", fl)] + ctx.hwy_lib_jobs(["-O1"], lib),
            [("topo", ["topo.o", "topology.o"] + ctx.hwy_lib_objs(lib), ["-fsanitize=address,undefined"])])
    parts = [list(range(p, len(cfgs), 8)) for p in range(8)]
    def go(p):
        with open(ctx.path("cfg%d" % p), "w") as f:
            for i in parts[p]:
                gg = random.Random(ctx.seed * 1000003 + i)
                f.write("cfg %d %d\n" % (i, cfgs[i]["online"]))
                for path, (mode, text) in files(cfgs[i], gg, plain=i % 2 == 0).items(): f.write("f %s %d %s\n" % (path, mode, text.encode().hex()))
                f.write("end\n")
        ctx.run([ctx.path("topo"), ctx.path("cfg%d" % p), ctx.path("out%d" % p), str(ctx.seed * 8 + p), "400" if th else "60"], timeout=800, env={"ASAN_OPTIONS": "detect_leaks=0"})
        return [json.loads(l) for l in open(ctx.path("out%d" % p))]
    with ThreadPoolExecutor(8) as ex: recs = [r for rs in ex.map(go, range(8)) for r in rs]
    for r in recs:
        if r["kind"] == "topo": r["c"] = cfgs[r["id"]]
    f = ctx.path("trace.json")
    with open(f, "w") as fh: fh.writelines(json.dumps(r) + "\n" for r in recs)
    ctx.log(len(cfgs), "configurations,", sum(r["kind"] == "aff" for r in recs), "affinity histories")
    o = ctx.tlc("TopologyTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", ["topo"], env={"TRACE": f}, timeout=700, heap="8g")
    if not o.ok: raise vlib.CheckError("TLC: " + o.out[-3000:])
    ctx.cov["traces_validated_against_impl"] += len(recs)
    ctx.cov["samples"] += [json.dumps(recs[0])[:500], json.dumps(recs[-1])[:300]]
    bad = sorted(int(x) for x in re.findall(r'"BAD (\d+)"', o.out))
    ctx.log(len(recs), "validated,", len(bad), "rejected")
    for b in bad[:20]:
        r = recs[b - 1]
        ctx.violation("%s-%s" % (r["kind"], r["crash"].replace(" ", "-") or "result"), ("crash: " + r["crash"] if r["crash"] else "result differs from the specification") + " " + json.dumps(r.get("c", ""))[:500], json.dumps(r))
    ctx.assumptions += ["Linux only; at most 254 packages and 16 processors per core (limits of the representation, on which the code aborts).",
                        "NUMA nodes are numbered without gaps; cache geometries are consistent (line size times ways times sets is the size)."]
