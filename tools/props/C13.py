"""C13: sorting, permutations and Morton codes."""
from vlib import *

TYPES = ["int", "i8", "dbl", "str"]


def chunk(bs, n):
    return [[o for b in bs[i:i + n] for o in b] for i in range(0, len(bs), n)]


def kind(r, k):
    return r.choice(TYPES[:3] if k in ("apply", "sort3", "sort4") else TYPES)


def encode(op):
    k = op["k"]
    if k == "setp": return "setp " + flat(op["p"])
    if k == "invert": return "invert"
    if k == "iota": return "iota %d %d" % (op["n"], op["x"])
    if k == "alg": return "alg %s %s %s %d %d %d" % (op["t"], flat(op["a"]), flat(op["b"]), op["x"], op["lo"], op["hi"])
    if k == "enc": return "enc %s %d %s" % (op["u"], len(op["x"]), " ".join(flat(sorted(x)) for x in op["x"]))
    if k == "dec": return "dec %s %d %s" % (op["u"], op["d"], flat(sorted(op["c"])))
    if k == "fenc": return "fenc %s %d %s" % (op["u"] + op["f"], len(op["x"]), " ".join(map(str, op["x"])))
    if k in ("msort", "mperm", "mscale"):
        return "%s %d%s %s %d %s" % (k, op["d"], op["f"], " ".join(str(x / 256) for x in op["s"]), len(op["a"]),
                                     " ".join(str(x) for p in op["a"] for x in p))
    return "%s %s %s" % (k, op.get("t", "int"), flat(op["a"]))


def rand_arrays(r):
    ops = []
    for _ in range(r.randrange(2, 7)):
        n = r.choice([1, 2, 3, 4, 5, 8, 16, 17, 24, 25, 40, 64])
        v = r.choice([1, 2, 5, 100])
        a = [r.randrange(-v, v + 1) for _ in range(n)]
        if r.random() < .2: a.sort(reverse=r.random() < .5)
        k = r.choice(["isort", "isort", "sperm", "sperm", "setp", "alg", "alg", "iota", "sort3", "sort4"])
        if k in ("sort3", "sort4"): a = [r.randrange(-2, 3) for _ in range(int(k[4]))]
        t = kind(r, k)
        if k == "setp":
            p = r.sample(range(n), n)
            ops.append({"k": "setp", "p": p})
        elif k == "iota":
            ops.append({"k": k, "n": n, "x": r.randrange(-5, 50)})
            continue
        elif k == "alg":
            b = a[:r.randrange(n + 1)] + [r.randrange(-v, v + 1) for _ in range(r.choice([0, 0, 1, 3]))]
            if r.random() < .4: b = a[:] + b[:1]
            lo, hi = sorted([r.randrange(-v, v + 1), r.randrange(-v, v + 1)])
            ops.append({"k": k, "t": t, "a": a, "b": b, "x": r.randrange(-v - 2, v + 3), "lo": lo, "hi": hi})
            continue
        else:
            ops.append({"k": k, "t": t, "a": a})
        if k in ("sperm", "setp"):
            for _ in range(r.randrange(1, 4)):
                ops.append({"k": "apply", "t": kind(r, "apply"), "a": [r.randrange(-50, 51) for _ in range(n)]})
                if r.random() < .5: ops.append({"k": "invert"})
    return ops


def rand_codes(r):
    ops = []
    for _ in range(12):
        u = r.choice(["u32", "u64"])
        d = r.choice([2, 3])
        w = {("u32", 2): 16, ("u32", 3): 10, ("u64", 2): 32, ("u64", 3): 21}[u, d]
        def bits(n):
            m = r.random()
            if m < .15: return list(range(n))
            if m < .3: return []
            if m < .6: return [r.randrange(n)]
            if m < .7: return [n - 1]
            return [b for b in range(n) if r.random() < .5]
        x = r.random()
        if x < .4: ops.append({"k": "enc", "u": u, "x": [bits(w) for _ in range(d)]})
        elif x < .7: ops.append({"k": "dec", "u": u, "d": d, "c": bits(w * d)})
        else: ops.append({"k": "fenc", "u": u, "f": "f" if u == "u32" and r.random() < .5 else "",
                          "x": [r.choice([0, 256, 128, 127, 1, 255, r.randrange(257)]) for _ in range(d)]})
    return ops


def rand_points(r):
    d = r.choice([2, 3])
    f = r.choice(["", "f"])
    k = r.choice(["msort", "mperm", "mscale", "mscale"])
    n = r.choice([1, 2, 3, 8, 20, 40])
    v = r.choice([4, 256])
    a = [[r.choice([0, 256, r.randrange(257)]) if v == 256 else 64 * r.randrange(5) for _ in range(d)] for _ in range(n)]
    s = [r.choice([64, 256, 512, 4096]) for _ in range(d)] if k == "mscale" else [256] * d
    return [{"k": k, "d": d, "f": f, "s": s, "a": a}]


def corrupt(t, r):
    e = r.choice(t)
    o = e["out"]
    if "crash" in o:
        return False
    if e["op"]["k"] == "sperm": o["p"][0] = o["p"][-1] if len(o["p"]) > 1 else 5
    elif e["op"]["k"] in ("isort", "apply", "sort3", "sort4"): o["a"][r.randrange(len(o["a"]))] += 1
    elif e["op"]["k"] == "enc": o["c"] = o["c"][1:] if o["c"] else [3]
    elif e["op"]["k"] == "dec": o["x"][0] = o["x"][0][1:] if o["x"][0] else [3]
    else: return False
    return True


def run(c):
    exes = c.build(("order", False), ("order_portable", False))
    c.model("OrderMC.tla", "OrderMC.cfg")
    bs = c.generate("OrderMC.tla", "OrderMC.cfg")
    arrays = [b for b in bs if b[0]["k"] != "enc"]
    enc = [b for b in bs if b[0]["k"] == "enc"]
    for b in arrays:
        for o in b: o["t"] = kind(c.rng, o["k"])
    # several array behaviours per run of the harness
    arrays = chunk(arrays, 4)
    top = []
    for b in enc:                      # the same coordinates at the low and the high end of the code
        x = b[0]["x"]
        for u in ("u32", "u64"):
            w = {("u32", 2): 16, ("u32", 3): 10, ("u64", 2): 32, ("u64", 3): 21}[u, len(x)]
            for hi in (0, w - 3):
                y = [[q + hi for q in z] for z in x]
                top.append([{"k": "enc", "u": u, "x": y},
                            {"k": "dec", "u": u, "d": len(x), "c": sorted(q * len(x) + i for i, z in enumerate(y) for q in z)}])
    c.rng.shuffle(top)
    top = chunk(top, 20)
    n = 150 if c.quick else 1500
    for name, exe in sorted(exes.items()):
        if name == "order":
            c.conform(exe, encode, arrays, "OrderTrace.tla", "OrderTrace.cfg", name="small arrays", corrupt=corrupt)
            c.conform(exe, encode, [rand_arrays(c.rng) for _ in range(2 * n)], "OrderTrace.tla", "OrderTrace.cfg", name="random arrays", corrupt=corrupt)
        c.conform(exe, encode, top, "OrderTrace.tla", "OrderTrace.cfg", name="codes " + name, corrupt=corrupt)
        c.conform(exe, encode, [rand_codes(c.rng) for _ in range(n)], "OrderTrace.tla", "OrderTrace.cfg", name="random codes " + name, corrupt=corrupt)
        c.conform(exe, encode, [rand_points(c.rng) for _ in range(n)], "OrderTrace.tla", "OrderTrace.cfg", name="points " + name)
