"""C10: regular and rectilinear grids and partitions."""
from vlib import *


def pts(v):
    return " ".join(str(x) for x in v)


def encode(op):
    k = op["k"]
    if k == "unit":
        return "unit %d" % op["u"]
    h = "%s %d" % (k, op["a"])
    if k == "copy":
        return h + " %d" % op["b"]
    if k in ("clear",):
        return h
    if k == "reg":
        return h + " %d %s %s %s" % (op["d"], pts(op["lo"]), pts(op["sp"]), pts(op["n"]))
    if k in ("regbox", "rectbox"):
        return h + " %d %s %s" % (op["d"], pts(op["lo"]), pts(op["hi"]))
    if k == "boxes":
        return h + " %d %d %s" % (op["d"], len(op["bs"]), " ".join(pts(b[0]) + " " + pts(b[1]) for b in op["bs"]))
    if k in ("ids", "pids"):
        return h + " 2 %d %s %d %s" % (len(op["e"]), " ".join(pts(e) for e in op["e"]), len(op["rows"]),
                                       " ".join("%d %s" % (len(x), pts(x)) for x in op["rows"]))
    if k == "part":
        return h + " " + flat(op["ch"])
    if k == "set":
        return h + " %s %d" % (pts(op["i"]), op["v"])
    if k == "find":
        return h + " %d %s" % (len(op["ps"]), " ".join(pts(p) for p in op["ps"]))
    if k == "touch":
        return h + " %d %s" % (len(op["bs"]), " ".join(pts(b[0]) + " " + pts(b[1]) for b in op["bs"]))
    raise KeyError(k)


def divs(r):
    x = r.choice([0, 0, -7, 12, -40])
    d = [x]
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        x += r.choice([1, 2, 8, 8, 13])
        d.append(x)
    return d


def coords(r, dv, exact):
    """Query coordinates: on lines only where the arithmetic is exact."""
    c = []
    for a, b in zip(dv, dv[1:]):
        c += [x for x in range(a, b + 1) if exact or (x - a and b - x)]
    c += [dv[0] - 1, dv[0] - 30, dv[-1] + 1, dv[-1] + 30]
    return c


def queries(r, a, dv, exact):
    d = len(dv)
    cs = [coords(r, x, exact) for x in dv]
    ps = [[r.choice(c) for c in cs] for _ in range(12)]
    bs = []
    for _ in range(12):
        x = [sorted((r.choice(c), r.choice(c))) for c in cs]
        bs.append([[q[0] for q in x], [q[1] for q in x]])
    return [{"k": "find", "a": a, "ps": ps}, {"k": "touch", "a": a, "bs": bs}]


def rnd(r):
    u = r.choice([1000, 250, 2000, 100, 300, 700])
    exact = u in (1000, 250, 2000)
    ops = [{"k": "unit", "u": u}]
    S = [None, None]

    def cells(dv):
        n = 1
        for x in dv:
            n *= len(x) - 1
        return n

    for _ in range(r.choice([3, 6, 10])):
        a = r.randrange(2)
        k = r.choice("reg reg regbox rectbox boxes boxes ids pids part part set set copy clear find find".split())
        s = S[a]
        d = r.choice([1, 2, 2, 3])
        if k == "reg":
            n = [r.choice([1, 1, 2, 3, 6]) for _ in range(d)]
            lo = [r.choice([0, 0, -8, 24, -40, 5]) for _ in range(d)]
            sp = [r.choice([1, 2, 8, 11]) for _ in range(d)]
            S[a] = {"k": "reg", "dv": [[l + q * i for i in range(m + 1)] for l, q, m in zip(lo, sp, n)], "ch": None}
            ops.append({"k": k, "a": a, "d": d, "lo": lo, "sp": sp, "n": n})
            if d > 0:
                ops += queries(r, a, S[a]["dv"], exact)
        elif k in ("regbox", "rectbox"):
            lo = [r.choice([0, -8, 24, 5]) for _ in range(d)]
            hi = [x + r.choice([1, 8, 19]) for x in lo]
            S[a] = {"k": k[:-3], "dv": [[x, y] for x, y in zip(lo, hi)], "ch": None}
            ops.append({"k": k, "a": a, "d": d, "lo": lo, "hi": hi})
        elif k == "boxes":
            dv = [divs(r) for _ in range(d)]
            bs = [[[], []]]
            for x in dv:
                bs = [[b[0] + [p], b[1] + [q]] for b in bs for p, q in zip(x, x[1:])]
            r.shuffle(bs)
            S[a] = {"k": "rect", "dv": dv, "ch": None}
            ops.append({"k": k, "a": a, "d": d, "bs": bs})
        elif k in ("ids", "pids"):
            nx, ny = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 4])
            ws, hs = r.sample([1, 3, 8, 16, 21], 2), r.sample([2, 5, 8, 16], 2)
            e = [[w, h] for w in ws for h in hs]
            r.shuffle(e)
            cw, rh = [r.choice(ws) for _ in range(nx)], [r.choice(hs) for _ in range(ny)]
            e += [e[0]]
            rows = [[r.choice([i for i in range(len(e)) if e[i] == [w, h]]) for w in cw] for h in rh]
            S[a] = {"k": "rect", "dv": [[sum(cw[:i]) for i in range(nx + 1)], [sum(rh[::-1][:i]) for i in range(ny + 1)]],
                    "ch": k == "pids" or None}
            ops.append({"k": k, "a": a, "d": 2, "e": e, "rows": rows})
        elif s is None or s["dv"] is None:
            continue
        elif k == "part" and not s["ch"]:
            s = S[a] = dict(s, ch=True)
            ops.append({"k": k, "a": a, "ch": [r.randrange(100) for _ in range(cells(s["dv"]))]})
        elif k == "set" and s["ch"]:
            ops.append({"k": k, "a": a, "i": [r.randrange(len(x) - 1) for x in s["dv"]], "v": r.randrange(100, 200)})
        elif k == "copy":
            ops.append({"k": k, "a": 1 - a, "b": a})
            S[1 - a] = dict(s)
        elif k == "clear" and s["k"] == "rect":
            ops.append({"k": k, "a": a})
            S[a] = dict(s, dv=None, ch=None)
            S[a] = None
        elif k == "find" and s["k"] == "reg":
            ops += queries(r, a, s["dv"], exact)
    return ops


def corrupt(t, r):
    ev = [e for e in t if isinstance(e["out"], dict) and ("cells" in e["out"] or "r" in e["out"])]
    if not ev:
        return False
    o = r.choice(ev)["out"]
    if "r" in o:
        v = r.choice(o["r"])
    else:
        v = r.choice([o["lo"], o["hi"], o["n"], r.choice(r.choice(o["cells"])["b"]), r.choice(o["ax"])])
    v[r.randrange(len(v))] += 1
    return True


def run(c):
    exe = c.build(("grid", False))["grid"]
    bs = []
    for cfg in ("GridMC.cfg", "GridMC3.cfg"):
        c.model("GridMC.tla", cfg)
        bs += c.generate("GridMC.tla", cfg)
    c.rng.shuffle(bs)
    bs = bs[:3000 if c.quick else 30000]
    for b in bs:                                     # queries on the first grid
        o = b[0]
        if o["k"] == "reg":
            dv = [[l + s * i for i in range(n + 1)] for l, s, n in zip(o["lo"], o["sp"], o["n"])]
            b[1:1] = queries(c.rng, 0, dv, True)
    c.conform(exe, encode, [[{"k": "unit", "u": c.rng.choice([1000, 500, 4000])}] + b for b in bs],
              "GridTrace.tla", "GridTrace.cfg", name="all small grids", corrupt=corrupt)
    rb = [rnd(c.rng) for _ in range(1500 if c.quick else 20000)]
    c.conform(exe, encode, rb, "GridTrace.tla", "GridTrace.cfg", name="random grids", corrupt=corrupt)
