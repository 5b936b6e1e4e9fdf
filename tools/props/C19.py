"""C19: named groups through operations of the geometry kernel."""
from modelgen import hexs
from vlib import *

W, H = 6, 5


def atoms(q):
    return "%d %s" % (len(q), " ".join("%d %d %d" % tuple(a) for a in q))


def names(q):
    return "%d %s" % (len(q), " ".join(hexs(n) for n in q))


def vi(q):
    return "%d %s" % (len(q), " ".join(map(str, q)))


def rows(q):
    return "%d %s" % (len(q), " ".join(vi(r) for r in q))


def encode(o):
    k = o["k"]
    if k == "dim":
        return "dim %d" % o["d"]
    if k == "rect":
        return "rect %d %d %d %d %d %d %s" % (o["x"], o["y"], o["z"], o["w"], o["h"], o["t"], hexs(o["g"]))
    if k == "pin":
        return "pin %d %d %s %s" % (o["x"], o["y"], vi(o["r"]), names(o["m"]))
    if k == "pins":
        return "pins %d %d %s %d %s" % (o["x"], o["y"], rows(o["rows"]), len(o["pins"]), " ".join(vi(p["r"]) + " " + names(p["m"]) for p in o["pins"]))
    if k == "grp":
        return "grp %s %s" % (hexs(o["g"]), atoms(o["a"]))
    if k in ("frag", "isect", "cut"):
        return "%s %s %s %s" % (k, atoms(o["a"]), atoms(o["b"]), names(o["hier"]))
    if k == "over":
        return "over %s %d %s %d %s %d %s %s" % (hexs(o["fill"]), len(o["cells"]), " ".join("%d %d" % tuple(c) for c in o["cells"]),
                                                 len(o["rtms"]), " ".join(rows(q) for q in o["rtms"]),
                                                 len(o["lats"]), " ".join(rows(q) for q in o["lats"]), rows(o["core"]))
    return k


MATS = ["Fuel", "Clad", "Water", "B4C rod"]
LABELS = ["Zone 1", "outer", "Mat Map", "Box_a_b"]


def rect(r, d, g=None):
    w, h, t = r.randint(1, 4), r.randint(1, 4), r.randint(1, 2)
    if d == 2:
        t = 1
    if g is None:
        g = r.choice(["Material_" + r.choice(MATS)] * 3 + [r.choice(LABELS), ""])
    return {"k": "rect", "x": r.randint(0, W - w), "y": r.randint(0, H - h), "z": r.randint(0, 2 - t) if d == 3 else 0, "w": w, "h": h, "t": t, "g": g}


def rings(r):
    q = sorted(r.sample([1, 2, 3], r.randint(1, 3)))
    return q, [r.choice(MATS) for _ in q]


def atom(r, d):
    return [r.randrange(W), r.randrange(H), r.randint(1, 4) if d == 2 else r.randrange(2)]


def sel(r, d, n):
    return [atom(r, d) for _ in range(n)]


def hier(r):
    return [] if r.random() < .4 else r.sample(MATS, r.randint(1, 4))


def everything(d):
    return [[x, y, k] for x in range(W) for y in range(H) for k in (range(1, 5) if d == 2 else range(2))]


def pins(r):
    w, h = r.randint(1, 3), r.randint(1, 3)
    n = r.randint(1, 2)
    ps = []
    for _ in range(n):
        q, m = rings(r)
        ps.append({"r": q, "m": m})
    return {"k": "pins", "x": r.randint(0, W - w), "y": r.randint(0, H - h), "rows": [[r.randrange(n) for _ in range(w)] for _ in range(h)], "pins": ps}


def scene(r, d):
    ops = [{"k": "dim", "d": d}]
    for _ in range(r.randint(2, 5)):
        x = r.random()
        if d == 3 or x < .6:
            ops.append(rect(r, d))
        elif x < .8:
            q, m = rings(r)
            ops.append({"k": "pin", "x": r.randrange(W), "y": r.randrange(H), "r": q, "m": m})
        else:
            ops.append(pins(r))
    return ops


def mixed(r):
    d = 3 if r.random() < .25 else 2
    ops = scene(r, d)
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < .2:
            ops.append({"k": "grp", "g": r.choice(LABELS + ["Material_" + m for m in MATS]), "a": sel(r, d, r.randint(1, 4))})
        if x < .7:
            ops.append({"k": r.choice(["frag", "frag", "isect", "cut"]), "a": sel(r, d, r.randint(1, 4)), "b": sel(r, d, r.randint(1, 9)), "hier": hier(r)})
        elif x < .8:
            ops.append({"k": "frag", "a": sel(r, d, r.randint(1, 3)), "b": everything(d), "hier": hier(r)})
        elif x < .9:
            ops.append({"k": "mats"})
        else:
            ops.append(rect(r, d))
        if ops[-1]["k"] == "cut":
            ops[-1]["hier"] = []
    if r.random() < .5:
        ops.append({"k": "io"})
        if r.random() < .5:
            ops += [rect(r, d), {"k": "frag", "a": sel(r, d, 2), "b": everything(d), "hier": hier(r)}]
    return ops


def many(r):
    """A group with many members, as written to the file of groups in lines of a few."""
    n = r.randint(6, 25)
    ops = [{"k": "dim", "d": 2}]
    for i in range(n):
        ops.append({"k": "rect", "x": i % W, "y": i // W, "z": 0, "w": 1, "h": 1, "t": 1, "g": r.choice(["Material_Fuel", "Zone 1", ""])})
    ops.append({"k": "grp", "g": r.choice(LABELS), "a": [[i % W, i // W, 4] for i in range(n) if r.random() < .9]})
    return ops + [{"k": "io"}, {"k": "mats"}]


def overlay(r):
    ops = scene(r, 2)
    while all(o["k"] == "dim" for o in ops):
        ops = scene(r, 2)
    # cells of equal height in a row, modules of equal size, a lattice of modules
    cw, ch = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
    nc = r.randint(1, 4)
    cells = [[cw, ch] for _ in range(nc)]
    rx, ry = r.choice([(1, 1), (1, 1), (2, 1), (1, 2)])
    if rx * cw > W or ry * ch > H:
        rx = ry = 1
    nr = r.randint(1, 2)
    rtms = [[[r.randrange(nc) for _ in range(rx)] for _ in range(ry)] for _ in range(nr)]
    lx, ly = r.randint(1, min(3, W // (rx * cw))), r.randint(1, min(2, H // (ry * ch)))
    nl = r.randint(1, 2)
    lats = [[[r.randrange(nr) for _ in range(lx)] for _ in range(ly)] for _ in range(nl)]
    kx, ky = r.randint(1, W // (lx * rx * cw)), r.randint(1, H // (ly * ry * ch))
    core = [[r.randrange(nl) for _ in range(kx)] for _ in range(ky)]
    # drop what is not used, keep the numbering dense
    ul = sorted({l for q in core for l in q})
    ur = sorted({x for l in ul for q in lats[l] for x in q})
    uc = sorted({x for t in ur for q in rtms[t] for x in q})
    mp = lambda u, q: [[u.index(x) for x in row] for row in q]
    o = {"k": "over", "fill": r.choice(MATS), "cells": [cells[c] for c in uc], "rtms": [mp(uc, rtms[t]) for t in ur],
         "lats": [mp(ur, lats[l]) for l in ul], "core": mp(ul, core)}
    if r.random() < .3:
        return ops + [o, rect(r, 2), rect(r, 2), {"k": "frag", "a": sel(r, 2, 2), "b": everything(2), "hier": hier(r)}, {"k": "mats"}]
    return ops + [o, {"k": "mats"}] + ([{"k": "io"}] if r.random() < .3 else [])


def corrupt(t, r):
    for e in t:
        if e["op"]["k"] in ("frag", "isect", "cut", "over") and e["out"].get("e"):
            x = r.choice(e["out"]["e"])
            x["gr"] = x["gr"][1:] if x["gr"] and r.random() < .5 else x["gr"] + ["Zone 9"]
            return True
    return False


def run(c):
    exe = c.build(("kernel", True))["kernel"]
    r = c.rng
    c.model("KernelMC.tla", "KernelMC.cfg")
    gen = c.generate("KernelMC.tla", "KernelMC.cfg")
    gen = r.sample(gen, 500 if c.quick else 6000)
    c.conform(exe, encode, gen, "KernelTrace.tla", "KernelTrace.cfg", name="small arrangements", corrupt=corrupt)
    n = 1 if c.quick else 10
    bs = [mixed(r) for _ in range(300 * n)] + [many(r) for _ in range(25 * n)] + [overlay(r) for _ in range(120 * n)]
    c.conform(exe, encode, bs, "KernelTrace.tla", "KernelTrace.cfg", name="random arrangements", corrupt=corrupt)
