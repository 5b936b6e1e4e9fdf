"""C25: from geometry to meshes."""
from modelgen import hexs
from vlib import *
from props.C19 import H, W, encode as kernel, everything, names, overlay, rect, vi

MATS = ["Fuel", "Clad", "Water", "B4C"]
LABELS = ["Zone_1", "outer", "Fuel"]


def encode(o):
    k = o["k"]
    if k == "size": return "size %d" % o["h"]
    if k == "kn":
        return "kn %d %s %d %d %d %d %d" % (len(o["ms"]), " ".join("%s %s %s %d" % (hexs(m["n"]), vi(m["t"]), vi(m["s"]), m["f"]) for m in o["ms"]),
                                            o["kn"], o["ft"], o["fs"], o["at"], o["as"])
    if k == "mesh": return "mesh %d" % o["t"]
    if k == "imp": return "imp " + names(o["m"])
    return kernel(o)


def within(o, x, y, k):
    if o["k"] == "pin": return (o["x"], o["y"]) == (x, y) and k <= max(o["r"])
    return o["x"] <= x < o["x"] + o["w"] and o["y"] <= y < o["y"] + o["h"]


def scene(r, pins=True):
    """A rectangle with further shapes, cut along each other so that each piece has one material."""
    while True:
        ops = layout(r, pins)
        if ops: return ops


def layout(r, pins):
    x, y = r.randint(0, 2), r.randint(0, 2)
    w, h = r.randint(2, W - x), r.randint(1, H - y)
    some = r.sample(MATS, r.randint(1, 3))
    base = {"k": "rect", "x": x, "y": y, "z": 0, "w": w, "h": h, "t": 1, "g": "Material_" + some[0]}
    ops = [{"k": "dim", "d": 2}, base]
    for m in some[1:] + ([r.choice(some)] if r.random() < .4 else []):
        if pins and r.random() < .35:
            q = sorted(r.sample([1, 2, 3], r.randint(1, 2)))
            ops.append({"k": "pin", "x": x + r.randrange(w), "y": y + r.randrange(h), "r": q, "m": [r.choice(some[1:] or some) for _ in q]})
        else:
            rw, rh = r.randint(1, w), r.randint(1, h)
            ops.append({"k": "rect", "x": x + r.randint(0, w - rw), "y": y + r.randint(0, h - rh), "z": 0, "w": rw, "h": rh, "t": 1, "g": "Material_" + m})
    used = sorted({n for o in ops[1:] for n in (["Material_" + m for m in o["m"]] if o["k"] == "pin" else [o["g"]])})
    if len(ops) > 2:
        if r.random() < .3:
            ops.append({"k": "rect", "x": x, "y": y, "z": 0, "w": r.randint(1, w), "h": h, "t": 1, "g": r.choice(LABELS)})
        # a place that some of the shapes do not cover: cutting takes two sides
        place = [a for a in ([i, j, k] for i in range(x, x + w) for j in range(y, y + h) for k in (1, 4)) if not all(within(o, *a) for o in ops[1:])]
        if not place: return None
        order = [n[9:] for n in used]
        r.shuffle(order)
        if r.random() < .5: order = [m for m in order if m != some[0]] + [some[0]]
        ops.append({"k": "frag", "a": [r.choice(place)], "b": everything(2), "hier": order})
    return ops


def state(ops):
    """Materials that are left: recomputed the slow way (the trace checks it)."""
    atoms = {}
    labels = {}
    order = []
    for o in ops:
        if o["k"] == "rect":
            at = [(i, j, k) for i in range(o["x"], o["x"] + o["w"]) for j in range(o["y"], o["y"] + o["h"]) for k in range(1, 5)]
            for a in at: atoms.setdefault(a, set()).add(o["g"])
        elif o["k"] == "pin":
            lo = 1
            for q, m in zip(o["r"], o["m"]):
                for k in range(lo, q + 1): atoms.setdefault((o["x"], o["y"], k), set()).add("Material_" + m)
                lo = q + 1
        elif o["k"] == "frag":
            for a in atoms:
                ms = [n for n in o["hier"] if "Material_" + n in atoms[a]]
                if ms: atoms[a] = {n for n in atoms[a] if not n.startswith("Material_")} | {"Material_" + ms[0]}
    return sorted({n[9:] for s in atoms.values() for n in s if n.startswith("Material_")})


def material(r, n, fuel, absorb):
    g = r.choice([1, 1, 2])
    t = [r.randint(4, 20) for _ in range(g)]
    s = [r.randint((x + 2) // 2, x - 1) for x in t]
    if absorb:
        t = [r.randint(9, 24) for _ in range(g)]
        s = [r.randint(0, x // 6) for x in t]
    return {"n": n, "t": t, "s": s, "f": fuel}


def knudsen(r, ms, vary=False):
    q = [material(r, n, n == "Fuel", n == "B4C" and r.random() < .8) for n in ms]
    r.shuffle(q)
    top = max(sum(m["t"]) / len(m["t"]) for m in q)
    # the smallest size is about .15 to .4 cells
    kn = max(1, round(141.14 / (r.uniform(.15, .4) * top)))
    o = {"k": "kn", "ms": q, "kn": kn, "ft": -8, "fs": -8, "at": -8, "as": -8}
    if vary:
        if any(m["f"] for m in q): o["ft"], o["fs"] = r.choice([0, 2, 4, 8]), r.choice([8, 12, 16])
        if any(5 * sum(m["s"]) < sum(m["t"]) and 10 * sum(m["t"]) > 72 * len(m["t"]) for m in q): o["at"], o["as"] = r.choice([0, 2, 4]), r.choice([8, 16])
    return o


def refused(r, o, ms):
    o = json.loads(json.dumps(o))
    k = r.randrange(7)
    if k == 0: o["ms"].pop()
    elif k == 1: o["ms"].append(material(r, "Extra", False, False))
    elif k == 2: o["ms"][r.randrange(len(o["ms"]))]["n"] = "None"
    elif k == 3: o["kn"] = r.choice([0, -8])
    elif k == 4: o["ms"][r.randrange(len(o["ms"]))].update(t=[], s=[])
    elif k == 5:
        o["ft"], o["fs"] = 4, 8
        for m in o["ms"]: m["f"] = False
    else:
        o["at"], o["as"] = 4, 8
        for m in o["ms"]: m["s"] = [x - 1 for x in m["t"]]
    return o


def size(r):
    return {"k": "size", "h": r.choice([250, 300, 400, 333, 170])}


def history(r):
    ops = []
    for n in range(r.choice([1, 1, 2])):
        if n: ops.append({"k": "new"})
        vary = r.random() < .4
        sc = scene(r, pins=not vary)
        ms = state(sc)
        ops += sc
        if r.random() < .4 and not vary:
            ops.append(size(r))
            if r.random() < .3: ops.append(refused(r, knudsen(r, ms), ms))
        else:
            if r.random() < .2: ops.append(size(r))
            ops.append(knudsen(r, ms, vary))
            if r.random() < .3: ops.append(refused(r, knudsen(r, ms), ms))
            elif r.random() < .2: ops.append(knudsen(r, ms, vary))
        ops.append({"k": "mesh", "t": r.choice([3, 3, 6])})
    return ops


def pipeline(r):
    """Geometry, coarse grid, mesh, model."""
    while True:
        ops = overlay(r)
        if ops[-1]["k"] in ("mats", "io") and sum(1 for o in ops if o["k"] == "over") == 1: break
    while ops[-1]["k"] != "over": ops.pop()
    for o in ops:
        if o["k"] == "rect" and not o["g"].startswith("Material_"): o["g"] = "Material_Water"
        for f in ("m",):
            if f in o: o[f] = [x.replace("B4C rod", "B4C") for x in o[f]]
        if "g" in o: o["g"] = o["g"].replace("B4C rod", "B4C")
        if o["k"] == "pins":
            for p in o["pins"]: p["m"] = [x.replace("B4C rod", "B4C") for x in p["m"]]
        if o["k"] == "over": o["fill"] = o["fill"].replace("B4C rod", "B4C")
    m = MATS[:]
    r.shuffle(m)
    t = r.choice([3, 3, 6])
    # quadratic elements larger than the rings cross themselves
    h = size(r) if t == 3 else {"k": "size", "h": 150}
    return ops + [h, {"k": "mesh", "t": t}, {"k": "imp", "m": m, "t": t}]


def corrupt(t, r):
    for e in t:
        if e["op"]["k"] == "mesh" and e["out"].get("reg"):
            k = r.randrange(3)
            if k == 0: r.choice(e["out"]["reg"])["a"] += 2000
            elif k == 1 and e["out"]["cur"]: r.choice(e["out"]["cur"])["n"] += 9
            else: e["out"]["kinds"] = [9 - e["out"]["kinds"][0]]
            return True
    return False


def run(c):
    exe = c.build(("pipe", True))["pipe"]
    r = c.rng
    gen = c.generate("MesherMC.tla", "MesherMC.cfg")
    gen = r.sample(gen, min(len(gen), 150 if c.quick else 2000))
    c.conform(exe, encode, gen, "MesherTrace.tla", "MesherTrace.cfg", name="orders of calls", corrupt=corrupt)
    n = 1 if c.quick else 8
    c.conform(exe, encode, [history(r) for _ in range(150 * n)] + [pipeline(r) for _ in range(50 * n)],
              "MesherTrace.tla", "MesherTrace.cfg", name="random geometries", corrupt=corrupt)
