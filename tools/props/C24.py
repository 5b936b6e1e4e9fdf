"""C24: importing the meshes of all coarse cells from one mesh file."""
from vlib import *
from modelgen import Gen, encode, placed, sample_mesh
from meshgen import Tiling
from props.C06 import num


def text(r, d, unit):
    sep = r.choice([", ", ", ", ",", ",  "])
    t = ["*Heading", " m.inp", "*NODE"]
    for i, p in enumerate(d["v"]):
        t.append(sep.join([str(i + 1)] + [num(r, x * unit, 16000) for x in p] + ["0"]))
    last = None
    for i, e in enumerate(d["e"]):
        if e["t"] != last or r.random() < .02:
            t.append("*ELEMENT, type=CPS%d, ELSET=Surface%d" % (e["t"], i))
            last = e["t"]
        t.append(sep.join(map(str, [i + 1] + [x + 1 for x in e["c"]])))
    sets = [("Coarse_Cell_%05d" % q, x) for q, x in enumerate(d["cs"])] + [("Material_" + m["n"], m["i"]) for m in d["ms"]]
    if r.random() < .3: sets.append(("All", list(range(len(d["e"])))))
    if r.random() < .2: sets.append(("Lattice_00000", [0]))
    r.shuffle(sets)
    w = r.choice([1, 4, 10, 10])
    for n, x in sets:
        t.append("*ELSET,ELSET=" + n)
        for i in range(0, len(x), w):
            t.append(sep.join(str(y + 1) for y in x[i:i + w]) + ",")
    return "\n".join(t) + "\n"


def imp(r, d, unit):
    return {"k": "imp", "doc": d, "name": r.choice(["m.inp", "a_long_file_name_beyond_inline.inp", "x.y.inp"]), "text": text(r, d, unit)}


def cellmesh(r, t, w, h):
    """Points and faces of a mesh of kind t on [0,w]x[0,h]."""
    step = r.choice([16, 16, 32] if w % 32 == 0 and h % 32 == 0 else [16])
    if r.random() < .3 or w % step or h % step:
        o = sample_mesh(r, t, w, h, r.random() < .2)
        return o["v"], o["f"], None
    # either moved corners or bent sides, so that no face crosses itself (such faces are straightened)
    j, k = r.choice([(0, 0), (2, 0), (0, 1 if step == 16 else 2)])
    m = Tiling(r, t, w // step, h // step, step=step, jitter=j, curve=k)
    m.renumber(r)
    return m.v, m.f, m


def turn(t, c):
    n = 3 if t in (3, 6) else 4
    return [c[0]] + c[1:n][::-1] + c[n:][::-1]


def document(r, cells, mats, kinds, merge=.5):
    """A document for cells (widths, heights); names of mats may be left out."""
    x = y = 0
    pos = []
    if r.random() < .5:
        x, y = r.randrange(-60, 200), r.randrange(-60, 200)
    cols = r.choice([1, 2, 3, 4])
    top = 0
    for i, (w, h) in enumerate(cells):
        if i and i % cols == 0:
            x, y, top = pos[0][0], y + top, 0
        pos.append((x, y))
        x += w
        top = max(top, h)
    if r.random() < .3:
        r.shuffle(pos)                         # overlapping places: sets alone tell the cells apart
    one = r.random() < merge
    nodes, idx, els, nq = [], {}, [], 0
    for q, (w, h) in enumerate(cells):
        t = r.choice(kinds)
        v, f, _ = cellmesh(r, t, w, h)
        ids = []
        for p in v:
            g = (p[0] + pos[q][0], p[1] + pos[q][1])
            key = g if one else (q,) + g
            if key not in idx:
                idx[key] = len(nodes)
                nodes.append(list(g))
            ids.append(idx[key])
        some = r.sample(mats, r.randrange(1, min(len(mats), 3) + 1))
        for c in f:
            els.append((t, turn(t, [ids[k] for k in c]) if r.random() < .15 else [ids[k] for k in c], q, r.choice(some)))
    perm = list(range(len(nodes)))
    r.shuffle(perm)
    nn = [None] * len(nodes)
    for i, k in enumerate(perm): nn[k] = nodes[i]
    k = r.randrange(3)
    if k == 0: r.shuffle(els)
    elif k == 1: els.sort(key=lambda e: e[0])
    cs = [[i for i, e in enumerate(els) if e[2] == q] for q in range(len(cells))]
    ms = [{"n": n, "i": [i for i, e in enumerate(els) if e[3] == n]} for n in dict.fromkeys(mats)]
    ms = [m for m in ms if m["i"]]
    r.shuffle(ms)
    return {"v": nn, "e": [{"t": e[0], "c": [perm[x] for x in e[1]]} for e in els], "cs": cs, "ms": ms}


def spoil(r, d):
    k = r.randrange(3)
    m = r.choice(d["ms"])
    if k == 0: m["n"] = r.choice(["None", m["n"] + "x", m["n"][:-1] or "q"])
    elif k == 1 and len(m["i"]) > 1: m["i"].pop(r.randrange(len(m["i"])))
    else: d["ms"].remove(m)
    return d


NAMES = ["UO2", "UO20", "H2O", "Clad", "UO", "A_very_long_material_name_exceeding_22"]


def history(r, many=0):
    g = Gen(r, bad=0, unit=r.choice([(1000, 500), (250, 500), (1260, 500), (2000, 1000)]))
    for n in r.sample(NAMES, r.randrange(1, 6)):
        g.mats.append(n)
        g.add({"k": "mat", "n": n, "xs": [r.randrange(1, 40) for _ in range(g.ngroups)]})
    if r.random() < .2:                        # two materials of one name: the first is meant
        g.mats.append(g.mats[0])
        g.add({"k": "mat", "n": g.mats[0], "xs": [r.randrange(1, 40) for _ in range(g.ngroups)]})
    k = r.randrange(3)
    kinds = r.choice([[3], [4], [6], [8], [3, 4], [3, 6], [4, 8], [3, 4, 6, 8]])
    core = False
    if many:
        g.add({"k": "grid", "w": many * 16, "h": 16, "nx": many, "ny": 1, "half": round(1 / g.zu)})
        g.cells = [(16, 16, 0)] * many
        core = True
    elif k == 0:
        w, h = r.choice([16, 32, 48]), r.choice([16, 32])
        nx, ny = r.choice([(1, 1), (2, 1), (2, 2), (3, 2), (1, 3), (4, 3), (11, 1)])
        g.add({"k": "grid", "w": nx * w, "h": ny * h, "nx": nx, "ny": ny, "half": round(1 / g.zu)})
        g.cells = [(w, h, 0)] * (nx * ny)
        core = True
    elif k == 1:
        g.bad = 0
        m = g.mats
        g.complete(kinds=(3, 4, 6, 8))
        core = g.core
    else:
        for _ in range(r.randrange(1, 6)):
            w, h = r.choice([16, 32]), r.choice([16, 32, 48])
            if r.random() < .5: g.mesh()
            g.add({"k": "cell", "w": w, "h": h, "t": 0, "m": -1, "ms": []})
            g.cells.append((w, h, 0))
    unit = g.ops[0]["u"]
    sizes = [c[:2] for c in g.cells]
    for n in range(r.choice([1, 1, 1, 2])):
        d = document(r, sizes, g.mats, [4] if many else kinds)
        g.add(imp(r, d, unit))
    if r.random() < .15 and not many:
        g.add(imp(r, spoil(r, document(r, sizes, g.mats, kinds)), unit))
    elif core and placed(g.ops, [len(x) for x in d["cs"]]) < 250:
        g.add({"k": "export"})
    return g.ops


def corrupt(t, r):
    e = [x for x in t if x["op"]["k"] == "imp" and not x["out"].get("err", 1)]
    if not e:
        return False
    o = e[-1]["out"]
    c = r.choice(o["cells"])
    m = o["m%d" % c["t"]][c["m"]]
    k = r.randrange(4)
    if k == 0: c["ms"][r.randrange(len(c["ms"]))] += 1
    elif k == 1: m["v"][m["f"][0][0]][r.randrange(2)] += 1
    elif k == 2: m["nv"] += 1
    else:
        f = r.choice(m["f"])
        f[0], f[1] = f[1], f[0]
    return True


def small(r, b):
    ops = [{"k": "unit", "u": 1000, "z": 500}]
    ops += [{"k": "mat", "n": n, "xs": [8 + i]} for i, n in enumerate(b["mats"])]
    ops += [{"k": "grid", "w": 32, "h": 16, "nx": 2, "ny": 1, "half": 2}]
    return ops + [imp(r, b["doc"], 1000), {"k": "export"}]


def run(c):
    exe = c.build(("model", True))["model"]
    bs = c.generate("ImportMC.tla", "ImportMC.cfg")
    c.rng.shuffle(bs)
    bs = [small(c.rng, b["h"][0]) for b in bs[:600 if c.quick else 9000]]
    c.conform(exe, encode, bs, "ImportTrace.tla", "ImportTrace.cfg", name="two cells of two faces", corrupt=corrupt)
    rb = [history(c.rng) for _ in range(300 if c.quick else 3000)] + [history(c.rng, many=n) for n in (101, 120)]
    c.conform(exe, encode, rb, "ImportTrace.tla", "ImportTrace.cfg", name="random documents", corrupt=corrupt)
