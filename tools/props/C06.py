"""C06: mesh files."""
from vlib import *
from soupgen import Gen, encode, NAMES

FILES = ["m.xdmf", "d/mesh.v2.xdmf", "./x.xdmf", "a_long_file_name_beyond_inline_storage.xdmf", "q.xdmf"]
SETNAMES = ["A", "B", "Material_UO2", "Material_H2O", "Coarse_Cell_00001", "Z_10", "aB", "x.y-z", "Material", "AB"]


def num(r, v, den):
    """A decimal text of v/den in one of several notations (exact: den is a power of two)."""
    x = v / den
    k = r.randrange(5)
    if k == 0 and x == int(x): return "%d" % x
    if k == 1: return repr(x)
    if k == 2: return "%.8e" % x
    if k == 3: return "%.10f" % x
    return "%.17g" % x


def abq(r, d):
    t = ["*Heading", " " + r.choice(["mesh.inp", "/some/path/x y.inp"])]
    sep = r.choice([", ", ", ", ",", ",  "])
    t.append("*NODE")
    for i, p in enumerate(d["nodes"]):
        t.append(sep.join([str(i + 1)] + [num(r, x, 16) for x in p]))
    if r.random() < .7:
        t.append("******* E L E M E N T S *************")
    e = 0
    for b in d["blocks"]:
        t.append("*ELEMENT, type=CPS%d%s" % (b["t"], r.choice(["", ", ELSET=Surface1"])))
        for c in b["rows"]:
            e += 1
            t.append(sep.join(map(str, [e] + list(c))))
    for s in d["sets"]:
        t.append("*ELSET,ELSET=" + s["n"])
        for row in s["rows"]:
            t.append(sep.join(map(str, row)) + r.choice([",", ", "]))
    return "\n".join(t) + "\n"


def vtk(r, d):
    t = ["# vtk DataFile Version 3.0", r.choice(["mesh", "a title"]), "ASCII", "DATASET UNSTRUCTURED_GRID"]
    t.append("POINTS %d %s" % (len(d["nodes"]), r.choice(["float", "double"])))
    for p in d["nodes"]:
        t.append(" ".join(num(r, x, 16) for x in p))
    if r.random() < .8:
        t.append("")
    t.append("CELLS %d %d" % (len(d["cells"]), sum(len(c) + 1 for c in d["cells"])))
    for c in d["cells"]:
        t.append("%d %s" % (len(c), " ".join(map(str, c))))
    t += ["", "CELL_TYPES %d" % len(d["cells"])]
    ty = [str({3: 5, 4: 9, 6: 22, 8: 23}[len(c)]) for c in d["cells"]]
    t += [" ".join(ty[i:i + 60]) for i in range(0, len(ty), 60)] if r.random() < .7 else ty
    t.append("")
    for s in d["data"]:
        isint = all(x % 4 == 0 for x in s["d"]) and r.random() < .6
        t += ["CELL_DATA %d" % len(ty), "SCALARS %s %s" % (s["n"], "int" if isint else r.choice(["float", "double"])),
              "LOOKUP_TABLE %s_table" % s["n"]]
        v = ["%d" % (x // 4) if isint else num(r, x, 4) for x in s["d"]]
        w = d.get("width") or r.choice([1, 3, 40])
        t += [" ".join(v[i:i + w]) for i in range(0, len(v), w)]
        t.append("")
    return "\n".join(t) + ("" if d["data"] and r.random() < .3 else "\n")


def rd(r, d, t):
    k = d["kind"]
    return {"k": "rd", "s": 0, "t": t, "name": r.choice(["f.", "d/g.h."]) + ("inp" if k == "abq" else "vtk"),
            "text": (abq if k == "abq" else vtk)(r, d), "doc": d}


def rdoc(r, big=0):
    nv = big or r.randrange(8, 60)
    nodes = [[r.randrange(-300, 900), r.randrange(-300, 900), r.choice([0, 0, 7])] for _ in range(nv)]
    if r.random() < .4:                          # nodes at the same place stay separate nodes
        for i in range(1, nv):
            if r.random() < .3: nodes[i] = list(nodes[i - r.randrange(1, min(i, 3) + 1)])
    names = r.sample(SETNAMES, r.randrange(0, 5))
    if r.random() < .5:
        blocks = [{"t": t, "rows": [r.sample(range(1, nv + 1), t) for _ in range(big or r.randrange(1, 14))]}
                  for t in [r.choice([3, 4, 6, 8]) for _ in range(r.randrange(1, 5))]]
        ne = sum(len(b["rows"]) for b in blocks)
        sets = []
        for n in names:
            ids = sorted(r.sample(range(1, ne + 1), r.randrange(1, ne + 1)))
            w = r.choice([1, 4, 10, 10])
            sets.append({"n": n, "rows": [ids[i:i + w] for i in range(0, len(ids), w)]})
        return {"kind": "abq", "nodes": nodes, "blocks": blocks, "sets": sets}
    cells = [r.sample(range(nv), r.choice([3, 4, 6, 8])) for _ in range(big or r.randrange(1, 40))]
    return {"kind": "vtk", "nodes": nodes, "cells": cells,
            "data": [{"n": n, "d": [r.randrange(-4000, 4000) * r.choice([1, 4]) for _ in cells]} for n in names]}


def xdmf(r):
    """Build one or two soups, write and read them in several files."""
    types = r.choice([[3], [4], [6], [8], [3, 4], [6, 8], [3, 4, 6, 8]])
    g = Gen(r, types=types, flatz=r.random() < .8)
    ops = []
    for s in range(r.randrange(1, 3)):
        nv = r.randrange(8, 30)
        ops += [{"k": "vert", "s": s, "p": g.pt()} for _ in range(nv)]
        ne = r.randrange(1, 12)
        for _ in range(ne):
            t = r.choice(types)
            ops.append({"k": "elem", "s": s, "ty": t, "c": r.sample(range(nv), t)})
        for n in r.sample(NAMES, r.randrange(0, 5)):
            ids = sorted(r.sample(range(ne), r.randrange(1, ne + 1)))
            ops.append({"k": "elset", "s": s, "n": n, "i": ids,
                        "d": [] if r.random() < .5 else [r.randrange(-4000, 4000) for _ in ids]})
    last = s
    for _ in range(r.randrange(1, 5)):
        a = r.randrange(0, last + 1)
        ops.append({"k": "wr", "s": a, "name": r.choice(FILES), "t": r.choice([0, 1, 2]), "how": r.randrange(2)})
        last = 2 if ops[-1]["t"] == 2 and last == 1 else max(last, ops[-1]["t"] if ops[-1]["t"] <= last + 1 else last)
        ops.append({"k": "cmp", "s": a, "t": ops[-1]["t"]})
    return ops


def corrupt(t, r):
    o = t[-1]["out"]
    if "crash" in o:
        return False
    s = r.choice([x for x in o["s"] if x["e"]])
    k = r.randrange(3)
    if k == 0: r.choice(s["v"])[r.randrange(3)] += 1
    elif k == 1: s["e"][0], s["e"][-1] = s["e"][-1], dict(s["e"][0], t=5)
    elif s["s"]: r.choice(s["s"])["n"] += "_"
    else: return False
    return True


def run(c):
    exe = c.build(("soup", True))["soup"]
    docs = c.generate("MeshDocMC.tla", "MeshDocMC.cfg" if c.quick else "MeshDocMC2.cfg")
    c.rng.shuffle(docs)
    docs = docs[:2400 if c.quick else 20000]
    bs = [[rd(c.rng, d, c.rng.randrange(3)) for d in docs[i:i + 4]] for i in range(0, len(docs), 4)]
    c.conform(exe, encode, bs, "SoupTrace.tla", "SoupTrace.cfg", name="small files", corrupt=corrupt)
    n = 500 if c.quick else 4000
    rb = [[rd(c.rng, rdoc(c.rng), c.rng.randrange(3)) for _ in range(2)] for _ in range(n)]
    rb += [[rd(c.rng, rdoc(c.rng, 400), 0)] for _ in range(4)]
    c.conform(exe, encode, rb, "SoupTrace.tla", "SoupTrace.cfg", name="random files", corrupt=corrupt)
    xb = [xdmf(c.rng) for _ in range(400 if c.quick else 4000)]
    c.conform(exe, encode, xb, "SoupTrace.tla", "SoupTrace.cfg", name="written files", corrupt=corrupt)
    base = [{"k": "vert", "s": 0, "p": p} for p in ([0, 0, 0], [16, 0, 0], [0, 16, 0])] + [{"k": "elem", "s": 0, "ty": 3, "c": [0, 1, 2]}]
    w = [{"k": "wr", "s": 0, "name": "m.xdmf", "t": 1, "how": 0}]
    st = lambda n, d: {"k": "elset", "s": 0, "n": n, "i": [0], "d": d}
    K = lambda key, b: c.known_conform(key, exe, encode, b, "SoupTrace.tla", "SoupTrace.cfg")
    K("set-named-geometry", base + [st("Geometry", [])] + w)
    K("set-named-like-data", base + [st("a", [4]), st("a_data", [])] + w)
    d = {"kind": "abq", "nodes": [[0, 0, 0], [16, 0, 0], [0, 16, 0]], "blocks": [{"t": 3, "rows": [[1, 2, 3], [1, 2, 3]]}],
         "sets": [{"n": "A", "rows": [[1, 2]]}]}
    K("abaqus-no-trailing-comma", [dict(rd(c.rng, d, 1), text=abq(c.rng, d).rstrip(", \n") + "\n")])
    d = {"kind": "vtk", "nodes": [[0, 0, 0], [16, 0, 0], [0, 16, 0]], "cells": [[0, 1, 2]] * 300, "data": [{"n": "A", "d": [40000] * 300}]}
    K("vtk-long-line", [{"k": "rd", "s": 0, "t": 1, "name": "f.vtk", "text": vtk(c.rng, dict(d, width=300)), "doc": d}])
