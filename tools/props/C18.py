"""C18: the C interface answers for every handle what the model behind it is."""
from vlib import *
import modelgen
from modelgen import Gen, hexs
from props.C03 import prune, big

DIRS = [(3, 4, 5), (-3, 4, 5), (4, -3, 5), (5, 12, 13), (-12, 5, 13), (8, 15, 17), (-15, -8, 17), (1, 0, 1), (0, -1, 1), (-20, 21, 29)]


def encode(op):
    k = op["k"]
    if k == "make":
        return "make %d %s" % (len(op["ops"]), " ".join(modelgen.encode(o) for o in op["ops"]))
    if k == "cread":
        return "cread %d %s" % (op["h"], hexs(op["f"]))
    if k == "cpt":
        return "cpt %d %d %r %r" % (op["h"], op["c"], op["p"][0], op["p"][1])
    if k == "cray":
        return "cray %d %d %d %d %d %d %d" % (op["h"], op["c"], *op["p"], *op["d"], op["l"])
    return "%s %d" % (k, op["h"])


def program(r, nbig=0):
    """A few models behind a few handles, queried in between."""
    ops, on = [], {}
    cur = None
    for _ in range(r.randrange(6, 16)):
        x = r.random()
        free = [h for h in range(4) if h not in on]
        if cur is None or x < .2:
            cur = None
            while not cur:
                cur = big(r, nbig) if nbig else prune(Gen(r).complete())
            ops.append({"k": "make", "ops": cur})
        elif x < .4 and free:
            h = r.choice(free)
            ops.append({"k": "cread", "h": h, "f": r.choice(["a.xdmf", "b.v2.xdmf", "d/sub.xdmf"])})
            on[h] = cur
        elif x < .45 and free:
            h = r.choice(free)
            ops.append({"k": "cnew", "h": h})
            on[h] = None
        elif x < .55 and on:
            h = r.choice(list(on))
            ops.append({"k": "cdel", "h": h})
            del on[h]
        else:
            live = [h for h in on if on[h]]
            if not live:
                continue
            h = r.choice(live)
            cells = [o for o in on[h] if o["k"] == "cell"]
            c = r.randrange(len(cells))
            w, e = cells[c]["w"], cells[c]["h"]
            if x < .7:
                ops.append({"k": "cq", "h": h})
            elif x < .85:
                for _ in range(3):
                    ops.append({"k": "cpt", "h": h, "c": c, "p": [r.randrange(-4, w + 5), r.randrange(-4, e + 5)]})
            else:
                for _ in range(3):
                    d = r.choice(DIRS)
                    ops.append({"k": "cray", "h": h, "c": c, "p": [r.randrange(-9, w + 10), r.randrange(-9, e + 10)],
                                "d": list(d[:2]), "l": d[2]})
    for h in sorted(on):
        if on[h]:
            ops.append({"k": "cq", "h": h})
    return ops


def corrupt(t, r):
    es = [e for e in t if e["op"]["k"] == "cq" and "crash" not in e["out"]]
    if not es:
        return False
    o = r.choice(es)["out"]
    k = r.randrange(5)
    if k == 0: o["hc"][-1][1] += 1
    elif k == 1: r.choice(o["cells"])["ms"][0] += 1
    elif k == 2: o["lats"][-1]["ch"][0] += 1
    elif k == 3: o["guards"] = 0
    else: r.choice(o["cells"])["ar"][0] += 9
    return True


def run(c):
    exe = c.build(("model", True))["model"]
    c.model("CApiMC.tla", "CApiMC.cfg")
    bs = c.generate("CApiMC.tla", "CApiMC.cfg")
    c.rng.shuffle(bs)
    c.conform(exe, encode, bs[:400 if c.quick else 4480], "CApiTrace.tla", "CApiTrace.cfg", name="call orders", corrupt=corrupt)
    rb = [program(c.rng) for _ in range(100 if c.quick else 900)]
    rb += [program(c.rng, n) for n in ([12, 20] if c.quick else [10, 11, 12, 14, 20, 33, 48])]
    c.conform(exe, encode, rb, "CApiTrace.tla", "CApiTrace.cfg", name="random programs", corrupt=corrupt)
