"""C16: regions of power and sources of a solution."""
from meshgen import Tiling
from vlib import *


def mesh(m):
    j = m.get("j") or [0] * len(m["v"])
    return "%d %d %s %d %s" % (m["ty"], len(m["v"]), " ".join("%d %d %d" % (p[0], p[1], e) for p, e in zip(m["v"], j)),
                               len(m["f"]), " ".join(str(x) for f in m["f"] for x in f))


def encode(op):
    k = op["k"]
    h = "%s %s%s " % (k, "%d " % op["m"].get("x", 0) if k != "src" else "", mesh(op["m"]))
    if k == "pow" or k == "bad":
        return h + " ".join(str(x) for x in op["m"]["p"])
    G = len(op["flux"])
    return h + "%s %d %d %s %s" % (" ".join(str(x) for x in op["id"]), G, len(op["mat"]),
                                   " ".join(str(x) for m in op["mat"] for k in ("s", "nuf") for x in m[k]),
                                   " ".join(str(x) for f in op["flux"] for x in f))


def rnd_mesh(r, big=5):
    ty = r.choice([3, 4, 6, 8])
    step = r.choice([16, 8, 32])
    t = Tiling(r, ty, r.randint(1, big), r.randint(1, big), step=step, jitter=r.choice([0, step // 8]),
               curve=r.choice([0, step // 16]), x0=r.choice([0, 40]), y0=r.choice([0, 16]))
    t.renumber(r)
    r.shuffle(t.f)
    t.f = [t.rotate(f, r.randrange(t.n())) for f in t.f]
    return t


def apart(r, v, f):
    """Own points for some cells: a mesh whose cells do not share indices."""
    j = [0] * len(v)
    for i in range(len(f)):
        if r.random() < .5:
            for k in range(len(f[i])):
                v.append(list(v[f[i][k]]))
                j.append(r.randint(-9, 9))
                f[i][k] = len(v) - 1
    return j


def power(r):
    t = rnd_mesh(r, r.choice([5, 5, 9]))
    m = {"ty": t.ty, "v": t.v, "f": t.f}
    if r.random() < .5:
        m["j"] = apart(r, m["v"], m["f"])
    d = r.choice([.2, .4, .5, .7, 1])
    m["p"] = [r.choice([1, 2, 7, 500]) if r.random() < d else 0 for _ in t.f]
    if not any(m["p"]):
        m["p"][r.randrange(len(m["p"]))] = 3
    if r.random() < .5: m["x"] = r.choice([-30, -12, 20])        # in units of a power of two
    return {"k": "pow", "m": m}


def source(r):
    t = rnd_mesh(r, 3)
    n, G, nm = len(t.f), r.choice([1, 2, 7, 9, 10, 11, 12, 105]), r.choice([1, 2, 3])
    q = lambda hi: [r.choice([0, r.randrange(hi)]) for _ in range(G)]
    return {"k": "src", "m": {"ty": t.ty, "v": t.v, "f": t.f}, "id": [r.randint(1, nm) for _ in range(n)],
            "mat": [{"s": q(100), "nuf": q(90)} for _ in range(nm)], "flux": [[r.randrange(50) for _ in range(n)] for _ in range(G)]}


def bad(r):
    t = rnd_mesh(r, 2)
    while t.ty == 3:
        t = rnd_mesh(r, 2)
    return {"k": "bad", "m": {"ty": t.ty, "v": t.v, "f": t.f, "p": [1] * (len(t.f) + 1)}}


def corrupt(t, r):
    for e in t:
        if e["out"].get("r"):
            r.choice(e["out"]["r"])[r.randrange(2)] += 9
            return True
    return False


def run(c):
    exe = c.build(("post", True))["post"]
    r = c.rng
    c.model("PostMC.tla", "PostMC.cfg")
    gen = c.generate("PostMC.tla", "PostMC.cfg")
    for b in gen:                        # any numbering of cells and points, cells with points of their own
        m = b[0]["m"]
        for again in range(1):
            p = list(range(len(m["f"])))
            r.shuffle(p)
            m["f"] = [m["f"][i] for i in p]
            m["p"] = [m["p"][i] for i in p]
            if r.random() < .5:
                m["j"] = apart(r, m["v"], m["f"])
    gen += [[power(r) for _ in range(4)] for _ in range(150 if c.quick else 2000)]
    gen += [[source(r) for _ in range(3)] for _ in range(60 if c.quick else 600)]
    gen += [[bad(r)] for _ in range(8)]
    c.conform(exe, encode, gen, "PostTrace.tla", "PostTrace.cfg", name="solutions", corrupt=corrupt)
