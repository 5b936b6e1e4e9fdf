"""C21: quantities and files derived from a model."""
from vlib import *
from modelgen import Gen, encode

ZAIDS = [1001, 8016, 92235, 92238, 40000, 5010, 26056, 94239]


def matx(r, name, g):
    fis = r.random() < .5
    v = lambda hi, on=True: [r.randrange(1, hi) if on else 0 for _ in range(g)]
    f = v(9, fis)
    if fis and r.random() < .5:                  # fission in some groups only
        keep = r.randrange(g)
        f = [x if i == keep or r.random() < .3 else 0 for i, x in enumerate(f)]
    z = r.sample(ZAIDS, r.choice([0, 1, 2, 4]))
    return {"k": "matx", "n": name, "g": g, "a": v(60), "f": f, "nuf": [2 * x + (r.randrange(2) if x else 0) for x in f] if fis else f,
            "tr": v(90), "ss": [[r.choice([0, r.randrange(40)]) for _ in range(g)] for _ in range(g)],
            "den": r.randrange(1, 160), "tmp": r.choice([293, 300, 600, 1200]), "z": z, "nd": [r.randrange(1, 50) for _ in z]}


class DGen(Gen):
    pins = False

    def mat(self):
        n = "M%d_%s" % (len(self.mats), self.r.choice("abc"))
        self.mats.append(n)
        self.add(matx(self.r, n, self.ngroups))

    def extra_cells(self, ws, hs):
        r = self.r
        if not self.pins:
            return
        for p in sorted(set(ws) & set(hs)):
            for _ in range(r.choice([1, 2])):
                n = r.choice([1, 2])
                rs = sorted(r.sample(range(p // 8, (p * 2) // 5), n))
                self.add({"k": "pincell", "p": p, "r": rs, "nr": [r.choice([1, 2]) for _ in rs], "na": 8,
                          "ord": r.choice([1, 2]), "ms": [r.choice(self.mats) for _ in range(n + 1)]})
                self.cells.append((p, p, 8 * (sum(self.ops[-1]["nr"]) + 1)))


def queries(r, g, exp=True):
    n = len([o for o in g if o["k"] in ("cell", "pincell")])
    q = [{"k": "homog", "c": c} for c in r.sample(range(n), min(n, 4))] + [{"k": "mcl"}]
    if exp:
        q.append({"k": "export"})
    r.shuffle(q)
    return q + [{"k": "wfiles", "kn": r.randrange(2), "xs": r.randrange(2), "base": r.choice(["m", "d/core.v2", "long_model_name_123"][::2])}]


def corrupt(t, r):
    ev = [e for e in t if e["op"]["k"] in ("homog", "wfiles", "export") and "crash" not in e["out"]]
    if not ev:
        return False
    e = r.choice(ev)
    o = e["out"]
    if e["op"]["k"] == "homog":
        v = o["h"][r.choice(["a", "nuf", "tr", "s"])]
        v[r.randrange(len(v))] += 40
    elif e["op"]["k"] == "export":
        d = [s for s in o["soup"]["sets"] if s["n"] in ("One_Group_XS", "Knudsen_Number", "Mean_Chord_Length")]
        if not d:
            return False
        v = r.choice(d)["d"]
        i = r.randrange(len(v))
        v[i] += 40 + v[i] // 8
    else:
        k = r.randrange(4)
        if k == 0:
            v = r.choice(o["vol"])
            v["v"] += 5 + v["v"] // 100
        elif k == 1:
            r.choice(r.choice(o["xf"]["mats"])["v"])[r.randrange(5)] += 1
        elif k == 2:
            r.choice(o["inp"]["mats"])["den"] += 1
        else:
            m = r.choice(o["cells5"])["mat"]
            m[r.randrange(len(m))] += 1
    return True


def run(c):
    exe = c.build(("model", True))["model"]
    c.model("ModelDerivedMC.tla", "ModelDerivedMC.cfg")
    bs = c.generate("ModelDerivedMC.tla", "ModelDerivedMC.cfg")
    r = c.rng
    r.shuffle(bs)
    out = []
    for b in bs[:250 if c.quick else 3000]:
        g = r.choice([1, 2, 3])
        b = [matx(r, o["n"], g) if o["k"] == "mat" else o for o in b if o["k"] != "export"]
        out.append(b + queries(r, b))
    c.conform(exe, encode, out, "ModelDerivedTrace.tla", "ModelDerivedTrace.cfg", name="all small nestings", corrupt=corrupt)
    rb = []
    for _ in range(120 if c.quick else 1500):
        g = DGen(r)
        g.ngroups = r.choice([1, 2, 3, 5])
        g.pins = r.random() < .4
        ops = g.complete()
        if not g.core:
            continue
        rb.append(ops + queries(r, ops, not g.pins))
    c.conform(exe, encode, rb, "ModelDerivedTrace.tla", "ModelDerivedTrace.cfg", name="random models", corrupt=corrupt)
