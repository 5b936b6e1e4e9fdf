"""C04: pin meshes."""
from vlib import *
from modelgen import encode

MATS = [{"k": "mat", "n": n, "xs": [8]} for n in ("B", "A", "C", "D")]


def ok(o):
    """May the pin be buildable?  Only decides whether its mesh is queried (the verdict on
    acceptance itself is the specification's)."""
    f = {1: {8: 1.1107, 16: 1.0262, 32: 1.0065, 64: 1.0016, 128: 1.0004}, 2: {8: 1.0012}}
    return (o["ord"] in (1, 2) and o["na"] in (8, 16, 32, 64, 128) and len(o["r"]) == len(o["nr"]) and o["r"]
            and all(n > 0 for n in o["nr"]) and all(a < b for a, b in zip([0] + o["r"], o["r"]))
            and 4 * max(o["r"]) ** 2 * f[o["ord"]].get(o["na"], 1.00005) <= o["p"] ** 2)


class Hist:
    def __init__(self, r, unit=1000):
        self.r, self.ops, self.n = r, [{"k": "unit", "u": unit, "z": 500}], {4: 0, 8: 0}
        self.ops += [dict(m) for m in MATS]

    def pin(self, o):
        self.ops.append(o)
        if o["k"] == "rect":
            if min(o["w"], o["h"], o["nx"], o["ny"]) > 0:
                self.n[4] += 1
        elif ok(o) and (o["k"] == "cyl" or len(o["ms"]) == len(o["nr"]) + 1 and all(m in "ABCD" for m in o["ms"])):
            self.n[4 if o["ord"] == 1 else 8] += 1
            return True
        return False

    def ask(self, t, m):
        self.ops.append({"k": "pinq", "t": t, "m": m})


def random_pin(r):
    p = r.choice([20, 33, 47, 64, 81, 100, 127, 160, 179])
    n = r.choice([1, 1, 2, 3, 4])
    rs = sorted(r.sample(range(max(1, p // 12), (p * 9) // 20), min(n, (p * 9) // 20 - max(1, p // 12))))
    o = {"k": r.choice(["cyl", "pincell"]), "p": p, "r": rs, "nr": [r.choice([1, 1, 2, 3, 4]) for _ in rs],
         "na": r.choice([8, 8, 16, 16, 32]), "ord": r.choice([1, 2])}
    if sum(o["nr"]) > 6:
        o["na"] = 8
    if r.random() < .15:
        o["r"][-1] = max(o["r"][-1], p // 2 - r.randrange(3))
    if r.random() < .1:
        o["r"] = [-x for x in o["r"]] if r.random() < .3 else o["r"][::-1]
    if r.random() < .1:
        o["nr"][r.randrange(len(o["nr"]))] = 0
    if r.random() < .05:
        o["na"] = r.choice([2, 4, 6, 10, 24, 48, 0, -8])
    if o["k"] == "pincell":
        o["ms"] = [r.choice("ABCD") for _ in range(len(rs) + 1)]
        if r.random() < .1:
            o["ms"] = o["ms"] + ["A"] if r.random() < .5 else o["ms"][:-1] + ["no"]
    return o


def corrupt(t, r):
    q = [e for e in t if e["op"]["k"] == "pinq" and "pin" in e["out"]]
    if not q:
        return False
    p = r.choice(q)["out"]["pin"]
    k = r.randrange(4)
    if k == 0:
        p["ar"][r.randrange(len(p["ar"]))] += 500
    elif k == 1:
        v = r.choice(p["v"])
        v[0] += 40 if v[0] < 4096 else -40
    elif k == 2:
        f = r.choice(p["f"])
        f[0], f[1] = f[1], f[0]
    else:
        i = r.randrange(len(p["f"]) - 1)
        if len(p["ar"]) < 16:
            return False
        p["ar"].append(p["ar"].pop(0) + 1000)
    return True


def run(c):
    exe = c.build(("model", True))["model"]
    c.model("PinMC.tla", "PinMC.cfg")
    recs = [r["h"][0] for r in c.generate("PinMC.tla", "PinMC.cfg")]
    good = [o for o in recs if ok(o)]
    bad = [o for o in recs if not ok(o)]
    c.rng.shuffle(bad)
    bs = []
    for o in good:
        h = Hist(c.rng, c.rng.choice([1000, 250, 1260, 100000]))
        h.pin(o)
        h.ask(4 if o["ord"] == 1 else 8, 0)
        bs.append(h.ops)
    bad = bad[:1500] if c.quick else bad
    for i in range(0, len(bad), 12):
        h = Hist(c.rng)
        for o in bad[i:i + 12]:
            h.pin(o)
        bs.append(h.ops)
    c.conform(exe, encode, bs, "PinTrace.tla", "PinTrace.cfg", name="enumerated pins", corrupt=corrupt)
    rb = []
    for _ in range(120 if c.quick else 1500):
        r = c.rng
        h = Hist(r, r.choice([1000, 250, 1260, 100, 20000]))
        for _ in range(r.choice([2, 3, 5])):
            if r.random() < .25:
                o = {"k": "rect", "w": r.randrange(1, 300), "h": r.randrange(1, 300), "nx": r.randrange(1, 8), "ny": r.randrange(1, 8)}
                if r.random() < .2:
                    o[r.choice(["w", "h", "nx", "ny"])] = r.choice([0, -1])
                h.pin(o)
            else:
                h.pin(random_pin(r))
        for t in (4, 8):
            for m in range(h.n[t]):
                h.ask(t, m)
        rb.append(h.ops)
    if not c.quick:
        for na in (64, 128):
            for d in (1, 2):
                for nr in ([1], [3], [2, 2]):
                    h = Hist(c.rng)
                    o = {"k": "cyl", "p": 160, "r": [60, 75][-len(nr):], "nr": nr, "na": na, "ord": d}
                    if h.pin(o):
                        h.ask(4 if d == 1 else 8, 0)
                    rb.append(h.ops)
    c.conform(exe, encode, rb, "PinTrace.tla", "PinTrace.cfg", name="random pins", corrupt=corrupt)
