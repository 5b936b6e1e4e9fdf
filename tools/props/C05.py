"""C05: polytope soups."""
from vlib import *
import json
from soupgen import Gen, encode, NAMES, NV


def corrupt(t, r):
    ev = r.choice(t)
    o = ev["out"]
    if "crash" in o:
        return False
    s = r.choice(o["s"])
    k = r.randrange(4)
    if k == 0 and s["v"]: r.choice(s["v"])[r.randrange(3)] += 1
    elif k == 1 and s["e"]: r.choice(s["e"])["c"].append(0)
    elif k == 2 and s["s"]: r.choice(s["s"])["i"].append(99)
    elif k == 3: o["ret"] += 1
    else: return False
    return True


def twins(r):
    """Two soups built alike except for at most one detail, compared both ways."""
    nv, ne = r.randrange(1, 10), r.randrange(1, 8)
    a = [{"k": "vert", "s": 0, "p": [r.randrange(-9, 9) for _ in range(3)]} for _ in range(nv)]
    for _ in range(ne):
        t = r.choice([x for x in NV if NV[x] <= nv])
        a.append({"k": "elem", "s": 0, "ty": t, "c": r.sample(range(nv), NV[t])})
    for n in r.sample(NAMES, r.randrange(0, 5)):
        ids = sorted(r.sample(range(ne), r.randrange(1, ne + 1)))
        a.append({"k": "elset", "s": 0, "n": n, "i": ids, "d": [r.randrange(9) for _ in ids] if r.random() < .6 else []})
    b = [json.loads(json.dumps(dict(o, s=1))) for o in a]
    q = r.random()
    if q < .85:
        o = r.choice(b if q < .3 else [x for x in b if x["k"] == "elset"] or b)
        if o["k"] == "vert":
            o["p"][r.randrange(3)] += r.choice([-1, 1])
        elif o["k"] == "elem":
            j = r.randrange(len(o["c"]))
            o["c"][j] = r.randrange(nv)
        else:
            x = r.random()
            rest = [i for i in range(ne) if i not in o["i"]]
            if x < .35 and rest:
                o["i"][r.randrange(len(o["i"]))] = r.choice(rest)
                o["i"].sort()
            elif x < .8 and o["d"]:
                o["d"][r.randrange(len(o["d"]))] += r.choice([-1, 1])
            elif x < .9:
                o["d"] = [] if o["d"] else [0] * len(o["i"])
            else:
                o["n"] += "x"
    elif q < .92:
        b.append({"k": "vert", "s": 1, "p": [0, 0, 0]})
    ops = a + b
    for _ in range(2):
        ops += [{"k": "cmp", "s": 0, "t": 1}, {"k": "cmp", "s": 1, "t": 0}]
        if r.random() < .5: break
        ops += [{"k": "sort", "s": 0}, {"k": "sort", "s": 1}]
    return ops


def run(c):
    exe = c.build(("soup", True))["soup"]
    c.model("SoupMC.tla", "SoupMC.cfg")
    bs = merge(c.generate("SoupMC.tla", "SoupGen.cfg"))
    c.rng.shuffle(bs)
    c.extra["behaviours_available"] = len(bs)
    c.conform(exe, encode, bs[:4000 if c.quick else 40000], "SoupTrace.tla", "SoupTrace.cfg", name="all transitions", corrupt=corrupt)
    n = 300 if c.quick else 4000
    rb = [Gen(c.rng).history(c.rng.choice([30, 60, 90])) for _ in range(n)]
    c.conform(exe, encode, rb, "SoupTrace.tla", "SoupTrace.cfg", name="random histories", corrupt=corrupt)
    tb = [twins(c.rng) for _ in range(400 if c.quick else 5000)]
    c.conform(exe, encode, tb, "SoupTrace.tla", "SoupTrace.cfg", name="twins", corrupt=corrupt)
    one = lambda s, d: [{"k": "vert", "s": s, "p": [1, 2, 0]}, {"k": "elem", "s": s, "ty": 1, "c": [0]},
                        {"k": "elset", "s": s, "n": "a", "i": [0], "d": d}]
    c.known_conform("append-data-one-side", exe, encode, one(0, [4]) + one(1, []) + [{"k": "app", "s": 0, "t": 1, "any": 1}],
                    "SoupTrace.tla", "SoupTrace.cfg")
