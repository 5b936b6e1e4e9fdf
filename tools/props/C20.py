"""C20: modular rays."""
from vlib import *


def encode(op):
    return "%s %d %d %d %d %d %d %d" % (op["f"], op["x"], op["y"], op["w"], op["h"], op["p"], op["q"], op["d"])


def ok(op):
    l2 = op["p"] ** 2 + op["q"] ** 2
    n = max(op["w"], op["h"]) // op["d"] + 2
    return n <= 42 and n * n * l2 * op["d"] ** 2 < 2 * 10**9 and max(op["w"], op["h"]) ** 2 * max(op["p"] ** 2, op["q"] ** 2) < 2 * 10**9


def small():
    for w in range(1, 6):
        for h in range(1, 6):
            for p in (-3, -2, -1, 1, 2, 3):
                for q in (1, 2, 3):
                    for d in (1, 2):
                        yield {"k": "mod", "f": "d", "x": w - 3, "y": 2 - h, "w": w, "h": h, "p": p, "q": q, "d": d, "tol": 2}


def rand(r):
    while True:
        v = r.choice([8, 40, 200])
        op = {"k": "mod", "f": r.choice("df"), "x": r.choice([0, r.randrange(-50, 51)]), "y": r.choice([0, r.randrange(-50, 51)]),
              "w": r.randrange(1, v + 1), "h": r.randrange(1, v + 1), "p": r.choice([-1, 1]) * r.randrange(1, 30),
              "q": r.randrange(1, 30), "d": r.randrange(1, 40)}
        op["tol"] = 2 if op["f"] == "d" else 8
        if ok(op): return op


def corrupt(t, r):
    e = r.choice(t)
    o = e["out"]
    if "crash" in o:
        return False
    k = r.choice(["o", "total", "n", "x"])
    if k == "total": o["total"] += 1
    elif k == "n": o["n"][0] += 1
    else: o[k][r.randrange(len(o[k]))][r.randrange(2)] += 300
    return True


def run(c):
    exe = c.build(("rays", False))["rays"]
    c.model("RaysMC.tla", "RaysMC.cfg")
    s = [o for o in small() if ok(o)]
    c.rng.shuffle(s)
    if c.quick: s = s[:1000]
    c.conform(exe, encode, [s[i:i + 10] for i in range(0, len(s), 10)], "RaysTrace.tla", "RaysTrace.cfg", name="small modules", corrupt=corrupt)
    n = 100 if c.quick else 1500
    c.conform(exe, encode, [[rand(c.rng) for _ in range(10)] for _ in range(n)], "RaysTrace.tla", "RaysTrace.cfg", name="random modules", corrupt=corrupt)
