"""C11: the dynamic array equals the abstract sequence."""
from vlib import *

TYPES = ["int", "i8", "dbl", "trk", "pod", "str", "vec"]


def encode(op):
    ks = {"new": "a n", "newv": "a n x", "list": "a xs", "range": "a xs", "copy": "a b", "move": "a b",
          "asgn": "a b", "masgn": "a b", "lasgn": "a xs", "assign": "a xs", "push": "a x", "pushm": "a x",
          "emplace": "a x", "pushself": "a i", "emplself": "a i", "pop": "a", "resize": "a n",
          "reserve": "a n", "clear": "a", "set": "a i x", "cmp": "a b", "ends": "a", "end": ""}[op["k"]]
    return " ".join([op["t"], op["k"]] + [flat(op[f]) for f in ks.split()])


def rand_behaviour(r, t, n):
    """Random operation sequence that respects the preconditions."""
    L = [0, 0, 0]
    ops = []
    val = lambda: r.choice([0, 1, 2, 3, 4, 5])
    while len(ops) < n:
        a, b = r.randrange(3), r.randrange(3)
        k = r.choice("new newv list range copy move asgn masgn lasgn assign push push pushm emplace "
                     "pushself pushself emplself emplself pop resize reserve clear set cmp ends".split())
        o = {"k": k, "a": a, "t": t}
        if k in ("new", "newv"):
            o["n"] = r.choice([1, 2, 3, 7])
            if k == "newv":
                o["x"] = val()
            L[a] = o["n"]
        elif k in ("list", "lasgn"):
            o["xs"] = [val() for _ in range(r.choice([1, 2, 3, 5]))]
            L[a] = len(o["xs"])
        elif k in ("range", "assign"):
            o["xs"] = [val() for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20]))]
            L[a] = len(o["xs"])
        elif k in ("copy", "asgn", "cmp"):
            o["b"] = b
            if k != "cmp":
                L[a] = L[b]
        elif k in ("move", "masgn"):
            if a == b and k == "move":
                continue
            o["b"] = b
            if a != b:
                L[a], L[b] = L[b], 0
        elif k in ("push", "pushm", "emplace"):
            o["x"] = val()
            L[a] += 1
        elif k in ("pushself", "emplself", "set"):
            if not L[a]:
                continue
            o["i"] = r.choice([0, L[a] - 1, r.randrange(L[a])])
            if k == "set":
                o["x"] = val()
            else:
                L[a] += 1
        elif k == "pop":
            if not L[a]:
                continue
            L[a] -= 1
        elif k == "ends":
            if not L[a]:
                continue
        elif k == "resize":
            o["n"] = r.choice([0, 1, L[a], L[a] + 1, max(0, L[a] - 1), 2 * L[a] + 1, 6]) % 70
            L[a] = o["n"]
        elif k == "reserve":
            o["n"] = r.choice([0, 1, L[a], L[a] + 1, L[a] + 5])
        elif k == "clear":
            L[a] = 0
        ops.append(o)
    return ops + [{"k": "end", "a": 0, "t": t}]


def corrupt(t, r):
    ev = r.choice(t)
    if "crash" in ev["out"]:
        return False
    i = r.randrange(3)
    ev["out"]["v"][i].append(1)
    return True


def run(c):
    exe = c.build(("vec", False))["vec"]
    c.model("Vec.tla", "VecMC.cfg")
    bs = c.generate("Vec.tla", "VecGen.cfg")
    # every behaviour of the specification is replayed for one element type (all types over
    # seeds), a sample for every type
    out = []
    for i, b in enumerate(bs):
        ts = {TYPES[(i + SEED) % len(TYPES)], "trk" if i % 2 else "str"}
        if not c.quick:
            ts = set(TYPES)
        if c.quick and (i + SEED) % 3:
            ts = {TYPES[(i * 5 + SEED) % len(TYPES)]} if i % 2 else {"trk"}
        for t in sorted(ts):
            out.append([dict(o, t=t) for o in b] + [{"k": "end", "a": 0, "t": t}])
    if c.quick:
        c.rng.shuffle(out)
        out = out[:9000]
    c.conform(exe, encode, out, "VecTrace.tla", "VecTrace.cfg", name="exhaustive histories", corrupt=corrupt)
    n = 400 if c.quick else 4000
    rb = [rand_behaviour(c.rng, TYPES[i % len(TYPES)], c.rng.choice([10, 30, 60])) for i in range(n)]
    c.conform(exe, encode, rb, "VecTrace.tla", "VecTrace.cfg", name="random histories", corrupt=corrupt)
