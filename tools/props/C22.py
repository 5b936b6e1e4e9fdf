"""C22: small linear algebra, polynomial equations, statistics."""
from vlib import *

J = lambda s: " ".join(str(x) for x in s)


def encode(o):
    k = o["k"]
    fl = lambda v: J(x for p in v for x in p)
    if k in ("solve", "solvein", "eig"): return k
    if k == "type": return "type " + o["f"]
    if k == "set": return "set %d %d %d %s" % (o["d"], o["r"], o["c"], fl(o["v"]))
    if k == "fill": return "fill %d %d %d %s" % (o["d"], o["r"], o["c"], J(o["x"]))
    if k == "ident": return "ident %d %d" % (o["d"], o["r"])
    if k in ("clear", "adj"): return "%s %d" % (k, o["d"])
    if k == "scale": return "scale %d %s" % (o["d"], J(o["x"]))
    if k in ("acc", "dec", "copy"): return "%s %d %d" % (k, o["d"], o["a"])
    if k in ("sum", "diff", "mul", "into"): return "%s %d %d %d" % (k, o["d"], o["a"], o["b"])
    if k == "put": return "put %d %d %d %s" % (o["d"], o["i"], o["j"], J(o["x"]))
    if k == "mv": return "mv %d %s" % (o["a"], fl(o["v"]))
    if k == "vec": return "vec %s %d %s %s %d" % (o["f"], len(o["u"]), J(o["u"]), J(o["v"]), o["s"])
    if k == "fix": return "fix %s %d %d %d %s %s %s %s" % (o["f"], o["m"], o["n"], o["p"], J(o["a"]), J(o["b"]), J(o["c"]), J(o["x"]))
    if k == "inv": return "inv %s %s" % (o["f"], J(o["a"]))
    if k == "rot": return "rot %s %d %d" % (o["f"], o["p"], o["q"])
    if k in ("quad", "low"): return "%s %s %d %d %d %d" % (k, o["f"], o["a"], o["b"], o["c"], o["s"])
    if k == "qsc": return "qsc %s %d %d %d %d" % (o["f"], o["a"], o["p"], o["q"], o["e"])
    if k == "cub": return "cub %s %d %d %s %s" % (o["f"], o["a"], len(o["r"]), J(o["r"]), J(o["z"]))
    if k == "stat": return "stat %s %d %d %d %d %d %d" % (o["f"], o["n"], o["p"], o["b"], o["m"], o["o"], o["off"])
    if k == "med": return "med %s %d %d 0 %d %d" % (o["f"], o["n"], o["p"], o["m"], o["o"])
    return "long %s %d" % (o["f"], o["n"])


def cmul(a, b): return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def mmul(a, b):
    return [[[sum(cmul(a[i][k], b[k][j])[t] for k in range(len(b))) for t in (0, 1)] for j in range(len(b[0]))] for i in range(len(a))]


def det(a):
    if len(a) == 1: return a[0][0]
    s = [0, 0]
    for j in range(len(a)):
        d = cmul(a[0][j], det([x[:j] + x[j + 1:] for x in a[1:]]))
        s = [s[0] + (-1) ** j * d[0], s[1] + (-1) ** j * d[1]]
    return s


def setm(d, a):
    return {"k": "set", "d": d, "r": len(a), "c": len(a[0]), "v": [a[i][j] for j in range(len(a[0])) for i in range(len(a))]}


def solve(r):
    f = r.choice(["f", "d", "cf", "cd"])
    val = lambda b: [r.randrange(-b, b + 1), r.randrange(-b, b + 1) if f[0] == "c" else 0]
    n, m = r.randrange(1, 5), r.randrange(1, 4)
    while True:
        a = [[val(4) for _ in range(n)] for _ in range(n)]
        d = det(a)
        if d[0] ** 2 + d[1] ** 2 >= (1 if f[-1] == "d" else 400 if n > 1 else 4): break
    x = [[val(6) for _ in range(m)] for _ in range(n)]
    s = setm(3, x)
    return [{"k": "type", "f": f}, setm(1, a), setm(2, mmul(a, x)),
            {"k": r.choice(["solve", "solvein"]), "sol": {"r": n, "c": m, "v": s["v"]}, "tol": 1 if f[-1] == "d" else 20}]


def eigen(r):
    f = r.choice(["f", "d", "cf", "cd"])
    n = r.randrange(1, 5)
    z = lambda a: [a, 0]
    D = [[z(0) for _ in range(n)] for _ in range(n)]
    w, i = [], 0
    while i < n:
        if f[0] != "c" and i + 1 < n and r.random() < .4:
            u, v = r.randrange(-5, 6), r.randrange(1, 6)
            D[i][i], D[i][i + 1], D[i + 1][i], D[i + 1][i + 1] = z(u), z(-v), z(v), z(u)
            w += [[u, v], [u, -v]]
            i += 2
        else:
            D[i][i] = [r.randrange(-6, 7), r.randrange(-4, 5) if f[0] == "c" else 0]
            w.append(D[i][i])
            i += 1
    P = [[z(int(i == j)) for j in range(n)] for i in range(n)]
    Q = [[z(int(i == j)) for j in range(n)] for i in range(n)]        # its inverse
    for _ in range(r.randrange(0, 4)):
        i, j = r.randrange(n), r.randrange(n)
        if i == j: continue
        k = r.choice([-1, 1])
        P[i] = [[P[i][c][0] + k * P[j][c][0], 0] for c in range(n)]
        for c in range(n): Q[c][j] = [Q[c][j][0] - k * Q[c][i][0], 0]
    A = mmul(mmul(P, D), Q)
    return [{"k": "type", "f": f}, setm(1, A), setm(2, P), setm(3, D), {"k": "eig", "w": w, "tol": 1 if f[-1] == "d" else 60}]


def matrices(r, types):
    f = r.choice(types)
    cx = f[0] == "c"
    val = lambda b=4: [r.randrange(-b, b + 1), r.randrange(-b, b + 1) if cx else 0]
    ops = [{"k": "type", "f": f}]
    S, M = {}, {}                                       # shape and a bound on the entries
    dims = r.sample([1, 2, 3, 4, 5], 2) + [r.randrange(1, 5)]
    def put(d, rr, c):
        S[d], M[d] = (rr, c), 8
        ops.append({"k": "set", "d": d, "r": rr, "c": c, "v": [val() for _ in range(rr * c)]})
    a, b, c = dims
    for d, s in zip((1, 2, 3), r.choice([((a, b), (b, c), (a, c)), ((a, a), (a, a), (a, a)), ((a, b), (a, b), (b, a)), ((a, a), (a, b), (b, b))])):
        put(d, *s)
    for _ in range(r.randrange(4, 9)):
        k = r.choice(["set", "fill", "ident", "clear", "scale", "acc", "dec", "sum", "diff", "mul", "mul", "into", "into", "adj", "put", "mv", "copy"])
        d, a, b = (r.randrange(1, 4) for _ in range(3))
        o = {"k": k, "d": d, "a": a, "b": b}
        if k == "set": put(d, r.randrange(1, 5), r.randrange(1, 5)); continue
        if k == "fill": o.update(r=r.randrange(1, 5), c=r.randrange(1, 5), x=val()); S[d] = (o["r"], o["c"]); M[d] = 8
        elif k == "ident": o.update(r=r.randrange(1, 6)); S[d] = (o["r"],) * 2; M[d] = 1
        elif k == "clear": M[d] = 0
        elif k == "scale": o["x"] = val(3); M[d] *= 6
        elif k in ("acc", "dec"):
            if S[a] != S[d]: continue
            M[d] += M[a]
        elif k in ("sum", "diff"):
            if S[a] != S[b]: continue
            S[d], M[d] = S[a], M[a] + M[b]
        elif k in ("mul", "into"):
            if S[a][1] != S[b][0] or (k == "into" and (d in (a, b) or S[d] != (S[a][0], S[b][1]))): continue
            S[d], M[d] = (S[a][0], S[b][1]), 2 * S[a][1] * M[a] * M[b]
        elif k == "adj":
            if S[d][0] != S[d][1]: continue
        elif k == "put": o.update(i=r.randrange(1, S[d][0] + 1), j=r.randrange(1, S[d][1] + 1), x=val()); M[d] = max(M[d], 8)
        elif k == "mv":
            if M[a] > 1000: continue
            o["v"] = [val() for _ in range(S[a][1])]
        elif k == "copy": S[d], M[d] = S[a], M[a]
        if max(M.values()) > 2**23: break
        ops.append(o)
    return ops


def ivals(r, n, b): return [r.randrange(-b, b + 1) for _ in range(n)]


def nz(r, b):
    return r.choice([-1, 1]) * r.randrange(1, b + 1)


def vector(r):
    n = r.randrange(1, 5)
    u = ivals(r, n, r.choice([1, 3, 30]))
    v = [nz(r, 30) for _ in range(n)]
    if r.random() < .3: v = [x or 1 for x in u]
    if r.random() < .2: v[-1] = nz(r, 2); v[:-1] = [x or 1 for x in u[:-1]]
    if r.random() < .3: u = [x or 1 for x in u]; v[:n // 2] = u[:n // 2]
    return {"k": "vec", "f": r.choice("Ifd"), "u": u, "v": v, "s": nz(r, 9)}


def fixed(r):
    m, n, p = (r.randrange(1, 4) for _ in range(3))
    return {"k": "fix", "f": r.choice("Ifd"), "m": m, "n": n, "p": p, "a": ivals(r, m * n, 9), "b": ivals(r, n * p, 9), "c": ivals(r, m * n, 9), "x": ivals(r, n, 9)}


def other(r):
    k = r.choice(["inv", "rot", "quad", "quad", "qsc", "cub", "cub", "cub", "low"])
    o = {"k": k, "f": r.choice("fd")}
    if k == "inv":
        while True:
            o["a"] = ivals(r, 4, 12)
            if o["a"][0] * o["a"][3] != o["a"][1] * o["a"][2]: return o
    if k == "rot": o.update(p=r.randrange(-12, 13), q=nz(r, 12))
    elif k in ("quad", "low"):
        b = r.choice([1, 3, 12, 30])
        o.update(a=ivals(r, 1, b)[0], b=ivals(r, 1, b)[0], c=ivals(r, 1, b)[0], s=r.choice([0, 0, -20, 10]))
        if r.random() < .3:                             # a double root
            p, q = nz(r, 4), ivals(r, 1, 4)[0]
            s = r.choice([-1, 1])
            o.update(a=s * p * p, b=2 * s * p * q, c=s * q * q)
        if k == "low" and o["a"] == 0 and o["b"] == 0: o["b"] = 1
    elif k == "qsc":
        o.update(a=nz(r, 3), p=nz(r, 30), q=nz(r, 30), e=r.choice([1, 3, 6, 10] if o["f"] == "d" else [1, 3, 6]))
    else:
        d = o["f"] == "d"
        w = 1 if d else 4
        b = r.choice([3, 10, 40]) // w
        n = r.choice([1, 3, 3])
        x = [w * v for v in ivals(r, n, b)]
        if not d:
            while n == 3 and len(set(x)) < 3: x = [w * v for v in ivals(r, n, 6)]
        o.update(a=nz(r, 3), r=x, z=[], tol=2 if d else 20)
        if n == 1: o["z"] = [w * ivals(r, 1, b)[0], w * r.randrange(1, b + 2)]
    return o


def stats(r):
    n = r.choice([2, 3, r.randrange(2, 40), r.randrange(120, 137), r.randrange(250, 265), r.randrange(380, 390), r.randrange(500, 600)])
    m = r.randrange(2, 30)
    f = r.choice("fd")
    return {"k": "stat", "f": f, "n": n, "p": r.randrange(1, 50), "b": r.randrange(30), "m": m, "o": r.randrange(0, m + 5),
            "off": r.choice([0, 0, 26]) if f == "d" else 0, "tol": 2 if f == "d" else 20}


def median(r):
    return {"k": "med", "f": r.choice("fd"), "n": r.choice([1, 2, 3, 4, 5, r.randrange(1, 60)]), "p": r.randrange(1, 9), "m": r.randrange(1, 5), "o": r.randrange(0, 40)}


def small():
    for a in range(-3, 4):
        for b in range(-3, 4):
            for c in range(-3, 4):
                yield {"k": "quad", "f": "d", "a": a, "b": b, "c": c, "s": 0}
    for a in (-1, 1, 2):
        for x in range(-3, 4):
            for y in range(-3, 4):
                for z in range(y, 4):
                    yield {"k": "cub", "f": "d", "a": a, "r": [x, y, z], "z": [], "tol": 2}
    for n in list(range(2, 12)) + list(range(126, 132)) + list(range(254, 260)):
        yield {"k": "stat", "f": "d", "n": n, "p": 7, "b": n, "m": 11, "o": 4, "off": 0, "tol": 2}
    for n in range(1, 12):
        for p in (1, 3): yield {"k": "med", "f": "d", "n": n, "p": p, "m": 2, "o": 2}
    for n in (127, 128, 129, 1000, 100000, 1000003):
        for f in "fd": yield {"k": "long", "f": f, "n": n}


def corrupt(t, r):
    e = r.choice(t)
    k, o = e["op"]["k"], e["out"]
    if "crash" in o: return False
    if "x" in o and k.startswith("solve"): o["x"][0][0] += 50
    elif k == "eig": o["w"][0][0] += 300
    elif "m" in o:
        m = r.choice(o["m"])
        m["v"][r.randrange(len(m["v"]))][0] += 1
    elif k == "vec": o[r.choice(["add", "sub", "mul", "min", "dot", "n2"])][0] += 1
    elif k == "fix": o[r.choice(["mul", "add", "mv"])][0] += 1
    elif k in ("inv", "rot"): o["v"][r.randrange(4)] += 40
    elif k in ("quad", "low", "cub"): o["ok"][0] = not o["ok"][0]
    elif k == "qsc": o["asc"] = False
    elif k == "stat": o[r.choice(["sum", "var"])] += 100
    elif k == "med": o["med"] += 1
    elif k == "long": o["err"] = 1000
    else: return False
    return True


def run(c):
    exes = c.build(("alg", True), ("alg_portable", False))
    exe = exes["alg"]
    c.model("AlgMC.tla", "AlgMC.cfg" if c.quick else "AlgMC4.cfg")
    r, x = c.rng, 1 if c.quick else 10
    go = lambda name, bs: c.conform(exe, encode, bs, "AlgTrace.tla", "AlgTrace.cfg", name=name, corrupt=corrupt)
    s = list(small())
    go("small cases", [s[i:i + 20] for i in range(0, len(s), 20)])
    fl = ["f", "d", "cf", "cd"]
    go("matrices", [matrices(r, fl) for _ in range(400 * x)])
    go("linear systems", [solve(r) for _ in range(200 * x)])
    go("eigenvalues", [eigen(r) for _ in range(200 * x)])
    c.conform(exes["alg_portable"], encode, [matrices(r, fl + ["I"]) for _ in range(400 * x)], "AlgTrace.tla", "AlgTrace.cfg", name="matrices without BLAS", corrupt=corrupt)
    go("vectors", [[vector(r) for _ in range(10)] for _ in range(60 * x)])
    go("fixed matrices", [[fixed(r) for _ in range(10)] for _ in range(60 * x)])
    go("equations", [[other(r) for _ in range(10)] for _ in range(120 * x)])
    go("statistics", [[stats(r) if r.random() < .7 else median(r) for _ in range(4)] for _ in range(30 * x)])
