"""C08: point location and ray tracing."""
from vlib import *
from meshgen import Tiling, encode, cross, sub, orient, NC

DIRS = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-3, 4, 5), (4, -3, 5), (-4, -3, 5), (5, 12, 13), (12, -5, 13),
        (-12, 5, 13), (-5, -12, 13), (8, 15, 17), (-15, 8, 17), (15, -8, 17), (-8, -15, 17)]
N = 128


def edges(t):
    n = NC[t.ty]
    for f in t.f:
        for k in range(n):
            yield [t.v[f[k]], t.v[f[(k + 1) % n]]] + ([t.v[f[n + k]]] if t.ty > 4 else [])


def arc(o, e):
    a, b, m = e
    ee = (2 * m[0] - a[0] - b[0], 2 * m[1] - a[1] - b[1])
    return [tuple(N * N * (a[i] - o[i]) + N * k * (b[i] - a[i]) + 2 * k * (N - k) * ee[i] for i in (0, 1)) for k in range(N + 1)]


def away(P):
    return all(max(abs(p[0]), abs(p[1])) >= N * N for p in P)


def general(o, d, e):
    if len(e) == 2:
        a, b = e
        on = orient(a, b, o) == 0 and (a[0] - o[0]) * (b[0] - o[0]) + (a[1] - o[1]) * (b[1] - o[1]) <= 0
        return cross(d, sub(a, o)) != 0 and cross(d, sub(b, o)) != 0 and not on
    P = arc(o, e)
    F = [cross(d, p) for p in P]
    mg = max(abs(d[0]), abs(d[1])) * N * N // 2
    sg = lambda x: (x > 0) - (x < 0)
    return (abs(F[0]) >= mg and abs(F[N]) >= mg and away(P) and
            all(abs(F[k]) >= mg for k in range(1, N) if sg(F[k] - F[k - 1]) * sg(F[k + 1] - F[k]) <= 0))


def enumerated(c):
    out = []
    for ty in (3, 4, 6, 8):
        rec = c.generate("RayMC.tla", "RayMC%s%d.cfg" % ("" if c.quick else "T", ty))
        by = {}
        for x in rec:
            by.setdefault(json.dumps([x["v"], x["f"]]), []).append(x)
        for k, xs in by.items():
            v, f = json.loads(k)
            c.rng.shuffle(xs)
            for i in range(0, len(xs), 40):
                ops = [{"k": "build", "ty": ty, "via": "list", "v": v, "f": f}]
                for x in xs[i:i + 40]:
                    if x["ray"]: ops.append({"k": "ray", "p": x["p"], "d": x["d"], "h": x["h"], "tile": True})
                    if x["loc"] and i == 0: ops.append({"k": "loc", "p": x["p"]})
                out.append(ops)
    return out


def history(r, nq):
    ty = r.choice([3, 3, 4, 4, 6, 8])
    step = r.choice([16, 24, 32]) if ty < 5 else 32
    nx, ny = r.randint(1, 4 if ty < 5 else 2), r.randint(1, 4 if ty < 5 else 3)
    if step == 32: nx, ny = min(nx, 3), min(ny, 3)
    off = r.choice([(0, 0), (0, 0), (-40, 16), (-31, -50)])
    t = Tiling(r, ty, nx, ny, step, jitter=r.choice([0, step // 8]), curve=r.choice([0, step // 16, step // 8 if ty == 8 else step // 16]), x0=off[0], y0=off[1])
    whole = True
    if r.random() < .3 and len(t.f) > 2:
        t.f.pop(r.randrange(len(t.f)))
        whole = False
    if r.random() < .5: r.shuffle(t.f)
    if r.random() < .5: t.renumber(r)
    t.f = [t.rotate(f, r.randrange(t.n())) for f in t.f]
    ops = [{"k": "build", "ty": ty, "via": r.choice(["list", "soupv"]), "v": t.v, "f": t.f}]
    es = list(edges(t))
    pt = lambda: [off[0] + r.randint(-9, nx * step + 9), off[1] + r.randint(-9, ny * step + 9)]
    if r.random() < .3:
        ops.append({"k": "sort"})
    for _ in range(nq):
        p = pt()
        if r.random() < .5:
            if ty < 5 and r.random() < .3: p = list(r.choice(t.v))
            if ty < 5 or all(away(arc(p, e)) for e in es): ops.append({"k": "loc", "p": p})
        else:
            d = r.choice(DIRS)
            if all(general(p, d, e) for e in es):
                ops.append({"k": "ray", "p": p, "d": list(d[:2]), "h": d[2], "tile": whole})
    return ops


def corrupt(t, r):
    ev = r.choice(t)
    o = ev["out"]
    if "crash" in o: return False
    if ev["op"]["k"] == "loc": o["ret"] += 1 if o["ret"] < 0 else 100
    elif ev["op"]["k"] == "ray" and o["c"]:
        k = r.randrange(4)
        if k == 0: o["c"][0] += 100
        elif k == 1: o["u"].pop()
        elif k == 2: o["sf"][0] += 1
        elif k == 3: o["f"][-1] += 1
    else: return False
    return True


def run(c):
    exe = c.build(("mesh", True))["mesh"]
    c.conform(exe, encode, enumerated(c), "MeshTrace.tla", "MeshTrace.cfg", name="all rays on small tilings", corrupt=corrupt)
    n = 250 if c.quick else 4000
    c.conform(exe, encode, [history(c.rng, 24) for _ in range(n)], "MeshTrace.tla", "MeshTrace.cfg", name="random tilings", corrupt=corrupt)
