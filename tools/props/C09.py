"""C09: points, boxes, segments and planar polygons."""
from vlib import *

DIRS = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-3, 4, 5), (4, -3, 5), (-4, -3, 5), (5, 12, 13), (-12, 5, 13), (8, -15, 17)]
DIRS3 = [(1, 2, 2, 3), (-2, 1, 2, 3), (2, 3, -6, 7), (0, 3, 4, 5), (0, 0, 1, 1), (-1, 0, 0, 1), (4, 0, -3, 5)]


def chunk(bs, n):
    return [[o for b in bs[i:i + n] for o in b] for i in range(0, len(bs), n)]


def pts(v):
    return " ".join(str(x) for p in v for x in p)


def encode(op):
    k = op["k"]
    if k == "poly": return "poly %d %s %d" % (op["ty"], pts(op["v"]), op.get("c", 0))
    if k == "move": return "move %d %s" % (op["i"], pts([op["x"]]))
    if k == "pq": return "pq %d %d" % (op["i"], op["j"])
    if k == "pc": return "pc %d %s" % (len(op["pts"]), pts(op["pts"]))
    if k in ("pr", "sr", "br"): return "%s %s %d" % (k, pts([op["x"], op["d"]]), op["l"])
    if k == "seg": return "seg %d %s" % (len(op["v"]), pts(op["v"]))
    if k == "sq": return "sq %d" % op["i"]
    if k == "sp": return "sp " + pts([op["x"]])
    if k in ("sx", "tri3", "turn"): return k + " " + pts(op["v"])
    if k == "bempty": return "bempty %d" % op["d"]
    if k == "bset": return "bset %d %s" % (op["d"], pts([op["lo"], op["hi"]]))
    if k == "bpts": return "bpts %d %d %s" % (len(op["v"][0]), len(op["v"]), pts(op["v"]))
    if k == "baddp": return "baddp %d %s" % (op["f"], pts([op["x"]]))
    if k == "baddb": return "baddb %d %s" % (op["f"], pts([op["lo"], op["hi"]]))
    if k == "bscale": return "bscale %d" % op["n"]
    if k == "bq": return "bq %s %d %s" % (pts([op["lo"], op["hi"]]), len(op["pts"]), pts(op["pts"]))
    return k


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def area6(p):
    n = {6: 3, 8: 4}.get(len(p), len(p))
    a = 3 * sum(p[i][0] * p[(i + 1) % n][1] - p[i][1] * p[(i + 1) % n][0] for i in range(n))
    return a - (4 * sum(cross(p[i], p[(i + 1) % n], p[n + i]) for i in range(n)) if len(p) > 4 else 0)


def well(a, b, m):
    v = (b[0] - a[0], b[1] - a[1])
    n = v[0] ** 2 + v[1] ** 2
    t = 4 * ((m[0] - a[0]) * v[0] + (m[1] - a[1]) * v[1])
    return n > 0 and n <= t <= 3 * n and 2 * abs(cross(a, b, m)) <= n


def corners(r, n):
    """n >= 3 convex corners, counter-clockwise."""
    while True:
        p = [[r.randrange(-30, 31), r.randrange(-30, 31)] for _ in range(n)]
        if n == 4:
            p = [[a[0], a[1]] for a in ([-20, -20], [20, -20], [20, 20], [-20, 20])] if r.random() < .5 else p
            p = [[x + r.randrange(-9, 10), y + r.randrange(-9, 10)] for x, y in p]
        if all(cross(p[i], p[(i + 1) % n], p[(i + 2) % n]) > 40 for i in range(n)) and \
           all(abs(p[i][0] - p[i - 1][0]) + abs(p[i][1] - p[i - 1][1]) >= 6 for i in range(n)):
            k = r.randrange(n)
            return p[k:] + p[:k]


def mid(r, a, b, big):
    """A middle vertex for the edge, more or less displaced."""
    while True:
        x, y = (a[0] + b[0]) // 2, (a[1] + b[1]) // 2
        if (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0 and r.random() < .3:
            return [x, y]
        d = max(abs(a[0] - b[0]), abs(a[1] - b[1])) // (3 if big else 7) + 1
        m = [x + r.randrange(-d, d + 1), y + r.randrange(-d, d + 1)]
        if well(a, b, m):
            return m


def shape(r, big=False):
    ty = r.choice([3, 4, 6, 6, 8, 8])
    n = {3: 3, 4: 4, 6: 3, 8: 4}[ty]
    p = corners(r, n)
    if ty > 4:
        while True:
            q = p + [mid(r, p[i], p[(i + 1) % n], big) for i in range(n)]
            if area6(q) > 100: return ty, q
    return ty, p


def arc(e, n):
    a, b, m = e
    return [[n * n * a[i] + n * k * (b[i] - a[i]) + 2 * k * (n - k) * (2 * m[i] - a[i] - b[i]) for i in (0, 1)] for k in range(n + 1)]


def crossings(e, f, n=32):
    """Number of crossings of two arcs, or 9 if that is not clear (touching, nearly parallel)."""
    A, B = arc(e, n), arc(f, n)
    X = []
    for i in range(n):
        for j in range(n):
            a, b, c, d = A[i], A[i + 1], B[j], B[j + 1]
            s, t = cross(a, b, c), cross(a, b, d)
            u, v = cross(c, d, a), cross(c, d, b)
            if (s > 0) != (t > 0) and (u > 0) != (v > 0) and s and t and u and v:
                p, q = (b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1])
                if abs(p[0] * q[1] - p[1] * q[0]) * 4 < max(map(abs, p)) * max(map(abs, q)): return 9
                if i in (0, n - 1) or j in (0, n - 1): return 9
                X.append((i, j))
    ends = [(i, j) for i in (0, n) for j in (0, n) if A[i] == B[j]]
    h = n * n + max(abs(C[i + 1][z] - C[i][z]) for C in (A, B) for i in range(n) for z in (0, 1))
    for i in range(n + 1):
        for j in range(n + 1):
            if max(abs(A[i][0] - B[j][0]), abs(A[i][1] - B[j][1])) < h and not any(abs(x - i) <= 10 and abs(y - j) <= 10 for x, y in X + ends):
                return 9
    return len(X) + len(ends)


def ray(r):
    d = r.choice(DIRS)
    return {"x": [r.randrange(-40, 41), r.randrange(-40, 41)], "d": [d[0], d[1]], "l": d[2]}


def near(r, p):
    """Points around the vertices, on the chords, inside and outside."""
    n = len(p)
    q = []
    for _ in range(10):
        m = r.random()
        a, b = r.choice(p), r.choice(p)
        if m < .35: q.append([(a[0] + b[0]) // 2 + r.randrange(-2, 3), (a[1] + b[1]) // 2 + r.randrange(-2, 3)])
        elif m < .5: q.append([a[0] + r.randrange(-2, 3), a[1] + r.randrange(-2, 3)])
        elif m < .65: q.append([(a[0] + b[0]) // 2, (a[1] + b[1]) // 2])
        elif m < .75:
            w = [r.random() for _ in p]
            q.append([round(sum(w[i] * p[i][c] for i in range(n)) / sum(w)) for c in (0, 1)])
        else: q.append([r.randrange(-36, 37), r.randrange(-36, 37)])
    return q


def polygons(r):
    ty, p = shape(r)
    ops = [{"k": "poly", "ty": ty, "v": p, "c": r.randrange(2)}]
    n = len(p) if ty < 5 else len(p) // 2
    def ask():
        i, j = r.randrange(5), r.randrange(5)
        if ty in (3, 6): j = r.randrange(5 - i)
        ops.append({"k": "pq", "i": i, "j": j})
        ops.append({"k": "pm"})
        ops.append({"k": "pc", "pts": near(r, p)})
        for _ in range(2): ops.append({"k": "pr", **ray(r)})
    ask()
    if r.random() < .6:
        ops.extend([{"k": "flip"}, {"k": "pq", "i": r.randrange(3), "j": r.randrange(3)}])
        if r.random() < .7:
            ops.append({"k": "flip"})
            i = r.randrange(len(p))
            if i < n:
                q = [p[i][0] + r.randrange(-2, 3), p[i][1] + r.randrange(-2, 3)]
            else:
                q = mid(r, p[i - n], p[(i - n + 1) % n], False)
            ok = p[:i] + [q] + p[i + 1:]
            if area6(ok) > 50 and all(cross(ok[z], ok[(z + 1) % n], ok[(z + 2) % n]) > 0 for z in range(n)) and (ty < 5 or all(well(ok[z], ok[(z + 1) % n], ok[n + z]) for z in range(n))):
                ops.append({"k": "move", "i": i, "x": q})
                p = ok
                ask()
    return ops


def selfcross(r):
    while True:
        ty, p = shape(r, True)
        if ty > 4: break
    n = len(p) // 2
    if r.random() < .6:                # pull a middle vertex towards (or through) another edge
        i, j = r.sample(range(n), 2)
        q = p[n + j]
        p[n + i] = [q[0] + r.randrange(-8, 9), q[1] + r.randrange(-8, 9)]
    E = [(p[i], p[(i + 1) % n], p[n + i]) for i in range(n)]
    if any(crossings(E[i], E[j]) > 2 for i in range(n) for j in range(i)):
        return selfcross(r)
    return [{"k": "poly", "ty": ty, "v": p}, {"k": "ps"}]


def segments(r):
    while True:
        a, b = [[r.randrange(-30, 31), r.randrange(-30, 31)] for _ in range(2)]
        if r.random() < .15: b[r.randrange(2)] = a[0] if r.random() < .5 else a[1]
        if abs(a[0] - b[0]) + abs(a[1] - b[1]) >= 6: break
    v = [a, b]
    if r.random() < .75: v.append(mid(r, a, b, r.random() < .5))
    ops = [{"k": "seg", "v": v}, {"k": "sq", "i": r.randrange(5)}]
    for q in near(r, v)[:5]: ops.append({"k": "sp", "x": q})
    for _ in range(3): ops.append({"k": "sr", **ray(r)})
    for _ in range(3):                 # roughly along the chord, through the bulge
        ds = sorted(DIRS, key=lambda d: -abs(d[0] * (b[0] - a[0]) + d[1] * (b[1] - a[1])) / d[2])[:2]
        d = r.choice(ds)
        q = v[-1]
        w = [(q[i] * 2 + a[i] + b[i]) // 4 + r.randrange(-2, 3) for i in (0, 1)]
        t = r.choice([-1, 1]) * (40 // d[2] + 1)
        sg = r.choice([-1, 1])
        ops.append({"k": "sr", "x": [w[0] - t * d[0], w[1] - t * d[1]], "d": [sg * d[0], sg * d[1]], "l": d[2]})
    if len(v) == 3:
        for _ in range(2):
            c, d = [[r.randrange(-30, 31), r.randrange(-30, 31)] for _ in range(2)]
            if r.random() < .5 and abs(c[0] - d[0]) + abs(c[1] - d[1]) >= 6:
                sx = [c, d, mid(r, c, d, True)]
            elif abs(a[0] - b[0]) + abs(a[1] - b[1]) >= 16:      # a second curve over the same chord, shifted
                s = [r.randrange(-3, 4), r.randrange(-3, 4)]
                e, f = [a[0] + s[0], a[1] + s[1]], [b[0] + s[0], b[1] + s[1]]
                sx = [e, f, mid(r, e, f, True)]
            else: continue
            if crossings(v, sx) <= 2: ops.append({"k": "sx", "v": sx})
    while True:
        t = [[r.randrange(-30, 31) for _ in range(3)] for _ in range(3)]
        if t[0] != t[1]: break
    ops.append({"k": "tri3", "v": t})
    t = [[r.randrange(-3, 4) for _ in range(2)] for _ in range(3)]
    ops.append({"k": "turn", "v": t})
    return ops


def boxes(r):
    d = r.choice([1, 2, 2, 3])
    v = r.choice([2, 8, 32])
    def P(): return [r.randrange(-v, v + 1) for _ in range(d)]
    def Bx():
        a, b = P(), P()
        return {"lo": [min(x) for x in zip(a, b)], "hi": [max(x) for x in zip(a, b)]}
    m = r.random()
    if m < .3: ops = [{"k": "bempty", "d": d}]
    elif m < .6: ops = [{"k": "bset", "d": d, **Bx()}]
    else: ops = [{"k": "bpts", "v": [P() for _ in range(r.choice([1, 2, 3, 6]))]}]
    empty = m < .3
    scales = 0
    for _ in range(r.randrange(2, 9)):
        x = r.random()
        if x < .25: ops.append({"k": "baddp", "f": r.randrange(2), "x": P()}); empty = False
        elif x < .4: ops.append({"k": "baddb", "f": r.randrange(2), **Bx()}); empty = False
        elif x < .5 and not empty and scales < 2: ops.append({"k": "bscale", "n": r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 12])}); scales += 1
        elif x < .75 or empty: ops.append({"k": "bq", **Bx(), "pts": [P() for _ in range(4)]})
        else:
            w = {1: [(1, 1), (-1, 1)], 2: DIRS, 3: DIRS3}[d]
            z = r.choice(w)
            ops.append({"k": "br", "x": P(), "d": list(z[:-1]), "l": z[-1]})
    return ops


def corrupt(t, r):
    e = r.choice(t)
    o = e["out"]
    if "crash" in o:
        return False
    k = e["op"]["k"]
    if k == "pq": o["f"][r.randrange(2)] += 1
    elif k in ("poly", "flip"): o["v"][0][0] += 1
    elif k == "bq": o["in"][0] = 1 - o["in"][0]
    elif k == "sq": o["f"][r.randrange(2)] -= 1
    elif k == "tri3": o["c"][0] += 1
    else: return False
    return True


def run(c):
    exe = c.build(("prim", False))["prim"]
    cfg = "PrimMC.cfg" if c.quick else "PrimMC3.cfg"
    bs = c.generate("PrimMC.tla", cfg)
    c.rng.shuffle(bs)
    n = 1 if c.quick else 8
    c.conform(exe, encode, chunk(bs[:4000 * n], 20), "PrimTrace.tla", "PrimTrace.cfg", name="small shapes", corrupt=corrupt)
    for f, k in ((polygons, 250), (selfcross, 60), (segments, 250), (boxes, 300)):
        c.conform(exe, encode, [f(c.rng) for _ in range(k * n)], "PrimTrace.tla", "PrimTrace.cfg", name=f.__name__,
                  corrupt=None if f is selfcross else corrupt)
