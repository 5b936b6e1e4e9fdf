"""Random planar meshes on integer points (unit: a sixteenth)."""
import itertools

NC = {3: 3, 4: 4, 6: 3, 8: 4}


def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def sub(a, b): return (a[0] - b[0], a[1] - b[1])
def orient(a, b, c): return cross(sub(b, a), sub(c, a))


class Tiling:
    """A structured tiling of a rectangle by convex faces of one type."""

    def __init__(self, r, ty, nx, ny, step=16, jitter=0, curve=0, x0=0, y0=0):
        self.ty = ty
        xs = [x0 + i * step for i in range(nx + 1)]
        ys = [y0 + i * step for i in range(ny + 1)]
        self.v, self.f, idx = [], [], {}
        for j in range(ny + 1):
            for i in range(nx + 1):
                x, y = xs[i], ys[j]
                if 0 < i < nx: x += r.randint(-jitter, jitter)
                if 0 < j < ny: y += r.randint(-jitter, jitter)
                idx[i, j] = len(self.v)
                self.v.append([x, y])
        for j in range(ny):
            for i in range(nx):
                q = [idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]]
                if NC[ty] == 4:
                    self.f.append(q)
                elif r.random() < 0.5:
                    self.f += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                else:
                    self.f += [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
        self.mid = {}
        if ty > 4:
            count = {}
            for f in self.f:
                for k in range(len(f)):
                    e = frozenset((f[k], f[(k + 1) % len(f)]))
                    count[e] = count.get(e, 0) + 1
            for n, f in enumerate(list(self.f)):
                ms = []
                for k in range(len(f)):
                    a, b = f[k], f[(k + 1) % len(f)]
                    e = frozenset((a, b))
                    if e not in self.mid:
                        p, q = self.v[a], self.v[b]
                        m = [(p[0] + q[0]) // 2, (p[1] + q[1]) // 2]
                        if curve and count[e] == 2:
                            d = r.randint(-curve, curve)
                            if abs(p[0] - q[0]) > abs(p[1] - q[1]): m[1] += d
                            else: m[0] += d
                        self.mid[e] = len(self.v)
                        self.v.append(m)
                    ms.append(self.mid[e])
                self.f[n] = f + ms

    def n(self):
        return NC[self.ty]

    def rotate(self, f, k):
        n = self.n()
        return f[k:n] + f[:k] + (f[n + k:] + f[n:n + k] if self.ty > 4 else [])

    def flip(self, f):
        n = self.n()
        c = [f[0]] + f[1:n][::-1]
        return c + (f[n:][::-1] if self.ty > 4 else [])

    def renumber(self, r):
        p = list(range(len(self.v)))
        r.shuffle(p)
        v = [None] * len(p)
        for i, x in enumerate(p): v[x] = self.v[i]
        self.v = v
        self.f = [[p[x] for x in f] for f in self.f]

    def area2(self, f):
        n = self.n()
        return sum(cross(self.v[f[k]], self.v[f[(k + 1) % n]]) for k in range(n))


def defects(r, t):
    """Damage a tiling in one of several ways."""
    k = r.randrange(7)
    f = t.f
    if k == 0 and len(f) > 1:
        for _ in range(r.choice([1, 1, 2])):
            if len(f) > 1: f.pop(r.randrange(len(f)))
    elif k == 1:
        f.append(list(r.choice(f)))
    elif k == 2:                       # the same face once more in the other direction or from another corner
        g = list(r.choice(f))
        f.insert(r.randrange(len(f) + 1), t.rotate(g, r.randrange(t.n())) if r.random() < .5 else t.flip(g))
    elif k == 3:                       # a vertex of one face replaced by a copy
        i = r.randrange(len(f))
        j = r.randrange(len(f[i]))
        t.v.append(list(t.v[f[i][j]]))
        f[i][j] = len(t.v) - 1
    elif k == 4:
        t.v.append([r.randint(0, 32), r.randint(0, 32)])
    elif k == 5 and len(f) > 2:        # a corner-only contact
        keep = r.sample(f, 2)
        t.f = keep
    return t


def encode(o):
    k = o["k"]
    if k == "new": return "new %d" % o["ty"]
    if k == "addv": return "addv %d %d" % tuple(o["p"])
    if k == "addf": return "addf " + " ".join(map(str, o["c"]))
    if k == "build":
        z = o.get("z") or [0] * len(o["v"])
        return "build %d %s %d %s %d %s" % (o["ty"], o["via"], len(o["v"]),
            " ".join("%d %d %d" % (p[0], p[1], q) for p, q in zip(o["v"], z)), len(o["f"]),
            " ".join(" ".join(map(str, f)) for f in o["f"]))
    if k in ("flip", "get"): return "%s %d" % (k, o["i"])
    if k == "loc": return "loc %d %d" % tuple(o["p"])
    if k == "ray": return "ray %d %d %d %d %d" % (*o["p"], *o["d"], o["h"])
    return k
