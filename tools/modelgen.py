"""Random histories of model-building calls shared by C01, C02, C03 and C21."""
from vlib import flat

F = {"unit": "u z", "cyl": "p r nr na ord", "rect": "w h nx ny", "cell": "w h t m ms", "rtm": "rows",
     "lat": "rows", "asy": "l z", "core": "rows", "grid": "w h nx ny", "clear": "", "copy": "", "export": "",
     "homog": "c", "mcl": "", "vol": "", "pinq": "t m"}


def hexs(s):
    return "x" + s.encode().hex()


def encode(op):
    k = op["k"]
    if k == "unit":
        return "unit %r %r" % (op["u"] / 1000, op["z"] / 1000)
    if k == "mat":
        return "mat %s %s" % (hexs(op["n"]), flat(op["xs"]))
    if k == "matx":
        return "matx %s %d %s %s %d %d %d %s" % (
            hexs(op["n"]), op["g"], " ".join(" ".join(map(str, op[x])) for x in ("a", "f", "nuf", "tr")),
            " ".join(" ".join(map(str, row)) for row in op["ss"]), op["den"], op["tmp"], len(op["z"]),
            " ".join("%d %d" % p for p in zip(op["z"], op["nd"])))
    if k == "wfiles":
        return "wfiles %d %d %s" % (op["kn"], op["xs"], hexs(op["base"]))
    if k == "pincell":
        return "pincell %s %d %s" % (" ".join(flat(op[f]) for f in F["cyl"].split()), len(op["ms"]),
                                     " ".join(hexs(m) for m in op["ms"]))
    if k == "mesh":
        v = " ".join("%d %d" % tuple(p) for p in op["v"])
        f = " ".join(" ".join(map(str, x)) for x in op["f"])
        return "mesh %d %d %s %d %s" % (op["t"], len(op["v"]), v, len(op["f"]), f)
    if k == "imp":
        return "imp %s %s" % (hexs(op["name"]), hexs(op["text"]))
    if k == "wr":
        return "wr %d %d %s %d" % (op["kn"], op["xs"], hexs(op["name"]), op["twice"])
    return " ".join([k] + [flat(op[f]) for f in F[k].split()])


def sample_mesh(r, t, w, h, fine=False):
    """A mesh of kind t tiling [0,w]x[0,h] (even lengths), small unless fine."""
    nx, ny = r.choice([(1, 1), (2, 1), (1, 2)])
    if t in (3, 6):
        nx, ny = 1, 1
    if fine:
        nx, ny = r.choice([(4, 4), (8, 2), (2, 8), (4, 8), (8, 4), (2, 4)])
    order2 = t in (6, 8)
    dx, dy = w // nx, h // ny
    V = {}
    pts = []

    def vid(x, y):
        if (x, y) not in V:
            V[(x, y)] = len(pts)
            pts.append([x, y])
        return V[(x, y)]
    faces = []
    corner = []
    for j in range(ny):
        for i in range(nx):
            c = [(i * dx, j * dy), ((i + 1) * dx, j * dy), ((i + 1) * dx, (j + 1) * dy), (i * dx, (j + 1) * dy)]
            if t in (3, 6):
                cut = r.random() < 0.5
                corner += [[c[0], c[1], c[2]], [c[0], c[2], c[3]]] if cut else [[c[1], c[2], c[3]], [c[0], c[1], c[3]]]
            else:
                corner.append(c)
    for c in corner:
        f = [vid(*p) for p in c]
        if order2:
            n = len(c)
            for q in range(n):
                a, b = c[q], c[(q + 1) % n]
                f.append(vid((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
        faces.append(f)
    return {"k": "mesh", "t": t, "v": pts, "f": faces}


def placed(ops, faces):
    """Number of faces of the whole core, given the number of faces of every cell."""
    get = lambda k, f: [o[f] for o in ops if o["k"] == k]
    if get("grid", "w"):
        return sum(faces)
    rtm = [sum(faces[c] for row in x for c in row) for x in get("rtm", "rows")]
    lat = [sum(rtm[c] for row in x for c in row) for x in get("lat", "rows")]
    asy = [sum(lat[c] for c in x) for x in get("asy", "l")]
    return sum(asy[c] for x in get("core", "rows") for row in x for c in row)


class Gen:
    """Keeps just enough of the model to produce mostly valid calls."""

    def __init__(self, r, bad=0.25, unit=None, fine=0.08):
        self.r = r
        self.fine = fine
        self.bad = bad
        u, zu = unit or r.choice([(1000, 500), (250, 500), (1260, 500), (100, 3700), (2000, 1000)])
        self.zu = zu / 1000
        self.ops = [{"k": "unit", "u": u, "z": zu}]         # thousandths
        self.ngroups = r.choice([1, 2, 3])
        self.reset()

    def reset(self):
        self.mats = []
        self.nf = {3: [], 4: [], 6: [], 8: []}      # (faces, w, h)
        self.cells = []                             # (w, h, faces)
        self.rtms = []
        self.lats = []                              # (nx, ny)
        self.asys = []                              # (nx, ny, nz)
        self.core = False
        self.ext = None
        self.z = None

    def add(self, o):
        self.ops.append(o)

    def mat(self):
        r = self.r
        names = ["UO2", "H2O", "Clad", "MOX", "A_very_long_material_name_exceeding_22"]
        n = r.choice(names) if r.random() < .1 and self.mats else "%s%d" % (r.choice(names), len(self.mats))
        self.mats.append(n)
        self.add({"k": "mat", "n": n, "xs": [r.randrange(1, 40) for _ in range(self.ngroups)]})

    def bad_now(self):
        return self.r.random() < self.bad

    def pin(self, k):
        r = self.r
        p = r.choice([64, 80, 128])
        n = r.choice([1, 1, 2, 3])
        rs = sorted(r.sample(range(p // 10, (p * 9) // 20), n))
        nr = [r.choice([1, 1, 2, 3]) for _ in range(n)]
        o = {"k": k, "p": p, "r": rs, "nr": nr, "na": r.choice([8, 8, 16, 32]), "ord": r.choice([1, 2])}
        ok = True
        if self.bad_now():
            b = r.randrange(6)
            ok = False
            if b == 0: o["r"] = rs[:-1] + [p // 2 + r.choice([1, 5])]
            elif b == 1: o["na"] = r.choice([4, 2, 12, 24, 0, 9])
            elif b == 2: o["nr"] = nr + [1] if r.random() < .5 or n == 1 else nr[:-1]
            elif b == 3: o["ord"] = r.choice([0, 3])
            elif b == 4 and o["na"] == 8 and o["ord"] == 1: o["r"] = rs[:-1] + [p // 2 - 1]
            else: ok = True
        if ok and o["ord"] == 1 and o["na"] == 8 and max(o["r"]) > 0.47 * p:
            return
        if k == "pincell":
            if not self.mats:
                return
            o["ms"] = [r.choice(self.mats) for _ in range(len(o["nr"]) + 1)]
            if self.bad_now():
                ok = False
                if r.random() < .5: o["ms"] = o["ms"][:-1] if r.random() < .5 else o["ms"] + o["ms"][:1]
                else: o["ms"] = o["ms"][:]; o["ms"][r.randrange(len(o["ms"]))] = "NoSuch"
        self.add(o)
        if ok:
            t = 4 if o["ord"] == 1 else 8
            nf = o["na"] * (sum(o["nr"]) + 1)
            self.nf[t].append((nf, p, p))
            if k == "pincell":
                self.cells.append((p, p, nf))

    def rect(self):
        r = self.r
        nx, ny = r.choice([1, 2, 3]), r.choice([1, 2, 4])
        w, h = nx * r.choice([8, 16, 24]), ny * r.choice([8, 16])
        o = {"k": "rect", "w": w, "h": h, "nx": nx, "ny": ny}
        if self.bad_now():
            o[r.choice(["w", "h", "nx", "ny"])] = r.choice([0, -2])
        else:
            self.nf[4].append((nx * ny, w, h))
        self.add(o)

    def mesh(self, t=None, w=None, h=None):
        r = self.r
        t = t or r.choice([3, 4, 6, 8])
        w, h = w or r.choice([16, 32, 64]), h or r.choice([16, 32, 48])
        o = sample_mesh(r, t, w, h, r.random() < self.fine)
        self.add(o)
        self.nf[t].append((len(o["f"]), w, h))

    def cell(self, force_bad=False):
        r = self.r
        ts = [t for t in self.nf if self.nf[t]]
        if not ts or not self.mats:
            if r.random() < .5:
                return
            o = {"k": "cell", "w": 16, "h": 16, "t": 0, "m": -1, "ms": []}
            self.add(o)
            self.cells.append((16, 16, 0))
            return
        t = r.choice(ts)
        m = r.randrange(len(self.nf[t]))
        nf, w, h = self.nf[t][m]
        o = {"k": "cell", "w": w, "h": h, "t": t, "m": m, "ms": [r.randrange(len(self.mats)) for _ in range(nf)]}
        if self.bad_now():
            b = r.randrange(7)
            if b == 0: o["w"] = r.choice([0, -16])
            elif b == 1: o["h"] = r.choice([0, -16])
            elif b == 2: o["m"] = r.choice([len(self.nf[t]), -2, 77])
            elif b == 3: o["ms"] = o["ms"] + [0]
            elif b == 4: o["ms"] = o["ms"][:-1]
            elif b == 5: o["ms"] = o["ms"][:]; o["ms"][r.randrange(nf)] = r.choice([len(self.mats), -1])
            else: o["t"] = 0
            self.add(o)
            return
        self.add(o)
        self.cells.append((w, h, nf))

    def rtm(self):
        r = self.r
        if not self.cells:
            return
        if self.bad_now():
            b = r.randrange(3)
            w, h, _ = self.cells[0]
            same = [i for i, c in enumerate(self.cells) if c[:2] == (w, h)]
            rows = [[r.choice(same) for _ in range(2)] for _ in range(2)]
            if b == 0: rows[r.randrange(2)][r.randrange(2)] = r.choice([-1, len(self.cells)])
            elif b == 1: rows[1] = rows[1][:1] if r.random() < .5 else rows[1] + [0]
            elif self.ext and (3 * w, h) != self.ext: rows = [[same[0]] * 3]
            else: return
            self.add({"k": "rtm", "rows": rows})
            return
        sizes = sorted({c[:2] for c in self.cells})
        for _ in range(20):
            nx, ny = r.choice([1, 2, 3]), r.choice([1, 2, 3])
            ws = [r.choice(sizes)[0] for _ in range(nx)]
            hs = [r.choice(sizes)[1] for _ in range(ny)]
            if self.ext and (sum(ws), sum(hs)) != self.ext:
                continue
            rows = []
            for j in range(ny):
                row = []
                for i in range(nx):
                    c = [q for q, x in enumerate(self.cells) if x[:2] == (ws[i], hs[j])]
                    if not c:
                        row = None
                        break
                    row.append(r.choice(c))
                if row is None:
                    break
                rows.append(row)
            if len(rows) == ny:
                self.add({"k": "rtm", "rows": rows})
                self.rtms.append(rows)
                self.ext = (sum(ws), sum(hs))
                return

    def lat(self, n=None):
        r = self.r
        if not self.rtms:
            return
        nx, ny = n or (r.choice([1, 2, 3]), r.choice([1, 2]))
        rows = [[r.randrange(len(self.rtms)) for _ in range(nx)] for _ in range(ny)]
        if self.bad_now():
            if r.random() < .5: rows[r.randrange(ny)][r.randrange(nx)] = r.choice([-1, len(self.rtms), 9])
            else: rows.append(rows[0] + [0] if r.random() < .5 or nx == 1 else rows[0][:-1])
            self.add({"k": "lat", "rows": rows})
            return
        self.add({"k": "lat", "rows": rows})
        self.lats.append((nx, ny))

    def asy(self):
        r = self.r
        if not self.lats:
            return
        half = round(2 * 0.5 / self.zu) if self.zu in (0.5, 1.0) else 1
        flat2 = self.zu in (0.5, 1.0)
        nz = r.choice([1, 1, 2, 3])
        base = r.choice(self.lats)
        same = [i for i, l in enumerate(self.lats) if l == base]
        ls = [r.choice(same) for _ in range(nz)]
        top = self.z[-1] if self.z else r.choice([4, 7, 20, half])
        bot = self.z[0] if self.z else (-half if flat2 and r.random() < .3 else 0)
        if bot < 0:
            top = half
        inner = sorted(r.sample(range(bot + 1, top), min(nz - 1, max(0, top - bot - 1))))
        z = [bot] + inner + [top]
        ls = ls[:len(z) - 1]
        o = {"k": "asy", "l": ls, "z": z, "flat": flat2, "half": half}
        if self.bad_now():
            b = r.randrange(6)
            if b == 0: o["l"] = ls[:]; o["l"][r.randrange(len(ls))] = r.choice([-1, len(self.lats)])
            elif b == 1: o["z"] = z + [z[-1] + 2]
            elif b == 2: o["z"] = z[:-1] if len(z) > 2 else z + [z[-1]]
            elif b == 3 and len(z) > 2: o["z"] = [z[0]] + [z[-1] + 1] + z[2:]
            elif b == 4: o["z"] = [z[0] + 1] + z[1:] if len(z) < 3 or z[1] > z[0] + 1 else z + [9]
            elif self.z: o["z"] = z[:-1] + [z[-1] + 3]
            else: o["z"] = z[::-1]
            self.add(o)
            return
        other = [i for i, l in enumerate(self.lats) if l != base]
        if other and self.bad_now() and len(ls) > 1:
            o["l"] = ls[:]
            o["l"][r.randrange(1, len(ls))] = r.choice(other)
            self.add(o)
            return
        self.add(o)
        self.asys.append((base[0], base[1], len(ls)))
        self.z = z

    def cor(self):
        r = self.r
        if not self.asys:
            return
        nx, ny = r.choice([1, 2, 3]), r.choice([1, 2])
        if self.bad_now():
            rows = [[r.randrange(len(self.asys)) for _ in range(nx)] for _ in range(ny)]
            rows = [[rows[0][0]] * nx for _ in range(ny)]
            if r.random() < .6: rows[0][0] = r.choice([-1, len(self.asys)])
            else: rows.append(rows[0] + rows[0][:1])
            self.add({"k": "core", "rows": rows})
            return
        ws = [r.choice(self.asys)[0] for _ in range(nx)]
        hs = [r.choice(self.asys)[1] for _ in range(ny)]
        rows = []
        for j in range(ny):
            row = []
            for i in range(nx):
                c = [q for q, a in enumerate(self.asys) if a[:2] == (ws[i], hs[j])]
                if not c:
                    rows = None
                    break
                row.append(r.choice(c))
            if rows is None:
                break
            rows.append(row)
        if rows is None:
            a = r.randrange(len(self.asys))
            rows = [[a] * nx for _ in range(ny)]
        self.add({"k": "core", "rows": rows})
        self.core = True

    def history(self, n):
        r = self.r
        fs = [self.mat, lambda: self.pin("cyl"), lambda: self.pin("pincell"), self.rect, self.mesh, self.mesh,
              self.cell, self.cell, self.cell, self.rtm, self.rtm, self.lat, self.asy, self.cor]
        while len(self.ops) < n:
            x = r.random()
            if x < .01:
                self.add({"k": "clear"})
                self.reset()
            elif x < .02:
                self.add({"k": "copy"})
            elif x < .04 and not (self.cells or self.rtms or self.lats or self.asys) and self.zu in (0.5, 1.0):
                nx, ny = r.choice([1, 2, 3]), r.choice([1, 2, 3])
                o = {"k": "grid", "w": nx * 16, "h": ny * 8, "nx": nx, "ny": ny, "half": round(1 / self.zu)}
                if r.random() < .4:
                    o[r.choice(["w", "h", "nx", "ny"])] = 0
                else:
                    self.cells = [(16, 8, 0)] * (nx * ny)
                    self.rtms = [[[i]] for i in range(nx * ny)]
                    self.ext = (16, 8)
                    self.lats = [(nx, ny)]
                    self.asys = [(nx, ny, 1)]
                    self.z = [-o["half"], o["half"]]
                    self.core = True
                self.add(o)
            else:
                r.choice(fs)()
        return self.ops

    def extra_cells(self, ws, hs):
        pass

    def complete(self, kinds=(3, 4, 6, 8), nmat=None, core=True, nz=None):
        """A complete model over tracked meshes (no rejected calls)."""
        r = self.r
        self.bad = 0
        for _ in range(nmat or r.choice([1, 2, 3, 4])):
            self.mat()
        ws = r.sample([16, 32, 48, 64], r.choice([1, 2, 2]))
        hs = r.sample([16, 32, 48], r.choice([1, 2, 2]))
        for w in ws:
            for h in hs:
                for _ in range(r.choice([1, 1, 2])):
                    self.mesh(r.choice(kinds), w, h)
        for t in self.nf:
            for m in range(len(self.nf[t])):
                for _ in range(r.choice([1, 1, 2])):
                    nf, w, h = self.nf[t][m]
                    self.add({"k": "cell", "w": w, "h": h, "t": t, "m": m,
                              "ms": [r.randrange(len(self.mats)) for _ in range(nf)]})
                    self.cells.append((w, h, nf))
        self.extra_cells(ws, hs)
        for _ in range(r.choice([1, 2, 3])):
            self.rtm()
        nx, ny = r.choice([1, 2, 2, 3]), r.choice([1, 1, 2])
        for _ in range(r.choice([1, 2, 2])):
            self.lat((nx, ny))
        if r.random() < .4:
            self.lat((r.choice([1, 2]), ny))
        for _ in range(r.choice([1, 2, 2])):
            self.asy()
        if core:
            self.cor()
        return self.ops
