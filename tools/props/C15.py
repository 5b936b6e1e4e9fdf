"""C15: reading cross section library files."""
from modelgen import hexs
from vlib import *


class Text:
    """Renders the lines of a library in one of many equivalent layouts."""

    def __init__(self, r):
        self.r = r
        self.fmt = r.choice(["%.6E", "%.8e", "%.10g", "%13.6E"])
        self.trail = r.choice(["", "", " ", "   "])
        self.lead = r.choice(["", " ", "   "])
        self.sep = r.choice([" ", "  ", " ", "     "])
        self.ctr = 0

    def num(self, x, d):
        return self.fmt % (x / d)

    def vals(self, v, d):
        return self.lead + self.sep.join(self.num(x, d) for x in v) + self.trail

    def line(self, l):
        k, r = l["k"], self.r
        if k == "ver":
            return "%%VER:\n%s4.%d%s" % (r.choice(["", "  "]), r.randrange(9), r.choice(["", "m0 12/07/2015", " "]))
        if k == "dim":
            return "%%DIM:\n%s%s%s" % (self.lead, self.sep.join(str(x) for x in
                                      [l["g"], r.randrange(9), r.randrange(9), r.randrange(9), l["n"]] + [r.randrange(99) for _ in range(5)]), self.trail)
        if k == "grp":
            return "%GRP:"
        if k == "chi":
            return "%CHI:"
        if k == "dir":
            return "%DIR:"
        if k == "gb":
            return self.vals(l["v"], 8)
        if k == "cv":
            return self.vals(l["v"], 1024)
        if k == "nuc":
            self.ctr += 1
            return "%%NUC%s%s" % (self.sep, self.sep.join([str(self.ctr), str(l["z"]), "%.4f" % (l["m"] / 1e4)] +
                                  [str(r.randrange(4)) for _ in range(4)] + [str(l["nt"])] + [str(r.randrange(4)) for _ in range(r.randrange(6))])) + self.trail
        if k == "tp":
            return self.lead + "TP1+" + self.trail + "\n" + self.vals(l["v"], 4)
        if k == "xsd":
            return self.lead + "XSD+" + self.trail
        if k == "row":
            h = "%s%d%s%d%s%s" % (self.lead, l["g"], self.sep, l["t"], self.sep, self.num(l["a"], 8))
            if "f" not in l:
                return h + self.trail
            return h + self.sep + self.sep.join([self.num(l[x], 8) for x in ("f", "nuf", "tr", "s")] +
                                                [str(l["lo"]), str(l["lo"] + len(l["v"]) - 1)] + [self.num(x, 8) for x in l["v"]]) + self.trail
        if k == "other":
            return "\n".join(r.choice(["  RES+", " 1 2 3.5E+00", "XSS+ 4", "   235 U-235 0.72", "TP2+", "* comment", "   XSD2"]) for _ in range(r.choice([1, 1, 3])))
        if k == "end":
            return "%END" + r.choice(["", "\n", ":\n"])
        raise KeyError(k)


def encode(op):
    if op["k"] == "get":
        return "get %d" % op["z"]
    t = Text(random.Random("%d %s" % (SEED, json.dumps(op["lines"]))))
    return "file " + hexs("\n".join(t.line(l) for l in op["lines"]))


def split(r, v):
    out = []
    while v:
        n = r.choice([1, 2, 3, 5, 8])
        out.append(v[:n])
        v = v[n:]
    return out


def library(r):
    G = r.choice([1, 2, 3, 7, 8, 20])
    N = r.choice([1, 2, 3, 6])
    zs = r.sample([1001, 1002, 5010, 8016, 8017, 40090, 92235, 92238, 94239, 601, 72174], N)
    L = [{"k": "ver"}, {"k": "dim", "g": G, "n": N}, {"k": "grp"}]
    gb = sorted(r.sample(range(1, 4000), G), reverse=True)
    if r.random() < .2:
        gb[-1] = 0
    L += [{"k": "gb", "v": v} for v in split(r, gb)]
    L += [{"k": "chi"}] + [{"k": "cv", "v": v} for v in split(r, [r.choice([0, r.randrange(1024)]) for _ in range(G)])]
    L += [{"k": "dir"}]
    if r.random() < .8:
        L.append({"k": "other"})
    for z in zs:
        T = r.choice([1, 1, 2, 3, 5])
        L.append({"k": "nuc", "z": z, "m": r.randrange(10000, 2500000), "nt": T})
        L.append({"k": "tp", "v": sorted(r.sample(range(1000, 9000), T))})
        L.append({"k": "xsd"})
        only = r.random() < .2
        fis = [z > 90000 and r.random() < .8 for _ in range(T)]
        mixed = r.random() < .3
        for g in range(1, G + 1):
            for t in range(1, T + 1):
                row = {"k": "row", "g": g, "t": t, "a": r.randrange(-5 if r.random() < .1 else 0, 5000)}
                if not (only or (mixed and r.random() < .4)):
                    f = r.choice([0, r.randrange(1, 400)]) if fis[t - 1] else 0
                    lo = r.choice([1, g, max(1, g - 1), r.randrange(1, G + 1)])
                    n = r.choice([1, 2, G - lo + 1, G - lo + 1])
                    v = [r.choice([0, r.randrange(900), r.randrange(900), r.randrange(-90, 900)]) for _ in range(min(n, G - lo + 1))]
                    row.update({"f": f, "nuf": 2 * f + (f > 9), "tr": r.randrange(900), "s": r.randrange(900), "lo": lo, "v": v})
                L.append(row)
        if r.random() < .7:
            L.append({"k": "other"})
    L.append({"k": "end"})
    ops = [{"k": "file", "lines": L}]
    ops += [{"k": "get", "z": z} for z in r.sample(zs, min(3, N))]
    if r.random() < .3:
        ops.append({"k": "get", "z": 99999})
    return ops


def corrupt(t, r):
    for e in t:
        o = e["out"]
        if o.get("nuc"):
            n = r.choice(o["nuc"])
            x = r.choice(n["xs"])
            k = r.choice(["a", "f", "tr", "s", "ss"])
            v = x[k] if k != "ss" else r.choice(x[k])
            v[r.randrange(len(v))] += 1
            return True
    return False


def run(c):
    exe = c.build(("phys", True))["phys"]
    gen = []
    for cfg in ("XsLibMC.cfg", "XsLibMC3.cfg"):
        c.model("XsLibMC.tla", cfg)
        gen += c.generate("XsLibMC.tla", cfg)
    c.rng.shuffle(gen)
    gen = gen[:2000 if c.quick else 20000]
    for b in gen:
        b += [{"k": "get", "z": l["z"]} for l in b[0]["lines"] if l["k"] == "nuc"]
    c.conform(exe, encode, gen, "XsLibTrace.tla", "XsLibTrace.cfg", name="all small files", corrupt=corrupt)
    bs = []
    for _ in range(320 if c.quick else 2500):
        b = library(c.rng)
        if c.rng.random() < .4:
            b += library(c.rng)
        bs.append(b)
    c.conform(exe, encode, bs, "XsLibTrace.tla", "XsLibTrace.cfg", name="random files", corrupt=corrupt)
