"""C14: material composition, interpolation, mixing and collapse of cross sections."""
import re
from modelgen import hexs
from vlib import *

DATA = open(os.path.join(SPEC, "NuclideData.tla")).read()
MASSES = [int(a) for a in re.findall(r"<<(\d+), \d+>>", DATA)]
ELEMENTS = re.findall(r'"([A-Z][a-z]?)"', DATA[DATA.index("Elements"):DATA.index("C5G7")])


def sym(p, dash):
    return hexs(p[0] + ("-" if dash else "") + str(p[1]))


def xsf(x, withs=False):
    return " ".join(flat_plain(x[k]) for k in (("a", "f", "nuf", "tr", "s") if withs else ("a", "f", "nuf", "tr"))) \
        + " " + " ".join(flat_plain(r) for r in x["ss"])


def flat_plain(v):
    return " ".join(str(x) for x in v)


def encode(op):
    k = op["k"]
    d = op.get("dash", 0)
    if k == "lib":
        return "lib %d" % op["g"]
    if k == "nuc":
        return "nuc %d %s %s" % (op["z"], flat(op["ts"]), " ".join(xsf(x) for x in op["xs"]))
    if k == "mat":
        return "mat %d %d" % (op["den"], op["q"])
    if k == "temp":
        return "temp %d" % op["q"]
    if k == "add":
        return "add %d %d" % (op["z"], op["nd"])
    if k == "addsym":
        return "addsym %s %d" % (sym(op["sy"][0], d), op["nd"])
    if k == "wt":
        return "wt %d %d" % (op["z"], op["w"])
    if k == "wtsym":
        return "wtsym %s %d" % (sym(op["sy"][0], d), op["w"])
    if k == "at":
        return "at %d %s" % (len(op["w"]), " ".join("%s %d" % (sym(s, d), w) for s, w in zip(op["sy"], op["w"])))
    if k == "uo2":
        return "uo2 %d %d" % (op["e"], op["gd"])
    if k == "zaid":
        return "zaid %s" % sym(op["sy"], d)
    if k in ("pop", "col", "c5g7"):
        return k
    if k == "interp":
        return "interp %d %d" % (op["z"], op["q"])
    if k == "xcol":
        return "xcol %d %s" % (len(op["x"]["a"]), xsf(op["x"]))
    if k == "xval":
        return "xval %d %d %d %s" % (op["macro"], op["fis"], len(op["x"]["a"]), xsf(op["x"], True))
    raise KeyError(k)


def vec(r, G, hi, z=0.2):
    return [0 if r.random() < z else r.randrange(0, hi) for _ in range(G)]


def table(r, G, fis):
    f = [0] * G
    if fis:
        f = vec(r, G, 300)
        if fis == 2 and G > 1:      # in one group only
            f = [0] * G
            f[r.randrange(G)] = r.randrange(1, 90)
    return {"a": vec(r, G, 400), "f": f, "nuf": [2 * x + (x > 3) for x in f], "tr": vec(r, G, 900),
            "ss": [vec(r, G, 200, 0.5) for _ in range(G)]}


def rnd(r):
    G = r.choice([1, 2, 3, 7])
    zs = r.sample([1001, 5010, 6000, 8016, 40000, 64155, 92234, 92235, 92236, 92238, 94239, 26056, 64152, 64154, 64156, 64157,
                   64158, 64160], r.choice([2, 4, 18]))
    ops = [{"k": "lib", "g": G}]
    temps = {}
    for z in zs:
        nt = r.choice([1, 2, 3, 5])
        ts = sorted(r.sample(range(60, 140), nt))
        fis = z > 92000
        xs = [table(r, G, 0 if not fis or (nt > 1 and r.random() < .3) else r.choice([1, 2])) for _ in ts]
        ops.append({"k": "nuc", "z": z, "ts": ts, "xs": xs})
        temps[z] = ts
    alltemps = [t for ts in temps.values() for t in ts]

    def temp():
        return r.choice([r.choice(alltemps), r.randrange(50, 150), r.randrange(60, 140)])
    for z in zs[:3]:
        for _ in range(3):
            ops.append({"k": "interp", "z": z, "q": temp()})
    name = {1: "H", 5: "B", 6: "C", 8: "O", 26: "Fe", 40: "Zr", 64: "Gd", 92: "U", 94: "Pu"}
    for _ in range(r.choice([1, 2, 4])):
        ops.append({"k": "mat", "den": r.choice([1, 8, 21, 83, 150]), "q": temp()})
        left = list(zs)
        r.shuffle(left)
        if len(zs) == 18 and r.random() < .7:
            e, g = r.choice([0, 1, 72, 310, 495, 2000, 9500]), r.choice([0, 0, 1, 40, 120, 999, 1000])
            ops.append({"k": "uo2", "e": e, "gd": g})
            gone = {92234, 92235, 92236, 92238, 8016, 64152, 64154, 64155, 64156, 64157, 64158, 64160}
            left = [z for z in left if z not in gone]
        for _ in range(r.choice([1, 2, 3, 6])):
            if not left:
                break
            z = left.pop()
            sy = [[name[z // 1000], z % 1000]]
            d = r.randrange(2)
            ok = z in MASSES
            kind = r.choice(["add", "addsym"] + (["wt", "wtsym", "at"] if ok else []))
            if z % 1000 == 0 and kind in ("addsym", "wtsym", "at"):
                kind = "add"
            if kind == "add":
                ops.append({"k": "add", "z": z, "nd": r.choice([1, 2, 8, 40])})
            elif kind == "addsym":
                ops.append({"k": "addsym", "sy": sy, "nd": r.choice([1, 3, 9]), "dash": d})
            elif kind == "wt":
                ops.append({"k": "wt", "z": z, "w": r.choice([1, 10, 333, 1000])})
            elif kind == "wtsym":
                ops.append({"k": "wtsym", "sy": sy, "w": r.choice([1, 10, 333, 1000]), "dash": d})
            else:
                more = [y for y in left if y in MASSES and y % 1000][:r.choice([0, 1, 2, 3])]
                left = [y for y in left if y not in more]
                w = [r.choice([1, 7, 250, 333, 900]) for _ in range(1 + len(more))]
                ops.append({"k": "at", "sy": sy + [[name[y // 1000], y % 1000] for y in more], "w": w, "dash": d})
        for _ in range(r.choice([1, 2, 3])):
            ops.append({"k": "pop"})
            ops.append({"k": "col"})
            ops.append({"k": "temp", "q": temp()})
    return ops


def nomass(r):
    """Weight fraction conversions of every tabulated nuclide."""
    ops = []
    for z in MASSES:
        if z < 1000:
            continue
        if r.random() < .5:
            ops.append({"k": "mat", "den": r.choice([8, 21, 80]), "q": 80})
            ops.append({"k": "wt", "z": z, "w": r.choice([10, 333, 1000])})
    return ops


def singles(r):
    ops = []
    for e in r.sample(ELEMENTS, 40):
        ops.append({"k": "zaid", "sy": [e, r.choice([1, 2, 9, 10, 38, 99, 100, 235, 260, 999])], "dash": r.randrange(2)})
    ops.append({"k": "c5g7"})
    for _ in range(20):
        G = r.choice([1, 2, 3, 7, 12])
        ops.append({"k": "xcol", "x": table(r, G, r.randrange(3))})
        x = table(r, G, r.choice([0, 1, 2]))
        x["s"] = [sum(x["ss"][i][g] for i in range(G)) for g in range(G)]
        fis = int(any(x["f"])) if r.random() < .6 else r.randrange(2)
        macro = r.randrange(2)
        if r.random() < .6 and macro:
            k = r.choice(["a", "f", "nuf", "tr", "s", "ss"])
            v = x[k] if k != "ss" else r.choice(x["ss"])
            v[r.randrange(G)] = -r.choice([1, 8, 90])
        if r.random() < .2:
            x["f"] = [0] * G
        ops.append({"k": "xval", "macro": macro, "fis": fis, "x": x})
    return ops


def corrupt(t, r):
    for e in t:
        o = e["out"]
        if "x" in o:
            k = r.choice(["a", "s", "tr", "t"])
            o["x"][k][r.randrange(len(o["x"][k]))] += 30000
            return True
    return False


def run(c):
    exe = c.build(("phys", True))["phys"]
    c.model("MaterialMC.tla", "MaterialMC.cfg")
    gen = c.generate("MaterialMC.tla", "MaterialMC.cfg")
    gen = [b + [{"k": "pop"}, {"k": "col"}] if any(o["k"] in ("add", "wt", "addsym", "wtsym", "at") for o in b) else b for b in gen]
    n = 150 if c.quick else 1500
    gen += [rnd(c.rng) for _ in range(n)]
    gen += [singles(c.rng) for _ in range(40)] + [nomass(c.rng) for _ in range(6)]
    c.conform(exe, encode, gen, "MaterialTrace.tla", "MaterialTrace.cfg", name="materials", corrupt=corrupt)
