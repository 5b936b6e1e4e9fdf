"""C03: a model written to a file and read back is equivalent."""
from vlib import *
from modelgen import Gen, encode

NAMES = ["m.xdmf", "core.v2.xdmf", "d/sub.xdmf", "./x.xdmf", "a_long_file_name_beyond_inline_storage.xdmf"]


def used(ops):
    cells = [o for o in ops if o["k"] == "cell"]
    rtms = [o for o in ops if o["k"] == "rtm"]
    lats = [o for o in ops if o["k"] == "lat"]
    asys = [o for o in ops if o["k"] == "asy"]
    cores = [o for o in ops if o["k"] == "core"]
    if not cores:
        return False
    s = lambda rows: {x for r in rows for x in r}
    A = s(cores[0]["rows"])
    L = {x for a in A for x in asys[a]["l"]}
    R = {x for l in L for x in s(lats[l]["rows"])}
    C = {x for r in R for x in s(rtms[r]["rows"])}
    return (len(A), len(L), len(R), len(C)) == (len(asys), len(lats), len(rtms), len(cells))


def wr(r, name=None):
    return {"k": "wr", "kn": r.randrange(2), "xs": r.randrange(2), "name": name or r.choice(NAMES), "twice": 0, "unused": False}


def prune(ops):
    """Drop parts that the core does not use and renumber the rest."""
    by = {k: [o for o in ops if o["k"] == k] for k in ("cell", "rtm", "lat", "asy", "core")}
    if not by["core"]:
        return None
    core = dict(by["core"][0])
    def ren(ids):
        u = sorted(set(ids))
        return u, {x: i for i, x in enumerate(u)}
    f = lambda rows: [x for r in rows for x in r]
    A, am = ren(f(core["rows"]))
    asys = [dict(by["asy"][a]) for a in A]
    L, lm = ren([x for a in asys for x in a["l"]])
    lats = [dict(by["lat"][x]) for x in L]
    R, rm = ren([x for l in lats for x in f(l["rows"])])
    rtms = [dict(by["rtm"][x]) for x in R]
    C, cm = ren([x for t in rtms for x in f(t["rows"])])
    core["rows"] = [[am[x] for x in r] for r in core["rows"]]
    for a in asys: a["l"] = [lm[x] for x in a["l"]]
    for l in lats: l["rows"] = [[rm[x] for x in r] for r in l["rows"]]
    for t in rtms: t["rows"] = [[cm[x] for x in r] for r in t["rows"]]
    head = [o for o in ops if o["k"] in ("unit", "mat", "mesh")]
    return head + [by["cell"][x] for x in C] + rtms + lats + asys + [core]


def big(r, n):
    """Many parts of every kind, ids with more than one digit, each used once in shuffled places."""
    mats = ["M%d" % i for i in range(r.randrange(1, 12))]
    ops = [{"k": "unit", "u": r.choice([1000, 1260]), "z": 1000}] + [{"k": "mat", "n": m, "xs": [8]} for m in mats]
    ops += [{"k": "mesh", "t": 4, "v": [[0, 0], [16, 0], [16, 16], [0, 16]], "f": [[0, 1, 2, 3]]}]
    ops += [{"k": "cell", "w": 16, "h": 16, "t": 4, "m": 0, "ms": [r.randrange(len(mats))]} for _ in range(n)]
    sh = lambda: r.sample(range(n), n)
    ops += [{"k": "rtm", "rows": [[x]]} for x in sh()]
    ops += [{"k": "lat", "rows": [[x]]} for x in sh()]
    l = sh()
    k = r.choice([1, n, n])
    if k == 1:
        ops += [{"k": "asy", "l": l, "z": list(range(0, n + 1)), "flat": True, "half": n}, {"k": "core", "rows": [[0]]}]
    else:
        ops += [{"k": "asy", "l": [x], "z": [0, 2], "flat": True, "half": 1} for x in l]
        w = r.choice([d for d in range(1, n + 1) if n % d == 0])
        a = sh()
        ops += [{"k": "core", "rows": [a[i:i + w] for i in range(0, n, w)]}]
    return ops


def corrupt(t, r):
    o = t[-1]["out"]
    if t[-1]["op"]["k"] != "wr" or "crash" in o:
        return False
    k = r.randrange(4)
    if k == 0: o["asys"][-1]["z"][-1] += 1
    elif k == 1: r.choice(o["cells"])["ms"][0] += 1
    elif k == 2: o["lats"][-1]["ch"][0] += 1
    else: o["mats"][0] += "x"
    return True


SC = [{"k": "unit", "u": 1000, "z": 500}, {"k": "mat", "n": "A", "xs": [8]},
      {"k": "mesh", "t": 4, "v": [[0, 0], [16, 0], [16, 16], [0, 16]], "f": [[0, 1, 2, 3]]},
      {"k": "cell", "w": 16, "h": 16, "t": 4, "m": 0, "ms": [0]},
      {"k": "cell", "w": 16, "h": 16, "t": 4, "m": 0, "ms": [0]}]
TAIL = [{"k": "rtm", "rows": [[1]]}, {"k": "lat", "rows": [[0]]},
        {"k": "asy", "l": [0], "z": [0, 4], "flat": True, "half": 2}, {"k": "core", "rows": [[0]]}]


def run(c):
    exe = c.build(("model", True))["model"]
    c.model("ModelMC.tla", "ModelMC.cfg")
    bs = c.generate("LayoutMC.tla", "LayoutMC.cfg" if c.quick else "LayoutMC2.cfg")
    c.rng.shuffle(bs)
    bs = [b[:-1] + [wr(c.rng)] for b in bs if used(b)]
    bs = bs[:500 if c.quick else 4000]
    c.conform(exe, encode, bs, "ModelFileTrace.tla", "ModelFileTrace.cfg", name="small nestings", corrupt=corrupt)
    rb = []
    while len(rb) < (160 if c.quick else 1500):
        g = Gen(c.rng, fine=c.rng.choice([0, 0, .5]))
        ops = prune(g.complete())
        if ops:
            w = wr(c.rng)
            if c.rng.random() < .3:
                w.update(kn=0, xs=0, twice=1, name=c.rng.choice(["m.xdmf", "core.v2.xdmf"]))
            rb.append(ops + [w])
    rb += [big(c.rng, n) + [wr(c.rng)] for n in ([12, 16, 24, 33] if c.quick else [10, 11, 12, 14, 20, 30, 48, 60, 105])]
    c.conform(exe, encode, rb, "ModelFileTrace.tla", "ModelFileTrace.cfg", name="random models", corrupt=corrupt)
    w = dict(wr(c.rng), unused=True, kn=0, xs=0)
    c.known_conform("unused-part", exe, encode, SC + TAIL + [w], "ModelFileTrace.tla", "ModelFileTrace.cfg")
    sc = json.loads(json.dumps(SC[:4] + TAIL + [w]))
    sc[1]["n"] = "A, B"
    sc[4]["rows"] = [[0]]
    c.known_conform("comma-name", exe, encode, sc, "ModelFileTrace.tla", "ModelFileTrace.cfg")
