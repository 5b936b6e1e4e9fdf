"""C23: text to numbers, layouts and labels."""
from vlib import *
from modelgen import hexs

txt = lambda o: hexs("".join(chr(x) for x in o["t"]))
C = lambda s: [ord(x) for x in s]


def encode(o):
    k = o["k"]
    if k == "lay": return "lay %s %d %s" % (o["f"], o["d"], txt(o))
    if k == "num": return "num %s %s" % (o["f"], txt(o))
    if k == "col": return "col %s %s %s" % (o["f"], " ".join(map(str, o["c"])), " ".join(map(str, o["e"])))
    if k == "idx": return "idx %d" % o["n"]
    if k == "lab": return "lab %d %s" % (o["std"], hexs("".join(chr(x) for x in o["p"] + o["t"])))
    return "up %d" % o["m"]


TOP = {"i": 2**31 - 1, "l": 2**63 - 1, "u": 2**32 - 1, "ul": 2**64 - 1}


def number(r, f):
    if f in TOP:
        v = r.choice([r.randrange(10), r.randrange(100), r.randrange(10**6), r.randrange(TOP[f] + 1), TOP[f]])
        s = str(v)
        if r.random() < .2: s = "0" * r.randrange(1, 4) + s
        if "u" not in f and r.random() < .3: s = "-" + s
        elif r.random() < .1: s = "+" + s
        return s
    s = str(r.randrange(r.choice([1, 10, 1000])))
    q = r.random()
    if q < .6: s += "." + "".join(r.choice("0123456789") for _ in range(r.randrange(0, 4)))
    elif q < .7: s = "." + str(r.randrange(1, 1000))
    if r.random() < .3: s += r.choice("eE") + r.choice(["", "+"]) + r.choice("0012") if len(s) < 5 else "e-" + r.choice("123")
    if r.random() < .3: s = "-" + s
    return s


def layout(r):
    f = r.choice(["i", "i", "i", "l", "u", "ul", "d", "f"])
    d = r.choice("  ,;")
    gap = lambda lo: " " * r.choice([lo, lo, lo + 1, lo + r.randrange(4)])
    out = r.choice(["", "\n", "  \n", "\n\n", " "])
    n = r.randrange(1, 7)
    w = r.randrange(1, 9) if r.random() < .7 else r.randrange(9, 40)
    for i in range(n):
        m = w if r.random() < .8 else r.randrange(1, 9)
        v = [number(r, f) for _ in range(m)]
        if f == "f": v = [x if len(x) < 6 else "2" for x in v]
        out += gap(0)
        for j, x in enumerate(v):
            out += x
            if j + 1 < m: out += gap(1) if d == " " else gap(0) + d + gap(0)
        if d != " " and r.random() < .3: out += d
        out += gap(0)
        if i + 1 < n: out += r.choice(["\n"] * 6 + ["\n\n", "\n  \n", "\n \n\n"])
    out += r.choice(["", "\n", "\n  ", " ", "\n\n", "\n \n"])
    return {"k": "lay", "f": f, "d": ord(d), "t": C(out)}


def single(r):
    f = r.choice(["i", "l", "u", "ul", "d", "f"])
    s = number(r, f)
    if f == "f" and len(s) > 5: s = "2.5"
    s = r.choice(["", " ", "\t", "\n "]) + s + r.choice(["", " ", " 7", ",3", "abc", "-", ")", " \n"])
    return {"k": "num", "f": f, "t": C(s)}


def labels(r):
    ops = []
    for _ in range(r.randrange(1, 4)):
        p = []
        if r.random() < .5:
            n = r.choice([0, r.randrange(99000), 9, 99, 999, 9999, 9990, 19999, 89999])
            ops.append({"k": "idx", "n": n, "p": p})
            room = 99999 - n
        else:
            w = r.randrange(1, 8)
            n = r.choice([0, 10**w - 1 - r.randrange(min(30, 10**w)), r.randrange(10**w)])
            p = C(r.choice(["", "Coarse_Cell_", "_", "Assembly_", "A", "x9_"]))
            ops.append({"k": "lab", "std": r.randrange(2), "p": p, "t": C(str(n).zfill(w))})
            room = 10**w - 1 - n
        for _ in range(r.randrange(1, 5)):
            m = r.choice([1, 1, 2, 10, r.randrange(1, 120)])
            if m > room: continue
            room -= m
            ops.append({"k": "up", "m": m, "p": p})
    return ops


def colour(r):
    f = r.choice("iiffd")
    c = [r.choice([0, 255, r.randrange(256)]) if f == "i" else r.choice([0, 1000, r.randrange(1001)]) for _ in range(4)]
    e = list(c)
    if r.random() < .6: e[r.randrange(4)] = r.randrange(256)
    if f != "i": e = [0, 0, 0, 0]
    return {"k": "col", "f": f, "c": c, "e": e}


def corrupt(t, r):
    e = r.choice(t)
    k, o = e["op"]["k"], e["out"]
    if "crash" in o: return False
    if k == "lay": o["r"].append([])
    elif k == "num": o["n"] += 1
    elif k == "col": o["c"][0] += 3
    else: o["t"][-1] = 48 + (o["t"][-1] - 47) % 10
    return True


def ok(b):
    """Leave out what does not fit the integers used to compare."""
    return all(len(o["t"]) - (o["t"].index(101) if 101 in o["t"] else len(o["t"])) <= 2 for o in b if o["k"] == "num")


def chunk(bs, n):
    return [sum(bs[i:i + n], []) for i in range(0, len(bs), n)]


def run(c):
    exe = c.build(("text", False))["text"]
    bs = [b for b in c.generate("TextMC.tla", "TextMC.cfg" if c.quick else "TextMC7.cfg") if ok(b)]
    if c.quick and len(bs) > 9000:
        c.rng.shuffle(bs)
        bs = bs[:9000]
    go = lambda name, b: c.conform(exe, encode, b, "TextTrace.tla", "TextTrace.cfg", name=name, corrupt=corrupt)
    go("all short texts", chunk(bs, 40))
    r, x = c.rng, 1 if c.quick else 10
    go("layouts", [[layout(r) for _ in range(4)] for _ in range(100 * x)])
    go("numbers", [[single(r) for _ in range(20)] for _ in range(40 * x)])
    go("labels", [labels(r) for _ in range(100 * x)])
    go("colours", [[colour(r) for _ in range(20)] for _ in range(10 * x)])
