"""C12: strings and string views equal the abstract text."""
from vlib import *

F = {"cstr": "a xs", "ctorview": "a xs", "setcstr": "a xs", "assignview": "a xs", "copy": "a b", "move": "a b",
     "asgn": "a b", "masgn": "a b", "substr": "a b p n", "subctor": "a b p n", "assignsub": "a b p n",
     "addc": "a xs", "app": "a xs", "adds": "a b", "plus": "a b c", "plusc": "a b xs", "front": "a x",
     "back": "a x", "int": "a n", "wide": "a neg hi lo", "dbl": "a n", "flt": "a n", "cmp": "a b",
     "cmpc": "a xs", "pre": "a xs x", "flast": "a x p", "view": "xs", "vprefix": "n", "vtrim": "",
     "vtok": "d", "vsub": "p n", "vfind": "x p", "vfinds": "xs p n", "vcmp": "xs p", "end": ""}


def encode(op):
    return " ".join([op["k"]] + [flat(op[f]) for f in F[op["k"]].split()])


def rand_text(r, base=None):
    if base is not None and r.random() < 0.5 and base:
        i = r.randrange(len(base)); j = r.randrange(i, len(base) + 1)
        return base[i:j] if r.random() < 0.7 else base[:j] + [r.choice([97, 98])]
    n = r.choice([0, 1, 2, 3, 5, 10, 21, 22, 23, 24, 25, 30, 44, 45, 46, 47, 70])
    al = r.choice([[97], [97, 98], [32, 97], [32, 97, 44, 48, 126]])
    return [r.choice(al) for _ in range(n)]


def rand_behaviour(r, n):
    S = [[], [], []]
    W = []
    ops = []
    while len(ops) < n:
        a, b, cc = r.randrange(3), r.randrange(3), r.randrange(3)
        k = r.choice([x for x in F if x != "end"])
        o = {"k": k}
        f = F[k].split()
        if "a" in f: o["a"] = a
        if "b" in f: o["b"] = b
        if "c" in f: o["c"] = cc
        if "xs" in f: o["xs"] = rand_text(r, W if k.startswith("v") and k != "view" else S[a])
        ch = r.choice([97, 98, 32, 99])
        if k in ("move",) and a == b: continue
        if k in ("cstr", "ctorview", "setcstr", "assignview"): S[a] = o["xs"]
        elif k in ("copy", "asgn"): S[a] = S[b]
        elif k in ("move", "masgn"):
            if a != b: S[a], S[b] = S[b], []
        elif k in ("substr", "subctor", "assignsub"):
            if k == "assignsub" and a == b: continue
            o["p"] = r.randrange(len(S[b]) + 1)
            m = len(S[b]) - o["p"]
            o["n"] = r.choice([0, 1, m, m // 2]) if k == "assignsub" else r.choice([0, 1, m, m // 2, m + 3, 100000, 22, 23])
            if k == "assignsub": o["n"] = min(m, o["n"])
            S[a] = S[b][o["p"]:o["p"] + o["n"]]
        elif k in ("addc", "app"):
            if len(S[a]) > 150: continue
            S[a] = S[a] + o["xs"]
        elif k == "adds":
            if len(S[a]) > 150: continue
            S[a] = S[a] + S[b]
        elif k == "plus":
            if len(S[b]) + len(S[cc]) > 250: continue
            S[a] = S[b] + S[cc]
        elif k == "plusc": S[a] = S[b] + o["xs"]
        elif k in ("front", "back"):
            if not S[a]: continue
            o["x"] = ch
            S[a] = list(S[a]); S[a][0 if k == "front" else -1] = ch
        elif k == "int":
            o["n"] = r.choice([0, 7, -1, 10, 99, 100, 2147483647, -2147483647, r.randrange(-10**6, 10**6)]); S[a] = [ord(x) for x in str(o["n"])]
        elif k == "wide":
            o["neg"] = r.random() < .5; o["hi"] = r.choice([0, 1, 12, 9223372, r.randrange(10**9)]); o["lo"] = r.choice([1, 999999999, r.randrange(1, 10**9)])
            S[a] = [ord(x) for x in ("-" if o["neg"] else "") + str(o["hi"] * 10**9 + o["lo"])]
        elif k in ("dbl", "flt"):
            o["n"] = r.choice([0, 1, -1, 64, 63, 65, 640, 6399, r.randrange(-130000, 130000)]); S[a] = [ord(x) for x in "%f" % (o["n"] / 64)]
            if o["n"] == 0: S[a] = [ord(x) for x in "0.000000"]
        elif k == "pre": o["x"] = ch
        elif k == "flast": o["x"] = ch; o["p"] = r.choice([0, 1, max(0, len(S[a]) - 1), len(S[a]), len(S[a]) + 5, r.randrange(50)])
        elif k == "view": W = o["xs"]
        elif k == "vprefix": o["n"] = r.randrange(len(W) + 1) if r.random() < .3 else min(1, len(W)); W = W[o["n"]:]
        elif k == "vtrim":
            i = 0
            while i < len(W) and W[i] == 32: i += 1
            W = W[i:]
        elif k == "vtok":
            d = r.choice([32, 32, 44, 97]); o["d"] = d
            i = 0
            while i < len(W) and W[i] == d: i += 1
            if i < len(W):
                j = i
                while j < len(W) and W[j] != d: j += 1
                W = W[j + 1:]
        elif k == "vsub":
            if not W: continue
            o["p"] = r.randrange(len(W) + 1); o["n"] = r.randrange(len(W) - o["p"] + 1)
        elif k == "vfind":
            if not W: continue
            o["x"] = ch; o["p"] = r.choice([0, r.randrange(len(W)), len(W), len(W) + 2])
        elif k == "vfinds":
            if not W: continue
            if not o["xs"]: o["xs"] = [97]
            o["p"] = r.choice([0, 0, r.randrange(len(W))]); o["n"] = r.randrange(1, len(o["xs"]) + 1)
        elif k == "vcmp":
            if not W: continue
            o["p"] = r.randrange(100)
        ops.append(o)
    return ops + [{"k": "end"}]


def corrupt(t, r):
    ev = r.choice(t)
    if "crash" in ev["out"]:
        return False
    ev["out"]["s"][r.randrange(3)].append(97)
    return True


def run(c):
    exe = c.build(("str", False))["str"]
    c.model("StrMC.tla", "StrMC.cfg")
    bs = [b + [{"k": "end"}] for b in c.generate("StrMC.tla", "StrGen.cfg")]
    c.rng.shuffle(bs)
    bs = bs[:6000 if c.quick else 60000]
    c.conform(exe, encode, bs, "StrTrace.tla", "StrTrace.cfg", name="exhaustive histories", corrupt=corrupt)
    n = 500 if c.quick else 5000
    rb = [rand_behaviour(c.rng, c.rng.choice([10, 30, 60])) for i in range(n)]
    c.conform(exe, encode, rb, "StrTrace.tla", "StrTrace.cfg", name="random histories", corrupt=corrupt)
