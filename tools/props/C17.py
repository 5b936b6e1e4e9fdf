"""C17: logging."""
from vlib import *
from modelgen import hexs

KINDS = ["cs", "str", "sv", "ch", "i8", "i32", "u32", "i64", "u64", "f64", "f32", "b"]


def text(r, k, long=False):
    if k in ("cs", "str", "sv"):
        n = r.choice([60, 150, 225, 240, 250, 256, 300, 600]) if long else r.choice([0, 1, 3, 15, 16, 23, 24, 25, 40])
        return "".join(r.choice("abcXYZ 019%s\\n./-_") for _ in range(n))[:n]
    if k == "ch": return r.choice("aZ%\\0 ;")
    if k == "i8": return str(r.choice([-128, 127, 0, -1, r.randrange(-128, 128)]))
    if k == "i32": return str(r.choice([-2**31, 2**31 - 1, 0, -1, 10, r.randrange(-10**6, 10**6)]))
    if k == "u32": return str(r.choice([2**32 - 1, 2**31, 0, r.randrange(2**32)]))
    if k == "i64": return str(r.choice([-2**63, 2**63 - 1, 0, 2**32, r.randrange(-2**62, 2**62)]))
    if k == "u64": return str(r.choice([2**64 - 1, 2**63, 0, r.randrange(2**64)]))
    if k == "f64" and long: return "%f" % (10.0 ** r.choice([100, 200, 250, 300]))
    if k in ("f64", "f32"): return "%f" % (r.choice([0, 1, -1, 3, 100, 12345, r.randrange(-9999, 9999)]) / r.choice([1, 2, 8, 64]))
    return r.choice(["true", "false"])


def message(r, long=False):
    q = r.choice([1, 1, 2, 2, 3])
    ts = [r.choice(KINDS) for _ in range(q)]
    if long: ts[r.randrange(min(q, 2))] = r.choice(["cs", "str", "sv", "f64"])
    if q == 3: ts[2] = "cs"
    a = [text(r, t, long and t in ("cs", "str", "sv", "f64")) for t in ts]
    m = {"l": r.randrange(1, 5), "m": r.randrange(2), "t": ts, "v": a}
    m["a"] = (["lit "] if q == 3 else []) + a
    return m


def encode(op):
    k = op["k"]
    if k == "level": return "level %d %d" % (op["v"], op.get("s", 0))
    if k == "flag": return "flag %s %d %d" % (op["f"], op["v"], op.get("s", 0))
    if k == "age": return "age %d" % op["v"]
    if k == "say":
        s = "say %d" % len(op["ms"])
        for m in op["ms"]:
            v = m.get("v", m["a"])
            t = m.get("t", ["cs"] * len(v))
            s += " %d %d %d %s" % (m["l"], m["m"], len(v), " ".join("%s %s" % (x, hexs(y)) for x, y in zip(t, v)))
        return s
    return k


def rand(r):
    ops = []
    if r.random() < .7: ops.append({"k": "restore"})
    for _ in range(r.randrange(3, 12)):
        x = r.random()
        if x < .2: ops.append({"k": "level", "v": r.choice([0, 1, 2, 3, 4, 4, 9, -1]), "s": r.randrange(2)})
        elif x < .4: ops.append({"k": "flag", "f": r.choice(["ts", "col", "ex", "ex"]), "v": r.randrange(2), "s": r.randrange(2)})
        elif x < .45: ops.append({"k": "restore"})
        elif x < .5: ops.append({"k": "age", "v": r.choice([5, 61, 700, 3600, 35000, 86399])})
        else: ops.append({"k": "say", "ms": [message(r, r.random() < .25) for _ in range(r.choice([1, 1, 2, 4]))]})
        age = 0
        for o in ops:                  # the stamp has two digits for the hours
            age = 0 if o["k"] == "restore" else age + o["v"] if o["k"] == "age" else age
        if age > 340000: ops.append({"k": "restore"})
    return ops


def corrupt(t, r):
    e = r.choice(t)
    o = e["out"]
    if "crash" in o or e["op"]["k"] != "say" or not o["o"]:
        return False
    m = r.random()
    if m < .5: o["o"].pop()
    else: o["e"].append(o["o"].pop(0))
    return True


def run(c):
    exe = c.build(("log", True))["log"]
    bs = c.generate("LogMC.tla", "LogMC.cfg" if c.quick else "LogMC4.cfg")
    c.rng.shuffle(bs)
    rest = []
    for i, b in enumerate(bs):
        for o in b:
            if o["k"] in ("level", "flag"): o["s"] = i % 2
    fast = [b for b in bs if all(o["k"] != "init" for o in b)]
    slow = [b for b in bs if any(o["k"] == "init" for o in b)]
    for b in slow: b.append({"k": "fini"})
    c.conform(exe, encode, fast[:2500 if c.quick else 12000], "LogTrace.tla", "LogTrace.cfg", name="settings", corrupt=corrupt)
    c.conform(exe, encode, slow[:150 if c.quick else 800], "LogTrace.tla", "LogTrace.cfg", name="start and end")
    c.conform(exe, encode, [rand(c.rng) for _ in range(600 if c.quick else 6000)], "LogTrace.tla", "LogTrace.cfg", name="messages", corrupt=corrupt)
