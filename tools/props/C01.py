"""C01: building a model."""
from vlib import *
from modelgen import Gen, encode


def corrupt(t, r):
    ev = r.choice(t)
    if "crash" in ev["out"]:
        return False
    k = r.randrange(4)
    o = ev["out"]
    if k == 0:
        o["ret"] += 1
    elif k == 1 and o["cells"]:
        o["cells"][-1]["e"][0] += 1
    elif k == 2 and o["rtms"]:
        o["rtms"][-1]["ch"].append(0)
    elif k == 3 and o["core"]["ch"]:
        o["core"]["ch"][0] += 1
    else:
        return False
    return True


def run(c):
    exe = c.build(("model", True))["model"]
    c.model("ModelMC.tla", "ModelMC.cfg")
    recs = c.generate("ModelMC.tla", "ModelGen.cfg")
    bs = merge(recs)
    c.rng.shuffle(bs)
    bs = [[{"k": "unit", "u": 1000, "z": 500}] + b for b in bs[:1500 if c.quick else 20000]]
    c.conform(exe, encode, bs, "ModelTrace.tla", "ModelTrace.cfg", name="all transitions", corrupt=corrupt)
    n = 160 if c.quick else 2000
    rb = [Gen(c.rng).history(c.rng.choice([20, 40, 70])) for _ in range(n)]
    c.conform(exe, encode, rb, "ModelTrace.tla", "ModelTrace.cfg", name="random histories", corrupt=corrupt)
