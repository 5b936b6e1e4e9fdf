"""C02: exported geometry and element sets follow the nesting."""
from vlib import *
from modelgen import Gen, encode, placed


def project(op, out):
    """Intermediate building steps are C01's business: keep only what the trace needs."""
    return out


def corrupt(t, r):
    o = t[-1]["out"]
    if "soup" not in o or not o["soup"]["el"]:
        return False
    s = o["soup"]
    k = r.randrange(3)
    if k == 0:
        r.choice(s["el"])[r.randrange(1, 4)] += 1
    elif k == 1:
        x = r.choice([x for x in s["sets"] if "_0000" in x["n"]])
        x["i"].append(x["i"][-1] + 1)
    else:
        d = [x for x in s["sets"] if x["n"] == "Material_ID"][0]["d"]
        d[r.randrange(len(d))] += 1
    return True


def run(c):
    exe = c.build(("model", True))["model"]
    bs = c.generate("LayoutMC.tla", "LayoutMC.cfg" if c.quick else "LayoutMC2.cfg")
    c.rng.shuffle(bs)
    bs = bs[:1200 if c.quick else 6000]
    c.conform(exe, encode, bs, "ModelExportTrace.tla", "ModelExportTrace.cfg", name="all small nestings", corrupt=corrupt)
    rb = []
    while len(rb) < (150 if c.quick else 1500):
        g = Gen(c.rng, fine=.02)
        ops = g.complete(core=c.rng.random() < .95)
        if placed(ops, [len(o["ms"]) for o in ops if o["k"] == "cell"]) < 600:
            rb.append(ops + [{"k": "export"}])
    c.conform(exe, encode, rb, "ModelExportTrace.tla", "ModelExportTrace.cfg", name="random nestings", corrupt=corrupt)
