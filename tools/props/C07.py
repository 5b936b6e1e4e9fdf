"""C07: face-vertex meshes."""
from vlib import *
from meshgen import Tiling, defects, encode

GRID = {3: (3, 2, 1), 4: (3, 3, 1), 6: (3, 2, 2), 8: (3, 3, 2)}


def grid_points(ty):
    gx, gy, s = GRID[ty]
    px, py = (gx - 1) * s + 1, (gy - 1) * s + 1
    return [[x * 16, y * 16] for y in range(py) for x in range(px)]


def enumerated(c):
    out = []
    for ty in (3, 4, 6, 8):
        ms = c.generate("MeshMC.tla", "MeshMC%d.cfg" % ty)
        c.rng.shuffle(ms)
        if c.quick:
            ms = ms[:4000]
        ops = []
        for i, b in enumerate(ms):
            ops.append({"k": "build", "ty": ty, "via": "list" if i % 3 else "soupv", "v": grid_points(ty), "f": b[0]})
        for i in range(0, len(ops), 25):
            out.append(ops[i:i + 25])
    return out


def history(r):
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        ty = r.choice([3, 4, 6, 8])
        step = r.choice([16, 16, 24, 32]) if ty < 5 else r.choice([32, 64])
        off = r.choice([(0, 0), (0, 0), (-40, 16), (100, -7), (-300, -200)])
        nx, ny = r.randint(1, 4), r.randint(1, 4)
        if r.random() < .4: nx, ny, step = r.choice([1, 2, 4]), r.choice([1, 2, 4]), r.choice([32, 64])
        t = Tiling(r, ty, nx, ny, step, jitter=r.choice([0, 0, step // 8]), curve=r.choice([0, step // 20, step // 16]), x0=off[0], y0=off[1])
        if r.random() < .6: t = defects(r, t)
        if r.random() < .5: r.shuffle(t.f)
        if r.random() < .5: t.renumber(r)
        t.f = [t.rotate(f, r.randrange(t.n())) if r.random() < .3 else f for f in t.f]
        p = r.choice([0, 0, .3, 1])
        t.f = [t.flip(f) if r.random() < p else f for f in t.f]
        if r.random() < .25:
            ops.append({"k": "new", "ty": ty})
            ops += [{"k": "addv", "p": p} for p in t.v]
            ops += [{"k": "addf", "c": f} for f in t.f]
        else:
            o = {"k": "build", "ty": ty, "via": r.choice(["list", "soup", "soupv"]), "v": t.v, "f": t.f}
            if r.random() < .15 and o["via"] != "list":
                o["z"] = [r.choice([0, 0, 16]) for _ in t.v]
            ops.append(o)
        ccw = ops[-1]["k"] == "build" and ops[-1]["via"] != "soup"
        for _ in range(r.randint(1, 6)):
            k = r.choice(["val", "sort", "sort", "sortv", "sortf", "vf", "vf", "soup", "flip", "get", "addv"])
            if k.startswith("sort") and not ccw: ops.append({"k": "val"})
            if k == "flip": ccw = False
            elif k == "val" or k.startswith("sort"): ccw = True
            if k in ("flip", "get"): ops.append({"k": k, "i": r.randrange(len(t.f))})
            elif k == "addv": ops.append({"k": k, "p": [off[0] + r.randint(0, 16), off[1] + r.randint(0, 16)]})
            else: ops.append({"k": k})
    return ops


def corrupt(t, r):
    ev = r.choice(t)
    o = ev["out"]
    if "crash" in o or not o["m"]["f"]: return False
    k = r.randrange(4)
    if k == 0 and ev["op"]["k"] in ("val", "build"):
        if ev["op"].get("via") == "soup": return False
        o["err"] = 0 if o["err"] else 1
    elif k == 1: r.choice(o["m"]["v"])[0] += 1
    elif k == 2 and "vf" in o and ev["op"]["k"] == "vf": o["vf"][0] = o["vf"][0] + [99]
    elif k == 3:
        f = r.choice(o["m"]["f"])
        f[0], f[1] = f[1], f[0]
    else: return False
    return True


def run(c):
    exe = c.build(("mesh", True))["mesh"]
    c.conform(exe, encode, enumerated(c), "MeshTrace.tla", "MeshTrace.cfg", name="all small meshes", corrupt=corrupt)
    n = 600 if c.quick else 8000
    c.conform(exe, encode, [history(c.rng) for _ in range(n)], "MeshTrace.tla", "MeshTrace.cfg", name="random histories", corrupt=corrupt)
