"""Random histories of soup operations shared by C05, C06 and C18."""
from vlib import flat

NAMES = ["a", "b", "Material_UO2", "Material_H2O", "ab", "A", "Z_10", "Z_9", "a longer set name that needs the heap",
         "Cell 1", "x&y<z>", "Material", "Z_1", "a b"]
NV = {1: 1, 2: 2, 3: 3, 4: 4, 13: 3, 6: 6, 8: 8}


def hexs(s):
    return "x" + s.encode().hex()


def encode(o):
    k = o["k"]
    if k == "vert":
        return "vert %d %d %d %d %d" % (o["s"], *o["p"], o["p"][0] % 2)
    if k == "elem":
        return "elem %d %d %s" % (o["s"], o["ty"], flat(o["c"]))
    if k == "elset":
        return "elset %d %s %s %s" % (o["s"], hexs(o["n"]), flat(o["i"]), flat(o["d"]))
    if k == "trans":
        return "trans %d %d %d %d" % (o["s"], *o["p"])
    if k in ("sort", "clear", "types"):
        return "%s %d" % (k, o["s"])
    if k in ("app", "copy", "cmp"):
        return "%s %d %d" % (k, o["s"], o["t"])
    if k == "sub":
        return "sub %d %s %d" % (o["s"], hexs(o["n"]), o["t"])
    if k == "get":
        return "get %d %s" % (o["s"], hexs(o["n"]))
    if k in ("geti", "gete", "resv"):
        return "%s %d %d" % (k, o["s"], o["i"])
    if k == "wr":
        return "wr %d %s %d %d" % (o["s"], hexs(o["name"]), o["t"], o["how"])
    if k == "rd":
        return "rd %s %s %d" % (hexs(o["name"]), hexs(o["text"]), o["t"])
    raise ValueError(k)


class Gen:
    """Keeps enough of the abstract state to stay within the preconditions."""
    def __init__(self, r, names=None, types=None, flatz=False):
        self.r = r
        self.names = names or r.sample(NAMES, r.randrange(2, 6))
        if not names and r.random() < .4:        # names that begin with one another
            self.names = r.sample(["a", "ab", "a b", "abc", "b", "Z_1", "Z_10"], r.randrange(2, 6))
        self.types = types or list(NV)
        self.flatz = flatz
        self.so = [self.empty() for _ in range(3)]
        self.z = r.choice([0, 0, 5])
        self.last = None

    @staticmethod
    def empty():
        return {"v": 0, "e": 0, "s": []}         # sets: [name, ids, has_data]

    def pt(self):
        r = self.r
        if r.random() > .1 or not self.last:
            self.last = [r.randrange(-40, 100), r.randrange(-40, 100), self.z if self.flatz else r.choice([0, 0, 3, -7])]
        return list(self.last)

    def mk(self, k):
        r = self.r
        s = r.randrange(3)
        t = r.randrange(3)
        S = self.so[s]
        if k == "vert":
            S["v"] += 1
            return {"k": k, "s": s, "p": self.pt()}
        if k == "elem":
            ty = r.choice(self.types)
            n = NV[ty]
            if S["v"] == 0 or (S["v"] < n and r.random() < .7):
                return None
            c = r.sample(range(S["v"]), n) if S["v"] >= n else [r.randrange(S["v"]) for _ in range(n)]
            S["e"] += 1
            return {"k": k, "s": s, "ty": ty, "c": c}
        if k == "elset":
            n = r.choice(self.names)
            ids = sorted(r.sample(range(S["e"]), r.randrange(1, S["e"] + 1))) if S["e"] else []
            if r.random() < .06:
                ids = []
            x = r.random()
            d = [] if x < .5 else [r.randrange(-50, 200) for _ in ids]
            if x > .95 and ids:
                d = d + [1] if r.random() < .5 else d[:-1]
            ok = n not in [y[0] for y in S["s"]] and ids and (not d or len(d) == len(ids))
            if ok:
                S["s"].append([n, ids, bool(d)])
            return {"k": k, "s": s, "n": n, "i": ids, "d": d}
        if k == "trans":
            return {"k": k, "s": s, "p": self.pt() if not self.flatz else self.pt()[:2] + [0]}
        if k == "sort":
            S["s"].sort()
            return {"k": k, "s": s}
        if k == "app":
            T = self.so[t]
            if T["s"]:
                a, b = [x[0] for x in S["s"]], [x[0] for x in T["s"]]
                if a != sorted(a) or b != sorted(b):
                    return None
                da = {x[0]: x[2] for x in S["s"]}
                if any(x[0] in da and da[x[0]] != x[2] for x in T["s"]):
                    return None
            if S["v"] + T["v"] > 60 or S["e"] + T["e"] > 40:
                return None
            n = S["e"]
            new = []
            tb = {x[0]: x for x in T["s"]}
            for x in S["s"]:
                new.append([x[0], x[1] + [i + n for i in tb[x[0]][1]] if x[0] in tb else x[1], x[2]])
            have = {x[0] for x in S["s"]}
            new += [[x[0], [i + n for i in x[1]], x[2]] for x in T["s"] if x[0] not in have]
            if T["s"]:
                new.sort()
            tv, te = T["v"], T["e"]
            S["v"] += tv
            S["e"] += te
            S["s"] = new
            return {"k": k, "s": s, "t": t}
        if k == "sub":
            n = r.choice([x[0] for x in S["s"]] + ["none"]) if S["s"] else "none"
            x = [y for y in S["s"] if y[0] == n]
            if x:
                ids = x[0][1]
                # the number of vertices is not tracked through connectivity: use an upper bound by
                # forbidding later elements on this soup until cleared
                self.so[t] = {"v": 0, "e": len(ids), "s": [[y[0], [ids.index(i) for i in y[1] if i in ids], y[2]]
                              for y in S["s"] if y[0] != n and set(y[1]) & set(ids)]}
            else:
                self.so[t] = self.empty()
            return {"k": k, "s": s, "n": n, "t": t}
        if k == "copy":
            self.so[t] = {"v": S["v"], "e": S["e"], "s": [list(x) for x in S["s"]]}
            return {"k": k, "s": s, "t": t}
        if k == "clear":
            self.so[s] = self.empty()
            return {"k": k, "s": s}
        if k == "cmp":
            return {"k": k, "s": s, "t": t}
        if k == "types":
            return {"k": k, "s": s}
        if k == "get":
            return {"k": k, "s": s, "n": r.choice([x[0] for x in S["s"]] + ["none"])}
        if k == "geti":
            return {"k": k, "s": s, "i": r.randrange(len(S["s"]))} if S["s"] else None
        if k == "gete":
            return {"k": k, "s": s, "i": r.randrange(S["e"])} if S["e"] else None
        if k == "resv":
            return {"k": k, "s": s, "i": r.randrange(0, 20)}

    def history(self, n):
        w = {"vert": 14, "elem": 9, "elset": 8, "trans": 2, "sort": 3, "app": 4, "sub": 6, "copy": 2, "clear": 1,
             "cmp": 3, "types": 1, "get": 3, "geti": 2, "gete": 2, "resv": 1}
        ks, ws = list(w), list(w.values())
        out = []
        while len(out) < n:
            o = self.mk(self.r.choices(ks, ws)[0])
            if o:
                out.append(o)
        return out
