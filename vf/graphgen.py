"""Dependency graphs: edits, analyses and executions for harness/pipe.cpp, histories for spec/Graph.tla."""
import itertools
import pipegen

GROUPS = dict(cluster=2, region=4, cond=1, mcs=1, mcp=1, mutable=1)


def dags(n):
    """all graphs on n elements whose edges go upwards"""
    prs = [(i, j) for j in range(2, n + 1) for i in range(1, j)]
    for bits in itertools.product((0, 1), repeat=len(prs)):
        yield [p for p, b in zip(prs, bits) if b]


class Gen:
    def __init__(self, rnd, kind):
        self.r, self.kind = rnd, kind

    def chance(self, p):
        return self.r.random() < p

    def query(self, els):
        r = self.r
        k = r.random()
        a, b = r.choice(els)["id"], r.choice(els)["id"]
        if k < 0.45:
            return {"o": "separate", "e": a, "n": b}
        if k < 0.6 and not els[a - 1]["inmut"]:
            return {"o": "rel", "e": a}
        if k < 0.75:
            return {"o": "maxpara"}
        if k < 0.85:
            return {"o": "trim"}
        return {"o": "dumpx"}

    def k_edit(self):
        """a random pipeline is edited, analysed and run"""
        r = self.r
        g = pipegen.Gen(r, groups=GROUPS if self.chance(0.6) else {}, pgroup=0.4, nmin=2, nmax=8, pdep=r.choice((0.3, 0.5, 0.8)), shapes=0.1, plvl=0.2,
                        ploop=0.15, maxloop=2, pbind=0, pmacro=0.1, depth=2)
        pipe = g.pipe()
        els = pipe["els"]
        pipe["cfg"]["batch"] = 0
        for e in els:
            if e["k"] in pipegen.GROUPS:
                e.pop("loop", None)
            for x in e.get("reshape", []):
                x["loops"] = []
            q = e["par"]
            while q and els[q - 1]["k"] != "mutable":
                q = els[q - 1]["par"]
            e["inmut"] = 1 if q else 0
        t = []
        for _ in range(r.choice((1, 1, 2))):
            for _ in range(r.randint(2, 8)):
                if self.chance(0.35):
                    b = r.choice(els)
                    k = r.choice(("adddep", "adddep", "rmdep"))
                    if self.chance(0.9):
                        same = [x for x in els if x["par"] == b["par"] and x["id"] <= b["id"] and (b["par"] == 0 or els[b["par"] - 1]["k"] == "region")]
                        if not same:
                            continue
                        a = r.choice(same)
                        if k == "rmdep" and b.get("dep") and self.chance(0.7):
                            a = {"id": r.choice(b["dep"])}
                    else:
                        a = r.choice([x for x in els if x["par"] != b["par"]] or [b])
                    t.append({"o": k, "e": b["id"], "n": a["id"]})
                else:
                    t.append(self.query(els))
            t.append({"o": "init"})
            t += [{"o": "run"}] * r.choice((0, 1, 1, 2))
            if self.chance(0.4):
                t.append(r.choice(({"o": "trim"}, {"o": "maxpara"}, {"o": "dumpx"}, {"o": "adddep", "e": els[-1]["id"], "n": els[0]["id"]},
                                   {"o": "separate", "e": els[-1]["id"], "n": els[0]["id"]})))
            t.append({"o": "destroy"})
        return pipe, t

    def graph(self, n, edges, lvl=False):
        """one given graph of nodes: every question about it, before and after trimming"""
        els = [{"id": i, "k": "node", "par": 0, "dep": [a for a, b in edges if b == i]} for i in range(1, n + 1)]
        if lvl:
            for e in els:
                e["lvl"] = self.r.randint(0, 2)
        q = [{"o": "rel", "e": i} for i in range(1, n + 1)]
        sep = [{"o": "separate", "e": a, "n": b} for a in range(1, n + 1) for b in range(1, n + 1) if a < b or self.chance(0.2)]
        t = [{"o": "maxpara"}] + sep + [{"o": "trim"}] + q + [{"o": "maxpara"}, {"o": "trim"}] + sep
        return {"cfg": {"d": 1, "max": 4, "bs": 2, "range": 1, "batch": 0}, "eng": 1, "els": els}, t

    def scenario(self, sid, seeds):
        pipe, t = self.k_edit()
        return {"id": sid, "seeds": seeds, "pipes": [pipe], "threads": [t]}


def configs(s):
    els = s["pipes"][0]["els"]
    return [{"n": len(els), "k": [e["k"] for e in els], "par": [e["par"] for e in els], "dep0": [sorted(set(e.get("dep", []))) for e in els],
             "ch": [[x["id"] for x in els if x["par"] == e["id"]] for e in els], "loop": [e.get("loop", 1) for e in els]}]


def ints(w):
    return [int(x) for x in w.split()]


def projects(s, run):
    out = []
    for x in run["ev"]:
        v = x["ev"]
        if v in ("rb", "re", "fault"):
            out.append({"v": v, "e": x["e"], "x": 0, "s": "", "n": x["n"], "a": 0, "l": []})
        elif v == "ret":
            k, _, rest = x["s"].partition(":")
            y = {"v": v, "e": 0, "x": 0, "s": k, "n": x["n"], "a": x["a"], "l": []}
            if k in ("rel", "separate", "adddep", "rmdep"):
                w = rest.split("|")
                y["e"], y["x"] = int(w[0]), int(w[1])
                if k == "rel":
                    y["l"] = [ints(z) for z in w[2:5]]
            elif k == "dumpx":
                n, a = rest.split("|")
                y["s"] = "dump"
                y["l"] = [ints(n), [ints(z.replace(">", " ")) for z in a.split()]]
            out.append(y)
    return [out]
