"""Random pipelines (scenarios for harness/pipe.cpp) and their configuration records for spec/Pipe.tla."""
import random

BLOCKING = ("region", "mutable", "mcp", "some", "fence")
GROUPS = ("cluster", "region", "cond", "mcs", "mcp", "mutable", "some")

DEF = dict(nmin=2, nmax=6, depth=2, groups={}, pgroup=0.3, pdep=0.45, ploop=0.25, maxloop=3, phold=0.0, pprep=0.0, pchk=0.0,
           perr=0.0, pthrow=0.0, pasp=0.0, paerr=0.0, pinit=0.0, pdestroy=0.0, pinvis=0.0, plvl=0.0, pto=0.0, psee=0.0, pback=0.0, pgto=0.0, tos=(0, 1, 2),
           engines=(0, 0, 0, 1, 2), pwork=0.5, adapters=0.0, runs=(1, 2), hook_every=False, cyc=0.0, pbind=0.1, pmacro=0.1,
           cmode=("run", "run", "process", "arun", "aproc"), cycles=(1, 2), serial=0.0, badcfg=0.0, shapes=0.3, extra_threads=(0, 1, 2),
           perfdump=0.0, ppos=0.0, ctl=0, wild=0)


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(DEF)
        self.o.update(kw)
        self.els = []

    def p(self, k):
        return self.r.random() < self.o[k]

    def new(self, kind, par):
        e = {"id": len(self.els) + 1, "k": kind, "par": par}
        self.els.append(e)
        return e

    def hooks(self, e):
        r, o = self.r, self.o
        k = e["k"]
        if self.p("ploop"):
            e["loop"] = r.randint(0 if r.random() < 0.15 else 1, o["maxloop"])
        if k in ("node", "func"):
            ops = []
            if self.p("pwork"):
                ops.append({"o": "work", "n": r.randint(1, 6)})
            e["run"] = ops
            if self.p("perr"):
                e["res"] = [0] * r.choice((0, 0, 1, 2, 3)) + [-(100 + e["id"])]
                if r.random() < 0.6:
                    e["res"].append(0)
            if self.p("ppos"):
                e["res"] = [0] * r.choice((0, 1)) + [100 + e["id"]]      # positive codes are no errors
            if self.p("pthrow"):
                e["res"] = [0] * r.choice((0, 0, 1, 2)) + [-99] + ([0] if r.random() < 0.6 else [])
            if self.p("pinit"):
                e["init"] = [0] * r.choice((0, 0, 1)) + [r.choice((-(300 + e["id"]), -(300 + e["id"]), -99))] + ([0] if r.random() < 0.7 else [])
            if self.p("pdestroy"):
                e["destroy"] = [0] * r.choice((0, 0, 1)) + [r.choice((-(400 + e["id"]), -99))] + [0]
        if k not in ("some",) and self.p("phold"):
            e["hold"] = [r.choice((0, 1)) for _ in range(r.randint(1, 4))] + [0]
        if self.p("pprep"):
            e["prep"] = [0] * r.choice((0, 1, 2)) + [r.choice((-(500 + e["id"]), -99))] + ([0] if r.random() < 0.6 else [])
        if self.p("pchk"):
            e["chk"] = [0] * r.choice((0, 1, 2)) + [-99] + [0]
        if self.p("pasp"):
            e["asp"] = r.randint(1, 2)
            if self.p("paerr"):
                e["aerr"] = {"at": r.choice(("br", "br", "bi", "bd")), "i": r.randint(1, e["asp"]),
                             "n": r.choice((-(200 + e["id"]), -99)), "from": r.choice((0, 0, 1, 2))}
        if k in ("node", "func") and self.p("pto"):
            e["to"] = r.choice((10, 20, 40))
            e["tos"] = r.choice(o["tos"])
            e["asp"] = max(1, e.get("asp", 0))
            if e.get("loop", 1) > 1:
                e["loop"] = 1
            e.pop("hold", None)
            if r.random() < 0.1:
                e["hold"] = [1, 0]      # only one straggler can be waited for
                e["tos"] = r.choice((0, 2))
            e["res"] = [x if x != -99 or e["tos"] != 1 else -(100 + e["id"]) for x in e.get("res", [])]
            if not e["res"]:
                del e["res"]
        if k in ("node", "func") and o["pto"]:
            e["run"] = e.get("run", []) + [{"o": "sleep", "n": r.choice((1, 5, 15, 30, 60))}] * (r.random() < 0.7)
        if k == "node" and self.p("psee"):      # an element that asks whether its time is over
            e["run"] = e.get("run", []) + [r.choice(({"o": "isto"}, {"o": "untilto", "n": r.choice((3, 25, 60))}, {"o": "untilto", "n": 60}))]
        if self.p("pbind"):
            e["bind"] = r.randint(-1, 1)
        if k == "node" and self.p("pmacro"):
            e["macro"] = 1

    def scope(self, par, kind, depth):
        """children of scope par; returns their list"""
        r, o = self.r, self.o
        if par == 0:
            n = r.randint(o["nmin"], o["nmax"])
        else:
            n = r.randint(1, 3)
        out = []
        for _ in range(n):
            if len(self.els) >= 14:
                break
            k = "node"
            if depth > 0 and o["groups"] and len(self.els) < 12 and self.p("pgroup"):
                k = r.choices(list(o["groups"]), weights=list(o["groups"].values()))[0]
            elif par == 0 and self.p("adapters"):
                k = r.choice(("func", "coord", "fence") if any(x.get("to") for x in out) else ("func", "coord"))
            e = self.new(k, par)
            if k == "coord":
                e["size"] = r.choice((1, 1, -1))
            if k == "fence":
                t = [x["id"] for x in out if x.get("to")]
                e["waits"] = sorted(r.sample(t, r.randint(1, len(t))))
            self.hooks(e)
            if k in GROUPS:
                kids = self.scope(e["id"], k, depth - 1)
                self.group(e, kids)
                if k != "some" and self.p("pgto"):
                    e["to"] = r.choice((10, 20, 40))
                    e["tos"] = r.choice(o["tos"])
                    e["asp"] = max(1, e.get("asp", 0))
                    if e.get("loop", 1) > 1:
                        e["loop"] = 1
                    e.pop("hold", None)
            out.append(e)
        graph = kind in ("root", "region")
        if graph:
            shape = r.random()
            if shape < o["shapes"] and n > 1:
                s = r.choice(("serial", "none", "tree", "fan"))
                for i in range(1, len(out)):
                    if s == "serial":
                        out[i]["dep"] = [out[i - 1]["id"]]
                    elif s == "tree":
                        out[i]["dep"] = [out[r.randrange(i)]["id"]]
                    elif s == "fan" and i > 0:
                        out[i]["dep"] = [x["id"] for x in (out[:1] if i < len(out) - 1 else out[:-1])]
            else:
                for i in range(1, len(out)):
                    d = [out[j]["id"] for j in range(i) if r.random() < o["pdep"]]
                    if d:
                        out[i]["dep"] = d
            if self.p("cyc") and len(out) > 1:
                j, i = sorted(r.sample(range(len(out)), 2))
                out[j].setdefault("dep", []).append(out[i]["id"])
                out[i]["dep"] = sorted(set(out[i].get("dep", []) + [out[j]["id"]]))
        for e in out:
            if e["k"] == "fence":
                e["dep"] = sorted(set(e.get("dep", []) + e["waits"]))
        for e in out:
            if kind == "root" or kind == "region":
                if self.p("plvl"):
                    e["lvl"] = r.randint(0, 3)
            if graph and self.p("pinvis") and e["k"] in ("node", "cluster"):
                e["vis"] = 0
            # a visible false element inside a sequential group behaves like an absent one
            if kind == "cluster" and self.p("pinvis") and e["k"] == "node":
                e["vis"] = 0
        return out

    def group(self, e, kids):
        r, n, k = self.r, len(kids), e["k"]
        if k == "region":
            e["eng"] = r.choice(self.o["engines"])
        elif k == "cond":
            e["idx"] = [r.choice([-1, n, n + 2] + list(range(n)) * 2) for _ in range(r.randint(1, 4))]
        elif k in ("mcs", "mcp"):
            for c in kids:
                c["match"] = [r.randint(0, 1) for _ in range(r.randint(1, 4))]
        elif k == "some":
            e["some"] = r.randint(1, n) if r.random() < 0.95 else n + 1
            if e.get("loop", 1) != 1 and r.random() < 0.9:
                e.pop("loop")
            for x in kids:
                if x.get("loop", 1) > 1:         # (refused already when the group is built)
                    x["loop"] = 1
        elif k == "mutable":
            e["reshape"] = []
            for _ in range(r.randint(1, 3)):
                s = {"edges": [], "solo": [], "loops": [], "res": 0}
                for j in range(n):
                    for i in range(j):
                        if r.random() < 0.4:
                            s["edges"].append([i, j])
                inv = {x for ed in s["edges"] for x in ed}
                for i in range(n):
                    if i not in inv and r.random() < 0.7:
                        s["solo"].append(i)
                for i in range(n):
                    if r.random() < 0.15 and not kids[i].get("to") and kids[i]["k"] != "some":      # an asynchronous element does not loop
                        s["loops"].append([i, r.randint(1, 3)])
                e["reshape"].append(s)

    def pipe(self):
        r, o = self.r, self.o
        top = self.scope(0, "root", o["depth"])
        for e in self.els:         # an element whose stragglers the run waits for is entered once a run
            if e.get("to") and (e.get("tos") == 1 or e["k"] in GROUPS):
                q = e["par"]
                while q:
                    g = self.els[q - 1]
                    if g.get("loop", 1) > 1:
                        g["loop"] = 1
                    g.pop("hold", None)
                    for x in g.get("reshape", []):
                        x["loops"] = []
                    if g["k"] == "some" and e["k"] in GROUPS:
                        for x in ("to", "tos"):
                            e.pop(x, None)
                    q = g["par"]
        eng = r.choice(o["engines"])
        need = sum(1 for e in self.els if e["k"] in BLOCKING) + 2 * sum(1 for e in self.els if e.get("to"))
        need += 2 * sum(1 for e in self.els if e.get("par") and self.els[e["par"] - 1]["k"] == "some")
        d = need + 1 + r.choice(o["extra_threads"])
        cfg = {"d": d, "max": max(8, d), "bs": r.randint(1, 3), "epoch": r.randint(0, 3), "range": r.choice((8, 8, 8, 7)),
               "batch": r.randint(0, 1) if not any(e["k"] in ("some", "fence") for e in self.els) else 0, "wepoch": r.choice((0, 0, 2)), "deliver": r.choice((0, 0, 1)), "mon": 0}
        return {"cfg": cfg, "eng": eng, "els": self.els, "late": int(any("lvl" in e for e in self.els) and r.random() < 0.5)}

    def wild(self):
        """calls in any order, legal or not"""
        r, t = self.r, []
        up = False
        for _ in range(r.randint(3, 9)):
            k = r.choice(("init", "init", "run", "run", "run", "destroy", "destroy", "process", "arun", "aproc", "cancel", "resume"))
            if r.random() < 0.5:      # favour legal calls
                k = r.choice(("run", "arun", "destroy")) if up else r.choice(("init", "init", "process"))
            o = {"o": k}
            if k in ("process", "aproc"):
                o["n"] = r.choice((0, 1, 1, 2))
            t.append(o)
            if k in ("arun", "aproc"):
                t.append({"o": "await", "n": self.nfut()})
            if k == "init":
                up = True
            if k == "destroy":
                up = False
        return t

    def program(self):
        """calls of the main program"""
        r, o = self.r, self.o
        if o["wild"]:
            return self.wild()
        t = []
        seen, back = 0, None
        if o["pback"] and not any(x in e for e in self.els for x in ("res", "init", "prep", "chk", "destroy", "aerr", "loop")):
            back = next((e for e in self.els if e["par"] == 0 and e["k"] == "node" and not e.get("dep") and not e.get("hold") and not e.get("to")
                         and e.get("vis", 1)), None)
            if back and not any(e["k"] == "some" for e in self.els):
                back["run"] = [{"o": "mark", "n": 7}] + back.get("run", [])
            else:
                back = None
        def meanwhile(n):            # the caller goes on while the pipeline runs in the background
            nonlocal seen
            if back and n > 0 and r.random() < o["pback"]:
                t.append({"o": "waitmark", "n": 7, "cnt": seen + 1})
            seen += n
        for _ in range(r.choice(o["cycles"])):
            m = r.choice(o["cmode"])
            if o["pgto"] and m in ("process", "aproc") and any(e.get("to") and e["k"] in GROUPS and e.get("tos") != 1 for e in self.els):
                m = "run"
            if m in ("process", "aproc"):
                n = r.choice(o["runs"])
                t.append({"o": m, "n": n})
                if m == "aproc":
                    meanwhile(n)
                    t.append({"o": "await", "n": self.nfut()})
                else:
                    seen += n
                continue
            t.append({"o": "init"})
            for _ in range(r.choice(o["runs"])):
                t.append({"o": m})
                if m == "arun":
                    meanwhile(1)
                    t.append({"o": "await", "n": self.nfut()})
                else:
                    seen += 1
                if any(e.get("to") and e["k"] in GROUPS and e.get("tos") != 1 for e in self.els):
                    t.append({"o": "sleep", "n": 20000})      # whatever was left behind ends
                if o["perfdump"] and r.random() < o["perfdump"]:
                    t.append({"o": "dump"})
            t.append({"o": "destroy"})
        return t

    _f = 0

    def nfut(self):
        self._f += 1
        return self._f - 1

    def ctl(self, cancel=True):
        """suspend / resume / cancel calls of one thread; whatever is suspended is resumed"""
        r, t = self.r, []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.8:
                t.append(r.choice(({"o": "work", "n": r.randint(1, 60)}, {"o": "work", "n": r.randint(1, 300)}, {"o": "sleep", "n": r.randint(1, 20)})))
            if cancel and r.random() < 0.35:
                t.append({"o": "cancel"})
            else:
                t.append({"o": "suspend"})
                t.append({"o": "work", "n": r.randint(0, 100)})
                if r.random() < 0.3:
                    t.append({"o": "sleep", "n": 5})
                if r.random() < 0.2:
                    t.append({"o": "suspend"})
                t.append({"o": "resume" if not cancel or r.random() < 0.8 else "cancel"})
        return t

    def control(self):
        """programs: a run in thread 0 (or in the background), control calls from one or two others"""
        r = self.r
        t, th = [], []
        asy = r.random() < 0.4
        n = r.choice((1, 1, 2))
        for i in range(n):
            th.append(self.ctl())
        proc = r.random() < 0.2
        for cyc in range(r.choice((1, 1, 2))):
            ths = list(range(1, n + 1)) if cyc == 0 else []
            if not proc:
                t.append({"o": "init"})
            for k in range(r.choice((1, 2))):
                t += [{"o": "spawn", "n": i} for i in ths if k == 0]
                if asy:
                    t.append({"o": "aproc", "n": r.choice((1, 2, 3))} if proc else {"o": "arun"})
                    if cyc > 0 or r.random() < 0.3:
                        t += self.ctl()
                    t.append({"o": "await", "n": self.nfut()})
                else:
                    t.append({"o": "process", "n": r.choice((1, 2, 3))} if proc else {"o": "run"})
                if k == 0 and r.random() < 0.7:
                    t += [{"o": "join", "n": i} for i in ths]
                    ths = []
            t += [{"o": "join", "n": i} for i in ths]
            if not proc:
                t.append({"o": "destroy"})
        return [t] + th

    def scenario(self, sid, seeds):
        pipe = self.pipe()
        if self.o["ctl"]:
            return {"id": sid, "seeds": seeds, "pipes": [pipe], "threads": self.control()}
        return {"id": sid, "seeds": seeds, "pipes": [pipe], "threads": [self.program()]}


def cyclic(edges, nodes):
    ind = {x: 0 for x in nodes}
    for a, b in edges:
        ind[b] += 1
    q = [x for x in nodes if ind[x] == 0]
    seen = 0
    while q:
        x = q.pop()
        seen += 1
        for a, b in edges:
            if a == x:
                ind[b] -= 1
                if ind[b] == 0:
                    q.append(b)
    return seen != len(nodes)


def config(pipe):
    """the record Pipe.tla calls c"""
    els = sorted(pipe["els"], key=lambda e: e["id"])
    n = len(els)
    by = {e["id"]: e for e in els}
    assert [e["id"] for e in els] == list(range(1, n + 1))
    par = [e.get("par", 0) for e in els]
    ch = [[x["id"] for x in pipe["els"] if x.get("par", 0) == e["id"]] for e in els]
    top = [x["id"] for x in pipe["els"] if x.get("par", 0) == 0]
    ename = {0: "dyn", 1: "topo", 2: "static"}
    eng = [ename[pipe.get("eng", 0)]] + [ename[e.get("eng", 0)] if e["k"] in ("region",) else "dyn" for e in els]
    # sibling order for levels: CGraph initialises in the order (level, registration)
    dag = 1
    badcfg = 0
    for p in [0] + [e["id"] for e in els if e["k"] == "region"]:
        kids = [e for e in els if e.get("par", 0) == p]
        ids = {e["id"] for e in kids}
        ed = [(d, e["id"]) for e in kids for d in e.get("dep", []) if d in ids]
        if cyclic(ed, ids):
            dag = 0
    for e in els:
        if e.get("loop", 1) > 1 and (e["k"] == "coord" or (e.get("to", 0) > 0 and e["k"] != "fence")):
            badcfg = 1
        if e["k"] == "some" and e.get("loop", 1) != 1:
            badcfg = 1
        if e.get("par", 0) and by[e["par"]]["k"] == "some" and e.get("loop", 1) > 1:
            badcfg = 1
    return {"n": n, "k": [e["k"] for e in els], "par": par, "dep": [sorted(set(e.get("dep", []))) for e in els],
            "ch": ch, "top": top, "loop": [e.get("loop", 1) for e in els], "vis": [e.get("vis", 1) for e in els],
            "asp": [e.get("asp", 0) for e in els], "to": [e.get("to", 0) for e in els], "tos": [e.get("tos", 0) for e in els],
            "lvl": [e.get("lvl", 0) for e in els], "some": [e.get("some", 0) for e in els],
            "size": [e.get("size", 1) for e in els],
            "waits": [e.get("waits", []) for e in els],
            "resh": [[{"edges": [[a, b] for a, b in s.get("edges", [])], "solo": s.get("solo", []),
                       "loops": s.get("loops", [])} for s in e.get("reshape", [])] for e in els],
            "eng": eng, "dag": dag, "badcfg": pipe.get("badcfg", badcfg)}


KEEP = {"isto", "sawto", "call", "ret", "ib", "ie", "db", "de", "prep", "rb", "re", "hold", "chk", "choose", "match", "reshape", "asp", "fault", "end"}
OPS = {"init", "run", "destroy", "process", "cancel", "suspend", "resume", "arun", "aproc", "await", "perf"}


def project(run, p):
    """events of pipeline p as Pipe.tla sees them"""
    out = []
    for x in run["ev"]:
        if x["ev"] not in KEEP:
            continue
        if x["ev"] in ("fault", "end"):
            out.append({"v": x["ev"], "e": 0, "s": x["s"], "n": 0, "a": 0, "ms": x["ms"]})
        elif x["p"] == p:
            if x["ev"] in ("call", "ret") and x["s"] not in OPS:
                continue
            out.append({"v": x["ev"], "e": x["e"], "s": x["s"], "n": x["n"], "a": x["a"], "ms": x["ms"]})
    return out
