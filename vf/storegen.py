"""Saving and loading pipelines: the scenarios of other families are executed on a pipeline that was loaded from a file the
original was saved to; their histories are checked as if it were the original (part store*), and histories of files against
spec/Store.tla (part file)."""
import ctxgen, pipegen

ALLG = dict(cluster=2, region=2, cond=1, mcs=1, mcp=1, mutable=1, some=1)


class Gen:
    def __init__(self, rnd, kind):
        self.r, self.kind = rnd, kind

    def chance(self, p):
        return self.r.random() < p

    def inner(self, sid, seeds):
        r, k = self.r, self.kind
        if k in ("stage", "event", "daemon", "param"):
            return ctxgen.Gen(r, k).scenario(sid, seeds)
        if k == "plain" and self.chance(0.1):      # needs all the threads the original was configured with
            n = r.randint(9, 12)
            els = [{"id": i, "k": "node", "par": 0, "run": [{"o": "meet", "n": 1, "cnt": n}]} for i in range(1, n + 1)]
            return {"id": sid, "seeds": seeds, "pipes": [{"cfg": {"d": n, "max": 16, "bs": 2, "epoch": 1, "range": n, "batch": 0}, "eng": 0, "els": els}],
                    "threads": [[{"o": "process", "n": 1}]]}
        opts = {"plain": dict(groups=ALLG, pgroup=0.35, ploop=0.3, pinvis=0.1, plvl=0.2, phold=0.1, nmin=2, nmax=7, runs=(1, 2)),
                "errs": dict(groups=ALLG, pgroup=0.3, perr=0.1, pasp=0.4, paerr=0.1, ppos=0.05, nmin=2, nmax=6),
                "timed": dict(groups=dict(cluster=1, region=1), pto=0.35, pgto=0.2, nmin=2, nmax=6)}[k]
        return pipegen.Gen(r, **opts).scenario(sid, seeds)

    def files(self, sid, seeds):
        """saving and loading in any order, with damaged files"""
        r = self.r
        src, dst, nf = r.randint(1, 2), r.randint(2, 4), r.randint(1, 3)
        pipes = []
        for _ in range(src):
            n = r.randint(1, 4)
            els = []
            for i in range(1, n + 1):
                e = {"id": i, "k": "node", "par": 0, "run": []}
                if self.chance(0.1) and i == n:
                    e["k"] = "func"
                d = [j for j in range(1, i) if self.chance(0.4)]
                if d:
                    e["dep"] = d
                els.append(e)
            if n > 1 and self.chance(0.5) and els[-1]["k"] == "node":      # a group around the last one
                els.append({"id": n + 1, "k": "cluster", "par": 0})
                els[-2]["par"] = n + 1
                els[-2].pop("dep", None)
            pipes.append({"cfg": {"d": 2, "max": 4, "bs": 2, "epoch": 1, "range": 2, "batch": 0}, "eng": 0, "els": els})
        like = [r.randrange(src) for _ in range(dst)]
        pipes += [{"like": x, "els": []} for x in like]
        # only the files of the source a pipeline is made for are loaded into it, once
        t, up, by, fresh = [], set(), {}, list(range(src, src + dst))
        full = set(range(src))
        for _ in range(r.randint(5, 14)):
            k = r.random()
            p = r.choice(sorted(full))
            if k < 0.3:
                f = r.randint(1, nf)
                t.append({"o": "save", "p": p, "n": f})
                if p not in up and not any(e["k"] == "func" for e in pipes[self.src(pipes, p)]["els"]):
                    by[f] = self.src(pipes, p)
            elif k < 0.55 and fresh:
                p = fresh[0]
                f = r.randint(1, nf)
                if f not in by:
                    fresh.pop(0)           # what a failed load leaves is not used
                    t.append({"o": "load", "p": p, "n": f})
                    continue
                pipes[p]["like"] = by[f]
                fresh.pop(0)
                cut = None
                if self.chance(0.35):
                    cut = r.choice((0, 1, 30, 250, 500, 800, 950, 990, 998, 999, r.randrange(1000), 1000))
                    t.append({"o": "cut", "e": f, "n": cut})
                    if cut < 1000:
                        by.pop(f)
                t.append({"o": "load", "p": p, "n": f})
                if cut is None or cut == 1000:
                    full.add(p)
            elif k < 0.62:
                t.append({"o": r.choice(("savebad", "loadbad")), "p": p, "n": 1})
            elif k < 0.8:
                t.append({"o": "destroy" if p in up else "init", "p": p})
                (up.discard if p in up else up.add)(p)
            else:
                t.append({"o": "run", "p": p})
                if p in up and self.chance(0.3):
                    t.append({"o": "load", "p": p, "n": 1})
        for p in sorted(full):
            t += ([] if p in up else [{"o": "init", "p": p}]) + [{"o": "run", "p": p}, {"o": "destroy", "p": p}]
        return {"id": sid, "seeds": seeds, "pipes": pipes, "threads": [t], "stored": 1, "nf": nf}

    @staticmethod
    def src(pipes, p):
        return pipes[p].get("like", p)

    def scenario(self, sid, seeds):
        r = self.r
        if self.kind == "file":
            return self.files(sid, seeds)
        s = self.inner(sid, seeds)
        p = s["pipes"][0]
        p["eng"] = 0                     # engines are not stored
        for e in p["els"]:
            e.pop("eng", None)
            if e["k"] == "node" and self.chance(0.1):
                e["bind"] = 0
        t = s["threads"][0]
        i = 0
        while i < len(t) and t[i]["o"] in ("do", "sleep"):
            i += 1
        hops = r.choice((1, 1, 1, 2))
        alone = self.kind == "param" or len(p["els"]) > 8 or len(s["threads"]) > 1 or self.chance(0.5)
        mid = []
        for h in range(hops):
            mid += [{"o": "save", "p": h, "n": h + 1}, {"o": "load", "p": h + 1, "n": h + 1}]
            if alone:
                mid.append({"o": "remove", "p": h})
        s["stored"], s["alone"], s["hops"] = 1, int(alone), hops
        s["pipes"] = [p] + [{"like": 0, "els": []} for _ in range(hops)]

        def go(ops, q):
            return [dict(o, p=q) if o["o"] not in ("sleep", "work", "spawn", "join", "mark", "waitmark", "save", "load", "remove") else o for o in ops]
        rest = go(t[i:], hops)
        if not alone:                    # the original is used as well
            orig = go(t[i:], 0)
            how = r.randrange(3)
            if how == 0:
                rest = rest + orig
            elif how == 1:
                rest = orig + rest
            else:
                rest = [x for y in zip(rest, orig) for x in y]
        s["threads"][0] = t[:i] + mid + rest
        for j in range(1, len(s["threads"])):
            s["threads"][j] = go(s["threads"][j], hops)
        return s


def fam(s):
    return s["id"].split(".")[0]


def one(s):
    return dict(s, pipes=[s["pipes"][0]], id=fam(s) + ".x")


def used(s):
    return [s["hops"]] if s["alone"] else [s["hops"], 0]


def cf_file(s):
    ps = s["pipes"]
    return {"np": len(ps), "nf": s["nf"], "els": [sum(e["k"] != "cluster" for e in p["els"]) for p in ps], "ad": [int(any(e["k"] == "func" for e in p["els"])) for p in ps]}


def pr_file(s, run):
    """run() on its own is left out: only elements that are executed, and results"""
    out, arg = [], {}
    for x in run["ev"]:
        v = x["ev"]
        y = {"v": v, "s": x["s"], "e": x["p"] + 1, "f": 0, "n": x["n"], "cut": 0}
        if v == "call":
            arg = x
            continue
        if v == "ret":
            y["f"] = arg["n"] if x["s"] in ("save", "load") else 0
        elif v == "badload":
            y["v"] = "fault"
        elif v == "rb":
            y["f"] = x["e"]
        elif v not in ("end", "fault"):
            continue
        out.append(y)
    cuts = [o for o in s["threads"][0] if o["o"] == "cut"]
    for y in out:
        if y["v"] == "ret" and y["s"] == "cut":
            o = cuts.pop(0)
            y["f"], y["cut"] = o["e"], o["n"]
    return out


def configs(s):
    if fam(s) == "file":
        return [cf_file(s)]
    if fam(s) in ctxgen.FAM:
        return [c for _ in used(s) for c in ctxgen.configs(one(s))]
    return [pipegen.config(s["pipes"][0]) for _ in used(s)]


def view(s, run, p):
    """what happened to pipeline p, and to the original before it was saved"""
    out, stage, bad = [], 0, None
    params = fam(s) == "param"
    for x in run["ev"]:
        if x["ev"] in ("call", "ret") and x["s"] in ("save", "load", "remove"):
            stage = 1
            last = x["ev"] == "ret" and (x["s"] == "remove" or x["s"] == "load" and not s["alone"]) and x["p"] == s["hops"] - (x["s"] == "remove")
            if x["ev"] == "ret" and x["n"] != 0:
                bad = dict(x, ev="fault", s=x["s"])
            if last:
                stage = 2
            continue
        if x["ev"] == "badload":
            bad = dict(x, ev="fault", s="badload")
        if x["ev"] in ("end", "fault"):
            out.append(x)
        elif stage == 0 and x["p"] == 0:
            out.append(x)
        elif stage == 2 and (x["p"] == p or params):
            out.append(dict(x, p=0))
    return {"ev": [dict(bad)] + out if bad else out}


def projects(s, run):
    if fam(s) == "file":
        return [pr_file(s, run)]
    out = []
    for p in used(s):
        v = view(s, run, p)
        out += ctxgen.projects(one(s), v) if fam(s) in ctxgen.FAM else [pipegen.project(v, 0)]
    return out
