"""Pipelines whose elements use stages, events, daemons and parameters: random scenarios for harness/pipe.cpp, and the
histories of single stages, events, daemons and parameters for spec/{Stage,Event,Daemon,Param}.tla."""
import pipegen


def nodes(pipe):
    return [e for e in pipe["els"] if e["k"] == "node"]


class Gen:
    def __init__(self, rnd, kind):
        self.r, self.kind = rnd, kind

    def chance(self, p):
        return self.r.random() < p

    def base(self, **o):
        """a random pipeline and a program for it"""
        g = pipegen.Gen(self.r, pbind=0, pmacro=0, **o)
        self.g = g
        return g.pipe()

    def prog(self, pre=(), between=()):
        """init / run ... / destroy, several times"""
        r, t, f = self.r, list(pre), 0
        for _ in range(r.choice((1, 1, 2))):
            t.append({"o": "init"})
            for _ in range(r.choice((1, 1, 2, 3))):
                if self.chance(0.3):
                    t += [{"o": "arun"}, {"o": "await", "n": f}]
                    f += 1
                else:
                    t.append({"o": "run"})
                t += [x for x in between if self.chance(0.4)]
            t.append({"o": "destroy"})
            t += [x for x in between if self.chance(0.2)]
        return t

    # ------------------------------------------------------------ stages
    def k_stage(self):
        r = self.r
        n = r.choice((1, 2, 2, 2, 3, 3, 4))
        k = n if self.chance(0.6) else n * r.choice((2, 3) if n < 3 else (2,))
        m = r.choice((1, 2, 2, 3, 4)) if k == n else 1
        ns = r.choice((1, 1, 2))
        thr = [n] + [n if k == n else r.choice([x for x in range(1, k + 1) if k % x == 0])] * (ns - 1)
        els, eng = [], r.choice((0, 0, 2))

        def node(**kw):
            e = dict({"id": len(els) + 1, "k": "node", "par": 0}, **kw)
            els.append(e)
            return e
        region = None
        if self.chance(0.25):
            region = node()
            region["k"], region["eng"] = "region", r.choice((0, 2))
        elif self.chance(0.3):
            node()
        pre = 1 if els and not region else 0
        inside = r.randint(1, k) if region else 0
        for i in range(k):
            ops = []
            for _ in range(m):
                for s in range(ns):
                    if self.chance(0.6):
                        ops.append({"o": "work", "n": r.randint(1, 12)} if self.chance(0.8) else {"o": "sleep", "n": r.randint(1, 4)})
                    ops.append({"o": "stage", "n": s + 1})
            if self.chance(0.4):
                ops.append({"o": "work", "n": r.randint(1, 5)})
            if self.chance(0.1):
                ops.insert(r.randrange(len(ops) + 1), {"o": "stage", "n": 99})
            e = node(run=ops)
            if i < inside:
                e["par"] = region["id"]
            elif pre and (eng == 2 or self.chance(0.8)):      # (the static engine runs level by level)
                e["dep"] = [1]
        if region is None and self.chance(0.3):
            node(dep=[e["id"] for e in els[pre:]], run=[{"o": "work", "n": 2}])
        if self.chance(0.2) and m == 1 and k == n and ns == 1:
            for e in els:
                if any(o["o"] == "stage" for o in e.get("run", [])):
                    e["loop"] = 2
        d = k + 2 + r.choice((0, 1))
        cfg = {"d": d, "max": max(8, d), "bs": r.randint(1, 3), "epoch": r.randint(0, 3), "range": 8, "batch": 0, "wepoch": r.choice((0, 0, 2)),
               "deliver": r.choice((0, 0, 1))}
        pipe = {"cfg": cfg, "eng": eng, "els": els, "stages": [{"id": i + 1, "n": t} for i, t in enumerate(thr)]}
        if self.chance(0.1):
            pipe["stages"].append({"id": 99, "n": r.choice((0, -1))})
        return pipe, self.prog()

    # ------------------------------------------------------------ events
    def notes(self, ev, daemon=False):
        """a script that notifies"""
        r, ops = self.r, []
        for _ in range(r.randint(1, 3)):
            if self.chance(0.3):
                ops.append({"o": "work", "n": r.randint(1, 8)})
            e = r.choice(ev) if self.chance(0.93) else 99
            if daemon:
                ops.append({"o": "notify", "n": e, "ty": 0 if self.chance(0.6) else 1, "st": r.choice((1, 1, 2))})
            elif self.chance(0.35):
                st = r.choice((0, 1, 2))
                ops.append({"o": "anotify", "n": e, "st": st, "wait": 1 if self.chance(0.4) else 0})
            else:
                ty = r.randint(0, 1)
                ops.append({"o": "notify", "n": e, "ty": ty, "st": r.choice((0, 0, 1, 2)) if ty else 0})
        return ops

    def k_event(self):
        r = self.r
        pipe = self.base(groups=dict(cluster=1, region=1, mcp=1), pgroup=0.2, depth=1, nmin=1, nmax=5, perr=0.05, ploop=0.15)
        pipe["cfg"].update(d=pipe["cfg"]["d"] + 3, batch=0, range=8)
        pipe["cfg"]["max"] = max(8, pipe["cfg"]["d"])
        ne = r.choice((1, 1, 2))
        pipe["events"] = []
        for i in range(ne):
            ops = [{"o": "work", "n": r.randint(1, 15)}] if self.chance(0.7) else []
            if self.chance(0.3):
                ops.append({"o": "sleep", "n": r.choice((1, 5, 50))})
            pipe["events"].append({"id": i + 1, "ops": ops})
        ev = list(range(1, ne + 1))
        for e in nodes(pipe):
            if self.chance(0.6):
                e["run"] = e.get("run", []) + self.notes(ev)
            if self.chance(0.1):
                e["iops"] = [{"o": "notify", "n": r.choice(ev), "ty": r.randint(0, 1), "st": 0}]
            if self.chance(0.1):
                e["dops"] = [{"o": "notify", "n": r.choice(ev), "ty": 0, "st": 0}]
        if self.chance(0.2):
            pipe["daemons"] = [{"id": 1, "ms": r.choice((2, 5, 10)), "ops": self.notes(ev, True)}]
            pipe["cfg"]["empty"] = 20       # idle threads look for work often enough, or the daemon floods the trace
            for x in pipe["events"]:
                x["ops"] = [dict(o, n=1) if o["o"] == "sleep" else o for o in x["ops"]]
        return pipe, self.prog(between=[{"o": "sleep", "n": r.choice((3, 30))}])

    # ------------------------------------------------------------ daemons
    def k_daemon(self):
        r = self.r
        pipe = self.base(groups=dict(cluster=1, region=1), pgroup=0.15, depth=1, nmin=1, nmax=4, perr=0.04,
                         pinit=0.05 if self.chance(0.3) else 0, pdestroy=0.0)
        pipe["cfg"].update(batch=0)
        pipe["daemons"] = []
        if self.chance(0.3):
            pipe["events"] = [{"id": 1, "ops": [{"o": "work", "n": 3}]}]
        for i in range(r.choice((1, 1, 2, 3))):
            d = {"id": i + 1, "ms": r.choice((3, 10, 10, 20, 50)), "ops": []}
            if self.chance(0.4):
                d["ops"].append({"o": "sleep", "n": r.choice((1, 4, 8, 15, 30))})
            if self.chance(0.3):
                d["ops"].append({"o": "work", "n": r.randint(1, 10)})
            if pipe.get("events") and self.chance(0.5):
                d["ops"].append({"o": "notify", "n": 1, "ty": 0, "st": 0})
            if self.chance(0.3):
                d["mod"] = [r.choice((0, 1, 5, 25, 60)) for _ in range(r.randint(1, 3))]
            pipe["daemons"].append(d)
        for e in nodes(pipe):
            if self.chance(0.5):
                e["run"] = e.get("run", []) + [{"o": "sleep", "n": r.choice((1, 5, 20, 40))}]
        t = self.prog(between=[{"o": "sleep", "n": r.choice((7, 33, 100, 200))}], pre=[{"o": "sleep", "n": 30}] if self.chance(0.2) else [])
        if self.chance(0.25):
            t.append({"o": "process", "n": r.choice((1, 2))})
        if self.chance(0.3):
            t.append({"o": "sleep", "n": 60})
        if self.chance(0.15):
            t = [{"o": "init"}, {"o": "destroy"}] * r.randint(1, 3) + t
        return pipe, t

    # ------------------------------------------------------------ parameters
    def param_ops(self, keys, own, e, main=False):
        r, ops = self.r, []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            key = r.choice(keys)
            if k < 0.2:
                ops.append({"o": "pcreate", "key": key, "n": r.choice((1, 1, 2, 3))})
            elif k < 0.4:
                ops.append({"o": "pget", "key": key, "n": r.choice((1, 1, 2))})
            elif k < 0.65:
                ops.append({"o": "pinc", "key": key})
            elif k < 0.72:
                ops.append({"o": "ptrace", "key": key})
            elif k < 0.8:
                ops.append({"o": "pkeys" if main or self.chance(0.5) else "pcon", "key": ""})
            elif k < 0.9 and not main:
                ops.append({"o": "pcreate", "key": own, "n": r.choice((1, 2, 3))})
                if self.chance(0.6):
                    ops.append(r.choice(({"o": "pget", "key": own, "n": 1}, {"o": "pinc", "key": own})))
                if self.chance(0.7):
                    ops.append({"o": "premove", "key": own})
                    if self.chance(0.4):
                        ops.append({"o": "pcon", "key": ""})
            elif main:
                ops.append({"o": "premove", "key": key})
            if not main and self.chance(0.2):
                ops.append({"o": "work", "n": r.randint(1, 4)})
        return ops

    def k_param(self):
        r = self.r
        pipe = self.base(groups=dict(cluster=1, region=1, mcp=1), pgroup=0.2, depth=1, nmin=1, nmax=6, perr=0.05, ploop=0.2, pdep=0.25)
        keys = ["k%d" % i for i in range(1, r.choice((1, 2, 2, 3)) + 1)]
        for e in nodes(pipe):
            if self.chance(0.75):
                e["run"] = e.get("run", []) + self.param_ops(keys, "o%d" % e["id"], e["id"])
            if self.chance(0.2):
                e["iops"] = [{"o": "pcreate", "key": r.choice(keys), "n": r.choice((1, 1, 1, 2, 3))}]
                if self.chance(0.3):
                    e["iops"].append({"o": "pget", "key": e["iops"][0]["key"], "n": 1})
            if self.chance(0.1):
                e["dops"] = self.param_ops(keys, "o%d" % e["id"], e["id"])
        pre = [{"o": "do", "ops": [{"o": "pcreate", "key": k, "n": r.choice((1, 1, 3, 2))} for k in keys if self.chance(0.7)]}]
        mid = [{"o": "do", "ops": self.param_ops(keys, "", 0, True)} for _ in range(2)]
        return pipe, self.prog(pre=pre, between=mid)

    def k_paramrace(self):
        """parameters are looked up while others are created: the table grows meanwhile"""
        r = self.r
        els = []
        n = r.randint(2, 4)
        for i in range(n):
            ops = []
            for j in range(r.randint(3, 8)):
                if i == 0 or self.chance(0.3):
                    ops.append({"o": "pcreate", "key": "x%d_%d" % (i, j), "n": 1})
                else:
                    ops.append({"o": r.choice(("pinc", "pget", "pinc", "ptrace", "pkeys")), "key": "k1", "n": 1})
                    if ops[-1]["o"] == "pkeys":
                        ops[-1]["key"] = ""
            els.append({"id": i + 1, "k": "node", "par": 0, "run": ops})
        d = n + 1
        pipe = {"cfg": {"d": d, "max": 8, "bs": 2, "epoch": r.randint(0, 3), "range": 8, "batch": 0}, "eng": r.choice((0, 0, 1, 2)), "els": els}
        pre = [{"o": "do", "ops": [{"o": "pcreate", "key": "k1", "n": r.choice((1, 3))}] +
                [{"o": "pcreate", "key": "p%d" % i, "n": 1} for i in range(r.randint(6, 12))]}]
        return pipe, self.prog(pre=pre)

    def k_paramevent(self):
        """events use parameters, several of them at once"""
        r = self.r
        n = r.randint(2, 3)
        els = [{"id": i + 1, "k": "node", "par": 0, "run": [{"o": "notify", "n": 1, "ty": 1, "st": 0}]} for i in range(n)]
        keys = ["k%d" % i for i in range(1, r.randint(3, 7))]
        ops = [{"o": r.choice(("pget", "pinc")), "key": k, "n": 1} for k in keys for _ in range(r.choice((1, 1, 2)))]
        r.shuffle(ops)
        if self.chance(0.8):
            ops.append({"o": "pcon", "key": ""})
        for e in els:
            e["run"] = [{"o": "pget", "key": k, "n": 1} for k in keys if self.chance(0.2)] + [{"o": "pcon", "key": ""}] * self.chance(0.3) + e["run"]
        pipe = {"cfg": {"d": n + 3, "max": 8, "bs": 2, "epoch": r.randint(0, 3), "range": 8, "batch": 0}, "eng": r.choice((0, 0, 2)), "els": els,
                "events": [{"id": 1, "ops": ops}]}
        return pipe, self.prog(pre=[{"o": "do", "ops": [{"o": "pcreate", "key": k, "n": r.choice((1, 1, 2))} for k in keys]}])

    def scenario(self, sid, seeds):
        pipe, t = getattr(self, "k_" + self.kind)()
        s = {"id": sid, "seeds": seeds, "pipes": [pipe], "threads": [t]}
        if self.kind == "param" and self.chance(0.25):
            s["psetup"] = {self.r.choice(("k1", "k2")): [0] * self.r.randint(0, 2) + [-7] + [0] * self.r.randint(0, 1)}
        return s


# ---------------------------------------------------------------- histories of single objects
def ops_of(s):
    """all scripts of a scenario"""
    out = []
    for p in s["pipes"]:
        for x in p["els"] + p.get("daemons", []) + p.get("events", []):
            for k in ("run", "iops", "dops", "ops"):
                out += x.get(k, [])
    for t in s["threads"]:
        for o in t:
            out += o.get("ops", [])
    return out


def stages(s):
    return sorted({st["id"] for st in s["pipes"][0].get("stages", [])} | {o["n"] for o in ops_of(s) if o["o"] == "stage"})


def events(s):
    return sorted({x["id"] for x in s["pipes"][0].get("events", [])} | {o["n"] for o in ops_of(s) if o["o"] in ("notify", "anotify")})


def pkeys(s):
    if s["id"].startswith("paramrace"):
        return ["k1"]
    return sorted({o["key"] for o in ops_of(s) if o.get("key")})


ASYNC = {"arun": "run", "aproc": "process"}


def calls(run):
    """the run's events with asynchronous calls shown as the calls they stand for"""
    fut = []
    for x in run["ev"]:
        if x["ev"] == "call" and x["s"] in ASYNC:
            fut.append(ASYNC[x["s"]])
            yield dict(x, s=ASYNC[x["s"]])
        elif x["ev"] == "ret" and x["s"] in ASYNC or x["ev"] == "call" and x["s"] == "await":
            last = x["n"]
            continue
        elif x["ev"] == "ret" and x["s"] == "await":
            yield dict(x, s=fut[last])
        else:
            yield x


def cf_stage(s):
    by = {st["id"]: st["n"] for st in s["pipes"][0]["stages"] if st["n"] > 0}
    return [{"id": i, "n": by.get(i, 1), "known": 1 if i in by else 0} for i in stages(s)]


def pr_stage(s, run):
    out = []
    for i in stages(s):
        tr = []
        for x in run["ev"]:
            v = x["ev"]
            if v in ("sb", "se") and x["s"] == str(i):
                tr.append({"v": v, "t": x["t"], "a": x.get("a", 0), "ms": x["ms"]})
            elif v in ("slb", "sle") and x["e"] == i:
                tr.append({"v": v, "t": x["t"], "a": 0, "ms": x["ms"]})
            elif v == "ret" and x["s"] in ("run", "await") or v in ("end", "fault"):
                tr.append({"v": v, "t": x["t"], "a": 0, "ms": x["ms"]})
        out.append(tr)
    return out


def cf_event(s):
    by = {e["id"] for e in s["pipes"][0]["events"]}
    return [{"id": i, "known": 1 if i in by else 0} for i in events(s)]


def pr_event(s, run):
    out = []
    for i in events(s):
        tr = []
        waited = set()          # notifications whose futures are waited for
        last = {}
        for k, x in enumerate(run["ev"]):
            if x["ev"] == "nb":
                last[x["t"]] = k
            elif x["ev"] == "nw":
                waited.add(last[x["t"]])
        for x in calls(dict(run, ev=[dict(y, w=1 if k in waited else 0) for k, y in enumerate(run["ev"])])):
            v = x["ev"]
            if v in ("nb", "ne", "nw", "tb", "te") and x["e"] == i or v in ("call", "ret") and x["s"] in ("run", "destroy", "process", "init") \
                    or v in ("end", "fault"):
                tr.append({"v": v, "t": x["t"], "s": x["s"], "n": x["n"], "a": x.get("a", 0), "w": x["w"], "ms": x["ms"]})
        out.append(tr)
    return out


def cf_daemon(s):
    return [{"id": d["id"], "ms": d["ms"]} for d in s["pipes"][0]["daemons"]]


def pr_daemon(s, run):
    out = []
    for d in s["pipes"][0]["daemons"]:
        tr = []
        for x in calls(run):
            v = x["ev"]
            if v in ("dmb", "dme", "dmm") and x["e"] == d["id"] or v in ("call", "ret", "rb", "re", "end", "fault"):
                tr.append({"v": v, "s": x["s"], "n": x["n"], "ms": x["ms"]})
        out.append(tr)
    return out


def cf_param(s):
    return [{"key": k} for k in pkeys(s)]


def pr_param(s, run):
    out = []
    for k in pkeys(s):
        tr, rem = [], set()
        for x in calls(run):
            v = x["ev"]
            y = {"v": v, "t": x["t"], "e": x["e"], "s": x["s"], "n": x["n"], "a": x.get("a", 0), "l": []}
            if v in ("pb", "pe"):
                op, key = x["s"].split(":")[:2]
                rest = x["s"].split(":")[2].split() if v == "pe" else []
                if op not in ("pkeys", "pcon") and key != k:
                    continue
                y["s"] = op
                if op in ("pkeys", "pcon") and v == "pe":
                    y["n"] = 1 if k in rest else 0
                if op == "ptrace":
                    y["l"] = [int(w[1:]) if w[0] == "e" and w[1:].isdigit() else 0 for w in rest]
                if op == "premove":
                    (rem.add if v == "pb" else rem.discard)(x["t"])
            elif v in ("psetup", "preset", "pinit", "pdestroy", "pdtor"):
                if x["s"] != k and v == "psetup" and x["n"] < 0:
                    y["v"] = "osetup"
                elif x["s"] != k:
                    continue
                y["a"] = 0 if v == "pdtor" and x["t"] in rem else 1
            elif v in ("call", "ret"):
                if x["s"] not in ("init", "run", "destroy"):
                    continue
                y["a"] = 1
            elif v not in ("prep", "rb", "re", "end", "fault"):
                continue
            tr.append(y)
        out.append(tr)
    return out


FAM = {"stage": (cf_stage, pr_stage), "event": (cf_event, pr_event), "daemon": (cf_daemon, pr_daemon), "param": (cf_param, pr_param)}


def fam(s):
    return next(FAM[k] for k in FAM if s["id"].startswith(k))


def configs(s):
    return fam(s)[0](s)


def projects(s, run):
    return fam(s)[1](s, run)
