"""Which part of the machinery decides which property."""
import common, ctxgen, graphgen, mgrgen, msggen, pipegen, poolgen, storegen

ASSUME = ["sequentially consistent memory (the scheduler interleaves at synchronisation operations and instrumented accesses)",
          "executions are sampled by seeded random and priority based schedules; the specification itself is explored exhaustively within the stated bounds"]
LEVEL = {}
WORKS = {}


def pipe(part, quick, thorough, ns=3, **feat):
    """random pipelines with the given features, executed under ns schedules each, against Pipe.tla"""
    def work(res, tier):
        n = quick if tier == "quick" else thorough
        r = common.rng(res.prop, part, tier)
        chunk = 1500
        for lo in range(0, n, chunk):
            scs = []
            for i in range(lo, min(n, lo + chunk)):
                g = pipegen.Gen(__import__("random").Random(r.getrandbits(60)), **feat)
                scs.append(g.scenario("%s.%d" % (part, i), [r.randrange(1 << 30) for _ in range(ns)]))
            common.tracework(res, part, "pipe", "PipeTrace", scs, lambda s: [pipegen.config(p) for p in s["pipes"]],
                             lambda s, run: [pipegen.project(run, p) for p in range(len(s["pipes"]))])
            if len(res.violations) > 50:
                return
    return work


def explore(part, quick, thorough, size=(4, 5), err=0, hold=0, prog=("init", "run", "destroy"), **feat):
    """every behaviour of Pipe.tla for a fixed set of small pipelines: PipeMC's invariants over all of them (independent of the code)"""
    def work(res, tier):
        import json, os, random, shutil
        r = random.Random("%s/%s" % (res.prop, part))        # a fixed set: exploring it is what costs
        n, most = (quick, size[0]) if tier == "quick" else (thorough, size[1])
        d = common.scratch()
        try:
            with open(d + "/mc.ndjson", "w") as f:
                for i in range(n):
                    while True:
                        p = pipegen.Gen(random.Random(r.getrandbits(60)), **dict(dict(nmin=2, nmax=most, depth=1), **feat)).pipe()
                        if len(p["els"]) <= most and not any(e.get("to") for e in p["els"]):
                            break
                    f.write(json.dumps({"c": pipegen.config(p), "prog": list(prog), "err": err, "maxhold": hold}) + "\n")
            common.modelwork(res, part, "PipeMC", "PipeMC.cfg", env={"MC_DIR": d})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return work


def model(module, **env):
    """every behaviour of a module of the specification for the sizes given there, against promises stated over the events alone"""
    def work(res, tier):
        common.modelwork(res, "model", module, module + ".cfg", env=dict(env, MC_TIER=tier))
    return work


ALLG = dict(cluster=2, region=2, cond=1, mcs=1, mcp=1, mutable=1, some=1)

WORKS["C01"] = [
    pipe("plain", 500, 6000, nmin=3, nmax=9, plvl=0.1),
    pipe("groups", 350, 5000, groups=ALLG, pgroup=0.35, phold=0.05),
    pipe("removed", 150, 2000, groups=dict(cluster=1, region=1), pinvis=0.2),
]
WORKS["C02"] = [
    pipe("loops", 400, 6000, ploop=0.5, maxloop=4, phold=0.15, runs=(1, 2, 3), groups=dict(cluster=1, region=1)),
    pipe("groups", 350, 5000, groups=ALLG, pgroup=0.4, ploop=0.4),
]
WORKS["C03"] = [
    pipe("errors", 500, 6000, perr=0.15, ppos=0.05, runs=(1, 2, 3), nmin=3, nmax=9),
    pipe("grouperr", 300, 5000, perr=0.1, pthrow=0.05, pprep=0.04, pchk=0.04, ppos=0.05, groups=ALLG, runs=(1, 2)),
    pipe("aspects", 200, 3000, perr=0.05, pthrow=0.08, pasp=0.4, paerr=0.15, pprep=0.04, pchk=0.04, groups=dict(cluster=1, region=1)),
]
WORKS["C04"] = [
    pipe("cyclic", 700, 8000, ns=2, cyc=0.5, nmin=2, nmax=8, groups=dict(region=2, cluster=1), pdep=0.35, plvl=0.1),
    pipe("initfail", 400, 5000, ns=2, pinit=0.12, pdestroy=0.08, plvl=0.4, pasp=0.15, paerr=0.3, groups=dict(region=1, cluster=1)),
]
WORKS["C05"] = [
    pipe("wild", 900, 10000, ns=2, wild=1, groups=dict(region=1, cluster=1), pgroup=0.2),
    pipe("wildfail", 400, 5000, ns=2, wild=1, pinit=0.06, pdestroy=0.05, perr=0.05, nmin=1, nmax=5),
]
WORKS["C06"] = [
    pipe("seq", 500, 6000, groups=dict(cluster=3, cond=3, mcs=3, mcp=2), pgroup=0.6, ploop=0.3, phold=0.1, nmin=1, nmax=4),
    pipe("seqerr", 300, 4000, groups=dict(cluster=3, cond=3, mcs=3, mcp=2), pgroup=0.6, perr=0.08, pthrow=0.03, nmin=1, nmax=4),
]
WORKS["C07"] = [
    pipe("region", 500, 6000, groups=dict(region=4, cluster=1), pgroup=0.5, ploop=0.3, phold=0.1, nmin=1, nmax=4),
    pipe("regionerr", 300, 4000, groups=dict(region=4, mutable=1), pgroup=0.5, perr=0.1, pthrow=0.03, nmin=1, nmax=4),
]
WORKS["C08"] = [
    pipe("mutable", 500, 6000, groups=dict(mutable=4, cluster=1), pgroup=0.5, ploop=0.3, phold=0.1, nmin=1, nmax=4, runs=(1, 2, 3)),
    pipe("mutableerr", 300, 4000, groups=dict(mutable=4, region=1), pgroup=0.5, perr=0.1, nmin=1, nmax=4, runs=(1, 2, 3)),
]
WORKS["C09"] = [
    pipe("some", 450, 6000, groups=dict(some=4, cluster=1), pgroup=0.5, psee=0.3, nmin=1, nmax=4, runs=(1, 2, 3)),
    pipe("someerr", 250, 4000, groups=dict(some=4, region=1), pgroup=0.5, psee=0.3, perr=0.1, ploop=0.3, nmin=1, nmax=4, runs=(1, 2)),
]
WORKS["C10"] = [
    pipe("hold", 400, 6000, phold=0.4, ploop=0.5, groups=dict(cluster=2, region=2, cond=1, mcs=1, mcp=1, mutable=1), pgroup=0.4, nmax=5),
    pipe("hooks", 300, 5000, phold=0.2, pprep=0.08, pchk=0.08, groups=dict(cluster=1, region=1, mcp=1), pgroup=0.3, runs=(1, 2, 3)),
]
WORKS["C11"] = [
    pipe("aspects", 400, 6000, pasp=0.6, phold=0.15, groups=dict(cluster=2, region=2, cond=1, mcs=1, mcp=1, mutable=1, some=1), pgroup=0.4, nmax=5),
    pipe("asperr", 350, 5000, pasp=0.6, paerr=0.25, perr=0.06, pthrow=0.06, pinit=0.04, pdestroy=0.04, groups=dict(cluster=1, region=1), nmax=5),
    pipe("asptime", 150, 3000, pasp=0.4, pto=0.3, groups=dict(cluster=1, region=1), nmax=5),
]
WORKS["C12"] = [
    pipe("nodes", 400, 5000, psee=0.25, pto=0.4, runs=(1, 2, 3), adapters=0.2),
    pipe("mixed", 250, 4000, psee=0.25, pto=0.2, pgto=0.3, adapters=0.3, groups=dict(ALLG), pgroup=0.4, nmax=5),
    pipe("nested", 150, 3000, psee=0.2, pto=0.5, pgto=0.7, tos=(1, 1, 1, 2), groups=dict(cluster=3, region=2, mutable=1), pgroup=0.6, nmin=1, nmax=3),
    pipe("timeerr", 200, 3000, psee=0.25, pto=0.3, pgto=0.2, perr=0.1, ppos=0.05, groups=dict(cluster=1, region=1, some=1), pgroup=0.3),
]
WORKS["C13"] = [
    pipe("nodes", 450, 6000, ns=4, ctl=1, nmin=1, nmax=6),
    pipe("groups", 350, 5000, ns=3, ctl=1, groups=ALLG, pgroup=0.35, nmax=5),
]
# the specification itself, explored exhaustively for small pipelines
WORKS["C01"].append(explore("model", 24, 80, nmin=3, pdep=0.65, pinvis=0.3, groups=dict(region=1, cluster=1), pgroup=0.15, ploop=0.1))
WORKS["C02"].append(explore("model", 20, 60, size=(4, 5), nmin=1, ploop=0.4, maxloop=2, hold=1, phold=0.3, groups=dict(region=1, cluster=1), pgroup=0.2, prog=("init", "run", "run", "destroy")))
WORKS["C03"].append(explore("model", 20, 60, size=(4, 5), nmin=1, err=2, groups=dict(region=1, cluster=1), pgroup=0.2, ploop=0.1, prog=("init", "run", "run", "destroy")))
WORKS["C06"].append(explore("model", 20, 60, size=(4, 5), nmin=1, err=1, groups=dict(cluster=1, cond=1, mcs=1, mcp=1), pgroup=0.7))
WORKS["C07"].append(explore("model", 20, 60, size=(4, 5), nmin=1, err=1, groups=dict(region=1), pgroup=0.7, ploop=0.2, maxloop=2))
WORKS["C08"].append(explore("model", 20, 60, size=(4, 5), nmin=1, err=1, groups=dict(mutable=1), pgroup=0.7))
WORKS["C11"].append(explore("model", 12, 40, size=(3, 4), nmin=1, err=1, pasp=0.5, ploop=0.1))
WORKS["C33"] = [
    pipe("async", 400, 5000, cmode=("arun", "aproc", "process"), groups=dict(cluster=1, region=1, some=1), perr=0.04, pinit=0.02, pdestroy=0.02, runs=(0, 1, 1, 2, 3), cycles=(1, 2, 3)),
    pipe("background", 200, 2500, cmode=("arun", "aproc"), groups=dict(cluster=1, region=1), pback=0.7, runs=(0, 1, 2), nmax=6, cycles=(1, 2)),
]


def pool(kind, quick, thorough, ns=3):
    """thread pool scenarios of one family against Pool.tla"""
    def work(res, tier):
        n = quick if tier == "quick" else thorough
        r = common.rng(res.prop, kind, tier)
        for lo in range(0, n, 2500):
            scs = []
            for i in range(lo, min(n, lo + 2500)):
                g = poolgen.Gen(__import__("random").Random(r.getrandbits(60)), kind)
                scs.append(g.scenario("%s.%d" % (kind, i), [r.randrange(1 << 30) for _ in range(ns)]))
            common.tracework(res, kind, "pool", "PoolTrace", scs, lambda s: [poolgen.config(s)], lambda s, run: [poolgen.project(run)])
            if len(res.violations) > 50:
                return
    return work


WORKS["C14"] = [pool("tasks", 700, 9000), pool("capacity", 400, 5000), pool("life", 500, 6000),
                model("PoolMC", MC_MODE="tasks"), model("PoolMC", MC_MODE="life")]
WORKS["C15"] = [pool("groups", 900, 10000), model("PoolMC", MC_MODE="groups")]
WORKS["C16"] = [pool("prio", 900, 10000), model("PoolMC", MC_MODE="prio")]


def family(harness, module, gen, kind, quick, thorough, ns=3, per=2000):
    """scenarios of one family of a generator module, executed and checked against a trace specification"""
    def work(res, tier):
        n = quick if tier == "quick" else thorough
        r = common.rng(res.prop, kind, tier)
        for lo in range(0, n, per):
            scs = []
            for i in range(lo, min(n, lo + per)):
                g = gen.Gen(__import__("random").Random(r.getrandbits(60)), kind)
                scs.append(g.scenario("%s.%d" % (kind, i), [r.randrange(1 << 30) for _ in range(ns)]))
            common.tracework(res, kind, harness, module, scs, gen.configs, gen.projects)
            if len(res.violations) > 50:
                return
    return work


def msg(kind, quick, thorough, ns=3):
    return family("msg", "MsgTrace", msggen, kind, quick, thorough, ns)


WORKS["C17"] = [msg("sr", 500, 6000), msg("block", 400, 5000), msg("life", 200, 2000, ns=1), msg("race", 250, 3000, ns=4), model("MsgMC", MC_MODE="sr")]
WORKS["C18"] = [msg("ps", 500, 6000), msg("psblock", 350, 5000), msg("race", 250, 3000, ns=4), model("MsgMC", MC_MODE="ps")]


def ctx(module, kind, quick, thorough, ns=3):
    return family("pipe", module, ctxgen, kind, quick, thorough, ns)


WORKS["C19"] = [ctx("StageTrace", "stage", 700, 8000, 4), model("StageMC")]
WORKS["C20"] = [ctx("EventTrace", "event", 700, 8000), model("EventMC")]
WORKS["C21"] = [ctx("DaemonTrace", "daemon", 600, 7000), model("DaemonMC")]
WORKS["C22"] = [ctx("ParamTrace", "param", 600, 7000), ctx("ParamTrace", "paramrace", 250, 3000, 4), ctx("ParamTrace", "paramevent", 250, 3000, 4), model("ParamMC")]


def mgr(kind, quick, thorough, ns=3):
    return family("pipe", "MgrTrace", mgrgen, kind, quick, thorough, ns)


WORKS["C23"] = [mgr("hammer", 500, 6000, 4), mgr("block", 250, 2500), mgr("seq", 400, 5000, 1), mgr("pair", 250, 3000, 6), model("MgrMC")]


def dags(quick, thorough):
    """every graph of up to so many nodes: the real analyses against the definitions of Graph.tla"""
    def work(res, tier):
        r = common.rng(res.prop, "dags", tier)
        scs = []
        for n in range(1, (quick if tier == "quick" else thorough) + 1):
            for i, ed in enumerate(graphgen.dags(n)):
                g = graphgen.Gen(__import__("random").Random(r.getrandbits(60)), "dags")
                pipe, t = g.graph(n, ed, lvl=r.random() < 0.3)
                scs.append({"id": "dag%d.%d" % (n, i), "seeds": [1], "pipes": [pipe], "threads": [t]})
        for lo in range(0, len(scs), 4000):
            common.tracework(res, "dags", "pipe", "GraphTrace", scs[lo:lo + 4000], graphgen.configs, graphgen.projects)
    return work


WORKS["C24"] = [dags(5, 6), family("pipe", "GraphTrace", graphgen, "edit", 500, 6000, 2), model("GraphMC")]


def store(kind, module, quick, thorough, ns=2):
    return family("pipe", module, storegen, kind, quick, thorough, ns)


WORKS["C25"] = [store("plain", "PipeTrace", 300, 4000), store("errs", "PipeTrace", 150, 2500), store("timed", "PipeTrace", 120, 2500), store("stage", "StageTrace", 80, 1000),
                store("event", "EventTrace", 80, 1000), store("daemon", "DaemonTrace", 80, 1000), store("param", "ParamTrace", 120, 1500), store("file", "StoreTrace", 400, 5000, 1)]
