"""What every check needs: run scenarios on a harness, give the recorded traces to TLC, collect results."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(__file__))
import build, tlc

VERIF = build.VERIF
JOBS = int(os.environ.get("VF_JOBS", "8"))


class CheckError(Exception):
    pass


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.states = self.transitions = self.traces = self.events = self.runs = self.scenarios = 0
        self.violations = []          # (key, text, replay dict)
        self.samples = []
        self.parts = []
        self.rejected = 0

    def add(self, key, text, replay):
        self.violations.append((key, text, replay))


def rng(prop, part, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    return random.Random("%s/%s/%s/%s" % (seed, prop, part, tier))


def scratch():
    return tempfile.mkdtemp(prefix="vf")


def harness(name):
    return build.build([name])[name]


def runset(exe, scs, d, jobs=JOBS, timeout=600):
    a, b = os.path.join(d, "sc.ndjson"), os.path.join(d, "runs.ndjson")
    with open(a, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    try:
        r = subprocess.run([exe, a, b, str(jobs)], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("the harness did not end within %d s" % timeout)
    if r.returncode:
        raise CheckError("harness failed (%d): %s" % (r.returncode, r.stderr[-1500:]))
    runs = [json.loads(x) for x in open(b)]
    n = sum(len(s["seeds"]) for s in scs)
    if len(runs) != n:
        raise CheckError("harness ran %d of %d executions" % (len(runs), n))
    return runs


def tracecheck(module, cfgs, trs, d, heap="8g", timeout=700):
    """trs: [{"id","seed","c":1-based config index,"ev":[...]}]; returns (stats, [(trace index, event index)])"""
    with open(d + "/cfgs.ndjson", "w") as f:
        for c in cfgs:
            f.write(json.dumps(c) + "\n")
    with open(d + "/traces.ndjson", "w") as f:
        for t in trs:
            f.write(json.dumps(t) + "\n")
    rc, out, st = tlc.run(module, env={"TRACE_DIR": d}, heap=heap, timeout=timeout, tmp=d)
    if rc != 0:
        raise CheckError("TLC %s ended with %d:\n%s" % (module, rc, out[-3000:]))
    rej = {}
    for m in re.findall(r'<<"REJECT", "[^"]*", -?\d+, (\d+), (\d+)>>', out):
        t, l = int(m[0]) - 1, int(m[1]) - 1
        rej[t] = min(l, rej.get(t, 1 << 30))
    if st["distinct"] == 0:
        raise CheckError("TLC %s explored nothing:\n%s" % (module, out[-2000:]))
    return st, sorted(rej.items())


def describe(tr, l):
    e = tr["ev"][l]
    return "event %d of execution %s/%s is not allowed: %s" % (l + 1, tr["id"], tr["seed"],
                                                            " ".join("%s=%s" % (k, e[k]) for k in e if e[k] not in ("", None)))


def tracework(res, part, exe_name, module, scs, cfg_of, project, key=None, sample=None):
    """scenarios -> executions of the real code -> membership in the specification's behaviours"""
    t0 = time.time()
    exe = harness(exe_name)
    d = scratch()
    try:
        runs = runset(exe, scs, d)
        by = {s["id"]: s for s in scs}
        cfgs, idx, trs = [], {}, []
        for s in scs:
            for p, c in enumerate(cfg_of(s)):
                idx[(s["id"], p)] = len(cfgs) + 1
                cfgs.append(c)
        for r in runs:
            for p, ev in enumerate(project(by[r["id"]], r)):
                trs.append({"id": r["id"], "seed": r["seed"], "c": idx[(r["id"], p)], "p": p, "ev": ev})
        st, rej = tracecheck(module, cfgs, trs, d)
        res.states += st["distinct"]
        res.transitions += st["states"]
        res.traces += len(trs)
        res.runs += len(runs)
        res.scenarios += len(scs)
        ne = sum(len(t["ev"]) for t in trs)
        res.events += ne
        res.rejected += len(rej)
        for i, l in rej:
            t = trs[i]
            res.add((key or (lambda s, t, l: "%s:%s:%s" % (part, t["id"], t["seed"])))(by[t["id"]], t, l), "[%s] %s" % (part, describe(t, l)),
                    {"part": part, "harness": exe_name, "spec": module, "scenario": dict(by[t["id"]], seeds=[t["seed"]]), "config": cfgs[t["c"] - 1],
                     "trace": t["ev"], "rejected_at": l})
        if trs:
            k = min(range(len(trs)), key=lambda i: abs(len(trs[i]["ev"]) - 40))
            res.samples.append({"part": part, "id": trs[k]["id"], "seed": trs[k]["seed"],
                                "scenario": by[trs[k]["id"]], "trace": [" ".join(str(x) for x in e.values()) for e in trs[k]["ev"][:60]]})
        flt = sum(1 for r in runs if r["ev"] and r["ev"][-1]["ev"] == "fault")
        res.parts.append({"part": part, "scenarios": len(scs), "executions": len(runs), "events": ne, "faults": flt, "rejected": len(rej),
                          "tlc_states": st["distinct"], "wall_s": round(time.time() - t0, 1)})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def modelwork(res, part, module, cfg, consts=None, env=None, heap="8g", timeout=700, expect_violation=False):
    """exhaustive model checking of a module of the specification"""
    t0 = time.time()
    rc, out, st = tlc.run(module, cfg=cfg, env=env, heap=heap, timeout=timeout)
    if rc != 0:
        if rc == 124:
            raise CheckError("TLC %s did not end in %d s" % (module, timeout))
        raise CheckError("TLC %s (%s) ended with %d: the specification itself is inconsistent:\n%s" % (module, cfg, rc, out[-3000:]))
    res.states += st["distinct"]
    res.transitions += st["states"]
    res.parts.append({"part": part, "module": module, "cfg": cfg, "states": st["distinct"], "transitions": st["states"],
                      "depth": st["depth"], "exhaustive": True, "wall_s": round(time.time() - t0, 1)})
