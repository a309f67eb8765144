"""development aid: random pipelines against Pipe.tla"""
import json, os, random, re, subprocess, sys, time, shutil
sys.path.insert(0, os.path.dirname(__file__))
import build, tlc, pipegen

def runset(scs, exe, d, jobs=8, env=None):
    os.makedirs(d, exist_ok=True)
    a, b = os.path.join(d, "sc.ndjson"), os.path.join(d, "runs.ndjson")
    with open(a, "w") as f:
        for s in scs: f.write(json.dumps(s) + "\n")
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run([exe, a, b, str(jobs)], capture_output=True, text=True, env=e)
    if r.returncode: print("harness", r.returncode, r.stderr[-500:])
    return [json.loads(x) for x in open(b)]

def pipecheck(scs, runs, d, heap="6g", module="PipeTrace"):
    by = {s["id"]: i for i, s in enumerate(scs)}
    cfgs, idx, trs = [], {}, []
    for s in scs:
        for p, pp in enumerate(s["pipes"]):
            idx[(s["id"], p)] = len(cfgs) + 1
            cfgs.append(pipegen.config(pp))
    for r in runs:
        s = scs[by[r["id"]]]
        for p in range(len(s["pipes"])):
            trs.append({"id": r["id"], "seed": r["seed"], "c": idx[(r["id"], p)], "p": p, "ev": pipegen.project(r, p)})
    with open(d + "/cfgs.ndjson", "w") as f:
        for c in cfgs: f.write(json.dumps(c) + "\n")
    with open(d + "/traces.ndjson", "w") as f:
        for t in trs: f.write(json.dumps(t) + "\n")
    rc, out, st = tlc.run(module, env={"TRACE_DIR": d}, heap=heap)
    rej = [(m[0], int(m[1]), int(m[2]), int(m[3])) for m in re.findall(r'<<"REJECT", "([^"]*)", (-?\d+), (\d+), (\d+)>>', out)]
    return rc, out, st, rej, trs

if __name__ == "__main__":
    seed = int(sys.argv[1]); n = int(sys.argv[2]); ns = int(sys.argv[3]); feat = eval("dict(%s)" % (sys.argv[4] if len(sys.argv) > 4 else ""))
    exe = build.build(["pipe"])["pipe"]
    scs = []
    for i in range(n):
        g = pipegen.Gen(random.Random(seed * 100003 + i), **feat)
        scs.append(g.scenario("s%d" % i, [seed * 1000 + k for k in range(ns)]))
    d = "/tmp/tryp"
    t0 = time.time(); runs = runset(scs, exe, d); t1 = time.time()
    ne = sum(len(r["ev"]) for r in runs)
    flt = {}
    for r in runs:
        if r["ev"][-1]["ev"] == "fault": flt.setdefault((r["ev"][-1]["s"]), []).append((r["id"], r["seed"]))
    print("runs", len(runs), "events", ne, "%.1fs" % (t1 - t0), "faults", {k: (len(v), v[:3]) for k, v in flt.items()})
    rc, out, st, rej, trs = pipecheck(scs, runs, d)
    print("tlc", rc, st)
    if rc != 0: print(out[-3000:])
    print("rejected", len(rej))
    for r in rej[:int(os.environ.get("SHOW", "2"))]:
        t = trs[r[2] - 1]
        print(r, json.dumps(scs[[s["id"] for s in scs].index(r[0])]["pipes"][t["p"]]["els"]))
        for k, e in enumerate(t["ev"][:r[3]]): print("  ", k + 1, e["v"], e["e"], e["s"], e["n"], e["a"], e["ms"])
