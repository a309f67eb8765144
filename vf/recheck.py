"""recheck.py REPLAY.json...: does the specification still reject these recorded traces?"""
import json, os, sys, shutil
sys.path.insert(0, os.path.dirname(__file__))
import common
by = {}
for f in sys.argv[1:]:
    r = json.load(open(f))
    by.setdefault(r["spec"], []).append((f, r))
for mod, l in by.items():
    d = common.scratch()
    trs = [{"id": r["scenario"]["id"], "seed": 0, "c": i + 1, "p": 0, "ev": r["trace"]} for i, (f, r) in enumerate(l)]
    st, rej = common.tracecheck(mod, [r["config"] for f, r in l], trs, d)
    rej = dict(rej)
    for i, (f, r) in enumerate(l): print(f, "rejected at %d" % (rej[i] + 1) if i in rej else "accepted", "(was %d)" % (r["rejected_at"] + 1))
    shutil.rmtree(d)
