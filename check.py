#!/usr/bin/env python3
"""check.py ID quick|thorough: decides one property on /repo's current working tree."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vf"))
import common, props


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line[9:].split(" ", 2)[:2])
                f["text"] = line[9:].split(" ", 2)[2]
                out.append(f)
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    res = common.Result(prop)
    works = props.WORKS[prop]
    err = None
    try:
        for w in works:
            w(res, tier)
            if len(res.violations) > 200:
                break
    except common.build.BuildError as e:
        err = "build failed: %s" % str(e)[:3000]
    except common.CheckError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    kf = [f for f in known() if f.get("property") == prop]
    listed = [v for v in res.violations if any(f["key"] == v[0] for f in kf)]
    new = [v for v in res.violations if v not in listed]
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    rd = os.path.join(HERE, "build", "replay")
    os.makedirs(rd, exist_ok=True)
    for i, (key, text, rep) in enumerate(sorted(new, key=lambda v: len(v[2].get("trace", [])))[:5]):
        p = os.path.join(rd, "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump(dict(rep, property=prop, key=key, what=text), f)
        print(text)
        print("VIOLATION property=%s replay=%s" % (prop, p))
    cov = {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
           "executions": res.runs, "events": res.events, "scenarios": res.scenarios, "parts": res.parts, "samples": res.samples[:3]}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": props.LEVEL.get(prop, "model_checking"),
          "coverage": cov, "assumptions": props.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in res.parts:
        print(json.dumps(p))
    if new:
        return 1
    if err:
        print("ERROR", err)
        return 2
    print("%s %s: %d executions, %d states, %.1f s, no violation" % (prop, tier, res.runs, res.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
