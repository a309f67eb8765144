"""states.py REPLAY.json: prints the states the specification may be in before the rejected event"""
import json, os, sys, shutil
sys.path.insert(0, os.path.dirname(__file__))
import common, tlc
r = json.load(open(sys.argv[1]))
d = common.scratch()
json.dump(r["config"], open(d + "/cfgs.ndjson", "w")); json.dump({"id": "x", "seed": 0, "c": 1, "p": 0, "ev": r["trace"]}, open(d + "/traces.ndjson", "w"))
mod = r["spec"]
at = r["rejected_at"] if len(sys.argv) < 3 else int(sys.argv[2])
open(tlc.SPEC + "/Dbg.tla", "w").write("---- MODULE Dbg ----\nEXTENDS %s\nShow == l # %d \\/ PrintT(S)\n====\n" % (mod, at))
open(tlc.SPEC + "/Dbg.cfg", "w").write("SPECIFICATION Spec\nINVARIANT Show\n")
rc, out, st = tlc.run("Dbg", env={"TRACE_DIR": d}, workers=1)
print(out)
os.remove(tlc.SPEC + "/Dbg.tla"); os.remove(tlc.SPEC + "/Dbg.cfg"); shutil.rmtree(d)
