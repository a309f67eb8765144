"""show.py REPLAY.json [N]: prints a rejected trace"""
import json, sys
r = json.load(open(sys.argv[1])); n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
print(r["what"])
for p in r["scenario"].get("pipes", []):
    for e in p.get("els", []): print("  ", json.dumps(e))
    print({k: v for k, v in p.items() if k != "els"})
print("  ", json.dumps(r["scenario"].get("threads")))
l = r["rejected_at"]
for i, e in enumerate(r["trace"][max(0, l - n):l + 3]): print("%5d%s" % (max(0, l - n) + i + 1, "*" if max(0, l - n) + i == l else " "), *e.values())
