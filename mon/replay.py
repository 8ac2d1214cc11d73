"""Judges the case of a replay file again: exit 1 if it still violates the property."""
import json
import sys

from mon import core, worker

p = worker.props()[sys.argv[1]]()
d = json.load(open(sys.argv[2]))
x = core.Ctx(d.get("tier", "quick"))
x.seed, x.shard = d.get("seed", 1), 0
p.setup(x)
for k in ("case", "original"):
    if d.get(k):
        v, m = core.run_judge(p, d[k], x)
        print(k + ":", v, m[0] if m else "")
        if v == "bad":
            print(f"VIOLATION property={sys.argv[1]} replay={sys.argv[2]}")
            sys.exit(1)
