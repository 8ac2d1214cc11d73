"""Run under libfaketime: copies and pickles reports at one instant and observes the copies at another.
stdin: JSON {"from": epoch, "to": epoch, "cases": [...]}; stdout: JSON list of [now, now, messages]."""
import copy
import json
import os
import pickle
import sys
import warnings
from datetime import datetime, timezone

from mon import core, walk

if __name__ == "__main__":
    warnings.simplefilter("ignore")
    job = json.load(sys.stdin)
    clock = os.environ.get("FAKETIME_TIMESTAMP_FILE")

    def at(epoch):
        if clock:
            with open(clock, "w") as f:
                f.write(str(epoch) + "\n")
        return str(datetime.now(timezone.utc))[:7]
    a = at(job["from"])
    Metar, Taf = core.load()
    kept = []
    for i, c in enumerate(job["cases"]):
        try:
            r = (Metar if c["k"] == "metar" else Taf)(c["t"], c["y"], c["m"])
        except Exception:
            continue
        want = walk.observe(r)
        kept.append((c, r, want, [copy.copy(r), copy.deepcopy(r)], pickle.dumps(r, 2 + i % 4)))
    b = at(job["to"])
    out = []
    for c, r, want, copies, p in kept:
        for how, d in [("the original", r), ("a copy", copies[0]), ("a deep copy", copies[1]),
                       ("a restored pickle", pickle.loads(p)), ("a later copy", copy.copy(r)),
                       ("a later deep copy", copy.deepcopy(r))]:
            m = walk.differ(want, walk.observe(d), "report")
            if m:
                out.append(f"{how} of {c}, observed in another month: {m}")
    json.dump([a, b, len(kept), out], sys.stdout)
