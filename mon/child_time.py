"""Run under libfaketime with a movable frozen clock: parses reports at given
instants and prints what they show.  stdin: JSON {"steps": [[epoch, [cases]]]}"""
import json
import os
import sys
import warnings

from mon import core, view

warnings.simplefilter("ignore")
job = json.load(sys.stdin)
clock = os.environ.get("FAKETIME_TIMESTAMP_FILE")
from datetime import datetime, timezone     # noqa: E402
Metar, Taf = core.load()
out = []
for epoch, cases in job["steps"]:
    if clock:
        with open(clock, "w") as f:
            f.write(str(epoch) + "\n")
    now = datetime.now(timezone.utc)
    res = []
    for c in cases:
        try:
            r = (Metar if c["k"] == "metar" else Taf)(c["t"], c["y"], c["m"])
            res.append(view.jsonable(view.report(r, c["k"])))
        except Exception as e:
            res.append(type(e).__name__ + ": " + str(e))
    out.append(dict(now=[now.year, now.month], res=res))
json.dump(out, sys.stdout)
