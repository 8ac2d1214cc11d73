"""Parses reports in a process of another configuration.  stdin: JSON {"cases": [...], "walk": bool}
stdout: JSON list of digests of everything observable."""
import json
import sys
import warnings

from mon import core, walk

if __name__ == "__main__":
    job = json.load(sys.stdin)
    warnings.simplefilter("ignore")
    Metar, Taf = core.load()
    keep, out = [], []
    for c in job["cases"]:
        try:
            r = (Metar if c["k"] == "metar" else Taf)(c["t"], c["y"], c["m"])
            keep.append(r)
            out.append(walk.digest(walk.observe(r)))
        except Exception as e:
            out.append(type(e).__name__ + ": " + str(e))
    json.dump(dict(digests=out, optimize=sys.flags.optimize, hash_seed=hash("METAR"),
                   set_order=list({"METAR", "SPECI", "TAF", "TEMPO", "BECMG"})), sys.stdout)
