"""One shard of a check: generates cases, runs the library, judges, reports."""
import ctypes
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from mon import core                                        # noqa: E402

LINES = {}


def watch_lines():
    """Which lines of the library ran (sys.monitoring, each location once)."""
    root = os.path.realpath(os.path.join(core.REPO, "aeromet_py")) + os.sep
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    mon.use_tool_id(3, "verif-lines")

    def line(code, n):
        f = code.co_filename
        if f.startswith(root) and "/database/" not in f:
            LINES.setdefault(f[len(root):], set()).add(n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def props():
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.startswith("p_") and f.endswith(".py"):
            importlib.import_module("mon.props." + f[:-3])
    return core.REGISTRY


def stages(p, tier, seed, pid, shard, n):
    """(tier, case): the thorough workload comes after the whole quick one"""
    for t in ("quick", "thorough")[:1 if tier == "quick" else 2]:
        for c in p.cases(core.rng(seed, pid, t, shard), t, shard, n):
            yield t, c


def main(pid, tier, seed, shard, n, out):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)              # not to outlive check.py
    warnings.simplefilter("ignore")
    p = props()[pid]()
    watch_lines()
    x = core.Ctx(tier)
    x.seed, x.shard = seed, shard
    p.setup(x)
    res = dict(evaluations=0, held=0, skipped=0, bad=[], error=None)
    t0 = time.process_time()
    end = time.monotonic() + float(os.environ.get("VERIF_SECONDS") or 3600)
    try:
        for i, (t, c) in enumerate(stages(p, tier, seed, pid, shard, n)):
            if t == "thorough" and time.monotonic() > end:      # what was observed until now counts
                x.hit("stopped_by_time")
                break
            v, m = core.run_judge(p, c, x)
            res["evaluations"] += 1
            if v == "bad":
                res["bad"].append(dict(case=c, original=c, index=i, message=m[0], mech=m[1], reproduced=False))
                write(out, res, x, t0)                  # in case the rest does not end
                if m[1] == "hang" and c.get("fixed"):
                    break
                s = core.shrink(p, c, x)
                v2, m2 = core.run_judge(p, s, x)
                if v2 == "bad":
                    res["bad"][-1].update(case=s, message=m2[0], mech=m2[1], reproduced=True)
                if len(res["bad"]) >= 3 or m[1] == "hang":
                    break
            else:
                res[v] += 1
        if not res["bad"]:
            try:
                p.finish(x)
            except core.Bad as b:
                res["bad"].append(dict(case=None, message=str(b), mech=b.mech, reproduced=True))
    except Exception:
        res["error"] = traceback.format_exc()
    write(out, res, x, t0)


def write(out, res, x, t0):
    res.update(hits=dict(x.hits), sets={k: sorted(v) for k, v in x.sets.items()}, samples=x.samples, keys=len(x.keys),
               cpu=time.process_time() - t0, lines={k: sorted(v) for k, v in LINES.items()})
    with open(out + ".keys", "wb") as f:
        f.write(b"".join(k.to_bytes(7, "big") for k in x.keys))
    with open(out + ".part", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".part", out)


if __name__ == "__main__":
    a = sys.argv
    main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
