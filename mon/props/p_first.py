"""C39: the first use of the library is like every later one."""
import json
import os
import subprocess
import sys

from .. import core, gen, walk
from .p_env import outcome
from .p_faults import C32
from .p_more import some_report

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class C39(core.Prop):
    pid = "C39"
    rule = """forks of a process that has imported the library but not used it parse and read their first reports:
    alone, in several threads that start at once (with yields at library lines), after the first parse or read was
    stopped by an exception at a chosen line (places of the catalogue included), and with other reports parsed at a
    chosen line of the first.  Everything public must be as in a process that used the library for long.  Non-trivial:
    a first use was compared; distinct by mode and texts."""
    need = {"alone": 50, "threads": 250, "stopped": 250, "nested": 250, "thread_overlaps": 500, "compared": 3500,
            "really_stopped": 250, "really_nested": 250}
    case_cpu = 400

    def cases(self, r, tier, shard, n):
        for _ in range(4 if tier == "quick" else 150):
            trials = []
            for mode in ["alone"] * 2 + ["threads"] * 9 + ["stopped"] * 9 + ["nested"] * 9:
                cs = [self.some(r) for _ in range(r.randint(4, 8) if mode == "threads" else 4)]
                if r.random() < .4:                  # the same station first everywhere
                    cs[-1] = dict(cs[0])
                trials.append(dict(mode=mode, seed=r.randrange(1 << 30), cases=cs, threads=r.randint(2, 4),
                                   yields=r.random() < .4))
            yield dict(trials=trials, fixed=True)

    def some(self, r):
        k = r.random()
        c = C32.full(None, r) if k < .5 else gen.any_report(r) if k < .8 else some_report(r)
        return {k: c[k] for k in ("k", "t", "y", "m")}

    def judge(self, c, x):
        trials = []
        for t in c["trials"]:
            want = []
            for d in t["cases"]:
                o = outcome(x, d)[1]
                want.append(o if isinstance(o, str) else walk.digest(o))
            trials.append(dict(t, want=want))
        p = subprocess.run([sys.executable, "-m", "mon.child_first"], input=json.dumps(dict(trials=trials)),
                           capture_output=True, text=True, cwd=HERE)
        if p.returncode:
            raise core.Bad("importing the library in a process failed: " + p.stderr[-800:])
        for t, res in zip(trials, json.loads(p.stdout)):
            how = {"alone": "", "threads": f", in {t['threads']} threads at once", "stopped": ", after the first one was stopped",
                   "nested": ", with others parsed in the middle of the first"}[t["mode"]]
            if "blocks" in res:
                raise core.Bad(f"the first use blocks{how}: {[d['t'] for d in t['cases']]}")
            if "died" in res:
                raise core.Bad(f"the process died in its first use{how} ({res['died']}): {[d['t'] for d in t['cases']]}")
            for i, o in res["bad"]:
                d = t["cases"][i] if i >= 0 else None
                want = json.loads(json.dumps(outcome(x, d)[1], default=str)) if d else None
                raise core.Bad(f"{d and d['t']!r}, among the first reports of a process{how}, differs: "
                               f"{walk.differ(want, o, 'report')}")
            info = res["info"]
            x.hit(t["mode"])
            x.hit("compared", info["compared"])
            x.hit("thread_overlaps", info.get("overlaps", 0))
            x.hit("really_stopped", info.get("stopped", 0))
            x.hit("really_nested", info.get("nested", 0))
            x.nontrivial((t["mode"], [d["t"] for d in t["cases"]]))
        x.sample(dict(t=c["trials"][2]["cases"][0]["t"], mode="threads"))
