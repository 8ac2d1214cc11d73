"""First uses of the library: each trial runs in a fork of a process that imported the library but has not
used it.  stdin: JSON {"trials": [{"mode", "seed", "cases", "want"}]}; stdout: JSON list of results."""
import json
import os
import random
import signal
import sys
import threading
import time
import warnings

from mon import core, walk

LIB = os.path.realpath(os.path.join(core.REPO, "aeromet_py")) + os.sep
BLOCKED = 60


class Stop(BaseException):
    pass


def observed(c):
    try:
        r = (Metar if c["k"] == "metar" else Taf)(c["t"], c["y"], c["m"])
    except Exception as e:
        return type(e).__name__ + ": " + str(e)
    return walk.observe(r)


class Points:
    """Calls `do` at the n-th line of the library."""

    def __init__(self, at=None, do=None):
        self.at, self.do, self.n, self.seen = at, do, 0, []

    def call(self, f, e, a):
        return self.line if f.f_code.co_filename.startswith(LIB) else None

    def line(self, f, e, a):
        if e == "line":
            if self.at is None:
                self.seen.append((f.f_code.co_filename[len(LIB):], f.f_lineno))
            elif self.n == self.at:
                self.n += 1
                sys.settrace(None)
                self.do(self.seen)
                return self.line
            self.n += 1
        return self.line

    def run(self, f):
        sys.settrace(self.call)
        try:
            return f()
        finally:
            sys.settrace(None)


def trial(t):
    """What differs: list of [case, observation], and what happened"""
    r = random.Random(t["seed"])
    cs, want = t["cases"], t["want"]
    got, info = [], {}
    if t["mode"] == "alone":
        got = [(i, observed(c)) for i, c in enumerate(cs)]
    elif t["mode"] == "threads":
        n = t["threads"]
        bar = threading.Barrier(n)
        lock = threading.Lock()
        runs = []

        def yields(f, e, a):
            if not f.f_code.co_filename.startswith(LIB):
                return None
            rr = random.Random(threading.get_ident() ^ t["seed"])

            def line(f, e, a):
                if rr.random() < .02:
                    time.sleep(0)
                return line
            return line

        def work(j):
            if t["yields"]:
                sys.settrace(yields)
            bar.wait()
            a = time.perf_counter_ns()
            o = [(i, observed(cs[i])) for i in range(len(cs)) if i % n == j]
            runs.append((a, time.perf_counter_ns()))
            with lock:
                got.extend(o)
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=work, args=(j,)) for j in range(n)]
        for h in ts:
            h.start()
        for h in ts:
            h.join()
        info["overlaps"] = sum(a < d and c < b for i, (a, b) in enumerate(runs) for c, d in runs[:i])
    else:
        # where: one of the places of the first use, found in a fork of this fork
        r1, w1 = os.pipe()
        pid = os.fork()
        if pid == 0:
            p = Points()
            p.run(lambda: observed(cs[0]))
            places = {}
            for i, q in enumerate(p.seen):
                places.setdefault(q, []).append(i)
            os.write(w1, json.dumps(r.choice(places[r.choice(sorted(places))])).encode())
            os._exit(0)
        os.close(w1)
        with os.fdopen(r1) as f:
            k = json.loads(f.read())
        os.waitpid(pid, 0)
        inner = []

        def stop(_):
            info["stopped"] = 1
            raise Stop

        def nest(_):
            info["nested"] = 1
            inner.extend((i, observed(cs[i])) for i in range(1, len(cs)))
        if t["mode"] == "stopped":
            try:
                Points(k, stop).run(lambda: observed(cs[0]))
            except Stop:
                pass
            order = list(range(len(cs)))
            r.shuffle(order)
            got = [(i, observed(cs[i])) for i in order]
        else:
            o = Points(k, nest).run(lambda: observed(cs[0]))
            got = [(0, o)] + inner
    bad = []
    for i, o in got:
        d = o if isinstance(o, str) else walk.digest(o)
        if d != want[i]:
            bad.append([i, o])
    info["compared"] = len(got)
    return dict(bad=bad[:1], info=info)


if __name__ == "__main__":
    warnings.simplefilter("ignore")
    job = json.load(sys.stdin)
    Metar, Taf = core.load()
    out = []
    for t in job["trials"]:
        r0, w0 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r0)
            signal.alarm(BLOCKED)
            try:
                res = trial(t)
            except BaseException as e:
                res = dict(bad=[[-1, f"{type(e).__name__}: {e}"]], info={})
            with os.fdopen(w0, "w") as f:
                json.dump(res, f, default=str)
            os._exit(0)
        os.close(w0)
        with os.fdopen(r0) as f:
            text = f.read()
        status = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            out.append(dict(blocks=True))
        elif not text:
            out.append(dict(died=status))
        else:
            out.append(json.loads(text))
    json.dump(out, sys.stdout)
