"""C32: interruptions at every point of parsing and reading."""
import ctypes
import os
import signal
import sys
import threading
import time

from .. import core, embed, gen, walk
from .common import corpus_case
from .p_env import outcome

LIB = os.path.realpath(os.path.join(core.REPO, "aeromet_py")) + os.sep


class Stop(BaseException):
    """A cancellation such as frameworks raise it."""


class Tracer:
    """Counts the line or opcode events of the library and raises at the n-th one."""

    def __init__(self, at=None, exc=None, opcodes=False, points=None):
        self.n, self.at, self.exc, self.opcodes, self.points = 0, at, exc, opcodes, points
        self.where = None

    def call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(LIB) or "/database/" in f:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            if self.points is not None:
                self.points.append((frame.f_code.co_filename[len(LIB):], frame.f_lineno))
            if self.n == self.at:
                self.where = frame.f_code.co_filename[len(LIB):], frame.f_lineno
                self.n += 1
                raise self.exc
            self.n += 1
        return self.local

    def run(self, f):
        """(result, exception) of f under the tracer"""
        old = sys.gettrace()
        # what is raised while Python disposes of a generator cannot reach anybody
        self.lost, hook = False, sys.unraisablehook
        sys.unraisablehook = lambda u: setattr(self, "lost", True)
        if self.opcodes:
            sys._getframe().f_trace_opcodes = True       # (takes effect with the next settrace)
        sys.settrace(self.call)
        try:
            return f(), None
        except (Exception, Stop, KeyboardInterrupt) as e:
            sys.settrace(None)
            # without the traceback nothing of the interrupted run is kept alive
            return None, e.with_traceback(None)
        finally:
            sys.settrace(old)
            sys.unraisablehook = hook


class C32(core.Prop):
    pid = "C32"
    rule = """random, mutated and real reports whose parse or read is stopped: exceptions injected at
    chosen lines and opcodes of the library (first every line not yet hit, then random ones), real stack
    exhaustion by a low recursion limit, real timer signals, and asynchronous exceptions sent to threads
    that parse while others do.  After each interruption the same report, the reports alive and others
    parsed anew must be observed as before, and nothing may block.  Non-trivial: an interruption
    happened; distinct by place and kind of exception."""
    need = {"parse_interruptions": 4000, "read_interruptions": 2500, "distinct_places": 500,
            "stack_exhaustions": 300, "signals": 50, "thread_interruptions": 100, "after_checks": 6000,
            "repeated_interruptions": 1200,
            "with_trends_or_changes": 100}
    case_cpu = 240
    assumptions = ["The exception that reaches the caller may be another one than the injected one "
                   "(a cleanup step of the library may fail in turn); only that one reaches it is demanded."]

    def setup(self, x):
        self.hit = set()
        signal.signal(signal.SIGALRM, self.alarm)
        self.timed = None

    def alarm(self, *a):
        if self.timed == "signal":
            self.timed = "fired"
            raise KeyboardInterrupt()
        if self.timed == "block":
            raise core.Hang("a parse or read after an interruption blocks")

    def cases(self, r, tier, shard, n):
        q = tier == "quick"
        for i in range(22 if q else 2500):
            k = r.random()
            if k < .6:
                c = gen.any_report(r)
            elif k < .8:
                c = corpus_case(r)
            else:
                w = r.choice(embed.EVERYWHERE)
                s = r.choice(embed.BODY if w == "metar" else embed.PART)
                c = embed.section(r, w, {s: embed.some(r, s)}, .3)
            yield dict(c, mode="inject", seed=r.randrange(1 << 30), fixed=True)
        for i in range(4 if q else 300):
            yield dict(gen.any_report(r), mode="stack", seed=r.randrange(1 << 30), fixed=True)
            yield dict(gen.any_report(r), mode="signal", seed=r.randrange(1 << 30), fixed=True)
        for i in range(2 if q else 60):
            yield dict(mode="async", seed=r.randrange(1 << 30), k="metar", t="", y=0, m=0, fixed=True)

    def judge(self, c, x):
        r = core.rng(c["seed"])
        try:
            if c["mode"] == "async":
                self.threads(r, x)
            else:
                self.single(c, r, x)
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
        x.sample({k: v for k, v in c.items() if k != "fixed"})

    def single(self, c, r, x):
        self.x, self.c = x, c
        self.timed = "block"
        signal.setitimer(signal.ITIMER_REAL, 120)
        self.rep, self.first = outcome(x, c)
        self.others = [dict(gen.any_report(r)) for _ in range(3)] + [dict(c, y=2011, m=7)] + [self.full(r)]
        self.alive = [outcome(x, d) for d in self.others]
        signal.setitimer(signal.ITIMER_REAL, 0)
        self.timed = None
        x.hit("with_trends_or_changes", self.rep is not None and len(
            self.rep.weather_trends if c["k"] == "metar" else self.rep.changes_forecasted) > 0)
        getattr(self, c["mode"])(c, r, x)

    def full(self, r):
        """A report in which every step of parsing has something to do."""
        if r.random() < .5:
            return dict(k="taf", y=2021, m=r.randint(1, 11), t=" ".join(
                ["TAF AMD", gen.station(r), "281100Z 2812/2918", gen.wind(r, True), r.choice(["2 1/2SM", "1 3/4SM"]),
                 gen.weather(r), gen.cloud(r), "TX12/2815Z TNM02/2906Z PROB30 TEMPO 2814/2816", r.choice(["1 1/4SM", "3 1/2SM"]),
                 gen.weather(r), "FM281800", gen.wind(r, True), "4 1/2SM BECMG 2820/2822 CAVOK"]))
        return dict(k="metar", y=2021, m=r.randint(1, 11), t=" ".join(
            ["SPECI", gen.station(r), "282310Z AUTO", gen.wind(r), gen.variation(r), r.choice(["2 1/2SM", "1 3/4SM"]),
             gen.rvr(r), gen.weather(r), gen.cloud(r), "M02/M03", gen.pressure(r), gen.recent(r), "WS RWY04 WS R22L",
             gen.sea(r), gen.runway_state(r), "TEMPO FM2330 TL0030 1 1/4SM", gen.weather(r), "BECMG AT0010 3 1/2SM NSC RMK 12"]))

    def same(self, how, a, b, d):
        m = walk.differ(a, b, "report")
        if m:
            raise core.Bad(f"{how}, {d['t']!r} ({d['k']}, {d['y']}, {d['m']}) differs: {m}")

    def after(self, r, how):
        """Everything is as before the interruption."""
        self.timed = "block"
        signal.setitimer(signal.ITIMER_REAL, 60)
        try:
            i = r.choice([r.randrange(len(self.others)), len(self.others) - 1])
            rep, o = self.alive[i]
            todo = [lambda: self.same(how + ", parsed again", self.first, outcome(self.x, self.c)[1], self.c),
                    lambda: self.same(how + ", another report", o, outcome(self.x, self.others[i])[1], self.others[i])]
            if self.rep is not None:
                todo.append(lambda: self.same(how + ", the report read before", self.first, walk.observe(self.rep), self.c))
            if rep is not None:
                todo.append(lambda: self.same(how + ", another report alive", o, walk.observe(rep), self.others[i]))
            r.shuffle(todo)                         # each can be the first to meet what was left behind
            for f in todo:
                f()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.timed = None
        self.x.hit("after_checks")

    def inject(self, c, r, x):
        acts = [("parse", lambda: x.new(c), 8)]
        if self.rep is not None:
            acts.append(("read", lambda: walk.observe(self.rep), 6))
        for what, f, n in acts:
            opcodes = r.random() < .3
            pts = []
            Tracer(opcodes=opcodes, points=pts).run(f)
            if not pts:
                raise RuntimeError("nothing of the library was traced")
            fresh = {}
            for i, p in enumerate(pts):
                if (what, p) not in self.hit:
                    fresh.setdefault((what, p), i)
            new = r.sample(sorted(fresh.values()), min(len(fresh), 2 * n))
            places = {}
            for i, p in enumerate(pts):
                places.setdefault(p, []).append(i)
            names = sorted(places, key=str)
            for i in new + [r.choice(places[r.choice(names)]) for _ in range(2 * n)]:
                exc = r.choice([KeyboardInterrupt, MemoryError, RecursionError, Stop])
                t = Tracer(i, exc("injected"), opcodes)
                res, err = t.run(f)
                if t.where is None:
                    continue                               # the run was shorter
                how = f"after {exc.__name__} at {t.where[0]}:{t.where[1]} in a {what}"
                if err is None and not t.lost:
                    raise core.Bad(f"{exc.__name__} at {t.where[0]}:{t.where[1]} does not reach the caller")
                del err
                if r.random() < .25:                    # several times in a row
                    for _ in range(r.randint(1, 5)):
                        Tracer(i, exc("injected"), opcodes).run(f)
                    x.hit("repeated_interruptions")
                    how += ", repeatedly"
                self.hit.add((what, t.where))
                x.hit(what + "_interruptions")
                x.distinct("distinct_places", t.where)
                x.nontrivial((t.where, exc.__name__, what))
                self.after(r, how)

    def stack(self, c, r, x):
        acts = [lambda: x.new(c)] + ([lambda: walk.observe(self.rep)] if self.rep is not None else [])
        old = sys.getrecursionlimit()
        for f in acts:
            depth, fr = 0, sys._getframe()
            while fr:
                depth, fr = depth + 1, fr.f_back
            for k in range(4, 28):
                res = err = None
                try:
                    sys.setrecursionlimit(depth + k)
                    res = f()
                except RecursionError as e:
                    err = e.with_traceback(None)
                except Exception as e:
                    err = e.with_traceback(None)
                finally:
                    sys.setrecursionlimit(old)
                if isinstance(err, RecursionError):
                    x.hit("stack_exhaustions")
                    x.nontrivial(("stack", k, c["t"]))
                    self.after(r, f"after running out of stack ({k} frames left)")

    def signal(self, c, r, x):
        acts = [lambda: x.new(c)] + ([lambda: walk.observe(self.rep)] if self.rep is not None else [])
        for f in acts:
            t0 = time.perf_counter()
            Tracer().run(f)
            span = time.perf_counter() - t0
            for _ in range(6):
                self.timed = "signal"
                err = None
                try:
                    try:
                        signal.setitimer(signal.ITIMER_REAL, max(2e-6, r.random() * span))
                        while self.timed == "signal":
                            f()
                    finally:
                        self.timed = None
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except KeyboardInterrupt:
                    err = True
                except Exception:
                    err = True
                if err:
                    x.hit("signals")
                    x.nontrivial(("signal", c["t"]))
                    self.after(r, "after a timer signal")

    def threads(self, r, x):
        cs = [gen.any_report(r) for _ in range(10)]
        want = [outcome(x, c)[1] for c in cs]
        stop, bad, counts = threading.Event(), [], [0] * 5
        hits = []

        def victim(j):
            rr = core.rng(r.random(), j)
            while not stop.is_set():
                try:
                    while not stop.is_set():
                        walk.observe(x.new(rr.choice(cs)))
                except Stop:
                    hits.append(j)
                except Exception:
                    pass

        def witness(j):
            rr = core.rng(r.random(), j)
            while not stop.is_set() and not bad:
                i = rr.randrange(len(cs))
                try:
                    m = walk.differ(want[i], outcome(x, cs[i])[1], "report")
                except Exception as e:
                    m = f"{type(e).__name__}: {e}"
                if m:
                    bad.append((cs[i], m))
                counts[j] += 1
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-4)
        ts = [threading.Thread(target=victim, args=(j,), daemon=True) for j in range(2)] + \
             [threading.Thread(target=witness, args=(j,), daemon=True) for j in range(2)]
        for t in ts:
            t.start()
        sent, end = 0, time.monotonic() + 30
        while len(hits) < 25 and time.monotonic() < end and not bad:
            time.sleep(.001 + .004 * r.random())
            t = ts[sent % 2]
            if t.is_alive():
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Stop))
            sent += 1
        before = sum(counts)
        time.sleep(.2)
        end = time.monotonic() + 40
        while sum(counts) == before and time.monotonic() < end and not bad:
            time.sleep(.1)
        blocked = sum(counts) == before
        stop.set()
        for t in ts:
            t.join(40)
        sys.setswitchinterval(old)
        if bad:
            raise core.Bad(f"while other threads are interrupted, {bad[0][0]['t']!r} differs: {bad[0][1]}")
        if blocked or any(t.is_alive() for t in ts[2:]):
            raise core.Bad("a parse blocks while other threads are interrupted")
        x.hit("thread_interruptions", len(hits))
        x.hit("thread_witness_parses", sum(counts))
        for i, c in enumerate(cs):
            self.same("after threads were interrupted", want[i], outcome(x, c)[1], c)
        x.nontrivial(("async", len(hits)))
