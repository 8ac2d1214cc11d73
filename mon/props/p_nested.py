"""C36, C37: parses in the middle of others, and headers."""
import gc
import gzip
import json
import os
import re
import signal
import sys
import time

from .. import core, embed, gen, walk
from .p_env import outcome
from .p_more import some_report

ROOT = os.path.realpath(os.path.join(core.REPO, "aeromet_py")) + os.sep


class Collected:
    """Garbage whose finalizer does something."""

    def __init__(self, do):
        self.me, self.do = self, do

    def __del__(self):
        self.do()


def some_pair(r):
    c = some_report(r)
    if r.random() < .4:
        c = dict(c, t=gen.mutate(r, c["t"], keywords=r.random() < .3))
    if r.random() < .06:                            # more than is documented: an error
        c = dict(c, k="taf", t="TAF %s 011200Z 0112/0212 24010KT " % gen.station(r) + " ".join(
            "FM01%02d00 24010KT" % h for h in range(12, 12 + r.randint(8, 11))))
    return {k: c[k] for k in ("k", "t", "y", "m")}


class C36(core.Prop):
    pid = "C36"
    rule = """pairs of random, mutated and real reports: while the one is parsed or read, at chosen lines of
    the library (first those not yet used) the other is parsed and read completely, as by a callback (trace
    function), by a signal handler (also twice nested) and by the finalizer of garbage collected then; both
    must be observed as when parsed alone, errors included, and nothing may block.  Non-trivial: something
    ran in the middle of a parse or read; distinct by place and pair."""
    need = {"nested_in_parse": 2500, "nested_in_read": 1800, "distinct_places": 600, "by_signal": 500,
            "twice_nested": 200, "by_finalizer": 800, "errors_inside": 150, "outer_with_unknown": 80}
    case_cpu = 120

    def setup(self, x):
        self.used = set()
        self.pending = None
        signal.signal(signal.SIGALRM, self.alarm)

    def alarm(self, sig, frame):
        if self.pending:
            f, self.pending = self.pending, None
            self.arm()
            f(frame)
            return
        cpu = time.process_time()
        if time.monotonic() - self.armed < 20:
            return                                   # late for something that is over
        if cpu - self.cpu < .05:
            raise core.Hang("a parse or read in the middle of another one blocks")
        self.cpu = cpu

    def arm(self, after=25):
        self.cpu, self.armed = time.process_time(), time.monotonic()
        signal.setitimer(signal.ITIMER_REAL, after, 25)

    def cases(self, r, tier, shard, n):
        for i in range(40 if tier == "quick" else 4000):
            yield dict(some_pair(r), inner=[some_pair(r) for _ in range(4)], seed=r.randrange(1 << 30), fixed=True)

    def judge(self, c, x):
        r = core.rng(c["seed"])
        self.arm()
        old, oldh = sys.gettrace(), sys.unraisablehook
        try:
            self.pairs(c, r, x)
        finally:
            sys.settrace(old)
            sys.unraisablehook = oldh
            self.pending = None
            signal.setitimer(signal.ITIMER_REAL, 0)
        x.sample({k: c[k] for k in ("k", "t", "y", "m")})

    def pairs(self, c, r, x):
        rep, first = outcome(x, c)
        inner = []
        for d in c["inner"]:
            t = time.perf_counter()
            o = outcome(x, d)[1]
            inner.append((d, o, time.perf_counter() - t))
        x.hit("outer_with_unknown", rep is not None and len(rep.unparsed_groups) > 0)
        acts = [("parse", lambda: outcome(x, c)[1])]
        if rep is not None:
            acts.append(("read", lambda: walk.observe(rep)))
        for what, f in acts:
            places, t = [], time.perf_counter()
            f()
            t = time.perf_counter() - t
            self.trace(f, lambda p: places.append(p))
            if not places:
                raise RuntimeError("nothing of the library was traced")
            where = {}
            for p in places:
                where[p] = where.get(p, 0) + 1
            new = sorted((what,) + p for p in where if (what,) + p not in self.used)
            new = [p[1:] for p in r.sample(new, min(len(new), 6))]
            every = sorted(where)
            for p in new + [r.choice(every) for _ in range(5)]:
                self.used.add((what,) + p)
                self.one(c, r, x, what, f, first, (p, r.randrange(where[p])), inner)
            for _ in range(5):
                self.one(c, r, x, what, f, first, t, inner)

    def one(self, c, r, x, what, f, first, when, inner):
        """`when`: a place and how many times it is reached before, or the time f takes."""
        seen, places = [], []
        if isinstance(when, tuple):
            way = r.choice(["callback", "callback", "finalizer"])
            places.append(when[0])
        else:
            way = r.choice(["signal", "twice"])
        first_inner, second_inner = r.choice(inner), r.choice(inner)

        def run(i):
            d, want, _ = i
            try:
                o = outcome(x, d)[1]
            except Exception as e:
                o = f"observing it raised {type(e).__name__}: {e}"
            seen.append((d, want, o))

        def act(frame=None):
            p = self.place(frame)
            if p:
                places.append(p)
            if way == "twice":
                self.pending = lambda fr: run(second_inner)
                self.arm(max(2e-6, r.random() * first_inner[2]))
            run(first_inner)
            if way == "twice":
                self.pending = None
                self.arm()
        n = [-1]

        def at_line(p):
            if p != when[0]:
                return
            n[0] += 1
            if n[0] == when[1]:
                if way == "callback":
                    act()
                else:
                    Collected(act)
                    gc.collect(0)
        try:
            try:
                if isinstance(when, tuple):
                    got = self.trace(f, at_line, when[0])
                else:
                    self.pending = act
                    self.arm(max(2e-6, r.random() * when))
                    got = f()
            finally:
                self.pending = None
                self.arm()
        except Exception as e:
            got = f"observing it raised {type(e).__name__}: {e}"
        if not seen or not places:
            x.hit("not_reached")
            return
        d0, place = first_inner[0], places[0]
        how = f"by a {'signal handler' if way in ('signal', 'twice') else way} at {place[0]}:{place[2]}"
        m = walk.differ(first, got, "report")
        if m:
            raise core.Bad(f"{c['t']!r} ({c['k']}, {c['y']}, {c['m']}) differs when {d0['t']!r} is parsed in the "
                           f"middle of its {what} {how}: {m}")
        for d, want, o in seen:
            m = walk.differ(want, o, "report")
            if m:
                raise core.Bad(f"{d['t']!r} ({d['k']}, {d['y']}, {d['m']}) differs when parsed {how} in the middle of a "
                               f"{what} of {c['t']!r}: {m}")
            x.hit("errors_inside", isinstance(want, str))
        x.hit("nested_in_" + what)
        x.hit("by_signal", way in ("signal", "twice"))
        x.hit("by_finalizer", way == "finalizer")
        x.hit("twice_nested", len(seen) > 1)
        for p in places:
            x.distinct("distinct_places", p)
        x.nontrivial((place, way, c["t"], d0["t"]))

    @staticmethod
    def place(fr):
        """Where in the library a frame was interrupted."""
        while fr is not None and not fr.f_code.co_filename.startswith(ROOT):
            fr = fr.f_back
        return fr and (fr.f_code.co_filename[len(ROOT):], fr.f_code.co_name, fr.f_lineno)

    def trace(self, f, do, only=None):
        """Runs f; `do` is called at every line of the library, or of the function `only`."""
        def local(fr, ev, arg):
            if ev == "line":
                c = fr.f_code
                do((c.co_filename[len(ROOT):], c.co_name, fr.f_lineno))
            return local

        def start(fr, ev, arg):
            c = fr.f_code
            if not c.co_filename.startswith(ROOT) or only and (c.co_filename[len(ROOT):], c.co_name) != only[:2]:
                return None
            return local
        old = sys.gettrace()
        sys.settrace(start)
        try:
            return f()
        finally:
            sys.settrace(old)


# ------------------------------------------------------------------------- C37
TYPES = {"metar": ["METAR", "SPECI", None], "taf": ["TAF", None]}
MODIFIERS = {"metar": ["COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO", None], "taf": ["AMD", "COR", None]}
HEADER = re.compile(r"^(METAR|SPECI|TAF)?\s*((?:AMD|COR)\s)?\s*([A-Z][A-Z0-9]{3})\s+(\d{6}Z)"
                    r"(?:\s+(CORR?|AMD|NIL|TEST|FINO|AUTO))?(?=\s|=|$)(.*)$", re.S)


class C37(core.Prop):
    pid = "C37"
    rule = """random, mutated and real reports with a complete header, each rewritten with other types, station
    codes (of the whole catalogue and invented ones) and modifiers: everything except these elements, the
    raw texts that contain them and their lines of the text must be equal.  Non-trivial: a pair was
    compared; distinct by rest of the report and header."""
    need = {"pairs": 6000, "stations": 3000, "types": 2000, "modifiers": 2000, "with_parts": 2500,
            "with_unknown": 1500, "errors": 30}

    def setup(self, x):
        with gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                    "catalogue.json.gz")) as f:
            self.catalogue = sorted({s[1] for s in json.load(f)["stations"] if re.fullmatch("[A-Z][A-Z0-9]{3}", s[1])})

    def cases(self, r, tier, shard, n):
        left = 500 if tier == "quick" else 20000
        while left:
            c = some_pair(r) if r.random() < .8 else gen.any_report(r)
            m = HEADER.match(c["t"])
            if not m or m.group(1) not in TYPES[c["k"]] or c["k"] == "taf" and m.group(5) or \
                    c["k"] == "metar" and m.group(2):
                continue
            if c["k"] == "metar" and set(m.group(6).replace("=", "").split()) & set(MODIFIERS["metar"]):
                continue                    # another modifier takes the place of one that is left out
            left -= 1
            yield dict({k: c[k] for k in ("k", "t", "y", "m")}, seed=r.randrange(1 << 30))

    def station(self, r):
        k = r.random()
        if k < .6:
            return r.choice(self.catalogue)
        if k < .7:
            return r.choice(gen.SOME_STATIONS)
        if k < .8:
            return r.choice("KCELUZVRSYFMPN") + "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(3))
        return r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + "".join(
            r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(3))

    def judge(self, c, x):
        r = core.rng(c["seed"])
        m = HEADER.match(c["t"])
        if not m:
            raise core.Skip()
        time, rest = m.group(4), m.group(6)
        if not rest.startswith((" ", "=")) and rest:
            rest = " " + rest.lstrip()
        ty, st = m.group(1) or TYPES[c["k"]][0], m.group(3)
        mod = (m.group(5) or m.group(2) or "").strip() or None
        rep, base = self.seen(c, x, ty, st, mod, time, rest)
        for _ in range(4):
            t2 = r.choice(TYPES[c["k"]]) if r.random() < .5 else ty
            s2 = self.station(r) if r.random() < .7 else st
            m2 = r.choice(MODIFIERS[c["k"]]) if r.random() < .5 else mod
            if (t2, s2, m2) == (ty, st, mod) or s2.startswith(("PROB", "RMK")) or s2 in (
                    "AUTO", "TEST", "FINO", "CORR", "VV00"):
                continue
            _, o = self.seen(c, x, t2, s2, m2, time, rest)
            d = walk.differ(base, o, "report")
            if d:
                raise core.Bad(f"with the header {(ty, st, mod)} and {(t2, s2, m2)} the report differs: {d}")
            x.hit("pairs")
            x.hit("stations", s2 != st)
            x.hit("types", t2 != ty)
            x.hit("modifiers", m2 != mod)
            x.hit("errors", isinstance(base, str))
            if rep is not None:
                x.hit("with_parts", len(rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted) > 0)
                x.hit("with_unknown", len(rep.unparsed_groups) > 0)
            x.nontrivial((t2, s2, m2, rest))
        x.sample({k: c[k] for k in ("k", "t")})

    def seen(self, c, x, ty, st, mod, time, rest):
        """The report with this header, and what it shows apart from the header."""
        head = [ty] + ([mod, st, time] if c["k"] == "taf" else [st, time, mod])
        head = [h for h in head if h]
        rep, o = outcome(x, dict(c, t=" ".join(head) + rest))
        if rep is None:
            return rep, o if "RangeError" in o else "error"
        text = " ".join(head)
        for k in ("type_", "station", "modifier"):
            o.pop(k)
        # the raw texts without the header
        for k in ("raw_code", "body"):
            if not o[k].startswith(text):
                raise core.Bad(f"{k} is {o[k]!r} but the header is {text!r}")
            o[k] = o[k][len(text):]
        o["sections"][0] = o["sections"][0][len(text):]
        drop = [str(rep.type_) if ty else None, str(rep.station), str(rep.modifier) if mod else None]
        o["str"] = self.without(o["str"], drop)
        d = o.pop("as_dict()")
        for k in ("type_", "station", "modifier"):
            d.pop(k)
        d["code"] = d["code"][len(text):]
        d["sections"] = [d["sections"][0][len(text):]] + d["sections"][1:]
        if not isinstance(json.loads(o.pop("to_json()")), dict):
            raise core.Bad("to_json() is not a dictionary")
        o["dict"] = d
        return rep, o

    def without(self, text, lines):
        out = text.split("\n")
        for l in lines:
            if l in out:
                out.remove(l)
        return out
