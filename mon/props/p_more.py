"""C34, C35: copies of reports, and the requested month."""
import calendar
import copy
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
from datetime import datetime, timedelta

from .. import core, embed, gen, walk
from .common import corpus_case
from .p_env import outcome

FAKETIME = "/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1"
LOADER = """
import json, pickle, sys
sys.path[:0] = sys.argv[1:3]
data = pickle.load(open(sys.argv[3], "rb"))            # nothing of the library imported before
from mon import walk
json.dump([walk.observe(r) for r in data], open(sys.argv[4], "w"), default=str)
"""


def some_report(r):
    k = r.random()
    if k < .55:
        return gen.any_report(r)
    if k < .7:
        c = gen.any_report(r)
        return dict(c, t=gen.mutate(r, c["t"], keywords=r.random() < .3))
    if k < .85:
        return corpus_case(r, r.random() < .6)
    w = r.choice(embed.EVERYWHERE)
    s = r.choice(embed.BODY if w == "metar" else embed.PART)
    return embed.section(r, w, {s: embed.some(r, s)}, .3)


class C34(core.Prop):
    pid = "C34"
    rule = """random, mutated and real reports and every element of them copied with copy.copy and
    copy.deepcopy and pickled with every protocol from 2 on, before and after they were read, copies of copies,
    several reports in one pickle; the pickles are also loaded and observed in fresh processes that had
    not imported the library.  Deep copies are changed by the caller, the original must not follow, and the
    other way round; some originals were changed by the caller before; copies of reports for the current
    month are observed when the clock (libfaketime) has moved to another month.  Errors are pickled too.  Non-trivial: a copy was observed; distinct
    by report and way of copying."""
    need = {"copies": 4000, "deepcopies": 4000, "pickles": 12000, "elements": 20000, "other_process": 500,
            "changed_copies": 500, "errors": 30, "filled": 20000, "clock_moved": 150, "changed_before": 500}
    case_cpu = 120

    def cases(self, r, tier, shard, n):
        q = tier == "quick"
        for i in range(700 if q else 25000):
            yield dict(some_report(r), seed=r.randrange(1 << 30))
        for i in range(3 if q else 60):
            yield dict(batch=[some_report(r) for _ in range(40)], fixed=True)
        for i in range(1 if q else 20):
            a = datetime(2023, 12, 31, 23) + timedelta(days=r.choice([0, 31, 60, 366]))
            b = a + timedelta(days=r.choice([1, 1, 40, 366]))
            yield dict(clock=[int((d - datetime(1970, 1, 1)).total_seconds()) for d in (a, b)], fixed=True, reports=[
                dict(d, y=r.choice([None, d["y"]]), m=r.choice([None, None, d["m"]]),
                     t=re.sub(r"\b(29|30|31)(\d{4}Z)", r"0\2", d["t"]))
                for d in (some_report(r) for _ in range(40))])
        for i in range(8 if q else 100):
            yield dict(k="taf", t="TAF MROC 011200Z 0112/0212 " + " ".join(
                ["FM0114%02d 24010KT" % k for k in range(9 + i)]), y=2022, m=1, seed=i, over=True)
            yield dict(k="metar", t="METAR MROC 011200Z BOGUS%d" % i, y=2022, m=1, seed=i, over=True, trunc=True)

    def clock(self, c, x):
        """Copies observed when the current month is another one."""
        env, path = dict(os.environ, TZ="UTC"), None
        if os.path.exists(FAKETIME):
            path = os.path.join(os.environ.get("VERIF_TMP", "/tmp"), f"copy-clock-{os.getpid()}")
            open(path, "w").write("%d\n" % c["clock"][0])
            env.update(FAKETIME_NO_CACHE="1", FAKETIME_TIMESTAMP_FILE=path, FAKETIME_FMT="%s", NO_FAKE_STAT="1",
                       FAKETIME_DONT_FAKE_MONOTONIC="1", LD_PRELOAD=FAKETIME)
        try:
            p = subprocess.run([sys.executable, "-m", "mon.child_copy"], env=env, input=json.dumps(dict(zip(
                ("from", "to", "cases"), c["clock"] + [c["reports"]]))), capture_output=True, text=True, timeout=300)
        finally:
            if path and os.path.exists(path):
                os.remove(path)
        if p.returncode:
            raise core.Bad("copying reports in a child process failed: " + p.stderr[-800:])
        a, b, n, bad = json.loads(p.stdout)
        if path and a == b:
            raise RuntimeError("the clock could not be faked")
        if bad:
            raise core.Bad(bad[0])
        x.hit("clock_moved", n)

    def judge(self, c, x):
        if "batch" in c:
            return self.processes(c, x)
        if "clock" in c:
            return self.clock(c, x)
        r = core.rng(c["seed"])
        try:
            rep = x.new(c, **({"truncate": True} if c.get("trunc") else {}))
        except Exception as e:
            self.error(e, x)
            return
        if r.random() < .25 and self.change(rep, r) + self.flag(rep, r):
            x.hit("changed_before")                    # the caller changed what is copied
        ways = [("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy)] + [
            (f"pickle protocol {p}", lambda o, p=p: pickle.loads(pickle.dumps(o, p)))
            for p in r.sample(range(2, pickle.HIGHEST_PROTOCOL + 1), 3)]
        r.shuffle(ways)
        unread = r.random() < .5                       # copied before anything of it was read
        early = [(n, f(rep)) for n, f in ways] if unread else []
        want = walk.observe(rep)
        for n, d in early + [(n, f(rep)) for n, f in ways[:5 if not unread else 2]]:
            if r.random() < .2:
                d = r.choice(ways)[1](d)
                n += " of a copy"
            self.same(n, want, d)
            x.hit("pickles" if "pickle" in n else "deepcopies" if "deep" in n else "copies")
            x.nontrivial((n, c["k"], c["t"]))
        self.same("original after copying", want, rep)
        for o in self.elements(rep, r):
            n, f = r.choice(ways)
            a, b = walk.observe(o), walk.observe(f(o))
            m = walk.differ(a, b, type(o).__name__)
            if m:
                raise core.Bad(f"{n} of an element differs: {m}")
            x.hit("elements")
        self.room(rep, ways, r, x)
        # a change of the copy (or of the original) is not seen in the other
        n, f = r.choice([w for w in ways if w[0] != "copy.copy"])
        d = f(rep)
        a, b = (rep, d) if r.random() < .5 else (d, rep)
        k = self.change(a, r)
        if k:
            m = walk.differ(want, walk.observe(b), "report")
            if m:
                raise core.Bad(f"{n}: after a change by the caller of one the other differs: {m}")
            x.hit("changed_copies")
        x.sample({k: c[k] for k in ("k", "t", "y", "m")})

    def same(self, how, want, d):
        m = walk.differ(want, walk.observe(d), "report")
        if m:
            raise core.Bad(f"{how} differs: {m}")

    def room(self, rep, ways, r, x):
        """The lists of a copy take as many groups, and refuse the same ones, as those of another copy and
        as the original's (whose groups are put back)."""
        (n, f), (m, g) = r.sample([w for w in ways if w[0] != "copy.copy"], 2)
        for name in walk.reads(type(rep))[0]:
            l = getattr(rep, name)
            if not walk.is_lib(l) or not hasattr(l, "add"):
                continue
            a, b = f(l) if r.random() < .5 else getattr(f(rep), name), g(l)
            o = []
            for q in (a, b) if name == "changes_forecasted" else (a, b, l):     # (these groups end one another)
                kept = list(q.items)
                try:
                    if r.random() < .5:
                        o.append(self.fill(q, kept))
                        del q.items[len(kept):]
                    del q.items[:]
                    o.append(("of none",) + self.fill(q, kept))
                finally:
                    q.items[:] = kept
            for k in ("of none", None):
                same = {t for t in o if (t[0] == "of none") == (k is not None)}
                if len(same) > 1:
                    raise core.Bad(f"groups added to {name}: copies ({n}, {m}) and the original took {sorted(same, key=str)}")
            x.hit("filled")

    def fill(self, q, kept):
        miss = []
        for i in (len(q), len(q) + 1, 99):
            try:
                q[i]
            except Exception as e:
                miss.append(f"{type(e).__name__}: {e}")
        for i in range(40):
            try:
                q.add(kept[0] if kept else None)
            except Exception as e:
                return i, f"{type(e).__name__}: {e}", tuple(miss)
        return 40, "", tuple(miss)

    def elements(self, rep, r):
        props, _ = walk.reads(type(rep))
        out = []
        for p in props:
            v = getattr(rep, p)
            if walk.is_lib(v):
                out.append(v)
                if hasattr(type(v), "__iter__"):
                    out += [g for g in v if walk.is_lib(g)]
        return r.sample(out, min(len(out), 10))

    def change(self, o, r):
        k = 0
        if r.random() < .7:
            o.unparsed_groups.append("CHANGED")
            k += 1
        for n in ("clouds", "weathers", "runway_ranges", "weather_trends", "changes_forecasted", "max_temperatures"):
            l = getattr(o, n, None)
            if l is not None and len(l) and r.random() < .7:
                l.items.reverse() if len(l) > 1 and r.random() < .3 else l.items.clear()
                k += 1
        return k

    def flag(self, o, r):
        if r.random() < .5:
            return 0
        o.prevailing_visibility.cavok = not o.prevailing_visibility.cavok
        return 1

    def error(self, e, x):
        if not (core.is_a(e, "RangeError") or core.is_a(e, "ParserError")):
            raise core.Bad(f"constructing the report raised {type(e).__name__}: {e}")
        for f in [copy.copy, copy.deepcopy] + [lambda o, p=p: pickle.loads(pickle.dumps(o, p)) for p in range(2, 6)]:
            d = f(e)
            if type(d) is not type(e) or str(d) != str(e):
                raise core.Bad(f"a copy of {e!r} is {d!r}")
        x.hit("errors")
        x.nontrivial(str(e))

    def processes(self, c, x):
        reps = []
        for d in c["batch"]:
            rep, o = outcome(x, d)
            if rep is not None:
                reps.append(rep)
        want = json.loads(json.dumps([walk.observe(r) for r in reps], default=str))
        with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as tmp:
            src, dst = os.path.join(tmp, "in"), os.path.join(tmp, "out")
            with open(src, "wb") as f:
                pickle.dump(reps, f, core.rng(c["batch"][0]["t"]).randrange(2, 6))
            p = subprocess.run([sys.executable, "-c", LOADER, os.path.dirname(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__)))), core.REPO, src, dst], capture_output=True, text=True, timeout=300)
            if p.returncode or not os.path.exists(dst):
                raise core.Bad("loading a pickle of reports in another process failed: " + p.stderr[-600:])
            with open(dst) as f:
                got = json.load(f)
        if len(got) != len(want):
            raise core.Bad(f"{len(got)} of {len(want)} reports reached the other process")
        for a, b, rep in zip(want, got, reps):
            m = walk.differ(a, b, "report")
            if m:
                raise core.Bad(f"{rep.raw_code!r} observed in another process differs: {m}")
            x.hit("other_process")


LEN = calendar.monthrange
WHEN = re.compile(r"(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)")
CALENDAR = ("year", "month", "day")


def lengths(y, m, n):
    out = []
    for i in range(n):
        out.append(LEN(y + (m - 1 + i) // 12, (m - 1 + i) % 12 + 1)[1])
    return tuple(out)


class C35(core.Prop):
    pid = "C35"
    rule = """random, mutated and real reports, each parsed for several pairs of months whose lengths and
    whose following months' lengths agree (over the centuries, across year ends and leap years): every
    instant of the one must be the instant of the other shifted by the distance of the months, and
    everything else equal.  Non-trivial: a pair was compared; distinct by report and months."""
    need = {"pairs": 9000, "instants": 150000, "pairs_with_periods": 4000, "year_ends": 500, "leap_februaries": 200}
    case_cpu = 60

    def setup(self, x):
        self.alike = {}
        for y in range(1890, 2110):
            for m in range(1, 13):
                for n in (3, 7):
                    self.alike.setdefault((n,) + lengths(y, m, n), []).append((y, m))

    def cases(self, r, tier, shard, n):
        for i in range(700 if tier == "quick" else 30000):
            k = r.random()
            if k < .25:                                # at the ends of special months, in that month
                y, m = r.choice([1900, 2000, 2100, 2100, r.randrange(1892, 2104, 4), r.randint(1890, 2104)]), \
                    r.choice([2, 2, 2, 12, 11, r.randint(1, 12)])
                t = datetime(y, m, LEN(y, m)[1] - r.choice([0, 0, 1, 1, 2]), r.randrange(24), r.randrange(60))
                c = dict(gen.taf(r, t) if r.random() < .75 else gen.metar(r, t), n=3, own=1)
            elif k < .75:
                c = dict(gen.any_report(r), n=3)
            else:
                c = dict(some_report(r), n=7)
            yield dict(c, seed=r.randrange(1 << 30))

    def judge(self, c, x):
        r = core.rng(c["seed"])
        base = None
        for _ in range(3):
            n = c["n"]
            y, m = r.choice([2, 2, 12, 12, 1, None]), 0
            if c.get("own"):
                y, m = c["y"], c["m"]
            elif y:
                m, y = y, r.randint(1890, 2105)
                if m == 2 and r.random() < .6:
                    y = y // 4 * 4
            else:
                y, m = r.randint(1890, 2105), r.randint(1, 12)
            y2, m2 = r.choice(self.alike[(n,) + lengths(y, m, n)])
            ra, a = outcome(x, dict(c, y=y, m=m))
            rb, b = outcome(x, dict(c, y=y2, m=m2))
            by = datetime(y2, m2, 1) - datetime(y, m, 1)
            self.count = 0
            a = self.moved(a, by)
            d = walk.differ(a, self.moved(b, timedelta(0)), "report")
            if d:
                raise core.Bad(f"asked for {y}-{m:02d} (its instants moved by {by.days} days) and for {y2}-{m2:02d}, "
                               f"the reports differ: {d}")
            if ra is None:
                continue
            x.hit("pairs")
            x.hit("instants", self.count)
            x.hit("year_ends", m == 12 or m2 == 12)
            x.hit("leap_februaries", m == 2 and LEN(y, m)[1] == 29)
            x.hit("pairs_with_periods", c["k"] == "taf" or len(ra.weather_trends) > 0)
            x.nontrivial((c["t"], y, m, y2, m2))
        x.sample({k: c[k] for k in ("k", "t")})

    def moved(self, o, by):
        if isinstance(o, str):
            return WHEN.sub(lambda m: self.move(datetime(*map(int, m.groups())), by), o)
        if isinstance(o, datetime):
            return self.move(o, by)
        if isinstance(o, dict):
            timed = "hour" in o and "minute" in o
            return {k: self.moved(v, by) for k, v in o.items() if not (timed and k in CALENDAR)}
        if isinstance(o, (list, tuple)):
            return [self.moved(v, by) for v in o]
        return o

    def move(self, d, by):
        self.count += 1
        return str(d + by)
