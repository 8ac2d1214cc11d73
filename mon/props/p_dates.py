"""C14-C18: times, validity and periods."""
import calendar
import itertools
import json
import os
import re
import subprocess
import sys
from datetime import datetime, timedelta

from .. import core, embed, gen, ref, view
from .common import Diff, reports

FAKETIME = "/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1"


def iso(t):
    return t.isoformat()


def accessors(t, what):
    """year .. minute of a Time against its datetime"""
    d = t.time
    if not isinstance(d, datetime):
        raise core.Bad(f"{what}.time is {d!r}")
    got = (t.year, t.month, t.day, t.hour, t.minute)
    if got != (d.year, d.month, d.day, d.hour, d.minute):
        raise core.Bad(f"{what}: accessors give {got} for {d}")
    if str(t) != str(d):
        raise core.Bad(f"{what}: text {t} for {d}")


def clock_change(r, d):
    """A local time zone whose clocks change within a day of d."""
    a = d + timedelta(days=r.choice([-1, 0, 0, 0, 1]))
    b = a + timedelta(days=r.choice([30, 120, 200]))
    rules = ["J%d/%d" % (datetime(2023, t.month, min(t.day, 28 if t.month == 2 else t.day)).timetuple().tm_yday,
                         r.choice([0, 1, 2, 3, d.hour, d.hour, r.randrange(24)])) for t in (a, b)]
    if r.random() < .4:
        rules.reverse()
    return "AAA%dBBB,%s,%s" % (r.choice([0, 3, 5, 8, -1, -5, -10]), *rules)


class Dates(Diff):
    def cases(self, r, tier, shard, n):
        for c in super().cases(r, tier, shard, n):
            if c.get("y") and 1902 <= c["y"] <= 9000 and r.random() < .3:
                g = re.search(r"\b(\d\d)(\d\d)\d\dZ", c["t"])
                try:
                    d = datetime(c["y"], c["m"], int(g.group(1)), int(g.group(2)) % 24)
                except (ValueError, AttributeError):
                    d = datetime(c["y"], c["m"], 1)
                c["zone"] = clock_change(r, d)
            yield c

    def facts(self, c, x, o):
        x.hit("clock_changes", "zone" in c)
        """Times known from the construction of the case, not from the reference."""
        for path, want in (c.get("facts") or {}).items():
            v = o
            for k in path.split("."):
                try:
                    v = v[int(k)] if k.isdigit() else v[k]
                except (IndexError, KeyError):
                    raise core.Bad(f"{path} is missing")
            got = iso(v) if isinstance(v, datetime) else v
            if got != want:
                raise core.Bad(f"{path} is {got} instead of {want}, from which the text was written")
            x.hit("facts")


def day_set():
    """Dates near month and year ends, of leap and common years."""
    for y in (1899, 1999, 2000, 2019, 2020, 2022, 2023, 2024, 2099, 2100):
        for m in range(1, 13):
            last = calendar.monthrange(y, m)[1]
            for d in (1, 2, 15, last - 2, last - 1, last):
                yield datetime(y, m, d)


DATE = re.compile(r"\d{4,5}-\d\d-\d\d \d\d:\d\d:\d\d")


def no_dates(v):
    """A view without its dates."""
    if isinstance(v, dict):
        return {k: no_dates(w) for k, w in v.items() if k not in ("duration",)}
    if isinstance(v, list):
        return [no_dates(w) for w in v]
    if isinstance(v, tuple):
        return tuple(no_dates(w) for w in v)
    if isinstance(v, datetime):
        return "date"
    if isinstance(v, str):
        return DATE.sub("date", v)
    return v


class C14(Dates):
    pid = "C14"
    rule = """every day 00-32 of months of leap, common and century years x hours 00-25 x minutes,
    METAR and TAF, time group present, absent, malformed or misplaced; the same texts under other
    years and months (only dates may change); child processes under a frozen, moving wall clock
    (libfaketime) and several time zones, with year and month given, one of them given, or none.
    Non-trivial: always; distinct by the resulting time and arguments."""
    want = ("time",)
    need = {"facts": 3000, "clock_changes": 1500, "moved_reports": 300, "clock_reports": 500, "defaulted": 150}

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        # every day, hour and minute
        it = itertools.product((1900, 1999, 2000, 2022, 2023, 2024, 2100), range(1, 13), range(0, 33))
        for y, m, d in core.sliced(it, shard, n):
            for _ in range(2 if not big else 12):
                h, mi = r.choice([r.randrange(26), 0, 23, 24]), r.choice([r.randrange(62), 0, 59])
                ok = 1 <= d <= calendar.monthrange(y, m)[1] and h <= 24 and mi <= 59
                g = "%02d%02d%02dZ" % (d, h, mi)
                t = datetime(y, m, d) + timedelta(hours=h, minutes=mi) if ok else datetime(y, m, 1)
                k = r.choice(["metar", "taf"])
                rest = ["00000KT", "9999", "NSC"] if r.random() < .5 else []
                yield dict(k=k, t=" ".join([k.upper(), r.choice(gen.SOME_STATIONS), g] + rest), y=y, m=m,
                           facts={"time.t": iso(t), "time.code": g if ok else None})
        for h in core.sliced(range(26), shard, n):
            for mi in range(0, 62):
                for k in ("metar", "taf"):
                    y, m, d = r.choice([(2023, 12, 31), (2024, 2, 29), (2023, 2, 28), (2022, 6, 30), (2024, 2, 28)])
                    ok = h <= 24 and mi <= 59
                    yield dict(k=k, t="%s %02d%02d%02dZ" % (k.upper(), d, h, mi), y=y, m=m, facts={"time.t": iso(
                        datetime(y, m, d) + timedelta(hours=h, minutes=mi) if ok else datetime(y, m, 1))})
        bad = ["12345Z", "1234567Z", "010000", "010000z", "01000Z", "Z010000", "01:00Z", "0l0000Z", "320000Z",
               "012500Z", "010060Z", "000000Z", "999999Z", "01 0000Z"]
        for g in core.sliced(bad, shard, n):
            for k in ("metar", "taf"):
                y, m = r.randint(1900, 2100), r.randint(1, 12)
                yield dict(k=k, t=k.upper() + " ZZZZ " + g + " 24010KT", y=y, m=m,
                           facts={"time.t": iso(datetime(y, m, 1)), "time.code": None})
        # misplaced or repeated time groups do not count
        for _ in range(40 if not big else 1500):
            t = gen.instant(r)
            y, m = t.year, t.month
            u = gen.instant(r)
            yield dict(k="metar", t=f"METAR ZZZZ {gen.ddhhmmz(t)} 24010KT {gen.ddhhmmz(u)} 9999", y=y, m=m,
                       facts={"time.t": iso(t)})
            yield dict(k="metar", t=f"METAR ZZZZ 24010KT {gen.ddhhmmz(u)} 9999", y=y, m=m,
                       facts={"time.t": iso(datetime(y, m, 1))})
            yield dict(k="taf", t=f"TAF ZZZZ {gen.ddhhmmz(t)} {gen.ddhhmmz(u)} NIL", y=y, m=m,
                       facts={"time.t": iso(t)})
        # other year and month
        for _ in range(300 if not big else 4000):
            c = gen.any_report(r)
            c["other"] = [r.choice([2, 1000, 9998, r.randint(1800, 2200), 2024, 2023]), r.randint(1, 12)]
            yield c
        # wall clock and time zone
        ends = [datetime(2023, 12, 31, 23, 59, 59), datetime(2024, 1, 1), datetime(2024, 2, 29, 23, 59, 59),
                datetime(2024, 3, 1), datetime(2023, 2, 28, 23, 59, 59), datetime(2021, 7, 31, 12),
                datetime(2022, 8, 1, 0, 30), datetime(2030, 1, 1, 9), datetime(2019, 12, 31, 15)]
        zones = ["UTC", "Pacific/Kiritimati", "Etc/GMT+12", "America/New_York", "Asia/Kolkata", "XXX-26"]
        for i in range(2 if not big else 12):
            steps = []
            for w in r.sample(ends, 5):
                cs = []
                for _ in range(12 if not big else 25):
                    c = gen.any_report(r)
                    k = r.random()
                    if k < .3:
                        c["y"] = c["m"] = None
                    elif k < .5:
                        c["y"] = None
                    elif k < .7:
                        c["m"] = None
                    if k < .7 and r.random() < .2:
                        c["t"] = " ".join(g for g in c["t"].split() if not g.endswith("Z"))
                    elif k < .7:
                        # days that exist in every month
                        c["t"] = re.sub(r"\b(29|30|31)(\d{4}Z)", r"0\2", c["t"]) if r.random() < .3 else c["t"]
                    cs.append(c)
                steps.append([int((w - datetime(1970, 1, 1)).total_seconds()), cs])
            yield dict(clock=steps, tz=zones[(shard + i * n) % len(zones)])

    def judge(self, c, x):
        if "clock" in c:
            return self.clock(c, x)
        e, o, rep = core.compare(x, c, self.want, ())
        core.count_obs(x, o)
        accessors(rep.time, "time")
        self.facts(c, x, o)
        x.nontrivial((c["k"], c["y"], c["m"], iso(o["time"]["t"]), o["time"]["code"]))
        x.sample(c)
        if "other" in c:
            y, m = c["other"]
            c2 = dict(c, y=y, m=m)
            if core.expected(c2) is None or core.expected(c2)["time"]["code"] != o["time"]["code"]:
                return
            a, b = (no_dates(view.report(rep, c["k"])), no_dates(view.report(x.build(c2), c["k"])))
            msg = view.same(a, b, "report", 0)
            if msg:
                raise core.Bad(f"with another year and month ({y}, {m}) more than dates changes: {msg}")
            x.hit("moved_reports")

    def clock(self, c, x):
        env = dict(os.environ, TZ=c["tz"])
        path = None
        faked = os.path.exists(FAKETIME)
        if faked:
            path = os.path.join(os.environ.get("VERIF_TMP", "/tmp"), f"clock-{os.getpid()}")
            open(path, "w").write("%d\n" % c["clock"][0][0])
            env.update(FAKETIME_NO_CACHE="1", FAKETIME_TIMESTAMP_FILE=path, FAKETIME_FMT="%s", NO_FAKE_STAT="1",
                       FAKETIME_DONT_FAKE_MONOTONIC="1", LD_PRELOAD=FAKETIME)
        try:
            p = subprocess.run([sys.executable, "-m", "mon.child_time"], env=env, input=json.dumps(
                dict(steps=c["clock"])), capture_output=True, text=True, timeout=300)
        finally:
            if path and os.path.exists(path):
                os.remove(path)
        if p.returncode:
            raise RuntimeError("child failed: " + p.stderr[-800:])
        for (epoch, cases), step in zip(c["clock"], json.loads(p.stdout)):
            if faked:
                now = datetime(1970, 1, 1) + timedelta(seconds=epoch)
                if step["now"] != [now.year, now.month]:
                    raise RuntimeError("the clock could not be faked")
            ny, nm = step["now"]
            for cc, got in zip(cases, step["res"]):
                full = dict(cc, y=cc["y"] or ny, m=cc["m"] or nm)
                if core.expected(full) is None:
                    continue
                want = view.jsonable(view.report(x.build(full), full["k"]))
                if isinstance(got, str):
                    raise core.Bad(f"under clock {ny}-{nm}, TZ {c['tz']}: {cc} raised {got}")
                msg = view.same(want, got, "report", 0)
                if msg:
                    raise core.Bad(f"{cc} read at {datetime(1970, 1, 1) + timedelta(seconds=epoch)} UTC, TZ "
                                   f"{c['tz']}, is not that of year {full['y']}, month {full['m']}: {msg}")
                x.hit("clock_reports")
                x.hit("defaulted", full["y"] != cc["y"] or full["m"] != cc["m"])
                x.nontrivial((cc["t"], cc["y"], cc["m"], epoch, c["tz"]))


class C15(Dates):
    pid = "C15"
    kind = "taf"
    rule = """TAFs issued on month, leap-day and year ends, with validity starting 0-27 days after the
    day of issue and lasting up to 27 days, every start and end hour (24 included), and without
    validity group at every hour; plus random, mutated and real TAFs.  The instants are known from
    the construction of the case.  Non-trivial: always; distinct by issue and validity."""
    want = ("valid",)
    quick, thorough = 1200, 40000
    need = {"facts": 6000, "clock_changes": 1500, "defaults": 500, "month_crossings": 500, "year_crossings": 50}

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        for d in core.sliced(day_set(), shard, n):
            for _ in range(8 if not big else 60):
                t = d + timedelta(hours=r.randrange(24), minutes=r.choice([0, 30, 59, r.randrange(60)]))
                head = ["TAF", r.choice(["ZZZZ", "MROC"]), gen.ddhhmmz(t)]
                off = r.choice([0, 0, 0, 1, 1, 1, 2, 3, 27, r.randrange(28)])
                a = datetime(t.year, t.month, t.day) + timedelta(days=off, hours=r.randrange(24))
                b = datetime(a.year, a.month, a.day) + timedelta(days=r.choice([0, 1, 1, 1, 2, 27, r.randrange(28)]))
                hb = r.choice([24, 0, 6, r.randrange(25)])
                g = a.strftime("%d%H") + "/" + b.strftime("%d") + "%02d" % hb
                b += timedelta(hours=hb)
                yield dict(k="taf", t=" ".join(head + [g] + (["24010KT", "9999"] if r.random() < .3 else [])),
                           y=t.year, m=t.month, facts={"valid.from_": iso(a), "valid.until": iso(b), "valid.code": g})
                a = t.replace(minute=0) + timedelta(hours=1)
                yield dict(k="taf", t=" ".join(head + r.choice([[], ["NIL"], ["24010KT"], ["9999", "TEMPO", "0800"]])),
                           y=t.year, m=t.month, facts={"valid.from_": iso(a), "valid.until": iso(
                               a + timedelta(hours=24)), "valid.code": None})
        for h in core.sliced(range(25), shard, n):
            for h2 in range(26):
                y, m, d = r.choice([(2023, 12, 31), (2024, 2, 28), (2023, 2, 28), (2022, 6, 30)])
                a = datetime(y, m, d) + timedelta(hours=h)
                b = datetime(y, m, d) + timedelta(days=1, hours=h2)
                g = "%02d%02d/%s%02d" % (d, h, (datetime(y, m, d) + timedelta(days=1)).strftime("%d"), h2)
                f = {"valid.from_": iso(a), "valid.until": iso(b)} if h < 24 and h2 < 25 else {"valid.code": None}
                yield dict(k="taf", t="TAF ZZZZ %02d0000Z %s" % (d, g), y=y, m=m, facts=f)
        for _ in range(300 if not big else 5000):       # any day numbers
            y, m = r.choice([2023, 2024, 2100, r.randint(1900, 2100)]), r.randint(1, 12)
            d = r.randint(1, calendar.monthrange(y, m)[1])
            yield dict(k="taf", t="TAF ZZZZ %02d%02d00Z %02d%02d/%02d%02d" % (
                d, r.randrange(25), r.randint(0, 32), r.randrange(25), r.randint(0, 32), r.randrange(26)), y=y, m=m)
        for _ in range(300 if not big else 5000):
            yield gen.taf(r)

    def more(self, c, x, e, o, rep):
        if c["k"] != "taf":
            raise core.Skip()
        self.facts(c, x, o)
        v = rep.valid
        accessors(v.period_from, "valid.period_from")
        accessors(v.period_until, "valid.period_until")
        if v.duration != v.period_until.time - v.period_from.time:
            raise core.Bad(f"the duration is {v.duration}")
        a, b, t = o["valid"]["from_"], o["valid"]["until"], rep.time.time
        x.hit("defaults", o["valid"]["code"] is None)
        x.hit("month_crossings", (t.year, t.month) != (b.year, b.month))
        x.hit("year_crossings", t.year != b.year)
        x.nontrivial((t, a, b))
        x.sample(c)

    def seen(self, d):
        return False


class C16(Dates):
    pid = "C16"
    kind = "taf"
    rule = """every sequence of up to three change kinds (FM, BECMG, TEMPO, PROB30/40, PROB30/40 TEMPO)
    and random sequences of up to eight, at minute resolution, across month, leap-day and year ends,
    with any day numbers; plus random, mutated and real TAFs.  The start of every change and the end
    of every change with a validity group is known from the construction.  Non-trivial: a change was
    seen; distinct by the sequence of kinds and periods."""
    want = ("valid",)
    inner = ("ind", "code")
    quick, thorough = 1200, 40000
    KINDS = ["FM", "BECMG", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"]
    need = {"changes_seen": 10000, "facts": 8000, "clock_changes": 1500, "fm_shortened": 1000, "eight_changes": 50}

    def build_case(self, r, seq, wild=False):
        t = gen.instant(r)
        v0 = t.replace(minute=0) + timedelta(hours=r.choice([0, 1, 1, 2, 6, 12, 23]))
        length = r.choice([6, 9, 24, 30, 36, 72, 240])
        v1 = v0 + timedelta(hours=length)
        toks = ["TAF", "ZZZZ", gen.ddhhmmz(t), gen.ddhh(v0) + "/" + gen.ddhh(v1, True, r)]
        facts = {}
        marks = [r.randint(0, length * 60) for _ in seq]
        if r.random() < .8:
            marks.sort()
        if r.random() < .2:
            marks = [m // 60 * 60 for m in marks]
        for i, k in enumerate(seq):
            a = v0 + timedelta(minutes=marks[i])
            p = "changes.%d.ind." % i
            if k == "FM":
                toks.append("FM" + a.strftime("%d%H%M"))
                facts[p + "valid.from_"] = iso(a)
                facts[p + "code"] = toks[-1]
            else:
                a = a.replace(minute=0)
                b = a + timedelta(hours=r.choice([0, 1, 2, 4, 12, 24, r.randint(0, 200)]))
                g = gen.ddhh(a) + "/" + gen.ddhh(b, True, r)
                toks += [k, g]
                facts[p + "valid.from_"] = iso(a)
                d0 = datetime(a.year, a.month, a.day)
                dd = (b - timedelta(days=1)) if g.endswith("24") else b
                if 0 <= (datetime(dd.year, dd.month, dd.day) - d0).days < 28:
                    facts[p + "valid.until"] = iso(b)
                facts[p + "code"] = k + " " + g
            if wild or r.random() < .5:
                toks += r.choice([["24010KT"], ["9999"], ["0800", "FG"], ["BKN010"], []])
        facts["valid.from_"] = iso(v0)
        return dict(k="taf", t=" ".join(toks), y=t.year, m=t.month, facts=facts)

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        for rep in range(3 if not big else 40):
            it = itertools.chain(*(itertools.product(self.KINDS, repeat=k) for k in (1, 2, 3)))
            for seq in core.sliced(it, shard, n):
                yield self.build_case(r, seq)
        for _ in range(500 if not big else 15000):
            seq = [r.choice(self.KINDS + ["FM"] * 4 + ["BECMG"] * 2) for _ in range(r.choice([4, 5, 6, 7, 8, 8]))]
            yield self.build_case(r, seq)
        for _ in range(400 if not big else 10000):       # any numbers, missing validity groups
            toks = ["TAF", "ZZZZ", "%02d%02d00Z" % (r.randint(1, 28), r.randrange(24))]
            if r.random() < .8:
                toks.append("%02d%02d/%02d%02d" % (r.randint(1, 31), r.randrange(24), r.randint(1, 31), r.randrange(25)))
            for _ in range(r.randint(1, 8)):
                k = r.choice(self.KINDS + ["FM", "FM"])
                if k == "FM":
                    toks.append("FM%02d%02d%02d" % (r.randint(1, 31), r.randrange(24), r.randrange(60)))
                else:
                    toks.append(k)
                    if r.random() < .85:
                        toks.append("%02d%02d/%02d%02d" % (r.randint(1, 31), r.randrange(24), r.randint(1, 31),
                                                          r.randrange(25)))
                toks += r.choice([["24010KT"], ["9999"], ["0800", "FG"], ["BKN010"], []])
            yield dict(k="taf", t=" ".join(toks), y=r.choice([2023, 2024, 2100]), m=r.randint(1, 12))
        for _ in range(400 if not big else 8000):
            yield gen.taf(r)

    def more(self, c, x, e, o, rep):
        if c["k"] != "taf":
            raise core.Skip()
        self.facts(c, x, o)
        ch = o["changes"]
        if not ch:
            return
        x.hit("eight_changes", len(ch) == 8)
        for i, t in enumerate(ch):
            v = rep.changes_forecasted[i].change_indicator.valid
            accessors(v.period_from, "period_from")
            accessors(v.period_until, "period_until")
            if t["ind"]["code"] and t["ind"]["code"].startswith("FM"):
                x.hit("fm_shortened", t["ind"]["valid"]["until"] != o["valid"]["until"])
        x.nontrivial([(t["ind"]["code"], t["ind"]["valid"]["from_"], t["ind"]["valid"]["until"]) for t in ch])
        x.sample(c)

    def seen(self, d):
        return False


class C17(Dates):
    pid = "C17"
    kind = "taf"
    rule = """temperature groups of every sign, value and hour, days 0-27 after the issue across month,
    leap-day and year ends, in every order and number of TX and TN up to two each; malformed ones;
    plus random, mutated and real TAFs.  Value, kind and instant are known from the construction.
    Non-trivial: a temperature was seen; distinct by value, kind and instant."""
    want = ("max", "min")
    quick, thorough = 1000, 40000
    need = {"max_seen": 3000, "min_seen": 3000, "facts": 10000, "clock_changes": 1500, "clock_changes": 1500}

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        orders = [p for k in (1, 2, 3, 4) for p in itertools.product("XN", repeat=k)
                  if p.count("X") <= 2 and p.count("N") <= 2]
        for d in core.sliced(day_set(), shard, n):
            for _ in range(6 if not big else 60):
                t = d + timedelta(hours=r.randrange(24), minutes=r.randrange(60))
                toks = ["TAF", "ZZZZ", gen.ddhhmmz(t)]
                if r.random() < .7:
                    toks.append(gen.ddhh(t + timedelta(hours=1)) + "/" + gen.ddhh(t + timedelta(hours=25), True, r))
                toks += ["24010KT", "9999", "FEW010"][:r.randrange(4)]
                facts, cnt = {}, {"X": 0, "N": 0}
                for k in r.choice(orders):
                    v = r.choice([0, 1, 9, 10, 40, r.randrange(100), r.randrange(100)])
                    s = r.choice(["", "M"])
                    a = d + timedelta(days=r.choice([0, 0, 1, 1, 2, 27, r.randrange(28)]), hours=r.randrange(24))
                    g = "T%s%s%02d/%sZ" % (k, s, v, a.strftime("%d%H"))
                    toks.append(g)
                    p = "%s.%d." % ("max" if k == "X" else "min", cnt[k])
                    cnt[k] += 1
                    facts[p + "at"] = iso(a)
                    facts[p + "t"] = -float(v) if s else float(v)
                    facts[p + "code"] = g
                if r.random() < .3:
                    toks += ["TEMPO", gen.ddhh(t) + "/" + gen.ddhh(t + timedelta(hours=2)), "0800"]
                yield dict(k="taf", t=" ".join(toks), y=t.year, m=t.month, facts=facts)
        for v in core.sliced(range(100), shard, n):
            for s in ("", "M"):
                for k in "XN":
                    yield dict(k="taf", t="TAF ZZZZ 150000Z T%s%s%02d/16%02dZ" % (k, s, v, r.randrange(24)), y=2022, m=2)
        bad = ["TX10/1524Z", "TX10/3200Z", "TX10/0000Z", "TX10/1500", "TX1/1500Z", "TX100/1500Z", "T10/1500Z",
               "TXM/1500Z", "TX-10/1500Z", "TN10/15Z", "TX10/15000Z", "XTX10/1500Z", "TX10/1500ZZ", "TXMM10/1500Z",
               "TM10/1500Z", "TX//1500Z", "TX10 1500Z"]
        for g in core.sliced(bad, shard, n):
            yield dict(k="taf", t="TAF ZZZZ 150000Z 1500/1600 9999 " + g + " TN05/1512Z", y=2022, m=3)
        for _ in range(400 if not big else 8000):
            yield gen.taf(r)

    def more(self, c, x, e, o, rep):
        if c["k"] != "taf":
            raise core.Skip()
        self.facts(c, x, o)
        for l, name in ((rep.max_temperatures, "max"), (rep.min_temperatures, "min")):
            for i in range(len(l)):
                accessors(l[i].time, name + " temperature time")
        if o["max"] or o["min"]:
            x.nontrivial([[(q["t"], iso(q["at"])) for q in o[k]] for k in ("max", "min")])
            x.sample(c)

    def seen(self, d):
        return False


class C18(Dates):
    pid = "C18"
    kind = "metar"
    rule = """METARs at every hour and selected minutes with FM, TL and AT groups at every offset within
    the two hours from the report, alone and combined, hour 24 for midnight, on month, leap-day and
    year ends, one or two trends or NOSIG; plus random, mutated and real METARs.  The instants are
    known from the construction.  Non-trivial: a trend was seen; distinct by its indicator, start and
    periods."""
    want = ("time",)
    inner = ("ind",)
    quick, thorough = 1000, 40000
    need = {"trends_seen": 6000, "facts": 10000, "clock_changes": 1500, "midnight_crossings": 300, "at": 500}

    def one(self, r, t, i, facts, shift=None):
        ind = r.choice(["TEMPO", "BECMG"])
        toks, p = [ind], "trends.%d.ind." % i
        k = r.choice(["", "FM", "TL", "FM TL", "AT", "FM TL", "TL FM", "AT TL", "FM AT", "AT FM"])
        offs = (sorted if r.random() < .75 else list)(r.choice([0, 1, 59, 60, 61, 119, 120, r.randint(0, 120), r.randint(0, 120)]) for _ in range(2))
        w = {"from_": t, "until": t + timedelta(hours=2), "at": None}
        for j, g in enumerate(k.split()):
            a = t + timedelta(minutes=offs[0 if g in ("FM", "AT") else 1])
            if shift is not None:
                a = t + timedelta(minutes=shift)
            hh = a.strftime("%H%M")
            if a.hour == 0 and a.minute == 0 and r.random() < .5:
                hh = "2400"
            toks.append(g + hh)
            w[{"FM": "from_", "TL": "until", "AT": "at"}[g]] = a
        facts[p + "code"] = " ".join(toks)
        facts[p + "init"] = iso(t)
        facts[p + "end"] = iso(t + timedelta(hours=2))
        for f, v in w.items():
            facts[p + f] = iso(v) if v else None
        return toks

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        for d in core.sliced(day_set(), shard, n):
            for h in (r.sample(range(24), 5) + [22, 23]) if not big else range(24):
                t = d + timedelta(hours=h, minutes=r.choice([0, 0, 30, 50, 59, r.randrange(60)]))
                facts = {}
                toks = ["METAR", "ZZZZ", gen.ddhhmmz(t), "24010KT"] + self.one(r, t, 0, facts)
                toks += r.choice([[], ["9999"], ["BKN010"]])
                if r.random() < .3:
                    toks += self.one(r, t, 1, facts) + [r.choice(["0800", "NSC", "25015KT", "1 1/2SM"][:3])]
                if r.random() < .15:
                    toks += ["RMK", "AO2"]
                yield dict(k="metar", t=" ".join(toks), y=t.year, m=t.month, facts=facts)
        for h in core.sliced(range(24), shard, n):
            for mi in ((0, 30, 55) if not big else range(0, 60, 5)):
                for s in range(0, 121, 4 if not big else 1):
                    y, m, d = r.choice([(2023, 12, 31), (2024, 2, 28), (2024, 2, 29), (2022, 6, 15)])
                    t, facts = datetime(y, m, d, h, mi), {}
                    toks = ["METAR", gen.ddhhmmz(t)] + self.one(r, t, 0, facts, s)
                    yield dict(k="metar", t=" ".join(toks), y=y, m=m, facts=facts)
        for d in core.sliced(day_set(), shard, n):
            t = d + timedelta(minutes=r.randrange(1440))
            facts = {"trends.0.ind.code": "NOSIG", "trends.0.ind.from_": iso(t), "trends.0.ind.meaning":
                     "no significant changes", "trends.0.ind.until": iso(t + timedelta(hours=2))}
            yield dict(k="metar", t=f"METAR ZZZZ {gen.ddhhmmz(t)} 9999 NOSIG", y=t.year, m=t.month, facts=facts)
            # hour 24 of the report itself
            t = d + timedelta(days=1)
            facts = {}
            toks = ["METAR", "ZZZZ", d.strftime("%d2400Z")] + self.one(r, t, 0, facts)
            yield dict(k="metar", t=" ".join(toks), y=d.year, m=d.month, facts=facts)
        for _ in range(400 if not big else 8000):
            yield gen.metar(r)

    def more(self, c, x, e, o, rep):
        if c["k"] != "metar":
            raise core.Skip()
        self.facts(c, x, o)
        for i, t in enumerate(o["trends"]):
            ind = rep.weather_trends[i].trend_indicator
            accessors(ind.period_from, "period_from")
            accessors(ind.period_until, "period_until")
            accessors(ind.forecast_period[0], "forecast_period[0]")
            accessors(ind.forecast_period[1], "forecast_period[1]")
            if ind.period_at:
                accessors(ind.period_at, "period_at")
                x.hit("at")
            v = t["ind"]
            x.hit("midnight_crossings", v["init"].day != v["until"].day)
            x.nontrivial((v["code"], iso(v["init"]), iso(v["from_"]), iso(v["until"])))
            x.sample(c)

    def seen(self, d):
        return False
