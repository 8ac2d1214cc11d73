"""C30 types of everything public, C31 dropped reports are released."""
import gc
import math
import sys
from datetime import datetime, timedelta

from .. import core, embed, gen, walk
from .common import Diff, corpus_case, reports

# the documented types
F, S, B, I, T, D, L = "float", "str", "bool", "int", "datetime", "timedelta", "list of str"
FN, SN = F + " or None", S + " or None"
BASIC = {F: lambda v: type(v) is float and math.isfinite(v), S: lambda v: type(v) is str, B: lambda v: type(v) is bool,
         I: lambda v: type(v) is int, T: lambda v: type(v) is datetime and v.tzinfo is None,
         D: lambda v: type(v) is timedelta,
         L: lambda v: type(v) is list and all(type(i) is str for i in v)}


def has_type(v, t):
    if t.endswith(" or None"):
        return v is None or BASIC[t[:-8]](v)
    return BASIC[t](v)


def units(prefix, *names):
    return {prefix + n: FN for n in names}


DIST = ("meters", "kilometers", "sea_miles", "feet")
ANGLE = ("degrees", "radians", "gradians")
SPEED = ("knot", "mps", "kph", "miph")
TEMP = ("celsius", "kelvin", "fahrenheit", "rankine")
TIME = dict(code=SN, time=T, year=I, month=I, day=I, hour=I, minute=I)
WIND = dict(code=SN, cardinal_direction=SN, variable=B, **units("direction_in_", *ANGLE),
            **units("speed_in_", *SPEED), **units("gust_in_", *SPEED))
MINVIS = dict(code=SN, cardinal_direction=SN, **units("in_", *DIST), **units("direction_in_", *ANGLE))
VIS = dict(MINVIS, cavok=B)
WX = dict(code=SN, intensity=SN, description=SN, precipitation=SN, obscuration=SN, other=SN)
RECENT = {k: v for k, v in WX.items() if k != "intensity"}
CLOUD = dict(code=SN, cover=SN, cloud_type=SN, oktas=S, **units("height_in_", *DIST))
RVR = dict(code=SN, name=SN, low_range=S, high_range=S, trend=SN, **units("low_in_", *DIST),
           **units("high_in_", *DIST))
VARIATION = dict(code=SN, from_cardinal_direction=SN, to_cardinal_direction=SN, **units("from_in_", *ANGLE),
                 **units("to_in_", *ANGLE))
TEMPS = dict(code=SN, **units("temperature_in_", *TEMP), **units("dewpoint_in_", *TEMP))
PRESSURE = dict(code=SN, in_atm=FN, in_bar=FN, in_mbar=FN, in_hPa=FN, in_inHg=FN, value=FN)
SHEAR = dict(code=SN, name=SN, all_=B)
SEA = dict(code=SN, state=SN, **units("temperature_in_", *TEMP),
           **units("height_in_", "meters", "centimeters", "decimeters", "feet", "inches"))
STATE = dict(code=SN, name=SN, deposits=SN, contamination=SN, deposits_depth=SN, surface_friction=SN, snoclo=B)
STATION = {k: SN for k in ("code", "name", "country", "elevation", "longitude", "latitude", "icao", "iata", "synop")}
TAF_TEMP = dict(code=SN, **units("in_", *TEMP))
COMMON = dict(raw_code=S, sections=L, unparsed_groups=L, body=S, flight_rules=SN)


def parts(c, r):
    """(name, element, documented fields)"""
    metar = c["k"] == "metar"
    yield "report", r, dict(COMMON, **(dict(trend=S, remark=S) if metar else dict(weather_changes=S)))
    yield "type", r.type_, dict(code=S, type_=S)
    yield "station", r.station, STATION
    yield "time", r.time, TIME
    yield "modifier", r.modifier, dict(code=SN, description=SN)
    yield from conditions("", r)
    if metar:
        yield "wind variation", r.wind_variation, VARIATION
        yield "minimum visibility", r.minimum_visibility, MINVIS
        yield "runway ranges", r.runway_ranges, dict(codes=L)
        for q in r.runway_ranges:
            yield "runway range", q, RVR
        yield "temperatures", r.temperatures, TEMPS
        yield "pressure", r.pressure, PRESSURE
        yield "recent weather", r.recent_weather, RECENT
        yield "wind shears", r.windshears, dict(codes=L, names=L, all_runways=B)
        for w in r.windshears:
            yield "wind shear", w, SHEAR
        yield "sea state", r.sea_state, SEA
        yield "runway state", r.runway_state, STATE
        yield "trends", r.weather_trends, dict(codes=L)
        for t in r.weather_trends:
            yield "trend", t, dict(code=SN, flight_rules=SN, unparsed_groups=L)
            yield from conditions("trend ", t)
            i = t.trend_indicator
            yield "trend indicator", i, dict(code=SN, translation=SN)
            yield "trend from", i.period_from, TIME
            yield "trend until", i.period_until, TIME
            if i.period_at is not None:
                yield "trend at", i.period_at, TIME
            for k in i.forecast_period:
                yield "forecast period", k, TIME
    else:
        yield "missing", r.missing, dict(code=SN, description=SN, is_missing=B)
        yield "cancelled", r.cancelled, dict(code=SN, is_cancelled=B)
        yield from valid("valid", r.valid)
        for l in (r.max_temperatures, r.min_temperatures):
            yield "extreme temperatures", l, dict(codes=L)
            for t in l:
                yield "extreme temperature", t, TAF_TEMP
                yield "time of temperature", t.time, TIME
        yield "changes", r.changes_forecasted, dict(codes=L)
        for t in r.changes_forecasted:
            yield "change", t, dict(code=SN, flight_rules=SN, unparsed_groups=L)
            yield from conditions("change ", t)
            yield "change indicator", t.change_indicator, dict(code=SN, translation=SN)
            yield from valid("change valid", t.change_indicator.valid)


def valid(name, v):
    yield name, v, dict(code=SN, duration=D)
    yield name + " from", v.period_from, TIME
    yield name + " until", v.period_until, TIME


def conditions(p, r):
    yield p + "wind", r.wind, WIND
    yield p + "visibility", r.prevailing_visibility, VIS
    yield p + "weathers", r.weathers, dict(codes=L)
    for w in r.weathers:
        yield p + "weather", w, WX
    yield p + "clouds", r.clouds, dict(codes=L, ceiling=B)
    for l in r.clouds:
        yield p + "cloud", l, CLOUD


def leaves(d, path=""):
    if type(d) is dict:
        for k, v in d.items():
            if type(k) is not str:
                yield path, k
            yield from leaves(v, f"{path}.{k}")
    elif type(d) is list:
        for i, v in enumerate(d):
            yield from leaves(v, f"{path}[{i}]")
    else:
        yield path, d


class C30(Diff):
    pid = "C30"
    rule = """random, mutated, hostile and real reports and the element sweeps of C06-C11 and C13: the type
    of every documented field of the report and of every element, list, trend and change against the
    documented one (floats are finite, booleans are booleans, dates are naive), of every length, text,
    query and JSON, and of every leaf of every dictionary.  Non-trivial: always; distinct by the set of
    (field, type) observed."""
    need = {"fields": 2000000, "floats": 100000, "nones": 500000, "booleans": 50000, "dict_leaves": 1000000,
            "elements": 200000}
    quick, thorough = 900, 25000

    def sweep(self, r, tier):
        for n in ("C06", "C07", "C08", "C09", "C10", "C11", "C13"):
            k = 3 if n == "C13" else 10 if tier == "quick" else 2
            o = r.randrange(k)
            for i, s in enumerate(core.REGISTRY[n]().sweep(r, tier)):
                if i % k == o:
                    yield s

    def extra(self, r, tier, shard, n):
        for _ in range(150 if tier == "quick" else 4000):
            g = {k: embed.some(r, k) for k in embed.BODY}
            yield embed.section(r, r.choice(embed.EVERYWHERE), g, 1)

    def judge(self, c, x):
        try:
            rep = x.new(c)
        except Exception:
            raise core.Skip()
        x.read(lambda: self.check(c, x, rep), "the fields")
        x.sample(c)

    def must(self, ok, what, v, t):
        if not ok:
            raise core.Bad(f"{what} is {v!r} of type {type(v).__name__}, documented as {t}")

    def check(self, c, x, rep):
        seen = set()
        for name, el, fields in parts(c, rep):
            x.hit("elements")
            for f, t in fields.items():
                v = getattr(el, f)
                self.must(has_type(v, t), f"{f} of the {name}", v, t)
                seen.add((name, f, type(v).__name__))
                x.hit("fields")
                x.hit("floats", type(v) is float)
                x.hit("nones", v is None)
                x.hit("booleans", type(v) is bool)
            s = str(el)
            self.must(type(s) is str, f"text of the {name}", s, S)
            if hasattr(type(el), "as_dict"):
                d = el.as_dict()
                self.must(type(d) is dict, f"dictionary of the {name}", d, "dict")
                for path, v in leaves(d):
                    ok = v is None or type(v) in (str, bool) or type(v) is float and math.isfinite(v)
                    self.must(ok, f"{path.lstrip('.')} in the dictionary of the {name}", v, "str, float, bool or None")
                    x.hit("dict_leaves")
                j = el.to_json()
                self.must(type(j) is str, f"JSON of the {name}", j, S)
            if hasattr(type(el), "should_be_cavok"):
                v = el.should_be_cavok()
                self.must(type(v) is bool, f"should_be_cavok of the {name}", v, B)
                v = el.flight_rules
                self.must(v in (None, "VLIFR", "LIFR", "IFR", "MVFR", "VFR"), f"flight rules of the {name}", v,
                          "one of the five or None")
            if hasattr(type(el), "__len__"):
                self.must(type(len(el)) is int, f"length of the {name}", len(el), I)
        x.nontrivial(sorted(seen))


# ------------------------------------------------------------------------- C31
def library_objects():
    gc.collect()
    return sum(1 for o in gc.get_objects() if type(o).__module__.split(".")[0] == "aeromet_py")


class C31(core.Prop):
    pid = "C31"
    rule = """a process constructs, reads and drops thousands of different random, mutated, real and rejected
    reports in phases; after each phase and a garbage collection the library's live objects and the
    interpreter's allocated memory blocks are counted.  Growth in every phase after the first two is a
    leak; a cache that is bounded stops growing, but no report may be alive.  A case is one such history of one kind of use
    (METARs, TAFs, with reads, abandoned iterations, rejected by truncate or range).
    Non-trivial: a history was measured; distinct by kind of use and shard."""
    need = {"dropped_reports": 60000, "phases": 100, "rejected": 2500, "reads": 5000, "shadowed": 1,
            "abandoned": 2500}
    case_cpu = 600
    assumptions = ["Blocks are counted by sys.getallocatedblocks(): a leak of less than one block per five "
                   "reports is not seen, nor is memory that the interpreter itself keeps."]
    PHASES = 6

    def cases(self, r, tier, shard, n):
        for how in ("metar", "taf", "truncate", "range", "read", "abandon"):
            for _ in range(1 if tier == "quick" else 8):
                yield dict(mode=how, seed=r.randrange(1 << 30), n=400 if tier == "quick" else 3000)

    def setup(self, x):
        # the monitor sees what it has to see: a deliberate leak is measured
        keep, rep = [], core.rng(1)
        a = self.level()
        for i in range(50):
            keep.append(x.Metar(gen.metar(rep)["t"], 2020, 1))
        b = self.level()
        x.hit("shadowed", b[0] - a[0] >= 50 and b[1] - a[1] >= 50)
        del keep

    def level(self):
        return library_objects(), sys.getallocatedblocks()

    def one(self, c, how, r, x):
        try:
            rep = x.new(c, **({"truncate": True} if how == "truncate" else {}))
        except Exception:
            x.hit("rejected")
            return
        x.hit("dropped_reports")
        if how == "read":
            walk.observe(rep)
            x.hit("reads")
        elif how == "abandon":
            for l in (rep.clouds, rep.weathers, rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted):
                it = iter(l)
                next(it, None)
                x.hit("abandoned")
            str(rep), len(rep.unparsed_groups)

    def case(self, r, how):
        if how == "metar":
            c = gen.metar(r)
        elif how == "taf":
            c = gen.taf(r)
        elif how == "range":
            c = gen.taf(r)
            c["t"] += " TEMPO %04d" % r.randrange(9999) * 9
        elif how == "truncate":
            c = gen.any_report(r)
            c["t"] += " XYZ%d" % r.randrange(10 ** 6) * (r.random() < .7)
        else:
            c = gen.any_report(r) if r.random() < .8 else corpus_case(r)
        t = c["t"].split()
        if r.random() < .5 and len(t) > 1:
            t.insert(r.randrange(1, len(t)), "U%07d" % r.randrange(10 ** 7))   # never the same text
        c["t"] = " ".join(t)
        return c

    def judge(self, c, x):
        r = core.rng(c["seed"])
        levels = []
        for _ in range(self.PHASES):
            for _ in range(c["n"]):
                self.one(self.case(r, c["mode"]), c["mode"], r, x)
            levels.append(self.level())
            x.hit("phases")
            alive = [o for o in gc.get_objects() if isinstance(o, (x.Metar, x.Taf))]
            if alive:
                raise core.Bad(f"{len(alive)} of {c['n']} dropped reports ({c['mode']}) are still alive after a "
                               f"garbage collection, one of them {alive[0].raw_code!r}")
        x.nontrivial((c["mode"], c["seed"]))
        x.sample(dict(c, levels=levels))
        for k, what in ((0, "live objects of the library"), (1, "allocated memory blocks")):
            grow = [b[k] - a[k] for a, b in zip(levels[1:], levels[2:])]
            if min(grow) >= c["n"] / 5:
                raise core.Bad(f"{what} grow with every {c['n']} reports that are parsed and dropped "
                               f"({c['mode']}): {[l[k] for l in levels]}")
