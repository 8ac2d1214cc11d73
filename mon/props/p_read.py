"""C12, C21, C22, C27, C28: what reading a report gives."""
import itertools
import json
import math
import re
from collections import Counter

from .. import core, embed, gen, ref, view, walk
from . import p_elements
from .common import Diff, corpus_case, reports


def parts_of(c, rep):
    return list(rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted)


# ------------------------------------------------------------------------- C12
def times(f):
    return lambda v: v * f


SPEED = {"knot": None, "mps": times(1852 / 3600), "kph": times(1.852), "miph": times(1852 / 1609.344)}
ANGLE = {"degrees": None, "radians": math.radians, "gradians": times(400 / 360)}
DISTANCE = {"meters": None, "kilometers": times(.001), "sea_miles": times(1 / 1852), "feet": times(1 / .3048)}
TEMPERATURE = {"celsius": None, "kelvin": lambda v: v + 273.15, "fahrenheit": lambda v: v * 1.8 + 32,
               "rankine": lambda v: (v + 273.15) * 1.8}
PRESSURE = {"hPa": None, "inHg": times(1 / 33.8638866667), "mbar": times(1.0), "bar": times(.001),
            "atm": times(1 / 1013.25)}
HEIGHT = {"meters": None, "centimeters": times(100.0), "decimeters": times(10.0), "feet": times(1 / .3048),
          "inches": times(1 / .0254)}


def quantities(kind, rep):
    """(name, element, prefix of its accessors, units, path of the reference value)"""
    def conditions(p, where):
        yield "wind direction", p.wind, "direction_in_", ANGLE, where + ("wind", "deg")
        yield "wind speed", p.wind, "speed_in_", SPEED, where + ("wind", "kt")
        yield "gust", p.wind, "gust_in_", SPEED, where + ("wind", "gust")
        yield "visibility", p.prevailing_visibility, "in_", DISTANCE, where + ("vis", "m")
        yield "visibility direction", p.prevailing_visibility, "direction_in_", ANGLE, where + ("vis", "deg")
        for i, l in enumerate(p.clouds):
            yield "cloud height", l, "height_in_", DISTANCE, where + ("clouds", i, "ft")
    yield from conditions(rep, ())
    if kind == "metar":
        for i, t in enumerate(rep.weather_trends):
            yield from conditions(t, ("trends", i))
        v = rep.wind_variation
        yield "variation from", v, "from_in_", ANGLE, ("variation", "from_")
        yield "variation to", v, "to_in_", ANGLE, ("variation", "to")
        v = rep.minimum_visibility
        yield "minimum visibility", v, "in_", DISTANCE, ("minvis", "m")
        yield "minimum visibility direction", v, "direction_in_", ANGLE, ("minvis", "deg")
        for i, q in enumerate(rep.runway_ranges):
            yield "runway range", q, "low_in_", DISTANCE, ("rvr", i, "low")
            yield "runway range to", q, "high_in_", DISTANCE, ("rvr", i, "high")
        yield "temperature", rep.temperatures, "temperature_in_", TEMPERATURE, ("temps", "t")
        yield "dewpoint", rep.temperatures, "dewpoint_in_", TEMPERATURE, ("temps", "d")
        yield "pressure", rep.pressure, "in_", PRESSURE, ("pressure", "hpa")
        yield "sea temperature", rep.sea_state, "temperature_in_", TEMPERATURE, ("sea", "t")
        yield "wave height", rep.sea_state, "height_in_", HEIGHT, ("sea", "h")
    else:
        for i, t in enumerate(rep.changes_forecasted):
            yield from conditions(t, ("changes", i))
        for i, t in enumerate(rep.max_temperatures):
            yield "maximum temperature", t, "in_", TEMPERATURE, ("max", i, "t")
        for i, t in enumerate(rep.min_temperatures):
            yield "minimum temperature", t, "in_", TEMPERATURE, ("min", i, "t")


class C12(Diff):
    pid = "C12"
    rule = """the element sweeps of C06-C08, C10 and C11 (every direction, speed, gust, variation,
    visibility, runway range, cloud height, temperature, pressure, sea temperature and wave height)
    plus random, mutated and real reports: all accessors of every quantity of the body, trends and
    changes are read and must be conversions of the first within 2e-6 (temperatures within 1e-6
    degrees), and None exactly when the reference has no value.  Non-trivial: a value was reported;
    distinct by quantity and value."""
    NAMES = ("wind direction", "wind speed", "gust", "visibility", "visibility direction", "cloud height",
             "variation from", "variation to", "minimum visibility", "minimum visibility direction",
             "runway range", "runway range to", "temperature", "dewpoint", "pressure", "sea temperature",
             "wave height", "maximum temperature", "minimum temperature")
    need = dict({n + "/value": 150 for n in NAMES}, zeros=300, not_reported=5000)
    quick, thorough = 1500, 40000

    def sweep(self, r, tier):
        for n in ("C06", "C07", "C08", "C10", "C11"):
            yield from core.REGISTRY[n]().sweep(r, tier)
        for h in range(0, 1000):
            yield "sea", ["W%s%02d/H%03d" % (r.choice(["", "M"]), h % 100, h)], ["metar"]

    def extra(self, r, tier, shard, n):
        for i in range(60 if tier == "quick" else 2000):
            yield gen.taf(r)

    def judge(self, c, x):
        e = core.expected(c)
        rep = x.build(c, strict=e is not None)
        x.read(lambda: self.check(c, x, e, rep), "the quantities")
        x.sample(c)

    def check(self, c, x, e, rep):
        for name, el, prefix, units, path in quantities(c["k"], rep):
            vals = {u: getattr(el, prefix + u) for u in units}
            base = vals[next(iter(units))]
            if any((v is None) != (base is None) for v in vals.values()):
                raise core.Bad(f"{name} of {el.code!r}: {vals}")
            if e is not None:
                want = e
                for k in path:
                    want = want[k]
                if (want is None) != (base is None):
                    raise core.Bad(f"{name} of {el.code!r} is {base} but the group reports {want}")
            if base is None:
                x.hit("not_reported")
                continue
            for u, f in units.items():
                v = vals[u]
                if isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v):
                    raise core.Bad(f"{name} of {el.code!r}: {v!r} {u}")
                w = base if f is None else f(base)
                tol = 1e-6 if units is TEMPERATURE else 2e-6 * abs(w) + 1e-9
                if abs(v - w) > tol:
                    raise core.Bad(f"{name} of {el.code!r} is {base} {next(iter(units))} but {v} {u} (should be {w})")
            if hasattr(el, "value") and prefix == "in_" and el.value != base:
                raise core.Bad(f"value of {el.code!r} is {el.value} instead of {base}")
            x.hit(name + "/value")
            x.hit("zeros", base == 0)
            x.nontrivial((name, round(base, 4)))


# ------------------------------------------------------------------------- C21
class C21(core.Prop):
    pid = "C21"
    rule = """random, real and mutated reports; per report a random history of reads (attributes,
    queries, dictionaries, JSON, text, lengths, indexes, complete, abandoned, nested and interleaved
    iterations at every level), each compared with the same read of a fresh report that was read in
    the canonical order; at the end everything is read again twice.  Non-trivial: a history with at
    least 30 reads; distinct by text and history."""
    need = {"reads": 100000, "iterations": 8000, "interleaved_steps": 4000, "nested_iterations": 1000,
            "full_reads": 3000}

    def cases(self, r, tier, shard, n):
        for c in reports(r, 190 if tier == "quick" else 5000):
            yield dict(c, seed=r.randrange(1 << 30))
        for i in range(60 if tier == "quick" else 1500):    # many groups in every list
            if r.random() < .5:
                c = gen.taf(r)
            else:
                w = r.choice(embed.EVERYWHERE)
                c = embed.section(r, w, {"wx": [gen.weather(r) for _ in range(3)],
                                         "clouds": [gen.cloud(r) for _ in range(4)]}, 1)
            yield dict(c, seed=r.randrange(1 << 30))

    def judge(self, c, x):
        try:
            a, b = x.new(c), x.new(c)
        except Exception:
            raise core.Skip()
        canon = x.read(lambda: walk.observe(a), "the report")
        r = core.rng(c["seed"])
        n = r.choice([5, 40, 40, 150])
        log = []
        x.read(lambda: self.history(r, b, canon, n, x, log), "the report")
        for i in range(2):
            m = walk.differ(canon, walk.observe(b), "report")
            if m:
                raise core.Bad(f"after the reads {log[-12:]}: {m}")
            x.hit("full_reads")
        m = walk.differ(canon, walk.observe(a), "report")
        if m:
            raise core.Bad(f"reading everything a second time: {m}")
        if len(log) >= 30:
            x.nontrivial((c["t"], c["seed"]))
            x.sample(dict(c, history=log[:8]))

    def history(self, r, b, canon, n, x, log):
        for _ in range(n):
            o, d, path = b, canon, "report"
            for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):        # walk down
                kids = [k for k, v in d.items() if isinstance(v, dict) and "class" in v and not k.endswith("()")]
                idx = list(range(len(d["iter"]))) if "iter" in d and walk.is_lib(o) else []
                if not kids and not idx:
                    break
                if idx and (not kids or r.random() < .6):
                    i = r.choice(idx)
                    o2 = o[i - len(idx) if r.random() < .3 else i]
                    d2, path = d["iter"][i], path + f"[{i}]"
                else:
                    k = r.choice(kids)
                    o2, d2, path = getattr(o, k), d[k], path + "." + k
                if not isinstance(d2, dict) or "class" not in d2:
                    break
                o, d = o2, d2
            self.one(r, o, d, path, x, log)
            x.hit("reads")

    def one(self, r, o, d, path, x, log):
        props = [k for k in d if k not in ("class", "str", "len", "iter") and not k.endswith("()")]
        calls = [k for k in d if k.endswith("()")]
        q = r.random()
        if "iter" in d and q < .5:
            return self.iterate(r, o, d, path, x, log)
        if q < .55:
            k, v, w = "str", str(o), d["str"]
        elif q < .6 and "len" in d:
            k, v, w = "len", len(o), d["len"]
        elif q < .78 and calls:
            k = r.choice(calls)
            v, w = walk.observe(getattr(o, k[:-2])()), d[k]
        elif props:
            k = r.choice(props)
            v, w = walk.observe(getattr(o, k)), d[k]
        else:
            return
        log.append(path + "." + k)
        m = walk.differ(w, v, path + "." + k)
        if m:
            raise core.Bad(f"after the reads {log[-12:]}: {m}")

    def iterate(self, r, o, d, path, x, log):
        want = [self.key(i) for i in d["iter"]]
        x.hit("iterations")
        its = [iter(o) for _ in range(r.choice([1, 1, 2, 3]))]
        pos = [0] * len(its)
        log.append(f"{path}: {len(its)} iterations")
        for _ in range(r.choice([1, 2, 4, 12])):
            j = r.randrange(len(its))
            try:
                g = next(its[j])
            except StopIteration:
                if pos[j] != len(want):
                    raise core.Bad(f"an iteration of {path} stopped after {pos[j]} of {len(want)} items ({log[-8:]})")
                break
            if pos[j] >= len(want) or self.key(g, True) != want[pos[j]]:
                raise core.Bad(f"item {pos[j]} of an iteration of {path} is {self.key(g, True)}, the items are "
                               f"{want} ({log[-8:]})")
            pos[j] += 1
            x.hit("interleaved_steps")
        if r.random() < .4:                   # nested
            seen = [(self.key(g, True), self.key(h, True)) for g in o for h in o]
            if seen != list(itertools.product(want, want)):
                raise core.Bad(f"nested iterations of {path} visited {len(seen)} pairs of {len(want)} items")
            x.hit("nested_iterations")
        for j, it in enumerate(its):          # finish or abandon
            if r.random() < .5:
                rest = [self.key(g, True) for g in it]
                if rest != want[pos[j]:] and not (pos[j] == len(want) and not rest):
                    raise core.Bad(f"the rest of an iteration of {path} is {rest} instead of {want[pos[j]:]}")

    def key(self, g, live=False):
        return (g.code, str(g)) if live else (g["code"], g["str"])


# ------------------------------------------------------------------------- C22
def d_time(t):
    return {"datetime": str(t.time), "code": t.code}


def d_dir(card, var, deg):
    return {"cardinal": card, "variable": var, "units": "degrees", "direction": deg}


def d_speed(v):
    return {"units": "knot", "speed": v}


def d_dist(v):
    return {"units": "meters", "distance": v}


def d_temp(v):
    return {"units": "celsius", "temperature": v}


def d_wind(w):
    return {"direction": d_dir(w.cardinal_direction, w.variable, w.direction_in_degrees),
            "speed": d_speed(w.speed_in_knot), "gust": d_speed(w.gust_in_knot), "code": w.code}


def d_vis(v):
    d = {"direction": d_dir(v.cardinal_direction, False, v.direction_in_degrees),
         "visibility": d_dist(v.in_meters), "code": v.code}
    if hasattr(v, "cavok"):
        d["cavok"] = v.cavok
    return d


def d_wx(w):
    return {"intensity": w.intensity, "description": w.description, "precipitation": w.precipitation,
            "obscuration": w.obscuration, "other": w.other, "code": w.code}


def d_cloud(c):
    return {"cover": c.cover, "oktas": c.oktas, "height_units": "meters", "height": c.height_in_meters,
            "type": c.cloud_type, "code": c.code}


def limit(text):
    for k in ("below of", "above of"):
        if text.startswith(k):
            return k
    return None


def d_rvr(q):
    return {"name": q.name, "rvr_low": limit(q.low_range), "low_range": d_dist(q.low_in_meters),
            "rvr_high": limit(q.high_range), "high_range": d_dist(q.high_in_meters), "trend": q.trend,
            "code": q.code}


def d_valid(v):
    return {"from_": d_time(v.period_from), "until": d_time(v.period_until), "code": v.code}


def d_part(p):
    return {"wind": d_wind(p.wind), "prevailing_visibility": d_vis(p.prevailing_visibility),
            "weathers": [d_wx(w) for w in p.weathers.items], "clouds": [d_cloud(c) for c in p.clouds.items],
            "flight_rules": p.flight_rules, "code": p.code}


def d_trend_ind(i):
    return {"translation": i.translation, "code": i.code, "from_": d_time(i.period_from),
            "until": d_time(i.period_until), "at": d_time(i.period_at) if i.period_at is not None else None,
            "forecast_period": {"init": d_time(i.forecast_period[0]), "end": d_time(i.forecast_period[1])}}


def d_change_ind(i):
    return {"translation": i.translation, "code": i.code, "valid": d_valid(i.valid)}


LABELS = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth"]


class Listed(dict):
    """a list in dictionary form: exactly these keys, in this order"""


def d_list(l, f):
    return Listed(zip(LABELS, [f(g) for g in l.items]))


def d_station(s):
    return {"name": s.name, "icao": s.icao, "iata": s.iata, "synop": s.synop, "latitude": s.latitude,
            "longitude": s.longitude, "elevation": s.elevation, "country": s.country, "code": s.code}


def d_state(s):
    return {"name": s.name, "deposits": s.deposits, "contamination": s.contamination,
            "deposits_depth": s.deposits_depth, "surface_friction": s.surface_friction, "snoclo": s.snoclo,
            "clrd": s.clrd, "code": s.code}


def d_taf_temp(t):
    # (the code is not shown: the tests require None)
    return dict(d_temp(t.in_celsius), datetime=str(t.time.time))


def elements(kind, r):
    """(key in the dictionary of the report, element, expected dictionary)"""
    yield "type_", r.type_, {"type": r.type_.type_, "code": r.type_.code}
    yield "station", r.station, d_station(r.station)
    yield "time", r.time, d_time(r.time)
    yield "modifier", r.modifier, {"modifier": r.modifier.description, "code": r.modifier.code}
    yield "wind", r.wind, d_wind(r.wind)
    yield "prevailing_visibility", r.prevailing_visibility, d_vis(r.prevailing_visibility)
    yield "weathers", r.weathers, d_list(r.weathers, d_wx)
    yield "clouds", r.clouds, d_list(r.clouds, d_cloud)
    if kind == "metar":
        v = r.wind_variation
        yield "wind_variation", v, {
            "from_": d_dir(v.from_cardinal_direction, False, v.from_in_degrees),
            "to": d_dir(v.to_cardinal_direction, False, v.to_in_degrees), "code": v.code}
        yield "minimum_visibility", r.minimum_visibility, d_vis(r.minimum_visibility)
        yield "runway_ranges", r.runway_ranges, d_list(r.runway_ranges, d_rvr)
        t = r.temperatures
        yield "temperatures", t, {"temperature": d_temp(t.temperature_in_celsius),
                                  "dewpoint": d_temp(t.dewpoint_in_celsius), "code": t.code}
        yield "pressure", r.pressure, {"units": "hectopascals", "pressure": r.pressure.in_hPa}
        w = r.recent_weather
        yield "recent_weather", w, {"description": w.description, "obscuration": w.obscuration, "other": w.other,
                                    "precipitation": w.precipitation, "code": w.code}
        yield "windshears", r.windshears, d_list(r.windshears, lambda w: {"all": w.all_, "name": w.name,
                                                                          "code": w.code})
        s = r.sea_state
        yield "sea_state", s, {"state": s.state, "temperature": d_temp(s.temperature_in_celsius),
                               "height": d_dist(s.height_in_meters), "code": s.code}
        yield "runway_state", r.runway_state, d_state(r.runway_state)
        yield "weather_trends", r.weather_trends, d_list(r.weather_trends, d_part)
    else:
        m = r.missing
        yield "missing", m, {"is_missing": m.is_missing, "modifier": m.description, "code": m.code}
        yield "valid", r.valid, d_valid(r.valid)
        yield "cancelled", r.cancelled, {"is_cancelled": r.cancelled.is_cancelled, "code": r.cancelled.code}
        yield "max_temperatures", r.max_temperatures, d_list(r.max_temperatures, d_taf_temp)
        yield "min_temperatures", r.min_temperatures, d_list(r.min_temperatures, d_taf_temp)
        yield "changes_forecasted", r.changes_forecasted, d_list(r.changes_forecasted, d_part)


def contains(want, got, path):
    """None if `got` has everything of `want` (more keys are allowed)."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{path} is {got!r}"
        if isinstance(want, Listed) and list(got) != list(want):
            return f"{path} has the keys {list(got)} instead of {list(want)}"
        for k, v in want.items():
            if k not in got:
                return f"{path} lacks {k!r}"
            m = contains(v, got[k], f"{path}[{k!r}]")
            if m:
                return m
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return f"{path} is {got!r} instead of {want!r}"
        for i, v in enumerate(want):
            m = contains(v, got[i], f"{path}[{i}]")
            if m:
                return m
        return None
    return None if type(want) is type(got) and want == got else f"{path} is {got!r} instead of {want!r}"


def no_constant(s):
    raise ValueError(s + " is not JSON")


def load(text):
    return json.loads(text, parse_constant=no_constant)


class C22(Diff):
    pid = "C22"
    rule = """random, mutated and real reports and the element sweep of C12: the dictionary of the report
    and of every element, list, trend, change, indicator and time is compared with one built from the
    attributes, and its JSON is parsed and compared with the dictionary.  Non-trivial: a report with
    groups was compared; distinct by the dictionary."""
    need = {"elements": 200000, "lists": 30000, "list_items": 20000, "trends": 1500, "changes": 5000,
            "json": 100000}
    quick, thorough = 700, 20000

    def sweep(self, r, tier):
        for n in ("C06", "C07", "C08", "C09", "C10", "C11", "C13"):
            k = 3 if n == "C13" else 12 if tier == "quick" else 2
            o = r.randrange(k)
            for i, s in enumerate(core.REGISTRY[n]().sweep(r, tier)):
                if i % k == o:
                    yield s

    def extra(self, r, tier, shard, n):
        for _ in range(60 if tier == "quick" else 3000):
            g = {k: embed.some(r, k) for k in embed.BODY}
            g["clouds"] = [gen.cloud(r) for _ in range(4)]
            g["wx"] = [gen.weather(r) for _ in range(3)]
            yield embed.section(r, r.choice(embed.EVERYWHERE), g, 1)

    def judge(self, c, x):
        try:
            rep = x.new(c)
        except Exception:
            raise core.Skip()
        x.read(lambda: self.check(c, x, rep), "the dictionaries")
        x.sample(c)

    def one(self, el, want, path, x):
        got = el.as_dict()
        m = contains(want, got, path)
        if m:
            raise core.Bad("as_dict: " + m)
        j = load(el.to_json())
        if j != json.loads(json.dumps(got)) or j != got and not isinstance(got, dict):
            raise core.Bad(f"to_json of {path} is {j} but as_dict is {got}")
        x.hit("elements")
        x.hit("json")
        return got

    def check(self, c, x, r):
        k = c["k"]
        want = {"code": r.raw_code, "sections": list(r.sections), "unparsed_groups": list(r.unparsed_groups)}
        if k == "metar":
            want.update(flight_rules=r.flight_rules, remark=r.remark)
        for key, el, d in elements(k, r):
            want[key] = d
            self.one(el, d, key, x)
            if isinstance(d, Listed):
                x.hit("lists")
                x.hit("list_items", len(d))
                for g, q in zip(el.items, d.values()):
                    self.one(g, q, f"{key}: {g.code}", x)
        for i, p in enumerate(r.weather_trends if k == "metar" else r.changes_forecasted):
            for el, d in [(p.wind, d_wind(p.wind)), (p.prevailing_visibility, d_vis(p.prevailing_visibility)),
                          (p.weathers, d_list(p.weathers, d_wx)), (p.clouds, d_list(p.clouds, d_cloud))] + \
                    [(w, d_wx(w)) for w in p.weathers] + [(q, d_cloud(q)) for q in p.clouds]:
                self.one(el, d, f"{p.code!r}: {type(el).__name__}", x)
            if k == "metar":
                self.one(p.trend_indicator, d_trend_ind(p.trend_indicator), f"{p.code!r}: indicator", x)
                x.hit("trends")
            else:
                self.one(p.change_indicator, d_change_ind(p.change_indicator), f"{p.code!r}: indicator", x)
                x.hit("changes")
        got = self.one(r, want, "report", x)
        # an element has one dictionary, wherever it is shown
        for key, el, d in elements(k, r):
            own = el.as_dict()
            if key in got and got[key] != own:
                raise core.Bad(f"as_dict of {key} is {own} but {got[key]} in that of the report")
            if isinstance(d, Listed) and isinstance(own, dict) and [g.as_dict() for g in el.items] != list(own.values()):
                raise core.Bad(f"as_dict of {key} is {own}, of its groups {[g.as_dict() for g in el.items]}")
        if not re.fullmatch(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", got["time"]["datetime"]):
            raise core.Bad(f"the time is {got['time']['datetime']!r}")
        x.nontrivial(got)


# ------------------------------------------------------------------------- C27
class C27(core.Prop):
    pid = "C27"
    rule = """lists of weather, clouds, runway ranges, wind shears, temperatures, trends and changes with
    zero groups to three beyond the capacity in body, trends and changes, and random, mutated and real
    reports: length, iteration (also nested and interleaved), all indexes from below -length to beyond the capacity, items, codes and
    dictionary must present the same groups, in the order of the reference.  Non-trivial: a list with
    groups was judged; distinct by list, codes."""
    need = {"lists": 50000, "items": 30000, "nested_iterations": 5000, "full_lists": 1500, "range_errors": 100000,
            "index_errors": 100000, "over_capacity_constructions": 200, "excess_unparsed": 400}
    CAP = dict(weathers=3, clouds=4, runway_ranges=3, windshears=3, max_temperatures=2, min_temperatures=2,
               weather_trends=2, changes_forecasted=8)

    def cases(self, r, tier, shard, n):
        big = tier == "thorough"
        slots = [("wx", gen.weather, 3), ("clouds", gen.cloud, 4), ("rvr", gen.rvr, 3), ("windshear", None, 3)]
        for _ in range(5 if not big else 120):
            for slot, g, cap in slots:
                for k in range(cap + 4):
                    for w in embed.EVERYWHERE if slot in embed.PART else ["metar"]:
                        l = [t for _ in range(k) for t in (gen.windshear(r) if g is None else [g(r)])]
                        if k > 1 and r.random() < .2 and g:
                            l[-1] = l[0]
                        yield embed.section(r, w, {slot: l}, r.choice([0, 0, .3]))
        for _ in range(4 if not big else 100):
            for a in range(5):
                for b in range(5):
                    t = ["TX%s%02d/01%02dZ" % (r.choice(["", "M"]), r.randrange(50), r.randrange(24))
                         for _ in range(a)] + ["TN%02d/01%02dZ" % (r.randrange(50), r.randrange(24))
                                               for _ in range(b)]
                    r.shuffle(t)
                    yield dict(k="taf", t="TAF ZZZZ 010000Z 0101/0201 " + " ".join(t), y=2022, m=r.randint(1, 12))
            for k in range(13):
                t = []
                for i in range(k):
                    t += r.choice([["FM01%02d00" % (i + 1)], ["BECMG", "01%02d/01%02d" % (i + 1, i + 2)], ["TEMPO"],
                                   ["PROB30", "01%02d/01%02d" % (i + 1, i + 2)], ["PROB40", "TEMPO"]]) + gen.conditions(r)
                yield dict(k="taf", t=" ".join(["TAF ZZZZ 010000Z 0101/0201"] + t), y=2022, m=r.randint(1, 12))
            for k in range(4):
                for q in range(4):
                    t = ["METAR ZZZZ 010000Z"]
                    for i in range(max(k, q)):
                        t += ["TEMPO 9999"] * (i < k) + ["BECMG FEW010"] * (i < q)
                    yield dict(k="metar", t=" ".join(t), y=2022, m=1)
        yield from reports(r, 500 if not big else 15000)

    def judge(self, c, x):
        e = core.expected(c)
        toks = c["t"].split()
        ch = 0
        if c["k"] == "taf":
            body, temps = 0, [sum(t.startswith(k) and ref.taf_temp(t) is not None for t in toks) for k in ("TX", "TN")]
        try:
            rep = x.new(c)
        except Exception as er:
            if e is not None or not core.is_a(er, "RangeError"):
                raise core.Bad(f"constructing raised {type(er).__name__}: {er}")
            x.hit("over_capacity_constructions")
            return
        if e is None:
            self.capacity(c, toks)
        lists = dict(weathers="wx", clouds="clouds")
        lists.update(dict(runway_ranges="rvr", windshears="windshear", weather_trends="trends") if c["k"] == "metar"
                     else dict(max_temperatures="max", min_temperatures="min", changes_forecasted="changes"))
        for name, key in lists.items():
            self.one(name, getattr(rep, name), x, e and [g["code"] for g in e[key]])
        sub = e and e["trends" if c["k"] == "metar" else "changes"]
        for i, p in enumerate(rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted):
            for name, key in (("weathers", "wx"), ("clouds", "clouds")):
                self.one(name, getattr(p, name), x, sub and [g["code"] for g in sub[i][key]])
        if e is not None:
            if list(rep.unparsed_groups) != e["unparsed"]:
                raise core.Bad(f"unparsed groups {rep.unparsed_groups} instead of {e['unparsed']}")
            x.hit("excess_unparsed", any(
                len(l) == self.CAP[n] and any(f(u) for u in e["unparsed"])
                for n, l, f in [("weathers", e["wx"], ref.weather), ("clouds", e["clouds"], ref.cloud)] + (
                    [("runway_ranges", e["rvr"], ref.rvr)] if c["k"] == "metar" else [])))

    def capacity(self, c, toks):
        """A well-formed TAF with too many changes or temperatures must not be accepted."""
        if c["t"].startswith("TAF ZZZZ 010000Z 0101/0201"):
            rest = toks[4:]
            n = sum(t.startswith(("FM", "BECMG", "TEMPO")) or t in ("PROB30", "PROB40") for t in rest) - \
                sum(a in ("PROB30", "PROB40") and b == "TEMPO" for a, b in zip(rest, rest[1:]))
            if n > 8:
                raise core.Bad(f"{n} changes were accepted")
            if not n:
                # only the first four temperatures have a place
                for k in ("TX", "TN"):
                    if sum(t.startswith(k) for t in rest[:4]) > 2:
                        raise core.Bad(f"more than two {k} temperatures were accepted")

    def one(self, name, l, x, codes):
        cap = self.CAP[name]
        n = len(l)
        x.hit("lists")
        items = list(l.items)
        if not len(items) == n == len(list(l)) == len(l.codes):
            raise core.Bad(f"{name}: length {n}, {len(items)} items, {len(list(l))} iterated, codes {l.codes}")
        if n > cap:
            raise core.Bad(f"{name} has {n} groups")

        def key(g):
            return g.code, json.dumps(g.as_dict())
        want = [key(g) for g in items]
        if [key(g) for g in l] != want:
            raise core.Bad(f"{name}: the iteration gives {[g.code for g in l]}, items {[g.code for g in items]}")
        if list(l.codes) != [g.code for g in items]:
            raise core.Bad(f"{name}: codes {l.codes}, items {[g.code for g in items]}")
        if codes is not None and list(l.codes) != codes:
            raise core.Bad(f"{name}: codes {l.codes} instead of {codes}")
        for i in range(n):
            if key(l[i]) != want[i] or key(l[i - n]) != want[i]:
                raise core.Bad(f"{name}: [{i}] is {l[i].code!r}, [{i - n}] is {l[i - n].code!r}, items "
                               f"{[g.code for g in items]}")
        x.hit("items", n)
        if n > 1:
            pairs = [(key(a), key(b)) for a in l for b in l]
            if pairs != [(a, b) for a in want for b in want]:
                raise core.Bad(f"{name}: nested iterations give {len(pairs)} pairs of {n} groups")
            one, other = iter(l), iter(l)
            got = [key(next(i)) for _ in range(n) for i in (one, other)]
            if got != [w for w in want for _ in range(2)] or list(one) or list(other):
                raise core.Bad(f"{name}: two iterations at a time give {[g[0] for g in got]}")
            x.hit("nested_iterations")
        d = l.as_dict()
        if list(d) != LABELS[:n] or [json.dumps(v) for v in d.values()] != [w[1] for w in want]:
            raise core.Bad(f"{name}: the dictionary shows {list(d)} for {[g.code for g in items]}")
        for i in list(range(n, cap + 4)) + [-n - 1, -n - 2, 100, 10 ** 20]:
            try:
                g = l[i]
            except Exception as e:
                want_e = "RangeError" if i >= cap else "IndexError"
                if not core.is_a(e, want_e):
                    raise core.Bad(f"{name}[{i}] with {n} of {cap} groups raised {type(e).__name__} instead of {want_e}")
                x.hit("range_errors" if i >= cap else "index_errors")
            else:
                raise core.Bad(f"{name}[{i}] with {n} of {cap} groups is {g}")
        if n == cap:
            x.hit("full_lists")
            if name != "changes_forecasted":
                try:
                    l.add(items[-1])
                except Exception as e:
                    if not core.is_a(e, "RangeError"):
                        raise core.Bad(f"adding to the full {name} raised {type(e).__name__}: {e}")
                else:
                    raise core.Bad(f"adding to the full {name} was accepted")
                if len(l) != n or list(l.codes) != [w[0] for w in want]:
                    raise core.Bad(f"a rejected addition changed {name}")
        if n:
            x.nontrivial((name, l.codes))


# ------------------------------------------------------------------------- C28
def num(v, unit):
    return f"\0{v!r}\0{unit}"


def matches(want, got):
    """Numbers are shown with one decimal (a tie may be rounded either way)."""
    w = want.split("\0")
    m = re.fullmatch(r"(-?\d+\.\d)".join(map(re.escape, w[::2])), got)
    return m and all(abs(float(g) - float(v)) <= .0501 for g, v in zip(m.groups(), w[1::2]))


def t_wind(w):
    s = []
    if w.direction_in_degrees is not None:
        s += [w.cardinal_direction, f"({num(w.direction_in_degrees, '°')})"]
    if w.variable:
        s.append("variable wind")
    if w.speed_in_knot is not None:
        s.append(num(w.speed_in_knot, " kt"))
    if w.gust_in_knot is not None:
        s.append("gust of " + num(w.gust_in_knot, " kt"))
    return " ".join(s)


def t_vis(v):
    if getattr(v, "cavok", False):
        return "Ceiling and Visibility OK"
    s = "" if v.in_meters is None else num(v.in_meters / 1000, " km")
    if v.direction_in_degrees is not None:
        s += f" to {v.cardinal_direction} ({num(v.direction_in_degrees, '°')})"
    return s


def t_variation(v):
    if v.from_in_degrees is None:
        return ""
    return f"from {v.from_cardinal_direction} ({num(v.from_in_degrees, '°')}) to " \
           f"{v.to_cardinal_direction} ({num(v.to_in_degrees, '°')})"


def t_wx(*words):
    return " ".join(w for w in words if w)


def t_weather(w):
    return t_wx(w.intensity, w.description, w.precipitation, w.obscuration, w.other)


def t_recent(w):
    return t_wx(w.description, w.precipitation, w.obscuration, w.other)


def t_cloud(c):
    s = c.cover
    if c.height_in_feet is not None:
        s += f" at {num(c.height_in_feet, ' feet')}"
    elif c.cover not in ("clear", "undefined", "indefinite ceiling"):
        s += " at undefined height"
    return s + (f" of {c.cloud_type}" if c.cloud_type else "")


def t_range(text, m):
    return "" if m is None else t_wx(limit(text), num(m, " m"))


def t_rvr(q):
    s = f"runway {q.name} {t_range(q.low_range, q.low_in_meters)}"
    if q.high_in_meters is not None:
        s += f" varying to {t_range(q.high_range, q.high_in_meters)}"
    return s + (f", {q.trend}" if q.trend else "")


def t_temps(t):
    a, b = t.temperature_in_celsius, t.dewpoint_in_celsius
    if a is None and b is None:
        return ""
    return ("no temperature" if a is None else "temperature: " + num(a, "°C")) + " | " + \
        ("no dewpoint" if b is None else "dewpoint: " + num(b, "°C"))


def t_pressure(p):
    return "" if p.in_hPa is None else num(p.in_hPa, " hPa")


def t_shear(w):
    return w.name or ("all" if w.all_ else "")


def t_shears(l):
    return "all runways" if l.all_runways else " | ".join(t_shear(w) for w in l.items)


def t_sea(s):
    if s.temperature_in_celsius is None and s.height_in_meters is None and s.state is None:
        return ""
    return ", ".join([
        "no temperature" if s.temperature_in_celsius is None else "temperature " + num(s.temperature_in_celsius, "°C"),
        "no significant wave height" if s.height_in_meters is None
        else "significant wave height " + num(s.height_in_meters, " m"), s.state or "no sea state"])


def t_state(s):
    if s.code is None:
        return ""
    if s.snoclo:
        return "aerodrome is closed due to extreme deposit of snow"
    if s.clrd:
        return s.clrd
    m = re.fullmatch(r"R(\d\d[RLC]?)?/(.)(.)(..)(..)", s.code)
    if not m or s.name is None or s.contamination is None or s.surface_friction is None:
        return None                                  # not defined by the tables
    dep, depth, fr = m[2], m[4], m[5]
    if dep == "/":
        d = f"{s.deposits_depth} and {s.deposits}" if depth in ("99", "//") else \
            f"depth of {s.deposits_depth} but {s.deposits}"
    else:
        d = f"{s.deposits_depth} of {s.deposits}" if depth in ("99", "//") else \
            f"deposits of {s.deposits_depth} of {s.deposits}"
    f = s.surface_friction
    if fr.isdigit() and int(fr) <= 90:
        f = "estimated surface friction " + f
    return f"{s.name}, {d}, contamination {s.contamination}, {f}"


def t_station(s):
    return f"Name: {s.name} | Coordinates: {s.latitude} {s.longitude} | Elevation: {s.elevation} m MSL | " \
           f"Country: {s.country}"


def t_trend_ind(i):
    if i.period_at is not None:
        return f"{i.translation or ''} at {i.period_at.time}"
    if i.translation:
        return f"{i.translation} from {i.period_from.time} until {i.period_until.time}"
    return ""


def t_taf_temp(t):
    return "" if t.in_celsius is None else f"{num(t.in_celsius, '°C')} at {t.time.time}"


def t_modifier(m):
    return m.description.lower() if m.description else ""


class C28(Diff):
    pid = "C28"
    rule = """random, mutated and real reports and the element sweeps of C06-C11 and C13: the text of every
    element is compared with one rendered from its attributes by independent renderers, and the lines
    of the report (of each trend, of each change) with the texts of the decoded elements in the order
    of the reference decoder.  Non-trivial: a report with lines was judged; distinct by text."""
    need = {"element_texts": 150000, "empty_texts": 50000, "reports_in_order": 8000, "lines": 100000, "trends": 1500,
            "changes": 5000, "outside_reference": 30}
    quick, thorough = 900, 25000

    def sweep(self, r, tier):
        for n in ("C06", "C07", "C08", "C09", "C10", "C11", "C13"):
            k = 3 if n == "C13" else 9 if tier == "quick" else 2
            o = r.randrange(k)
            for i, s in enumerate(core.REGISTRY[n]().sweep(r, tier)):
                if i % k == o:
                    yield s

    def judge(self, c, x):
        e = core.expected(c)
        try:
            rep = x.new(c)
        except Exception:
            raise core.Skip()
        x.read(lambda: self.check(c, x, e, rep), "the texts")
        x.sample(c)

    def text(self, name, el, want, x):
        if want is None:
            return str(el)
        got = " ".join(str(el).split())
        if not matches(" ".join(want.split()), got):
            want = want.replace(chr(0), "")
            raise core.Bad(f"the text of the {name} {getattr(el, 'code', None)!r} is {got!r} instead of {want!r}")
        x.hit("element_texts" if got else "empty_texts")
        return got

    def conditions(self, p, x):
        d = {"wind": self.text("wind", p.wind, t_wind(p.wind), x),
             "vis": self.text("visibility", p.prevailing_visibility, t_vis(p.prevailing_visibility), x),
             "wx": [self.text("weather", w, t_weather(w), x) for w in p.weathers.items],
             "clouds": [self.text("cloud layer", q, t_cloud(q), x) for q in p.clouds.items]}
        self.text("weathers", p.weathers, " | ".join(d["wx"]), x)
        self.text("clouds", p.clouds, " | ".join(d["clouds"]), x)
        return d

    def lines(self, texts, order):
        out, pos = [], Counter()
        for name, tok in order:
            v = texts[name]
            if isinstance(v, list):
                out.append(v[pos[name]])
                pos[name] += 1
            else:
                out.append(v)
        return out

    def compare(self, what, got, want):
        got = [l for l in got.split("\n") if l.strip()]
        want = [l for w in want for l in w.split("\n") if l.strip()]
        if [" ".join(g.split()) for g in got] != [" ".join(w.split()) for w in want]:
            raise core.Bad(f"the text of {what} has the lines {got} instead of {want}")
        return len(want)

    def check(self, c, x, e, r):
        k = c["k"]
        T = self.conditions(r, x)
        T["type"] = self.text("type", r.type_, f"{r.type_.type_} ({r.type_.code})", x)
        T["station"] = self.text("station", r.station, t_station(r.station), x)
        T["time"] = self.text("time", r.time, r.time.time.strftime("%Y-%m-%d %H:%M:%S")
                              if r.time.time.year > 999 else None, x)
        T["modifier"] = self.text("modifier", r.modifier, t_modifier(r.modifier), x)
        if k == "metar":
            T["variation"] = self.text("wind variation", r.wind_variation, t_variation(r.wind_variation), x)
            T["minvis"] = self.text("minimum visibility", r.minimum_visibility, t_vis(r.minimum_visibility), x)
            T["rvr"] = [self.text("runway range", q, t_rvr(q), x) for q in r.runway_ranges.items]
            self.text("runway ranges", r.runway_ranges, " | ".join(T["rvr"]), x)
            for q in r.runway_ranges.items:
                for t, m in ((q.low_range, q.low_in_meters), (q.high_range, q.high_in_meters)):
                    if not matches(t_range(t, m), t):
                        raise core.Bad(f"the range of {q.code!r} is {t!r} but {m} m")
            T["temps"] = self.text("temperatures", r.temperatures, t_temps(r.temperatures), x)
            T["pressure"] = self.text("pressure", r.pressure, t_pressure(r.pressure), x)
            T["recent"] = self.text("recent weather", r.recent_weather, t_recent(r.recent_weather), x)
            T["windshear"] = [self.text("wind shear", q, t_shear(q), x) for q in r.windshears.items]
            self.text("wind shears", r.windshears, t_shears(r.windshears), x)
            T["sea"] = self.text("sea state", r.sea_state, t_sea(r.sea_state), x)
            T["state"] = self.text("runway state", r.runway_state, t_state(r.runway_state), x)
        else:
            T["missing"] = self.text("missing", r.missing, t_modifier(r.missing), x)
            T["cancelled"] = self.text("cancelled", r.cancelled, "cancelled" if r.cancelled.is_cancelled else "", x)
            v = r.valid
            T["valid"] = self.text("valid period", v, f"from {v.period_from.time} until {v.period_until.time}", x)
            mx = [self.text("temperature", t, t_taf_temp(t), x) for t in r.max_temperatures.items]
            mn = [self.text("temperature", t, t_taf_temp(t), x) for t in r.min_temperatures.items]
            self.text("maximum temperatures", r.max_temperatures, " | ".join(mx), x)
            self.text("minimum temperatures", r.min_temperatures, " | ".join(mn), x)
            if e:
                a, b = iter(mx), iter(mn)
                T["temp"] = [next(a) if t[1] == "X" else next(b) for n, t in e["_order"] if n == "temp"]
            else:
                T["temp"] = mx + mn

        parts, texts = parts_of(c, r), []
        sub = e and e["trends" if k == "metar" else "changes"]
        for i, p in enumerate(parts):
            q = self.conditions(p, x)
            ind = p.trend_indicator if k == "metar" else p.change_indicator
            q["ind"] = self.text("indicator", ind, t_trend_ind(ind) if k == "metar" else ind.translation or "", x)
            if k == "taf" and (ind.code or "").startswith("FM"):
                v = ind.valid
                self.text("indicator", ind, f"from {v.period_from.time} until {v.period_until.time}", x)
            got = str(p)
            texts.append(got)
            x.hit("trends" if k == "metar" else "changes")
            if e:
                x.hit("lines", self.compare(f"{p.code!r}", got, self.lines(
                    q, [o for o in sub[i]["_order"] if o[0] not in ("per", "valid")])))
        if k == "metar":
            self.compare("the trends", str(r.weather_trends), texts)
        else:
            self.compare("the changes", str(r.changes_forecasted), texts)
        got = str(r)
        if e:
            order = list(e["_order"])
            want = []
            press = [o for o in order if o[0] == "pressure"]
            for o, line in zip(order, self.lines(T, order)):
                if o[0] == "pressure" and o is not press[-1]:
                    # superseded by a later pressure
                    p = x.Metar("METAR 12/08 " + o[1]).pressure
                    line = self.text("pressure", p, t_pressure(p), x)
                want.append(line)
            n = self.compare(f"{c['t']!r}", got, want + texts)
            x.hit("reports_in_order")
            x.hit("lines", n)
            if n:
                x.nontrivial(got)
        else:
            have = Counter(" ".join(l.split()) for l in got.split("\n"))
            for name, v in T.items():
                if name in ("type", "time", "valid") or name == "station" and r.station.code is None:
                    continue
                for l in v if isinstance(v, list) else [v]:
                    l = " ".join(l.split())
                    if l and not have[l]:
                        raise core.Bad(f"the text of {c['t']!r} lacks the line {l!r}")
            x.hit("outside_reference")
