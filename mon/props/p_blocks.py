"""C33: the exported building blocks used on their own, and the unit conversions."""
import gzip
import importlib
import json
import math
import os

from .. import core, gen

NAMES = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]
# what one unit is in the SI unit of its quantity
SIZE = {"FT": .3048, "SMI": 1852, "KM": 1000, "M": 1, "DM": .1, "CM": .01, "IN": .0254,
        "DEGREES": math.pi / 180, "RADIANS": 1, "GRADIANS": math.pi / 200,
        "KNOT": 1852 / 3600, "MPS": 1, "MIPH": 1609.344 / 3600, "KPH": 1 / 3.6,
        "HPA": 100, "INHG": 3386.389, "BAR": 1e5, "MBAR": 100, "ATM": 101325}
QUANTITIES = {
    "Direction": {"in_degrees": 1, "in_radians": math.pi / 180, "in_gradians": 10 / 9},
    "Speed": {"in_knot": 1, "in_mps": 1852 / 3600, "in_kph": 1.852, "in_miph": 1852 / 1609.344},
    "Distance": {"in_meters": 1, "in_kilometers": .001, "in_sea_miles": 1 / 1852, "in_feet": 1 / .3048},
    "Pressure": {"in_hPa": 1, "in_inHg": 100 / 3386.389, "in_mbar": 1, "in_bar": .001, "in_atm": 1 / 1013.25},
    "Temperature": {"in_celsius": (1, 0), "in_kelvin": (1, 273.15), "in_fahrenheit": (1.8, 32),
                    "in_rankine": (1.8, 491.67)},
}
SCALE = {"C": (1, 273.15), "K": (1, 0), "F": (5 / 9, 459.67 * 5 / 9), "R": (5 / 9, 0)}


def sector(deg):
    return NAMES[int(((deg + 11.25) % 360) // 22.5)]


def close(a, b):
    return type(a) in (float, int) and math.isclose(a, b, rel_tol=3e-6, abs_tol=1e-9)


class C33(core.Prop):
    pid = "C33"
    rule = """every exported quantity made from every code of its range (and without value), every whole
    degree and compass point, every ICAO, IATA and SYNOP code of the catalogue and unknown ones looked up
    directly, group lists filled beyond their capacity, every public conversion constant and function with
    its opposite on random values.  Non-trivial: a building block gave a value; distinct by its arguments."""
    need = {"quantities": 8000, "absent": 25, "compass_points": 16, "degrees": 361, "icao": 9000, "iata": 1000,
            "synop": 3000, "unknown": 500, "lists": 50, "constants": 15, "functions": 6, "not_compass": 150}

    def setup(self, x):
        self.base = importlib.import_module("aeromet_py.reports.models.base")
        self.conversions = importlib.import_module("aeromet_py.utils").Conversions
        with gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                    "catalogue.json.gz")) as f:
            d = json.load(f)
        self.first = {}
        for s in d["stations"]:
            for i in (1, 2, 3):
                self.first.setdefault((i, s[i]), s[:7] + [d["countries"][s[7]]])

    def cases(self, r, tier, shard, n):
        yield from core.sliced(self.all(core.rng(1, tier), tier), shard, n)

    def all(self, r, tier):
        big = tier == "thorough"
        for d in range(361):
            yield dict(q="Direction", code="%03d" % d, value=float(d))
        for d in range(0, 37):
            yield dict(q="Direction", code="%02d" % d, value=float(10 * d))
        for d in list(range(100)) + list(range(100, 1000, 1 if big else 3)):
            yield dict(q="Speed", code="%02d" % d, value=float(d))
            yield dict(q="Speed", code="%03d" % d, value=float(d))
        for d in range(10000) if big else list(range(0, 10000, 3)) + [9999]:
            yield dict(q="Distance", code="%04d" % d, value=float(d) if d != 9999 else 10000.)
            yield dict(q="Pressure", code="%04d" % d, value=float(d))
        for d in range(1, 10000, 7 if big else 61):
            yield dict(q="Distance", code="%.10f" % (d * .3048), value=d * .3048)
            yield dict(q="Pressure", code="%.10f" % (d / 8), value=d / 8)
        for s in ("", "-"):
            for d in range(100):
                yield dict(q="Temperature", code=s + "%02d" % d, value=float(s + str(d)))
            for d in range(0, 1000, 1 if big else 7):
                yield dict(q="Temperature", code=s + "%03d" % d, value=float(s + str(d)) / 10)
        for q, cs in dict(Direction=[None, "//", "///", "VRB"], Speed=[None, "//", "///"],
                          Distance=[None, "////"], Pressure=[None, "////"],
                          Temperature=[None, "//", "///", "XX", "MM"]).items():
            for c in cs:
                for _ in range(3):
                    yield dict(q=q, code=c, value=None)
        for c in NAMES:
            yield dict(compass=c)
        for c in NAMES:
            for t in (c.lower(), " " + c, c + " ", c[::-1], c + c[0], c + "\n", c.title(), "_" + c, c + "0"):
                if t not in NAMES:
                    yield dict(compass=t)
        for t in ("NORTH", "O", "NO", "SO", "W-NW", "VRB", "///", "360", "C", "CALM", "\u004e\u0301"):
            yield dict(compass=t)
        for i in range(120):
            yield dict(compass="".join(r.choice("NESWX") for _ in range(r.randint(0, 4))))
        for i in range(200 if not big else 3000):
            yield dict(wind=[r.choice([None, "VRB", "///"] + ["%03d" % (10 * r.randrange(37))] * 6),
                             r.choice([None, "//"] + ["%02d" % r.randrange(200)] * 6)])
        for i, name in ((1, "ICAO"), (2, "IATA"), (3, "SYNOP")):
            for j, c in self.first:
                if j == i and c != "None":
                    yield dict(station=c, by=name)
                    if r.random() < .05:
                        yield dict(station=c + "Q", by=name)
                        yield dict(station=c.lower(), by=name)
        for m in range(0, 11):
            for _ in range(6):
                yield dict(list=m, seed=r.randrange(1 << 30))
        for name in sorted(n for n in vars(self.conversions) if not n.startswith("_")):
            for _ in range(1 if "_TO_" in name else 60):
                yield dict(conv=name, value=r.choice([0., 1., -40., 100., r.uniform(-100, 1200)]))

    def judge(self, c, x):
        for k in ("q", "compass", "wind", "station", "list", "conv"):
            if k in c:
                x.read(lambda: getattr(self, k)(c, x), f"{c}")
        x.nontrivial(repr(c))
        x.sample(c)

    def check(self, what, got, want):
        ok = got is None if want is None else close(got, want) if type(want) is float else got == want
        if not ok:
            raise core.Bad(f"{what} is {got!r} instead of {want!r}")

    def q(self, c, x):
        o = getattr(self.base, c["q"])(c["code"])
        v = c["value"]
        for n, f in QUANTITIES[c["q"]].items():
            want = None if v is None else v * f[0] + f[1] if isinstance(f, tuple) else float(v * f)
            self.check(f"{n} of {c['q']}({c['code']!r})", getattr(o, n), want)
        self.check("value", o.value, v)
        self.check(f"converted() of {c['q']}({c['code']!r})", o.converted(factor=2.5, conversion=lambda u: 0),
                   None if v is None else v * 2.5)
        self.check(f"converted() of {c['q']}({c['code']!r})", o.converted(conversion=lambda u: u + 3),
                   None if v is None else v + 3)
        if (v is None and c["code"] != "VRB") != (str(o) == ""):
            raise core.Bad(f"the text of {c['q']}({c['code']!r}) is {str(o)!r}")
        if c["q"] == "Direction":
            self.check(f"cardinal of {c['code']!r}", o.cardinal, None if v is None else sector(v))
            self.check(f"variable of {c['code']!r}", o.variable, c["code"] == "VRB")
            if v is not None:
                x.distinct("degrees", v)
        x.hit("quantities" if v is not None else "absent")

    def compass(self, c, x):
        s = c["compass"]
        try:
            d = self.base.Direction.from_cardinal(s)
        except ValueError:
            if s in NAMES:
                raise core.Bad(f"from_cardinal({s!r}) raised ValueError")
            x.hit("not_compass")
            return
        if s not in NAMES:
            raise core.Bad(f"from_cardinal({s!r}) gave {d.in_degrees}")
        v = d.in_degrees
        if type(v) is not float or not 0 < v <= 360 or abs((v - 22.5 * NAMES.index(s) + 180) % 360 - 180) > .5:
            raise core.Bad(f"from_cardinal({s!r}) gave {v} degrees")
        self.check("cardinal", d.cardinal, s)
        x.distinct("compass_points", s)

    def wind(self, c, x):
        d, s = c["wind"]
        w = self.base.Wind(d, s)
        dv = float(d) if d and d.isdigit() else None
        sv = float(s) if s and s.isdigit() else None
        for n, want in (("direction_in_degrees", dv), ("speed_in_knot", sv), ("variable", d == "VRB"),
                        ("speed_in_kph", None if sv is None else sv * 1.852),
                        ("cardinal_direction", None if dv is None else sector(dv))):
            self.check(f"{n} of Wind({d!r}, {s!r})", getattr(w, n), want)
        json.loads(w.to_json())
        x.hit("winds")

    def station(self, c, x):
        i = {"ICAO": 1, "IATA": 2, "SYNOP": 3}[c["by"]]
        st = self.base.Station(c["station"], c["by"])
        want = self.first.get((i, c["station"]), [None] * 8)
        got = [getattr(st, n) for n in ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country")]
        if got != want or st.code != c["station"]:
            raise core.Bad(f"Station({c['station']!r}, {c['by']!r}) is {got} instead of {want}")
        x.hit(c["by"].lower() if want[0] else "unknown")

    def list(self, c, x):
        r = core.rng(c["seed"])
        cap = c["list"]
        l = self.base.GroupList(cap)
        have = []
        for i in range(cap + r.randint(1, 3)):
            g = self.base.Modifier(r.choice(["AUTO", "COR", "XYZ%d" % i]))
            try:
                l.add(g)
            except Exception as e:
                if not core.is_a(e, "RangeError") or len(have) < cap:
                    raise
            else:
                if len(have) >= cap:
                    raise core.Bad(f"a list of {cap} accepted {len(have) + 1} groups")
                have.append(g)
            if [id(g) for g in l] != [id(g) for g in have] or len(l) != len(have) or l.codes != [
                    g.code for g in have] or [id(g) for g in l.items] != [id(g) for g in have]:
                raise core.Bad(f"a list of {cap} with {len(have)} groups added has {l.codes}")
            for j, g in enumerate(have):
                if l[j] is not g or l[j - len(have)] is not g:
                    raise core.Bad(f"item {j} of a list of {cap} is not the one added")
        x.hit("lists")

    def conv(self, c, x):
        n, v = c["conv"], c["value"]
        f = getattr(self.conversions, n)
        a, b = (n.split("_TO_") if "_TO_" in n else n.split("_to_"))
        if "_TO_" in n:
            if a not in SIZE or b not in SIZE:
                raise core.Skip()
            if not close(f, SIZE[a] / SIZE[b]):
                raise core.Bad(f"{n} is {f} instead of {SIZE[a] / SIZE[b]}")
            back = getattr(self.conversions, f"{b}_TO_{a}", None)
            if back is not None and not close(f * back, 1.):
                raise core.Bad(f"{n} and its opposite are {f} and {back}")
            x.distinct("constants", n)
            return
        s, t = SCALE[a[0].upper()], SCALE[b[0].upper()]
        want = (v * s[0] + s[1] - t[1]) / t[0]
        if not math.isclose(f(v), want, rel_tol=1e-9, abs_tol=1e-6):
            raise core.Bad(f"{n}({v}) is {f(v)} instead of {want}")
        back = getattr(self.conversions, f"{b}_to_{a}")
        if not math.isclose(back(f(v)), v, rel_tol=1e-9, abs_tol=1e-6):
            raise core.Bad(f"{n} and its opposite turn {v} into {back(f(v))}")
        x.distinct("functions", n)
