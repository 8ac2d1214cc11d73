"""C19, C20, C26: flight rules, CAVOK, and equal treatment of all sections."""
import itertools

from .. import core, embed, gen, ref, view
from .common import Diff

RANK = {"VLIFR": 0, "LIFR": 1, "IFR": 2, "MVFR": 3, "VFR": 4}
VIS = ["0000", "0050", "0799", "0800", "0801", "1599", "1600", "1601", "3000", "4999", "5000", "5001", "7999",
       "8000", "8001", "9998", "9999", "CAVOK", "////", "10SM", "1/2SM", "P6SM", "3SM", "5SM", "1 1/2SM", "M1/4SM",
       "0SM", "8KM", "5KM", "10KM", "9KM", "4KM", "99SM", "0/4SM", "M", "13SM", "20KM", "20SM"]
HEIGHTS = ["", "///", "000", "001", "002", "004", "005", "009", "010", "014", "015", "016", "029", "030", "031",
           "049", "050", "051", "100", "999"]


class Assess(Diff):
    def layers(self, r):
        n = r.choice([1, 1, 2, 2, 3, 4])
        out = []
        for _ in range(n):
            c = r.choice(["FEW", "SCT", "BKN", "OVC", "VV", "NSC", "///", "SKC", "CLR", "NCD", "0VC"])
            out.append(c + r.choice(HEIGHTS) + r.choice(["", "", "", "CB", "TCU", "///"]))
        return out

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        covers = ["VV", "BKN", "OVC", "SCT", "FEW", "NSC", "///", "0VC"]
        it = itertools.product(VIS + [None], [None] + [c + h for c in covers for h in HEIGHTS])
        for i, (v, c) in core.sliced(enumerate(it), shard, n):
            if not v and not c or not big and i % 2 and v not in ("9999", "CAVOK", None):
                continue
            toks = (v.split() if v else []) + ([c + ("CB" if i % 17 == 0 else "")] if c else [])
            w = embed.EVERYWHERE[i % 5]
            g = {"vis": v.split() if v else [], "clouds": [c] if c else [], "wind": [], "wx": []}
            yield embed.section(r, w, g, 0)
        for h in core.sliced(range(1000), shard, n):
            for c in ("BKN", "OVC", "VV", "SCT"):
                v = r.choice([["9999"], ["CAVOK"], [], ["8000"], ["////"]])
                yield embed.section(r, r.choice(embed.EVERYWHERE), {"vis": v, "clouds": ["%s%03d" % (c, h)],
                                                                     "wind": [], "wx": []}, 0)
        for v in core.sliced(range(0, 10000, 1 if big else 7), shard, n):
            yield embed.section(r, r.choice(embed.EVERYWHERE), {
                "vis": ["%04d" % v], "clouds": r.choice([[], ["NSC"], ["FEW050"], ["OVC100"], ["SCT049"]]),
                "wind": [], "wx": []}, 0)
        for _ in range(1300 if not big else 30000):
            g = {"vis": r.choice(VIS).split() if r.random() < .85 else [],
                 "clouds": self.layers(r) if r.random() < .85 else [],
                 "wx": [] if r.random() < .7 else [gen.weather(r)]}
            yield embed.section(r, r.choice(embed.EVERYWHERE), g, r.choice([0, .3]))

    def parts(self, c, rep):
        return [rep] + list((rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted).items)


class C19(Assess):
    pid = "C19"
    rule = """visibilities at and around every threshold (and every tenth metre value) x first layers of
    every cover at every hundred feet, lists of up to four layers, absent and slashed values, in
    body, trends and changes; pairs of reports that differ only in a lower visibility or ceiling or
    only in other groups.  Non-trivial: flight rules were determined; distinct by visibility, layers
    and category."""
    want, inner = ("fr",), ("fr",)
    need = {"fr_VLIFR": 500, "fr_LIFR": 500, "fr_IFR": 500, "fr_MVFR": 500, "fr_VFR": 500, "fr_None": 500,
            "pairs": 800}

    def extra(self, r, tier, shard, n):
        yield from super().extra(r, tier, shard, n)
        for _ in range(250 if tier == "quick" else 6000):
            v = sorted(r.sample(range(0, 10000), 2))
            h = sorted(r.sample(range(0, 60), 2))
            c = r.choice(["BKN", "OVC", "VV"])
            w = r.choice(embed.EVERYWHERE)
            k = r.choice(["vis", "ceiling", "both", "other"])
            lo, hi = {"vis": ((v[0], h[1]), (v[1], h[1])), "ceiling": ((v[1], h[0]), (v[1], h[1])),
                      "both": ((v[0], h[0]), (v[1], h[1])), "other": ((v[0], h[0]),) * 2}[k]
            mk = lambda q, rr, p: embed.section(rr, w, {
                "vis": ["%04d" % q[0]], "clouds": ["FEW001"] * rr.choice([0, 1]) * (p == 0 and k == "other") +
                ["%s%03d" % (c, q[1])] + ["BKN001"] * (p == 0 and k == "other" and rr.random() < .5),
                "wx": ["-RA"] * (rr.random() < .5), "wind": []}, 0)
            a, b = mk(lo, r, 0), mk(hi, r, 0)
            yield dict(a, better=b["t"], by=b["y"], bm=b["m"], how=k)

    def where(self, rep, c):
        p = self.parts(c, rep)
        return p[-1]

    def more(self, c, x, e, o, rep):
        for d, p in zip([o] + o.get("trends", []) + o.get("changes", []), self.parts(c, rep)):
            x.hit("fr_" + str(d["fr"]))
            if d["fr"] is not None:
                x.nontrivial((p.prevailing_visibility.in_meters, tuple(p.clouds.codes), d["fr"]))
                x.sample(c)
        if "better" in c:
            other = x.build(dict(c, t=c["better"], y=c["by"], m=c["bm"]))
            a, b = self.where(rep, c).flight_rules, self.where(other, c).flight_rules
            if a is None or b is None or (RANK[a] != RANK[b] if c["how"] == "other" else RANK[a] > RANK[b]):
                raise core.Bad(f"{c['t']!r} is {a} but {c['better']!r} is {b}")
            x.hit("pairs")

    def seen(self, d):
        return False


class C20(Assess):
    pid = "C20"
    rule = """visibilities around 10 km in every form x layers of every cover, height and type x weather,
    lists of up to four layers, absent values, in body, trends and changes.  Non-trivial: visibility
    and clouds were reported; distinct by visibility, weather, layers and assessment."""
    want, inner = ("scavok", "ceiling"), ("scavok", "ceiling")
    need = {"cavok_True": 600, "cavok_False": 5000, "ceiling_True": 1500, "ceiling_False": 5000}

    def extra(self, r, tier, shard, n):
        yield from super().extra(r, tier, shard, n)
        for _ in range(1300 if tier == "quick" else 30000):
            # near the boundary of the definition: everything right but perhaps one thing
            layers = [r.choice(["FEW", "SCT", "BKN", "OVC", "///", "NSC", "NCD", "SKC", "CLR"]) + r.choice(
                ["050", "051", "100", "250", "", "///", "999", "050"]) for _ in range(r.choice([1, 1, 2, 3, 4]))]
            g = {"vis": r.choice([["9999"], ["9999"], ["CAVOK"], ["10KM"], ["P10KM"], ["6SM"], ["7SM"], ["10SM"]]),
                 "clouds": layers, "wx": [], "wind": []}
            k = r.random()
            if k < .15:
                layers[-1] += r.choice(["CB", "TCU", "///"])
            elif k < .3:
                layers[r.randrange(len(layers))] = r.choice(["FEW", "SCT", "BKN", "OVC", "VV", "///", "0VC", "NSC"]) + \
                    r.choice(["049", "000", "015", "016", "001", "048"])
            elif k < .4:
                layers[r.randrange(len(layers))] = r.choice(["VV", "VV///", "VV060", "VV100"])
            elif k < .5:
                g["wx"] = [r.choice(["NSW", "-RA", "FG", "VCTS", "HZ", "TS"])]
            elif k < .6:
                g["vis"] = [r.choice(["9998", "9000", "////", "5SM", "9KM"])]
            elif k < .65:
                g["clouds"] = []
            yield embed.section(r, r.choice(embed.EVERYWHERE), g, 0)

    def more(self, c, x, e, o, rep):
        for d, p in zip([o] + o.get("trends", []) + o.get("changes", []), self.parts(c, rep)):
            x.hit("cavok_" + str(d["scavok"]))
            x.hit("ceiling_" + str(d["ceiling"]))
            if p.clouds.codes and p.prevailing_visibility.code:
                x.nontrivial((p.prevailing_visibility.in_meters, tuple(p.weathers.codes), tuple(p.clouds.codes),
                              d["scavok"], d["ceiling"]))
                x.sample(c)

    def seen(self, d):
        return False


class C26(core.Prop):
    pid = "C26"
    rule = """the same wind, visibility, weather and cloud groups reported in a METAR and SPECI body, first
    and second trend, TAF body and first, middle and last change of every kind: all observations must
    be equal; reports with several sections against reports with all other sections emptied.  No
    reference is involved.  Non-trivial: two observations were compared; distinct by the groups."""
    need = {"placements_compared": 8000, "isolations_compared": 3000}
    KEYS = ("wind", "vis", "wx", "clouds", "fr", "scavok", "ceiling", "unparsed")

    def groups(self, r):
        out = []
        if r.random() < .7:
            out.append(gen.wind(r, True))
        if r.random() < .8:
            out += gen.visibility(r, slashes=False)
        if r.random() < .6:
            out += [gen.weather(r) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < .8:
            out += [gen.cloud(r) for _ in range(r.choice([1, 2, 3, 4]))]
        return out or ["9999"]

    def cases(self, r, tier, shard, n):
        for i in range(450 if tier == "quick" else 12000):
            g = self.groups(r)
            if r.random() < .2:
                g.insert(r.randrange(len(g) + 1), gen.safe_noise(r, ref))
            o = [self.groups(r) for _ in range(3)]
            yield dict(mode="place", g=g, o=o, fixed=True)
        for i in range(450 if tier == "quick" else 12000):
            yield dict(mode="isolate", k=r.choice(["metar", "taf"]), o=[self.groups(r) for _ in range(4)],
                       kinds=[r.choice(["FM011000", "BECMG 0103/0105", "TEMPO 0106/0108", "PROB30 0109/0110",
                                        "PROB40 TEMPO 0111/0114"]) for _ in range(3)], fixed=True)

    def part(self, x, p):
        return x.read(lambda: {k: view.COND[k](p) for k in self.KEYS}, "a section")

    def judge(self, c, x):
        j = " ".join
        if any(a.endswith(("WS", "RWY")) for a in c.get("g", [])):
            raise core.Skip()
        M, T = x.Metar, x.Taf

        def parts(cls, text):
            try:
                r = cls(text, 2022, 3)
            except Exception as e:
                raise core.Bad(f"constructing {text!r} raised {type(e).__name__}: {e}")
            l = r.weather_trends if cls is M else r.changes_forecasted
            return [self.part(x, r)] + [self.part(x, q) for q in l.items]
        if c["mode"] == "place":
            g, (a, b, d) = j(c["g"]), [j(o) for o in c["o"]]
            mh, th = "ZZZZ 010000Z", "ZZZZ 010000Z 0101/0201"
            obs = {}
            for typ in ("METAR", "SPECI"):
                obs[typ + " body"] = parts(M, f"{typ} {mh} {g}")[0]
                obs[typ + " body with others"] = parts(M, f"{typ} {mh} {g} TEMPO {a} BECMG {b}")[0]
            obs["first trend"] = parts(M, f"METAR {mh} {a} BECMG {g} TEMPO {b}")[1]
            obs["only trend"] = parts(M, f"METAR {mh} {a} TEMPO FM0010 TL0100 {g}")[1]
            obs["second trend"] = parts(M, f"METAR {mh} {a} TEMPO {b} BECMG AT0100 {g}")[2]
            obs["TAF body"] = parts(T, f"TAF {th} {g}")[0]
            obs["TAF body with changes"] = parts(T, f"TAF {th} {g} BECMG 0102/0103 {a} FM010500 {b}")[0]
            for ind in ("FM010200", "BECMG 0102/0103", "TEMPO 0102/0103", "PROB30 0102/0103", "PROB40 TEMPO 0102/0103"):
                obs[ind + " first"] = parts(T, f"TAF {th} {a} {ind} {g} FM010600 {b}")[1]
                obs[ind + " last"] = parts(T, f"TAF {th} {a} BECMG 0101/0102 {b} PROB30 TEMPO 0102/0103 {d} {ind} {g}")[3]
            # fewer unparsed groups of the part itself are in the report's list of a body with others
            first, want = next(iter(obs.items()))
            for name, o in obs.items():
                skip = {"unparsed"} if "with" in name else set()
                for k in self.KEYS:
                    if k in skip:
                        continue
                    m = view.same(want[k], o[k], k, 0)
                    if m:
                        raise core.Bad(f"{g!r} in the {name} is not as in the {first}: {m}")
                x.hit("placements_compared")
            x.nontrivial(g)
            x.sample(g)
            return
        o, kinds = [j(q) for q in c["o"]], c["kinds"]
        if c["k"] == "metar":
            full = parts(M, f"METAR ZZZZ 010000Z {o[0]} TEMPO {o[1]} BECMG {o[2]} RMK {o[3]}")
            alone = [parts(M, f"METAR ZZZZ 010000Z {o[0]}")[0], parts(M, f"METAR ZZZZ 010000Z TEMPO {o[1]}")[1],
                     parts(M, f"METAR ZZZZ 010000Z BECMG {o[2]}")[1]]
        else:
            h = "TAF ZZZZ 010000Z 0101/0201"
            full = parts(T, f"{h} {o[0]} " + j(f"{k} {q}" for k, q in zip(kinds, o[1:])))
            alone = [parts(T, f"{h} {o[0]}")[0]] + [parts(T, f"{h} {k} {q}")[1] for k, q in zip(kinds, o[1:])]
        if len(full) != len(alone):
            raise core.Bad(f"{len(full)} sections instead of {len(alone)}")
        for i, (a, b) in enumerate(zip(alone, full)):
            for k in self.KEYS:
                if k == "unparsed" and i == 0:
                    continue
                m = view.same(a[k], b[k], k, 0)
                if m:
                    raise core.Bad(f"section {i} alone and together with the others: {m}")
            x.hit("isolations_compared")
        x.nontrivial(o)
