"""C06-C11, C13: what each element decodes to."""
import itertools

from .. import core, embed, gen, ref
from .common import Diff

ALL = embed.EVERYWHERE


def some_where(i):
    """Cheap rotation through the sections."""
    return [ALL[i % 5]]


class C06(Diff):
    pid = "C06"
    rule = """wind groups: every direction x every two-digit speed, every three-digit speed, every
    gust, both units, P prefixes and slashes, in body, trends and changes; every pair of variation
    limits; plus random, mutated and real reports.  Each decoded wind and variation is compared
    with the reference decoder.  Non-trivial: a wind or variation was decoded; distinct by the
    decoded values."""
    want, inner = ("wind", "variation"), ("wind",)
    need = {"wind_seen": 5000, "variation_seen": 1000}
    DIRS = ["%03d" % d for d in range(0, 1000, 10)] + ["VRB", "///"]

    def sweep(self, r, tier):
        i = 0

        def put(g, where=None):
            nonlocal i
            i += 1
            return "wind", [g], where or some_where(i)
        ok = [d for d in self.DIRS if not d.isdigit() or int(d) <= 360]
        for d in self.DIRS:
            for u in ("KT", "MPS"):
                yield put(d + "05" + u, ALL)
                yield put(d + "P99" + u)
                yield put(d + "//" + u)
                yield put(d + "///" + u)
                yield put(d + "07G15" + u, ALL)
                yield put(d + "//G20" + u)
        for d in ok:
            for s in range(100):
                yield put("%s%02d%s" % (d, s, r.choice(["KT", "MPS"])))
        for s in range(1000):
            yield put("%s%s%03d%s" % (r.choice(ok), r.choice(["", "", "P"]), s, r.choice(["KT", "MPS"])))
            yield put("%s15G%s%03d%s" % (r.choice(ok), r.choice(["", "P"]), s, r.choice(["KT", "MPS"])))
        for s in range(100):
            for u in ("KT", "MPS"):
                yield put("%s15G%s%02d%s" % (r.choice(ok), r.choice(["", "P"]), s, u))
                yield put("00000G%02d%s" % (s, u))
        for g in ("24015G//KT", "24015G///KT", "2401KT", "24015", "240150KT", "24015G5KT", "VRBKT",
                  "24015KMH", "24115KT", "36105KT", "37005KT", "/////KT", "//////KT", "VRB//KT",
                  "24015G25", "24015G1234KT", "P24015KT", "240P05G10KT", "240P05GP10MPS",
                  "00000KT", "36000KT", "VRB00MPS", "X24015KT", "24015KTS", "-24015KT"):
            yield put(g, ALL)
        for a in range(0, 41):
            for b in range(0, 41):
                if a <= 37 and b <= 37 or (a + b) % 7 == 0:
                    yield "variation", ["%03dV%03d" % (a * 10, b * 10)], ["metar"]

    def seen(self, d):
        return d["wind"]["code"] or d.get("variation", {}).get("code") or any(
            t["wind"]["code"] for t in d.get("trends", []) + d.get("changes", []))

    def more(self, c, x, e, o, rep):
        for w in [o["wind"]] + [t["wind"] for t in o.get("trends", []) + o.get("changes", [])]:
            if w["var"]:
                x.hit("variable_winds")
            if w["gust"] is not None:
                x.hit("gusts")
            if w["code"] and w["code"].endswith("MPS"):
                x.hit("mps_winds")


class C07(Diff):
    pid = "C07"
    rule = """visibility groups: every four digits, every direction suffix, every mile and kilometre
    value with whole part 0-99, fractions of every numerator and denominator, P and M prefixes, in
    body, trends and changes, and as minimum visibility; the CAVOK flag is read and assigned; plus
    random, mutated and real reports.  Non-trivial: a visibility was decoded; distinct by decoded
    values."""
    want, inner = ("vis", "minvis"), ("vis",)
    need = {"vis_seen": 5000, "minvis_seen": 500, "cavok_assignments": 300}

    def sweep(self, r, tier):
        i = 0

        def put(toks, where=None):
            nonlocal i
            i += 1
            return "vis", toks, where or some_where(i)
        for v in range(10000):
            if tier == "thorough" or v % 3 == 0 or v % 100 in (0, 50, 99) or v > 9980:
                yield put(["%04d" % v])
        for v in list(range(0, 10000, 250)) + [9999, 9998, 799, 800, 1599, 1600, 4999, 5000]:
            for d in gen.DIRS:
                yield put(["%04d%s" % (v, d)])
        for d in [""] + gen.DIRS + ["NNE", "WSW", "NDV"]:
            yield put(["9999" + d], ALL)
            yield put(["////" + d], ALL)
        yield put(["CAVOK"], ALL)
        for unit in ("SM", "KM"):
            for n in range(0, 100):
                for p in ("", "P", "M"):
                    yield put([p + str(n) + unit])
                if n < 10:
                    yield put(["%02d" % n + unit])
            for a in range(10):
                for b in range(10):
                    yield put(["%d/%d%s" % (a, b, unit)])
                    yield put([r.choice("PM") + "%d/%d%s" % (a, b, unit)])
                    yield put(["%d%d/%d%s" % (r.randrange(1, 10), a, b, unit)])
                    if unit == "SM":
                        yield put([str(r.choice([1, 2, 3, 4, 5, 10, 12, 15, 99])), "%d/%dSM" % (a, b)], ALL)
            for w in range(100):
                yield put([str(w), "1/2SM"])
                yield put(["%02d" % w, "%d/%dSM" % (r.randrange(1, 10), r.randrange(1, 10))])
        for g in ("10000", "100", "12345", "9999X", "X9999", "0800SMX", "SM", "KM", "1SMX", "PSM",
                  "100SM", "1/2", "1/22SM", "12/2SM", "CAVOKX", "XCAVOK", "/////", "///", "9999NE1",
                  "0800 NE", "M", "U", "9999M"):
            yield put(g.split(), ALL)
        for v in range(0, 10000, 37):
            yield "minvis", ["%04d%s" % (v, r.choice(gen.DIRS + [""]))], ["metar"]
        for d in gen.DIRS + [""]:
            for v in ("9999", "0000", "1200", "////"):
                yield "minvis", [v + d], ["metar"]

    def extra(self, r, tier, shard, n):
        for _ in range(700 if tier == "quick" else 9000):
            yield embed.section(r, "metar", {"vis": gen.visibility(r), "minvis": [gen.minvis(r)]},
                                r.choice([0, .3]))

    def seen(self, d):
        return d["vis"]["code"] or any(t["vis"]["code"] for t in d.get("trends", []) + d.get("changes", []))

    def more(self, c, x, e, o, rep):
        if len(c["t"]) % 5:
            return
        parts = [rep] + list(rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted)
        for p in parts:
            v = p.prevailing_visibility
            old = v.cavok
            before = (v.in_meters, v.code, v.cardinal_direction)
            for bad in (1, 0, "True", None, 1.0, [], "x"):
                try:
                    v.cavok = bad
                except TypeError:
                    x.hit("cavok_assignments")
                else:
                    raise core.Bad(f"cavok accepted {bad!r}, which is not a boolean")
                if v.cavok is not old:
                    raise core.Bad(f"a rejected assignment changed cavok from {old} to {v.cavok!r}")
            for b in (not old, old):
                v.cavok = b
                if v.cavok is not b:
                    raise core.Bad(f"cavok is {v.cavok!r} after assigning {b}")
                x.hit("cavok_assignments")
            if (v.in_meters, v.code, v.cardinal_direction) != before:
                raise core.Bad("assigning cavok changed the visibility")


class C08(Diff):
    pid = "C08"
    rule = """cloud groups: every cover x every height (1000 values, none, slashes) and every cover x
    type, in body, trends and changes; all sequences of up to four different layers sampled; plus
    random, mutated and real reports.  Non-trivial: some layer was decoded; distinct by the decoded
    layers."""
    want, inner = ("clouds",), ("clouds",)
    need = {"clouds_seen": 20000, "four_layers": 300}

    def sweep(self, r, tier):
        i = 0
        for c in gen.COVERS:
            for h in [""] + ["///"] + ["%03d" % k for k in range(1000)]:
                i += 1
                t = ["", "", "CB", "TCU", "///"][i % 5]
                yield "clouds", [c + h + t], some_where(i)
            for t in ("", "CB", "TCU", "///", "AC", "CU", "CBX", "TCUX"):
                for h in ("", "///", "000", "015", "999"):
                    yield "clouds", [c + h + t], ALL
        for g in ("FEW", "FEW1", "FEW01", "FEW0100", "FEW0X5", "SCT-10", "VV", "VV0", "VV////", "//////",
                  "/////", "///////", "//////CB", "///015", "/////////", "FEWCB", "0VC010", "OVCC",
                  "XBKN010", "BKN010X", "BKN010 CB", "BKN/10", "few010", "OVC010CBTCU", "0KC", "FEW 010"):
            yield "clouds", g.split(), ALL

    def extra(self, r, tier, shard, n):
        for i in range(1500 if tier == "quick" else 20000):
            k = r.choice([2, 3, 4, 4, 4, 5, 6])
            l = [gen.cloud(r) for _ in range(k)]
            if r.random() < .3:
                l[r.randrange(k)] = l[0]
            yield embed.section(r, r.choice(ALL), {"clouds": l}, r.choice([0, 0, .3]))

    def seen(self, d):
        return d["clouds"] or any(t["clouds"] for t in d.get("trends", []) + d.get("changes", []))

    def more(self, c, x, e, o, rep):
        if len(o["clouds"]) == 4:
            x.hit("four_layers")


class C09(Diff):
    pid = "C09"
    rule = """weather groups: every intensity x descriptor x phenomenon (every combination), in body,
    trends and changes, sequences of up to four groups; recent weather: every descriptor x
    precipitation x obscuration x other; plus random, mutated and real reports.  Non-trivial: a
    weather or recent weather group was decoded; distinct by decoded values."""
    want, inner = ("wx", "recent"), ("wx",)
    need = {"wx_seen": 12000, "recent_seen": 700}

    def sweep(self, r, tier):
        i = 0
        for a in gen.INT + ["++", "--", "RE"]:
            for d in gen.DESC:
                for ph in [""] + gen.PREC + gen.OBSC + gen.OTHER + ["//", "RASN", "XX", "/"]:
                    i += 1
                    if a + d + ph:
                        yield "wx", [a + d + ph], ALL if tier == "thorough" or i % 4 == 0 else some_where(i)
        for d in gen.DESC:
            for p in [""] + gen.PREC:
                for ob in [""] + gen.OBSC:
                    for ot in [""] + gen.OTHER:
                        i += 1
                        if tier == "quick" and p and ob and ot and i % 5:
                            continue
                        yield "recent", ["RE" + d + p + ob + ot], ["metar"]
        for g in ("RE", "RE//", "REFU", "RERASN", "-RERA", "RE-RA", "RA+", "SHRA-", "TSTS", "VCVC",
                  "+TSGR", "NSW", "-NSW", "TSGRX", "XRA", "RARA", "MIFGX", "//", "-", "+", "VC"):
            yield "wx", [g], ALL
            yield "recent", [g], ["metar"]

    def extra(self, r, tier, shard, n):
        for _ in range(1200 if tier == "quick" else 20000):
            l = [gen.weather(r) for _ in range(r.choice([2, 3, 3, 4, 5]))]
            if r.random() < .3:
                l[-1] = l[0]
            g = {"wx": l}
            w = r.choice(ALL)
            if w == "metar" and r.random() < .6:
                g["recent"] = [gen.recent(r)] + ([gen.recent(r)] if r.random() < .2 else [])
            yield embed.section(r, w, g, r.choice([0, 0, .3]))

    def seen(self, d):
        return d["wx"] or d.get("recent", {}).get("code") or any(
            t["wx"] for t in d.get("trends", []) + d.get("changes", []))


class C10(Diff):
    pid = "C10"
    rule = """temperature groups: every pair of values 00-99 (sampled signs), every sign x missing form;
    pressure groups: every four digits with each prefix and suffix; two or three pressures; plus
    random, mutated and real reports.  Non-trivial: a temperature or pressure was decoded; distinct
    by decoded values."""
    want = ("temps", "pressure")
    kind = "metar"
    need = {"temps_seen": 5000, "pressure_seen": 8000, "two_pressures": 300}

    def sweep(self, r, tier):
        S = ["", "M", "-"]
        V = ["00", "01", "09", "10", "17", "40", "99", "//", "XX", "MM"]
        for a, b in itertools.product(S, S):
            for v, w in itertools.product(V, V):
                yield "temps", [a + v + "/" + b + w], ["metar"]
        for v in range(100):
            for w in range(100):
                if tier == "thorough" or (v * 7 + w) % 5 == 0:
                    yield "temps", [r.choice(S) + "%02d/" % v + r.choice(S) + "%02d" % w], ["metar"]
        for g in ("1/2", "10/", "/10", "10//", "///10", "M/M", "10/-", "100/10", "10/100", "MM10/10", "--10/10",
                  "M10M/10", "XX/MM", "10/1O", "A10/10", "10/10X", "+10/10", "-//M//", "M10/", "/////", "T10/10"):
            yield "temps", [g], ["metar"]
        for p in range(10000):
            if tier == "thorough" or p % 3 == 0 or 860 < p < 1090 or 2400 < p < 3200:
                f = ["Q%04d", "A%04d", "%04d", "QNH%04dINS", "QNH%04d", "%04dINS", "Q%04dINS", "A%04dINS"]
                for k in ([f[p % 3], f[3 + p % 5]] if tier == "quick" else f):
                    yield "pressure", [k % p], ["metar"]
        for g in ("Q////", "A////", "////", "QNH////", "////INS", "A////INS", "Q1013X", "XQ1013", "Q101", "Q10130",
                  "QN1013", "Q 1013", "A2992 INS", "QNH", "INS", "QFE1013", "Q101/", "a2992", "1013INSX"):
            yield "pressure", g.split(), ["metar"]

    def extra(self, r, tier, shard, n):
        for _ in range(1000 if tier == "quick" else 20000):
            yield embed.section(r, "metar", {"pressure": [gen.pressure(r) for _ in range(r.choice([2, 2, 3, 4]))],
                                             "temps": [gen.temps(r) for _ in range(r.choice([1, 1, 2]))]},
                                r.choice([0, 0, .3]))

    def seen(self, d):
        return d.get("temps", {}).get("code") or d.get("pressure", {}).get("code")

    def more(self, c, x, e, o, rep):
        if c["k"] == "metar" and sum(n == "pressure" for n, _ in core.expected(c)["_order"]) == 2:
            x.hit("two_pressures")


class C11(Diff):
    pid = "C11"
    rule = """runway ranges: every runway number and side, every qualifier x unit x tendency x range
    form, every four-digit range; wind shears: every runway, all runways, up to four; runway states:
    every deposit x contamination x depth and friction value; sea groups: every temperature, every
    state and height; plus random, mutated and real reports.  Non-trivial: one such group was
    decoded; distinct by decoded values."""
    kind = "metar"
    want = ("rvr", "windshear", "ws_names", "ws_all", "sea", "state")
    need = {"rvr_seen": 5000, "windshear_seen": 1500, "sea_seen": 1200, "state_seen": 2500}

    def sweep(self, r, tier):
        m = ["metar"]
        Q = ["", "M", "P"]
        runways = ["%02d%s" % (n, s) for n in range(100) for s in ("", "R", "L", "C")]
        for n in runways:
            yield "rvr", ["R%s/%04d" % (n, r.randrange(9999))], m
            yield "windshear", ["WS", r.choice(["R", "RWY"]) + n], m
            yield "state", ["R%s/%d%d%02d%02d" % (n, r.randrange(10), r.randrange(10), r.randrange(100),
                                                  r.randrange(100))], m
            yield "state", ["R%s/SNOCLO" % n], m
            yield "state", ["R%s/CLRD//" % n], m
        for a, b, u, t in itertools.product(Q, Q, ["", "FT"], ["", "N", "D", "U"]):
            for lo, hi in (("0300", "0600"), ("0000", "0050"), ("600", "1200"), ("50", "75"), ("2000", None),
                           ("0150", None), ("0000", None), ("75", None)):
                yield "rvr", ["R%s/%s%s%s%s%s" % (r.choice(runways), a, lo, "V" + b + hi if hi else "", u, t)], m
        for v in range(0, 10000):
            if tier == "thorough" or v % 4 == 0:
                yield "rvr", ["R%s/%s%04d%s%s" % (r.choice(runways), r.choice(Q), v, r.choice(["", "FT"]),
                                                   r.choice(["", "N", "D", "U"]))], m
        for g in ("R07/", "R7/0800", "R07X/0800", "R07/0800X", "R07/0800V", "R07/V0800", "R07/0800VV0900",
                  "R07/08000", "R07/8", "R07//0800", "R07/M", "R07/0800FTM", "R07LR/0800", "R07/0800N/",
                  "R07/0800/N", "R07/////", "R/0800", "R07/D0800", "XR07/0800"):
            yield "rvr", [g], m
        for g in ("WS ALL RWY", "WS ALLRWY", "WS RWY", "WS", "WS R7", "WS R07RWY", "WS ALL", "RWY07", "WS RWY07LL",
                  "WSR07", "WS ALL RWY WS R07", "WS R07 WS ALL RWY", "WS R07L WS R07C WS R07R", "WS RWY01 R02",
                  "WS R07 WS R08 WS R09 WS R10", "WS ALL RWY WS ALL RWY", "WS R07R WS R07R", "WS RWY36C WS R18L"):
            yield "windshear", g.split(), m
        D = "0123456789/"
        for a, b in itertools.product(D, D):
            yield "state", ["R%s/%s%s%02d%02d" % (r.choice(runways), a, b, r.randrange(100), r.randrange(100))], m
        two = ["%02d" % k for k in range(100)] + ["//"]
        for k in two:
            yield "state", ["R%s/%s%s%s%s" % (r.choice(runways), r.choice(D), r.choice(D), k, r.choice(two))], m
            yield "state", ["R%s/%s%s%s%s" % (r.choice(runways), r.choice(D), r.choice(D), r.choice(two), k)], m
            yield "state", ["R%s/////%s" % (r.choice(runways), k)], m
        for g in ("R/SNOCLO", "R/CLRD//", "R//SNOCLO", "SNOCLO", "R07/CLRD", "R07/CLRD/", "R07/CLRD70", "R88/SNOCLO",
                  "R99/CLRD//", "R88/CLRD//", "R/123456", "R07/12345", "R07/1234567", "R07///////", "R07/12//34",
                  "R07/1/0034", "R07L/////90", "R88/010070", "R99/421594"):
            yield "state", [g], m
        for k in range(100):
            for s in ("", "M"):
                yield "sea", ["W%s%02d/S%d" % (s, k, r.randrange(10))], m
                yield "sea", ["W%s%02d/H%03d" % (s, k, r.randrange(1000))], m
        for k in range(1000):
            yield "sea", ["W%02d/H%03d" % (r.randrange(40), k)], m
        for k in range(10):
            for s in ("", "M"):
                for t in ("00", "05", "19"):
                    yield "sea", ["W%s%s/S%d" % (s, t, k)], m
        for g in ("W19/S", "W19/H", "W/S3", "W1/S3", "W19/S33", "W19/H12", "W19/H1234", "W///S3", "W19/S/", "W19S3",
                  "WM19/S3", "W-19/S3", "W19/S3X", "XW19/S3", "W19/H///", "W19/", "WMM/S3"):
            yield "sea", [g], m

    def extra(self, r, tier, shard, n):
        for _ in range(1200 if tier == "quick" else 20000):
            g = {}
            if r.random() < .7:
                g["rvr"] = [gen.rvr(r) for _ in range(r.choice([2, 3, 3, 4, 5]))]
            if r.random() < .7:
                g["windshear"] = [t for _ in range(r.choice([2, 3, 3, 4])) for t in gen.windshear(r)]
            if r.random() < .5:
                g["sea"] = [gen.sea(r) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < .5:
                g["state"] = [gen.runway_state(r) for _ in range(r.choice([1, 1, 2]))]
            yield embed.section(r, "metar", g, r.choice([0, 0, .3]))

    def seen(self, d):
        return any(d.get(k) for k in ("rvr", "windshear")) or any(
            d.get(k, {}).get("code") for k in ("sea", "state"))


class C13(Diff):
    pid = "C13"
    rule = """headers: every combination of type (given or omitted), modifier before or after, station
    (real, unknown, keyword-like, with digits), time, NIL, validity, CNL, in front of random bodies,
    given to both parsers; plus random, mutated and real reports.  Non-trivial: always; distinct by
    the decoded header."""
    want = ("type", "modifier", "missing", "cancelled")
    need = {"modifiers": 2000, "missing_tafs": 300, "cancelled_tafs": 300, "stations": 5000}
    STATIONS = ["MROC", "KJFK", "FMEE", "FMMI", "FMCH", "BECX", "ZZZZ", "X9X9", "K1G4", "A000", "AUTO", "TEST",
                "FINO", "CORR", "NSCX", "VVVV", "COR1", "AMDX", "NILX", "CNLX", "PROB", "SKCX", "9999", "MRO",
                "MROCX", "mroc", "TAFX", "RMKX"]

    def extra(self, r, tier, shard, n):
        mods = [None, "COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO"]
        for _ in range(2500 if tier == "quick" else 40000):
            t = gen.instant(r)
            st = r.choice(self.STATIONS) if r.random() < .5 else gen.station(r)
            if r.random() < .55:
                typ = r.choice(["METAR", "SPECI", None, "TAF", "METAR SPECI"])
                toks = [typ] * (typ is not None) + [st] * (r.random() < .95) + [gen.ddhhmmz(t)] * (r.random() < .95)
                m = r.choice(mods)
                toks += [m] * (m is not None)
                if r.random() < .1:
                    toks.append(r.choice(mods[1:]))
                toks += embed.fill(r, embed.BODY, {}, r.choice([0, .3]))
                yield dict(k="metar", t=" ".join(toks) or "X", y=t.year, m=t.month)
            else:
                typ = r.choice(["TAF", "TAF", "TAF", None, "METAR", "SPECI", "TAF TAF"])
                m = r.choice([None, None, "AMD", "COR", "CORR", "NIL", "AUTO", "AMD COR"])
                toks = [typ] * (typ is not None) + [m] * (m is not None) + [st] * (r.random() < .95)
                toks += [gen.ddhhmmz(t)] * (r.random() < .95)
                toks += ["NIL"] * (r.random() < .25)
                if r.random() < .8:
                    toks.append("%02d%02d/%02d%02d" % (r.randint(1, 31), r.randrange(24), r.randint(1, 31),
                                                      r.randrange(25)))
                toks += [r.choice(["CNL", "CNL", "CNLX", "NIL", "AMD"])] * (r.random() < .3)
                toks += embed.fill(r, embed.PART, {}, r.choice([0, .3]), True)
                if r.random() < .3:
                    toks += ["TEMPO"] + gen.conditions(r, True, True)
                yield dict(k="taf", t=" ".join(toks) or "X", y=t.year, m=t.month)

    def more(self, c, x, e, o, rep):
        st = x.read(lambda: rep.station.code, "station.code")
        want = core.expected(c)["station"]
        if st != want:
            raise core.Bad(f"the station is {st!r} instead of {want!r}")
        x.hit("stations", st is not None)
        x.hit("modifiers", o["modifier"][0] is not None)
        if c["k"] == "taf":
            x.hit("missing_tafs", o["missing"][1])
            x.hit("cancelled_tafs", o["cancelled"][1])
        x.nontrivial((c["k"], o["type"], st, o["modifier"], o.get("missing"), o.get("cancelled")))

    def seen(self, d):
        return False
