"""C01-C05, C25: what happens to the groups of the text."""
import itertools
import json
import re
import sys
import time
from collections import Counter

from .. import core, embed, gen, ref, view, walk
from .common import CORPUS, Diff, corpus_case, reports


def split_codes(codes):
    out = []
    for c in codes:
        if c is not None:
            out += c.replace("_", " ").split()
    return out


def norm(toks):
    """'WS RWY07' is shown as 'WS R07': the same group"""
    return [re.sub(r"^RWY(?=\d)", "R", t) for t in " ".join(toks).replace("_", " ").split()]


def codes_of(x):
    return [x.wind.code, x.prevailing_visibility.code] + [w.code for w in x.weathers.items] + \
        [c.code for c in x.clouds.items]


def conserve(x, what, toks, codes, unparsed, slack=None):
    """Each group of a section is decoded once or unparsed once."""
    have = Counter(norm(toks))
    got = Counter(norm(split_codes(codes)) + norm(unparsed))
    x.hit("groups", sum(have.values()))
    lost, invented = have - got, got - have
    if slack:
        lost, invented = slack(lost, invented)
    if lost or invented:
        raise core.Bad(f"{what} {' '.join(toks)!r}: lost {dict(lost)}, duplicated or invented {dict(invented)}")
    it = iter(norm(toks))
    if not all(any(u == t for t in it) for u in norm(unparsed)):
        raise core.Bad(f"{what}: unparsed groups {unparsed} are not in the order of the text {' '.join(toks)!r}")
    x.hit("unparsed", len(unparsed))


def crowd(r):
    """a report with many unknown groups at one place"""
    c = gen.any_report(r)
    t = c["t"].split()
    i = r.choice([0, 1, 2, 3, r.randrange(len(t) + 1), r.randrange(len(t) + 1), len(t)])
    n = r.choice([13, 30, 70, 130, 260, 520, r.randint(5, 60), r.randint(5, 60)])
    if r.random() < .5:
        g = [gen.safe_noise(r, ref)] * n
    else:
        g = [gen.safe_noise(r, ref) for _ in range(n)]
    return dict(c, t=" ".join(t[:i] + g + t[i:]))


class C01(Diff):
    pid = "C01"
    rule = """random, real, mutated and shuffled reports, reports with unknown groups in every section,
    repeated groups, excess groups of every list, several remarks, and fragments of groups.  A
    conservation monitor that uses no reference accounts for every group of every section: decoded
    once or unparsed once, in order; inside the reference's domain also which of the two.
    Non-trivial: a report with groups was accounted; distinct by text."""
    want = ("unparsed",)
    inner = ("unparsed",)
    quick, thorough = 1800, 60000
    need = {"groups": 100000, "unparsed": 5000, "sections": 20000, "remarks": 500, "superseded": 100}

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        for _ in range(450 if not big else 15000):      # a group twice or more than allowed
            slot = r.choice(embed.BODY)
            k = r.choice([2, 3, 4, 5, 6])
            g = [t for _ in range(k) for t in embed.some(r, slot)]
            if r.random() < .4:
                g = embed.some(r, slot) * k
            w = r.choice(embed.EVERYWHERE) if slot in embed.PART else "metar"
            yield embed.section(r, w, {slot: g}, r.choice([0, .3]))
        for _ in range(450 if not big else 15000):      # any order
            c = gen.any_report(r)
            t = c["t"].split()
            h = 3 if len(t) > 5 else 0
            i = r.randrange(h, len(t) + 1)
            tail = t[i:]
            r.shuffle(tail)
            yield dict(c, t=" ".join(t[:i] + tail))
        for _ in range(300 if not big else 10000):      # several remarks and trends
            t = gen.header(r, gen.instant(r)) + embed.fill(r, embed.BODY, {}, .3)
            for _ in range(r.randint(1, 4)):
                t += r.choice([["RMK"], ["TEMPO"], ["BECMG"], ["NOSIG"]])
                t += [gen.pool(r) for _ in range(r.randint(0, 4))]
            yield dict(k="metar", t=" ".join(t), y=2022, m=r.randint(1, 12))
        for _ in range(300 if not big else 10000):      # split visibilities and wind shears everywhere
            t = []
            for _ in range(r.randint(1, 7)):
                t += r.choice([gen.sm(r), gen.windshear(r), ["PROB30", "TEMPO"], ["1", "1/2SM"], ["WS", "R07L"],
                               ["WS", "RWY12"], [gen.pool(r)], [gen.noise(r)], ["TEMPO"], ["1", "2", "1/2SM"]])
            yield dict(k=r.choice(["metar", "taf"]), t=r.choice(["METAR MROC 010000Z ", "TAF MROC 010000Z ",
                       "SPECI ", "TAF ", ""]) + " ".join(t), y=2022, m=r.randint(1, 12))
        for _ in range(300 if not big else 10000):      # fragments glued together
            t = [r.choice([gen.pool(r) + r.choice(["", "X", "/", "1"]), gen.pool(r) + gen.pool(r),
                           gen.pool(r)[:r.randint(1, 6)], r.choice("XR/1-") + gen.pool(r)]) for _ in
                 range(r.randint(1, 10))]
            yield dict(k=r.choice(["metar", "taf"]), t=r.choice(["METAR ", "TAF ", ""]) + " ".join(t), y=2022,
                       m=r.randint(1, 12))

        for _ in range(24 if not big else 800):         # very many unknown groups in one place
            yield crowd(r)

    def judge(self, c, x):
        e = core.expected(c)
        rep = x.build(c, strict=e is not None)
        toks = c["t"].replace("=", "").split()
        if c["k"] == "metar":
            self.metar(c, x, rep, toks)
        else:
            self.taf(c, x, rep, toks)
        if e is not None:
            core.compare(x, c, self.want, self.inner, e, rep)
            # which groups are decoded as what, with the exact spelling
            parts = [(e, rep)] + list(zip(e.get("trends", []) + e.get("changes", []), (
                rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted).items))
            for d, p in parts:
                for name, f in (("wind", lambda: [p.wind.code]), ("vis", lambda: [p.prevailing_visibility.code]),
                                ("wx", lambda: p.weathers.codes), ("clouds", lambda: p.clouds.codes)):
                    want = [t.replace("_", " ") for n, t in d["_order"] if n == name]
                    if [q for q in f() if q is not None] != want:
                        raise core.Bad(f"{name} groups {f()} instead of {want}")
        if toks:
            x.nontrivial((c["k"], c["t"]))
            x.sample(c)

    def metar(self, c, x, r, toks):
        body, trend, remark = r.sections
        if Counter(norm(toks)) != Counter(norm(body.split() + trend.split() + remark.split())):
            raise core.Bad(f"the sections {r.sections} do not contain the groups of the text")
        trends = r.weather_trends.items
        tail = [u for t in trends for u in t.unparsed_groups]
        u = list(r.unparsed_groups)
        if tail and u[-len(tail):] != tail:
            raise core.Bad(f"unparsed groups {u} do not end with those of the trends {tail}")
        u = u[:len(u) - len(tail)]
        codes = codes_of(r) + [r.station.code, r.time.code, r.modifier.code, r.wind_variation.code,
                               r.minimum_visibility.code, r.temperatures.code, r.pressure.code, r.recent_weather.code,
                               r.sea_state.code, r.runway_state.code] + [q.code for q in r.runway_ranges.items] + \
            [q.code for q in r.windshears.items]
        # the type is shown even when it is not written
        written = [t for t in body.split() if t in ("METAR", "SPECI", "TAF")]
        if written and Counter(written)[r.type_.code] > Counter(u)[r.type_.code]:
            codes.append(r.type_.code)

        def slack(lost, invented):
            # a second pressure group supersedes the first
            if sum(lost.values()) == 1 and r.pressure.code:
                g = next(iter(lost))
                b = norm(body.split())
                if ref.pressure(g) and g in b and r.pressure.code in b[b.index(g) + 1:]:
                    x.hit("superseded")
                    return Counter(), invented
            return lost, invented
        conserve(x, "body", body.split(), codes, u, slack)
        x.hit("sections")
        given = norm(trend.split())
        if Counter(given) != Counter(norm(" ".join(t.code for t in trends).split())):
            raise core.Bad(f"trends {[t.code for t in trends]} do not contain the groups of {trend!r}")
        for t in trends:
            conserve(x, "trend", t.code.split(), codes_of(t) + [t.trend_indicator.code], t.unparsed_groups)
            x.hit("sections")
        try:
            want = ref.metar_sections(toks)[2]
        except ref.OutOfDomain:
            return
        if r.remark != " ".join(want):
            raise core.Bad(f"the remark is {r.remark!r} instead of {' '.join(want)!r}")
        x.hit("remarks", bool(want))

    def taf(self, c, x, r, toks):
        body, changes = r.sections
        if Counter(norm(toks)) != Counter(norm(body.split() + changes.split())):
            raise core.Bad(f"the sections {r.sections} do not contain the groups of the text")
        parts = r.changes_forecasted.items
        tail = [u for t in parts for u in t.unparsed_groups]
        u = list(r.unparsed_groups)
        if tail and u[-len(tail):] != tail:
            raise core.Bad(f"unparsed groups {u} do not end with those of the changes {tail}")
        u = u[:len(u) - len(tail)]
        codes = codes_of(r) + [r.station.code, r.time.code, r.modifier.code, r.missing.code, r.valid.code,
                               r.cancelled.code] + [t.code for t in r.max_temperatures.items] + \
            [t.code for t in r.min_temperatures.items]
        written = [t for t in body.split() if t in ("METAR", "SPECI", "TAF")]
        if written and Counter(written)[r.type_.code] > Counter(u)[r.type_.code]:
            codes.append(r.type_.code)
        conserve(x, "body", body.split(), codes, u)
        x.hit("sections")
        if norm(changes.split()) != norm(" ".join(t.code for t in parts).split()):
            raise core.Bad(f"changes {[t.code for t in parts]} do not make up {changes!r}")
        for t in parts:
            i = t.change_indicator
            codes = codes_of(t) + [i.code]

            def slack(lost, invented):
                # the validity group of an FM or unknown indicator is shown by its validity only,
                # and not even there once a later change has ended the FM period
                if sum(lost.values()) == 1:
                    g = next(iter(lost))
                    if g == i.valid.code or (i.code or "FM").startswith("FM") and re.fullmatch(r"\d{4}/\d{4}", g):
                        x.hit("validity_groups")
                        return Counter(), invented
                return lost, invented
            conserve(x, "change", t.code.split(), codes, t.unparsed_groups, slack)
            x.hit("sections")


FULL_M = tuple(k for k in view.METAR if k not in ("station",))
FULL_T = tuple(k for k in view.TAF if k not in ("station",))
INNER = tuple(view.COND) + ("ind", "code")
DECODED = tuple(k for k in set(FULL_M) | set(FULL_T) if k not in
                ("raw", "sections", "body", "trend", "remark", "weather_changes", "unparsed"))
DECODED_IN = tuple(k for k in INNER if k not in ("unparsed", "code"))
JOINS = re.compile(r"(?:(?<=\s)\d{1,2} \d/\dSM|WS ALL RWY|WS R\w+|PROB[34]0 TEMPO)(?!\S)")


class C02(core.Prop):
    pid = "C02"
    rule = """random, real and mutated reports with an unmatchable group inserted at every boundary: the
    decoded view of the report must be that without it and the group must appear at its place in the
    unparsed groups; reports with shuffled, moved and repeated groups against the reference decoder.
    Non-trivial: an insertion or reordering was judged; distinct by text."""
    need = {"insertions": 15000, "reordered": 3000, "in_trend": 500, "in_change": 2000, "in_remark": 200,
            "left_unparsed": 4000}

    def cases(self, r, tier, shard, n):
        big = tier == "thorough"
        for i in range(150 if not big else 3500):
            c = gen.any_report(r) if r.random() < .75 else corpus_case(r, False)
            yield dict(c, mode="insert", g=[gen.safe_noise(r, ref) for _ in range(3)])
        for i in range(100 if not big else 2500):
            c = gen.any_report(r)
            c["t"] = gen.mutate(r, c["t"])
            yield dict(c, mode="insert", g=[gen.safe_noise(r, ref) for _ in range(2)])
        for i in range(700 if not big else 20000):
            c = gen.any_report(r)
            t = c["t"].split()
            k = r.random()
            h = min(3, len(t))
            if k < .4:
                tail = t[h:]
                r.shuffle(tail)
                t = t[:h] + tail
            elif k < .7 and len(t) > 1:
                g = t.pop(r.randrange(len(t)))
                t.insert(r.randrange(len(t) + 1), g)
            else:
                t.insert(r.randrange(1, len(t) + 1), gen.pool(r))
            yield dict(c, t=" ".join(t), mode="order")
        for i in range(40 if not big else 1500):
            yield dict(crowd(r), mode="order")
        # every ordered pair of elements, second before first
        for a, b in core.sliced(itertools.product(embed.BODY, embed.BODY), shard, n):
            for _ in range(3 if not big else 40):
                t = gen.header(r, gen.instant(r)) + embed.some(r, a) + embed.some(r, b) + embed.some(r, r.choice([a, b]))
                yield dict(k="metar", t=" ".join(t), y=2022, m=r.randint(1, 12), mode="order")
                if a in embed.PART and b in embed.PART:
                    s = embed.some(r, a, True) + embed.some(r, b, True) + embed.some(r, a, True)
                    yield dict(k="metar", t=" ".join(t[:4] + [r.choice(["TEMPO", "BECMG"])] + s), y=2022, m=1,
                               mode="order")
                    yield dict(k="taf", t=" ".join(["TAF ZZZZ 010000Z 0100/0200"] + s), y=2022, m=1, mode="order")
                    yield dict(k="taf", t=" ".join(["TAF ZZZZ 010000Z 0100/0200", r.choice(
                        ["FM010200", "TEMPO 0102/0103"])] + s), y=2022, m=1, mode="order")

    def judge(self, c, x):
        full = FULL_M if c["k"] == "metar" else FULL_T
        if c["mode"] == "order":
            # any_report may contain texts whose unparsed groups the reference decides
            e = core.expected(c)
            if e is None:
                raise core.Skip()
            core.compare(x, c, full, INNER, e)
            x.hit("reordered")
            x.hit("left_unparsed", len(e["unparsed"]))
            x.nontrivial((c["k"], c["t"]))
            x.sample(c)
            return
        e = core.expected(c)
        if e is None:
            raise core.Skip()
        base = x.build(c)
        want = [t for t in DECODED if t in full]
        v0 = x.read(lambda: view.report(base, c["k"], want, DECODED_IN), "the report")
        u0 = list(base.unparsed_groups)
        toks = ref.groups(c["t"])
        text = " ".join(toks)
        joined = set()
        for m in JOINS.finditer(" " + text):
            i = (" " + text)[:m.start()].count(" ") - (1 if m.group()[0] != " " else 0)
            for k in range(1, m.group().count(" ") + 1):
                joined.add((" " + text)[:m.start()].count(" ") - 1 + k)
        low = 0
        if c["k"] == "taf":
            low = 0 if not any(t.startswith(ref.CHANGE_KEYS) for t in toks[:3]) else 4
        for i in range(low, len(toks) + 1):
            if i in joined:
                continue
            g = c["g"][i % len(c["g"])]
            c2 = dict(c, t=" ".join(toks[:i] + [g] + toks[i:]))
            e2 = core.expected(c2)
            if e2 is None:
                continue
            rep = x.build(c2)
            v = x.read(lambda: view.report(rep, c["k"], want, DECODED_IN), "the report")
            m = view.same(v0, v, "report", 0)
            if m:
                raise core.Bad(f"the unknown group {g!r} in {c2['t']!r} changed what is decoded: {m}")
            u = list(rep.unparsed_groups)
            if u != e2["unparsed"]:
                raise core.Bad(f"unparsed groups of {c2['t']!r} are {u} instead of {e2['unparsed']}")
            w = list(u)
            if c["k"] == "metar" and g in rep.remark.split() and len(u) == len(u0):
                x.hit("in_remark")
            else:
                if g not in w:
                    raise core.Bad(f"the unknown group {g!r} in {c2['t']!r} is not among the unparsed groups {u}")
                if u0.count(g) == 0:
                    w.remove(g)
                    if w != u0:
                        raise core.Bad(f"the unknown group {g!r} in {c2['t']!r} made the unparsed groups {u} of {u0}")
                for p in (rep.weather_trends if c["k"] == "metar" else rep.changes_forecasted).items:
                    x.hit("in_trend" if c["k"] == "metar" else "in_change", g in p.unparsed_groups)
            x.hit("insertions")
            x.nontrivial(c2["t"])
        x.sample(c)


class C03(core.Prop):
    pid = "C03"
    rule = """random, real and mutated reports, each with and without unknown groups in every section
    alone, parsed with and without truncate: ParserError exactly when something is unparsed, naming
    every unparsed group and the report, else all observations equal.  Non-trivial: a pair was
    judged; distinct by text."""
    need = {"parser_errors": 5000, "understood": 3000, "only_in_trend": 300, "only_in_change": 500,
            "only_in_body": 1000, "range_errors": 50}

    def cases(self, r, tier, shard, n):
        for i in range(900 if tier == "quick" else 25000):
            c = gen.any_report(r)
            yield c
            t = c["t"].split()
            t.insert(r.randrange(len(t) + 1), gen.safe_noise(r, ref))
            yield dict(c, t=" ".join(t))
            # one group too many of a kind, in the last section only
            yield dict(c, t=c["t"] + " " + r.choice([gen.pool(r), gen.noise(r), "9999", "Q1013", "NIL", "1 1/2SM"]))
            if i % 3 == 0:
                c = corpus_case(r)
                yield c
            if i % 15 == 0:
                # many and long ones
                t = gen.any_report(r)
                w = t["t"].split()
                for _ in range(r.choice([10, 40, 150])):
                    w.insert(r.randrange(len(w) + 1), gen.safe_noise(r, ref) + "Z" * r.choice([0, 0, 30]))
                yield dict(t, t=" ".join(w))
            if i % 25 == 0:
                yield dict(k="taf", t="TAF ZZZZ 010000Z 0101/0201 " + r.choice(
                    ["", "XXYY "]) + " ".join("FM01%02d00 24010KT" % h for h in range(9)), y=2022, m=1)
                yield dict(k="taf", t="TAF ZZZZ 010000Z 0101/0201 TX10/0110Z TX11/0111Z TX12/0112Z", y=2022, m=1)

    def outcome(self, x, c, **kw):
        try:
            return x.new(c, **kw), None
        except Exception as e:
            return None, e

    def judge(self, c, x):
        a, ea = self.outcome(x, c)
        b, eb = self.outcome(x, c, truncate=True)
        f, ef = self.outcome(x, c, truncate=False)
        if ea is not None:
            if eb is None or type(ea) is not type(eb) and not core.is_a(eb, "ParserError"):
                raise core.Bad(f"without truncate {type(ea).__name__}, with truncate {eb!r}")
            if core.is_a(ea, "ParserError"):
                raise core.Bad(f"ParserError without truncate: {ea}")
            x.hit("range_errors")
            return
        if ef is not None:
            raise core.Bad(f"truncate=False raises {ef!r}")
        u = list(a.unparsed_groups)
        parts = (a.weather_trends if c["k"] == "metar" else a.changes_forecasted).items
        inner = [g for p in parts for g in p.unparsed_groups]
        if not u and inner:
            raise core.Bad(f"unparsed groups {inner} of a part are not among those of the report")
        x.nontrivial((c["k"], c["t"]))
        x.sample(c)
        if u:
            if eb is None:
                raise core.Bad(f"no ParserError although {u} were not understood")
            if not core.is_a(eb, "ParserError"):
                raise core.Bad(f"{type(eb).__name__} instead of ParserError: {eb}")
            msg = str(eb)
            if a.raw_code not in msg:
                raise core.Bad(f"the message {msg!r} does not name the report")
            head = msg.replace(a.raw_code, "\0", 1) if msg.count(a.raw_code) else msg
            head = msg[:msg.rindex(a.raw_code)]
            for g in set(u):
                if len(re.findall(r"(?<![^\s,:;'\"\[\(])" + re.escape(g) + r"(?![^\s,:;.'\"\]\)])", head)) < u.count(g):
                    raise core.Bad(f"the message {msg!r} does not name the group {g!r} {u.count(g)} times")
            x.hit("parser_errors")
            x.hit("only_in_body", not inner)
            if len(inner) == len(u):
                x.hit("only_in_trend" if c["k"] == "metar" else "only_in_change")
        else:
            if eb is not None:
                raise core.Bad(f"{type(eb).__name__} although everything was understood: {eb}")
            m = walk.differ(walk.observe(a), walk.observe(b), "report")
            if m:
                raise core.Bad(f"truncate makes a difference: {m}")
            x.hit("understood")


class C04(core.Prop):
    pid = "C04"
    rule = """hostile texts: random Unicode, control characters and other scripts' digits, fragments of
    groups glued, repeated and cut, every digit of real reports replaced, extreme numbers, blanks and
    terminators only, thousands of groups, groups of tens of thousands of characters, over-long
    lists, under any year and month; everything public of every report is read.  For growing
    repetitions the executed lines of the library and the CPU time must grow in proportion.
    Non-trivial: a report was obtained and read, or RangeError raised; distinct by text."""
    need = {"reports_read": 12000, "range_errors": 100, "growth_series": 150, "attributes_read": 1000000}
    FRAG = ["METAR", "SPECI", "TAF", "MROC", "0", "1", "00", "99", "KT", "MPS", "G", "P", "M", "VRB", "V", "SM", "KM",
            "/", "//", "1/2", "CAVOK", "9999", "N", "NE", "R", "RWY", "07L", "FT", "D", "U", "-", "+", "VC", "RA", "SN",
            "TS", "SH", "RE", "BKN", "OVC", "VV", "FEW", "CB", "TCU", "Q", "A", "QNH", "INS", "WS", "ALL", "W", "S",
            "H", "SNOCLO", "CLRD", "NOSIG", "TEMPO", "BECMG", "FM", "TL", "AT", "PROB", "30", "40", "TX", "TN", "Z",
            "RMK", "NIL", "CNL", "AMD", "COR", "XX", "MM", "_", "=", "$", "|", "\n", "\t", " ", "  "]

    def text(self, r):
        k = r.random()
        if k < .1:
            return "".join(chr(r.choice([r.randrange(1, 128), r.randrange(1, 0xd800), r.randrange(0xe000, 0x110000)]))
                           for _ in range(r.randint(1, 60)))
        if k < .14:
            return "".join(r.choice(" \t\n\r=\x0b\x0c\x1c\x85\xa0\u2028\u3000/_") for _ in range(r.randint(1, 8)))
        if k < .3:
            return " ".join("".join(r.choice(self.FRAG) for _ in range(r.choice([1, 2, 3, 5, 9])))
                            for _ in range(r.randint(1, 12)))
        if k < .36:
            f = r.choice(self.FRAG) + r.choice(["", "", r.choice(self.FRAG)])
            return r.choice(["METAR MROC 010000Z ", "TAF MROC 010000Z 0101/0201 ", ""]) + \
                f * r.choice([10, 25, 40, 100, 1000]) + r.choice(["", "X", "/", " X", "KT", "Z"])
        c = gen.any_report(r) if r.random() < .5 else corpus_case(r, False)
        t = c["t"]
        if k < .55:                      # other digits
            p = r.choice([.1, .5, 1])
            t = "".join(r.choice("0123456789") if ch.isdigit() and r.random() < p else ch for ch in t)
            if r.random() < .1:
                t = "".join(chr(0x660 + int(ch)) if ch.isdigit() and r.random() < .4 else ch for ch in t)
            return t
        if k < .6:                       # extreme numbers
            return "".join(r.choice(["0", "9"]) if ch.isdigit() else ch for ch in t)
        if k < .85:
            return gen.mutate(r, t, keywords=True)
        t = list(t)                      # character noise
        for _ in range(r.choice([1, 2, 5, 20])):
            i = r.randrange(len(t) + 1)
            q = r.random()
            if q < .4:
                t.insert(i, r.choice(self.FRAG))
            elif q < .7 and i < len(t):
                t[i] = chr(r.choice([r.randrange(32, 127), r.randrange(1, 0x2000)]))
            elif i < len(t):
                del t[i]
        return "".join(t) or "="

    def cases(self, r, tier, shard, n):
        big = tier == "thorough"
        for i in range(2200 if not big else 60000):
            yield dict(k=r.choice(["metar", "taf"]), t=self.text(r), y=r.choice([2022, 2024, 2, 9998, None, 1900,
                       r.randint(1900, 2100)]), m=r.choice([None, 2, r.randint(1, 12)]), trunc=r.random() < .1)
        for i in range(25 if not big else 600):          # over capacity
            t = ["TAF", "ZZZZ", "010000Z", "0101/0201"]
            if r.random() < .5:
                t += ["TX%02d/01%02dZ" % (k, k) for k in range(r.randint(1, 6))]
                t += ["TN%02d/01%02dZ" % (k, k) for k in range(r.randint(0, 4))]
            else:
                t += r.sample(["FM010200", "BECMG 0101/0102", "TEMPO", "PROB30", "PROB30 TEMPO 0104/0106"] * 4,
                              r.randint(7, 14))
            yield dict(k="taf", t=" ".join(t), y=2022, m=1, trunc=False)
            yield dict(k="metar", t="METAR ZZZZ 010000Z " + " ".join(
                r.choice(["TEMPO 9999", "BECMG 24010KT", "NOSIG", "TEMPO", "RMK A"]) for _ in range(r.randint(3, 8))),
                y=2022, m=1, trunc=False)
        # growth: a unit repeated, at the end and in the middle of a report
        units = [" 1 1/2SM", " 9999", " X", " BKN010", " WS R07", " WS ALL RWY", " TEMPO", " TEMPO 9999", " RMK",
                 " RMK A", " FM121200", " PROB30 TEMPO", " NOSIG", " 1", " =", "0", "/", "R", "-RA", "W", "1/2SM", "\n",
                 " R07/0800", " TX10/0110Z", "A", " Q1013", " 0102/0103", "RERA", "TEMPO", "WS ", "PROB30 ", "BECMG",
                 " 24010KT", "VC", "M", " M", "_", " 1_1/2SM", "\u0663", "é", " ", "\t", " \n", "=", "= ", "9", " 12", "P",
                 "X", "-", "+", "V", "a", " /", " //", " 1/2SM", " PROB30", " WS", " WS ALL", "RWY ", " A2992 TEMPO", "|"]
        tails = ["", " 24010KT", "X 24010KT", "$"]
        for i, u in core.sliced(enumerate(units), shard, n):
            for k in ("metar", "taf"):
                for tail in ([tails[0], r.choice(tails[1:])] if not big else tails):
                    yield dict(k=k, unit=u, tail=tail, y=2022, m=1, fixed=True, cpu=100, n=max(60, (10000 if big else 5000) // len(u)),
                               head=r.choice(["METAR ZZZZ 010000Z", "TAF ZZZZ 010000Z 0101/0201", "METAR"]))
        for i in range(2 if not big else 120):
            u = r.choice(["", " "]) + "".join(r.choice(self.FRAG) for _ in range(r.randint(2, 5)))
            yield dict(k=r.choice(["metar", "taf"]), unit=u, head="METAR ", tail=r.choice(tails), n=5000 // len(u), y=2022, m=1,
                       cpu=100, fixed=True)

    def judge(self, c, x):
        if "unit" in c:
            return self.growth(c, x)
        t = c["t"]
        if t == "":
            raise core.Skip()
        try:
            rep = x.new(c, **({"truncate": True} if c.get("trunc") else {}))
        except Exception as e:
            if core.is_a(e, "ParserError") and c.get("trunc"):
                x.hit("parser_errors")
                return
            if core.is_a(e, "RangeError"):
                ch = len(re.findall("FM|TEMPO|BECMG|PROB", t))
                if c["k"] == "taf" and (ch > 8 or t.count("TX") > 2 or t.count("TN") > 2) or \
                        c["k"] == "metar" and len(re.findall("TEMPO|BECMG|NOSIG", t)) > 2:
                    x.hit("range_errors")
                    x.nontrivial((c["k"], t))
                    return
            raise core.Bad(f"constructing the report raised {type(e).__name__}: {e}")
        o = x.read(lambda: walk.observe(rep), "the report")
        x.hit("attributes_read", walk.count(o))
        x.hit("reports_read")
        json.loads(rep.to_json())
        x.nontrivial((c["k"], t))
        x.sample(dict(c, t=t[:200]))

    def cpu(self, c, x, n):
        """CPU seconds for n repetitions"""
        t = c["head"] + c["unit"] * n + c["tail"]
        cls = x.Metar if c["k"] == "metar" else x.Taf
        s = time.process_time()
        rep = None
        try:
            rep = cls(t, c["y"], c["m"])
        except Exception as e:
            if not core.is_a(e, "RangeError"):
                raise core.Bad(f"{n} times {c['unit']!r} after {c['head']!r} raised {type(e).__name__}: {str(e)[:200]}")
        if rep is not None:
            x.read(lambda: (str(rep), rep.to_json()), "the report")
        return time.process_time() - s

    def lines(self, c, x, n):
        """executed lines of the library for n repetitions"""
        lines = [0]
        mon = sys.monitoring
        mon.use_tool_id(4, "verif-effort")

        def line(code, no):
            lines[0] += 1
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)
        try:
            self.cpu(c, x, n)
        finally:
            mon.set_events(4, 0)
            mon.free_tool_id(4)
        return lines[0]

    def growth(self, c, x):
        n = c["n"]
        l0, l1, l2 = (self.lines(c, x, k) for k in (8, n // 4, n))
        if (l2 - l0) > 6 * (l1 - l0) + 20000:
            raise core.Bad(f"{n} times {c['unit']!r} after {c['head']!r} take {l2} lines, {n // 4} times {l1}")
        t1 = min(self.cpu(c, x, n) for _ in range(2))
        t2 = self.cpu(c, x, 4 * n)
        k = 16 if t2 < 5 else 4
        for _ in range(3):
            # the smallest of three measures counts
            t3 = self.cpu(c, x, k * n)
            if t3 < 1.2 or t3 < 4 * k * max(t1, .003):
                break
        else:
            raise core.Bad(f"{k * n} times {c['unit']!r} after {c['head']!r} and before {c['tail']!r} take {t3:.1f} s "
                           f"of CPU, {n} times {t1:.3f} s")
        x.hit("growth_series")
        x.nontrivial((c["unit"], c["head"], c["tail"], c["k"]))


class C05(Diff):
    pid = "C05"
    rule = """random, real and mutated reports, with remarks and trends in any order, several remarks,
    stations that begin with a keyword in TAFs with and without type and modifier, keyword-like
    groups, blanks and terminators.  The sections are compared with an independent splitter and,
    for every text, must partition the groups.  Non-trivial: more than one section; distinct by
    text."""
    want = ("raw", "sections", "body", "trend", "remark", "weather_changes")
    inner = ("code",)
    need = {"trends_seen": 4000, "changes_seen": 15000, "remarks": 1000, "keyword_stations": 300,
            "trend_after_remark": 200}
    quick, thorough = 1800, 50000

    def extra(self, r, tier, shard, n):
        big = tier == "thorough"
        for _ in range(500 if not big else 15000):
            t = gen.header(r, gen.instant(r)) + embed.fill(r, embed.BODY, {}, .3)
            for _ in range(r.randint(1, 5)):
                k = r.choice(["RMK", "RMK", "TEMPO", "BECMG", "NOSIG"])
                t += [k] + [gen.pool(r) for _ in range(r.randint(0, 4))]
            yield dict(k="metar", t=" ".join(t), y=2022, m=r.randint(1, 12))
        for _ in range(300 if not big else 10000):
            c = gen.taf(r)
            t = c["t"].split()
            st = r.choice(["FMEE", "FMMI", "FMCH", "FMCZ", "BECM", "TEMP", "PROB", "FM12", "FMST", "RMKX", "FMNA"])
            i = 0
            while i < len(t) and t[i] in ("TAF", "AMD", "COR"):
                i += 1
            if i < len(t):
                t[i] = st
            if r.random() < .2 and t[0] == "TAF":
                t = t[1:]
            yield dict(c, t=" ".join(t), station=st)
        for _ in range(200 if not big else 5000):
            c = gen.any_report(r)
            t = c["t"].split()
            t.insert(r.randrange(len(t) + 1), r.choice(["TEMPOX", "NOSIG1", "PROBABLE", "FMX", "BECMGS", "RMKS", "XTEMPO",
                     "XRMK", "NOSIGRMK", "FMFM", "AFM", "A_B", "|", "||", "PROB50", "PROB30TEMPO", "1_1/2SM"]))
            yield dict(c, t=" ".join(t))

    def judge(self, c, x):
        e = core.expected(c)
        rep = x.build(c, strict=e is not None)
        toks = ref.groups(c["t"])
        text = " ".join(toks)
        if rep.raw_code != text:
            raise core.Bad(f"the raw code is {rep.raw_code!r} instead of {text!r}")
        s = list(rep.sections)
        # partition
        def plain(q):                    # groups that are joined by "_" if they belong together
            return q.replace("_", " ")
        flat = [g for q in s for g in plain(q).split()]
        if Counter(flat) != Counter(plain(text).split()):
            raise core.Bad(f"the sections {s} are not a partition of {text!r}")
        for q in s:
            if q != " ".join(q.split()):
                raise core.Bad(f"the section {q!r} has irregular blanks")
            it = iter(plain(text).split())
            if not all(any(g == t for t in it) for g in plain(q).split()):
                raise core.Bad(f"the section {q!r} is not in the order of {text!r}")
        if c["k"] == "metar":
            if [rep.body, rep.trend, rep.remark] != s:
                raise core.Bad(f"body, trend and remark are not the sections {s}")
            parts, inside = rep.weather_trends.items, rep.trend
        else:
            if [rep.body, rep.weather_changes] != s:
                raise core.Bad(f"body and weather changes are not the sections {s}")
            parts, inside = rep.changes_forecasted.items, rep.weather_changes
            if [g for p in parts for g in plain(p.code).split()] != plain(inside).split():
                raise core.Bad(f"the changes {[p.code for p in parts]} do not make up {inside!r}")
            if plain(text).split() != plain(" ".join(s)).split():
                raise core.Bad(f"body and changes {s} are not {text!r}")
        for p in parts:
            if " " + plain(p.code) + " " not in " " + plain(inside) + " ":
                raise core.Bad(f"{p.code!r} is not contiguous in {inside!r}")
        if e is not None:
            a, o, _ = core.compare(x, c, self.want, self.inner, e, rep)
            core.count_obs(x, o)
        if c["k"] == "metar":
            x.hit("remarks", bool(s[2]))
            x.hit("trend_after_remark", "RMK" in toks and s[1] != "" and toks.index("RMK") < len(s[0].split()) + 1
                  and toks[-1] != s[2].split()[-1])
        x.hit("keyword_stations", "station" in c)
        if sum(map(bool, s)) > 1:
            x.nontrivial(text)
            x.sample(c)


# as they come with texts copied from web pages and documents
OTHER_SPACES = [chr(i) for i in range(0x3001) if chr(i).isspace() and chr(i) not in " \t\n\r"]


class C25(core.Prop):
    pid = "C25"
    rule = """random, real and mutated reports written with random runs of blanks, tabs, line breaks and
    carriage returns, and with every other white-space character of Unicode, between, before and after the groups and a final '=' with or without blanks
    around it, against the same groups with single blanks: every observation of the report must be
    equal.  Non-trivial: two layouts were compared; distinct by text."""
    need = {"layouts_compared": 6000, "line_breaks": 2000, "terminators": 2000, "other_spaces": 5000}

    def cases(self, r, tier, shard, n):
        for i in range(600 if tier == "quick" else 15000):
            k = r.random()
            c = gen.any_report(r) if k < .6 else corpus_case(r, k > .8)
            if r.random() < .15:
                c["t"] = gen.mutate(r, c["t"], keywords=True)
            c["t"] = " ".join(ref.groups(c["t"])) or "X"
            c["seed"] = r.randrange(1 << 30)
            yield c

    def judge(self, c, x):
        try:
            base = x.new(c)
        except Exception as e:
            if core.is_a(e, "RangeError"):
                base = None
            else:
                raise core.Skip()
        want = x.read(lambda: walk.observe(base), "the report") if base is not None else None
        r = core.rng(c["seed"])
        toks = c["t"].split()

        def blank(p=1.0):
            if r.random() > p:
                return " "
            return "".join(r.choice([" ", " ", "\t", "\n", "\r\n", "\r", "\n      ", "   "]) for _ in
                           range(r.choice([1, 1, 2, 3])))

        def other():
            x.hit("other_spaces")
            return r.choice(["", "", " "]) + r.choice(OTHER_SPACES)
        seps = [other, lambda: other() if r.random() < .2 else " ", lambda: blank(), lambda: blank(.2), lambda: "\n", lambda: "\t", lambda: "\r\n", lambda: "  "]
        for j in range(2 if x.tier == "quick" else 4):
            sep = r.choice(seps)
            t = toks[0] + "".join(sep() + g for g in toks[1:])
            if r.random() < .5:
                t = blank() + t
            q = r.random()
            if q < .5:
                t += r.choice(["=", " =", "\n=", "=\n", " = ", "=\r\n", "\t= \n"])
                x.hit("terminators")
            elif q < .75:
                t += blank()
            try:
                rep = x.new(dict(c, t=t))
            except Exception as e:
                if base is None and core.is_a(e, "RangeError"):
                    x.hit("layouts_compared")
                    continue
                raise core.Bad(f"{t!r} raised {type(e).__name__}: {e}")
            if base is None:
                raise core.Bad(f"{t!r} is accepted but {c['t']!r} is not")
            m = walk.differ(want, x.read(lambda: walk.observe(rep), "the report"), "report")
            if m:
                raise core.Bad(f"{t!r} differs from its plain layout: {m}")
            x.hit("layouts_compared")
            x.hit("line_breaks", "\n" in t.strip())
        x.nontrivial(c["t"])
        x.sample(c)
