"""C38: a group decides its own element and nothing else."""
import re
from datetime import timedelta

from .. import core, embed, gen, walk

NAME = {"wind": "wind", "variation": "wind_variation", "vis": "prevailing_visibility",
        "minvis": "minimum_visibility", "rvr": "runway_ranges", "wx": "weathers", "clouds": "clouds",
        "temps": "temperatures", "pressure": "pressure", "recent": "recent_weather",
        "windshear": "windshears", "sea": "sea_state", "state": "runway_state",
        "tx": "max_temperatures", "tn": "min_temperatures"}
LISTS = {"rvr", "wx", "clouds", "windshear", "tx", "tn"}
LABELS = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth"]
# after these no other group can take the place of one that is left out
LEAVE_OUT = {"wind", "variation", "temps", "pressure", "recent", "sea", "state"}
FEW = {"rvr": 3, "wx": 3, "clouds": 4, "windshear": 3}

# what is seen every day
ORDINARY = {"wind": ["00000KT", "24010KT", "18002KT", "VRB02KT", "27025G40KT"], "variation": ["180V300", "350V010"],
            "vis": ["9999", "9999", "CAVOK", "CAVOK", "0000", "10SM", "6000", "5 1/2SM"], "minvis": ["1500SW", "0300"],
            "rvr": ["R04/1200N", "R22/P2000", "R88/0600FT"], "wx": ["NSW", "RA", "TSRA", "FG", "-SN", "SHRA", "VCTS"],
            "clouds": ["NSC", "SKC", "FEW020", "BKN010CB", "OVC002", "//////", "SCT050TCU", "NCD", "VV001"],
            "temps": ["20/10", "00/00", "M01/M02"], "pressure": ["Q1013", "A2992"], "recent": ["RERA", "RETS"],
            "windshear": ["WS ALL RWY", "WS R04"], "sea": ["W15/S3", "WM02/H005"],
            "state": ["R04/CLRD//", "R99/SNOCLO", "R04/410591"]}


def one(r, slot, taf, now):
    """The tokens of one group."""
    if slot in ORDINARY and r.random() < .4:
        g = r.choice(ORDINARY[slot])
        if not taf or slot != "vis" or "////" not in g:
            return g.split()
    if slot in ("tx", "tn"):
        x = now + timedelta(hours=r.randint(0, 30))
        return ["T%s%s%02d/%sZ" % ("X" if slot == "tx" else "N", r.choice(["", "", "M"]), r.randrange(60),
                                   x.strftime("%d%H"))]
    if slot == "windshear":
        return gen.windshear(r)
    if slot == "pressure":                          # four digits alone could also be a visibility
        while True:
            g = gen.pressure(r)
            if g[0] in "AQ" or g.endswith("INS"):
                return [g]
    return embed.some(r, slot, taf)[:1] if slot != "vis" else embed.some(r, slot, taf)


def places(r, order, taf, now, p):
    out = []
    for s in order:
        if s == "minvis" and not any(o[0] == "vis" for o in out):
            continue
        if r.random() < p.get(s, .5):
            for i in range(r.randint(1, FEW.get(s, 1)) if s in FEW else r.choice([1, 1, 2]) if s in LISTS else 1):
                out.append([s, i, one(r, s, taf, now)])
    return out


def tokens(c):
    out = list(c["head"])
    for p, (head, slots) in enumerate(c["parts"]):
        out += head
        for s, i, toks in slots:
            out += toks
            if [p, s, i] == c["at"][:3] and c["noise"]:
                out.append(c["noise"])
    if c["remark"]:
        out += c["remark"]
    return " ".join(out)


def differences(a, b, path=""):
    """All paths at which two observations differ."""
    if type(a) is type(b) and isinstance(a, dict):
        for k in dict.fromkeys(list(a) + list(b)):
            if k in a and k in b:
                yield from differences(a[k], b[k], f"{path}.{k}")
            else:
                yield f"{path}.{k}"
    elif isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            if i < min(len(a), len(b)):
                yield from differences(a[i], b[i], f"{path}[{i}]")
            else:
                yield f"{path}[{i}]"
    elif type(a) is not type(b) or a != b and not (a != a and b != b):
        yield path


def at(o, path):
    for k in re.findall(r"\[\d+\]|[^.\[\]]+", path):
        o = o[int(k[1:-1])] if k[0] == "[" else o[k]
    return o


def same_but(a, b, u, v):
    """Whether the lines of two texts are equal but for one line u of a and one line v of b."""
    a = [l.strip() for l in a.split("\n") if l.strip()]
    b = [l.strip() for l in b.split("\n") if l.strip()]
    u, v = u.strip(), v.strip()

    def rest(l, w):
        return {tuple(l[:i] + l[i + 1:]) for i in range(len(l)) if l[i] == w} if w else {tuple(l)}
    return bool(rest(a, u) & rest(b, v))


class C38(core.Prop):
    pid = "C38"
    rule = """random METAR, SPECI and TAF in which one group of the body, of a trend, of a change or the remark is
    replaced by another one of its kind, or left out: of everything public only the element of that group, what is
    derived from it (flight rules and CAVOK assessment of the same part, ceiling) and the raw and descriptive texts
    that contain it may differ; in the descriptive texts only its own line.  Non-trivial: both reports decoded the
    group as this element and were compared; distinct by the two texts."""
    need = {"pairs": 9000, "in_body": 4000, "in_trend": 1500, "in_change": 1500, "left_out": 700, "with_unknown": 800,
            "assessment_changed": 500, "remarks": 200, **{"of_" + s: 150 for s in NAME}}

    def cases(self, r, tier, shard, n):
        for _ in range(650 if tier == "quick" else 20000):
            yield self.one(r, r.random() < .45)

    def one(self, r, taf):
        now = gen.instant(r)
        v0 = now.replace(minute=0) + timedelta(hours=1)
        few = r.random() < .25
        p = {s: .2 if few else .6 for s in NAME}
        p["vis"] = .8
        if taf:
            head = ["TAF", gen.station(r), gen.ddhhmmz(now), gen.ddhh(v0) + "/" + gen.ddhh(v0 + timedelta(hours=24), True)]
            parts = [[[], places(r, embed.PART + ["tx", "tn"], True, v0, p)]]
            for i in range(r.choice([0, 1, 1, 2, 3])):
                a = v0 + timedelta(hours=i * 3)
                if i and r.random() < .3:
                    parts.append([parts[-1][0], places(r, embed.PART, False, v0, p)])
                    continue
                parts.append([gen.change_tokens(r, r.choice(["FM", "BECMG", "TEMPO", "PROB30", "PROB40 TEMPO"]), a,
                                                a + timedelta(hours=2)), places(r, embed.PART, False, v0, p)])
            for h, slots in parts[1:]:              # the wind of a change of a TAF is never unknown
                for s in slots:
                    if s[0] == "wind":
                        s[2] = [gen.wind(r, True)]
        else:
            head = gen.header(r, now)
            body = places(r, embed.BODY, False, now, p)
            parts = [[[], body]]
            for i in range(r.choice([0, 0, 1, 1, 2])):
                if i and r.random() < .3:
                    parts.append([parts[-1][0], places(r, embed.PART, False, now, p)])
                    continue
                parts.append([[r.choice(["TEMPO", "BECMG"])] + gen.trend_periods(r, now),
                              places(r, embed.PART, False, now, p)])
        remark = []
        if not taf and r.random() < .3:
            remark = ["RMK"] + [r.choice(gen.REMARKS) for _ in range(r.randrange(5))]
        c = dict(k="taf" if taf else "metar", head=head, parts=parts, remark=remark, y=now.year, m=now.month,
                 noise=r.choice(["XXX9", "QQQ", "ABCDEFG", "9999999"]) if r.random() < .3 else "", at=[0, "", 0],
                 seed=r.randrange(1 << 30), fixed=True)
        if not any(s for h, s in parts):
            return self.one(r, taf)
        w = r.choice([q for q, (h, s) in enumerate(parts) if s])
        if r.random() < .6:                         # prefer the trends and changes
            w = max(w, r.choice([q for q, (h, s) in enumerate(parts) if s]))
        i = r.randrange(len(parts[w][1]))
        if r.random() < .5:                         # and the rarer groups
            i = r.choice([j for j, s in enumerate(parts[w][1]) if s[0] not in embed.PART] or [i])
        c["at"] = [w, parts[w][1][i][0], parts[w][1][i][1], i]
        c["t"] = tokens(c)
        return c

    def judge(self, c, x):
        r = core.rng(c["seed"])
        w, slot, index, i = c["at"]
        old = c["parts"][w][1][i][2]
        a = walk.observe(x.build(c))
        d = self.element(c, a, w, slot, index)
        if d is None or not self.is_this(d, old, slot):
            x.hit("not_decoded")
            raise core.Skip()
        count = len(a["unparsed_groups"])
        for _ in range(3):
            k = r.random()
            if k < .35 and slot in LEAVE_OUT:
                new = []
            else:
                new = one(r, slot, c["k"] == "taf" and (w == 0 or slot == "wind"), core_now(c))
            parts = [[h, [list(s) for s in sl]] for h, sl in c["parts"]]
            parts[w][1][i][2] = new
            c2 = dict(c, parts=parts)
            c2["t"] = tokens(c2)
            if c2["t"] == c["t"]:
                continue
            b = walk.observe(x.build(c2))
            e = self.element(c, b, w, slot, index)
            if e is None or not self.is_this(e, new, slot):
                x.hit("not_decoded")
                continue
            self.compare(c, c2, x, a, b, d, e)
            x.hit("pairs")
            x.hit("of_" + slot)
            x.hit("left_out", not new)
            x.hit("in_body" if w == 0 else "in_trend" if c["k"] == "metar" else "in_change")
            x.hit("with_unknown", count > 0)
            x.nontrivial((c["t"], c2["t"]))
        if c["remark"]:
            c2 = dict(c, remark=["RMK"] + [r.choice(gen.REMARKS) for _ in range(r.randrange(6))])
            c2["t"] = tokens(c2)
            b = walk.observe(x.build(c2))
            for p in differences(a, b):
                if not re.fullmatch(r"\.(as_dict\(\)\.)?(raw_code|code|remark|sections\[2\])|\.to_json\(\)", p):
                    self.bad(c, c2, p, a, b)
            x.hit("remarks")
        x.sample({k: c[k] for k in ("k", "t")})

    def bad(self, c, c2, p, a, b):
        try:
            u, v = at(a, p), at(b, p)
        except Exception:
            u, v = "only", "in one"
        raise core.Bad(f"{c['t']!r} and {c2['t']!r} ({c['y']}, {c['m']}) differ in {p}: {str(u)[:150]!r} / {str(v)[:150]!r}")

    def owner(self, c, a, w):
        if w == 0:
            return a
        l = a["weather_trends" if c["k"] == "metar" else "changes_forecasted"]["items"]
        return l[w - 1] if len(l) == len(c["parts"]) - 1 else None

    def element(self, c, a, w, slot, index):
        o = self.owner(c, a, w)
        if o is None:
            return None
        d = o[NAME[slot]]
        if slot not in LISTS:
            return d
        l = d["items"]
        return l[index] if len(l) == sum(s == slot for s, _, _ in c["parts"][w][1]) else None

    def is_this(self, d, toks, slot):
        if slot == "windshear":
            return (d["code"] or "").startswith("WS")
        return (d["code"] or "") == " ".join(toks)

    def compare(self, c, c2, x, a, b, d, e):
        w, slot, index, _ = c["at"]
        name = NAME[slot]
        if w == 0:
            inside = r""
        else:
            l = "weather_trends" if c["k"] == "metar" else "changes_forecasted"
            inside = rf"\.{l}\.(items|iter)\[{w - 1}\]"
            inside_dict = rf"\.(as_dict\(\)\.{l}|{l}\.as_dict\(\))\.{LABELS[w - 1]}"
        # the owner of the group and its dictionary
        owners = [inside, inside + r"\.as_dict\(\)"] + ([inside_dict] if w else [])
        own = re.compile("(%s)(?=\\.)(?P<rest>.*)" % "|".join(sorted(owners, key=len, reverse=True)) if w else
                         r"(\.as_dict\(\)(?=\.))?(?P<rest>.*)")
        under = re.compile(rf"\.{name}(\.(items|iter|codes|as_dict\(\)))?(\[(\d+)\]|\.({'|'.join(LABELS)})\b)?(.*)")
        for p in differences(a, b):
            if p.endswith((".to_json()", ".raw_code")) or re.fullmatch(r"(\.as_dict\(\))?\.(code|body|weather_changes|trend|sections\[[01]\])", p):
                continue
            if p == ".str" or w and re.fullmatch(rf"\.{l}\.str|{inside}\.str", p):
                if same_but(at(a, p), at(b, p), d["str"], e["str"]):
                    continue
                self.bad(c, c2, p, a, b)
            if w and p == rf".{l}.codes[{w - 1}]":
                continue
            m = own.fullmatch(p)
            if m:
                q = m.group("rest")
                if q in (".flight_rules", ".should_be_cavok()"):
                    if slot in ("vis", "clouds") or slot == "wx" and q != ".flight_rules":
                        x.hit("assessment_changed")
                        continue
                if w and q in (".code", ".len"):
                    continue
                n = under.fullmatch(q)
                if n:
                    if slot not in LISTS:
                        continue
                    if n.group(3) is None:
                        continue                    # the text of the list, its names, ceiling
                    if n.group(4) is not None and int(n.group(4)) == index or n.group(5) == LABELS[index]:
                        continue
            self.bad(c, c2, p, a, b)


def core_now(c):
    from datetime import datetime
    t = c["t"].split()
    g = next(g for g in t if re.fullmatch(r"\d{6}Z", g))
    return datetime(c["y"], c["m"], int(g[:2]), 0) + timedelta(hours=int(g[2:4]))
