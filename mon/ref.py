"""Independent reference decoder for METAR/SPECI/TAF text.

Written from the WMO/ICAO code forms and the documentation of the library, not
from its code: no module of the code under test is imported here.  It gives, for
a text inside its domain, what every public element of the report must show.
Texts outside the domain raise OutOfDomain and are judged by reference-free
monitors only.
"""
import calendar
import re
from datetime import datetime, timedelta

FT = 0.3048
SEA_MILE = 1852.0
KT_PER_MPS = 3600.0 / 1852.0
HPA_PER_INHG = 33.86389


class OutOfDomain(Exception):
    pass


def rx(p):
    return re.compile(p, re.ASCII)


# --------------------------------------------------------------------------
# text layer
# --------------------------------------------------------------------------
def groups(text):
    """Blank separated groups of a report text, terminator removed."""
    return text.replace("=", "").split()


# --------------------------------------------------------------------------
# single groups.  Every decoder returns None if the group is not of that kind.
# --------------------------------------------------------------------------
POINTS = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE",
          "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]
OCTANT_DEG = {"N": 360, "NE": 45, "E": 90, "SE": 135, "S": 180, "SW": 225, "W": 270, "NW": 315}


def cardinal(deg):
    if deg is None:
        return None
    return POINTS[int(((deg + 11.25) % 360) // 22.5)]


NO_WIND = dict(code=None, deg=None, var=False, card=None, kt=None, gust=None)
_WIND = rx(r"(\d\d0|///|VRB)P?(\d{3}|\d\d|///|//)(?:GP?(\d{2,3}))?(KT|MPS)")
_TAFWIND = rx(r"(\d\d0|VRB)P?(\d{3}|\d\d)(?:GP?(\d{2,3}))?(KT|MPS)")


def wind(g, taf=False):
    m = (_TAFWIND if taf else _WIND).fullmatch(g)
    if not m:
        return None
    d, s, gu, u = m.groups()
    if d[0].isdigit() and int(d) > 360:
        return None
    f = KT_PER_MPS if u == "MPS" else 1.0
    deg = float(d) if d.isdigit() else None
    return dict(code=g, deg=deg, var=d == "VRB", card=cardinal(deg),
                kt=float(s) * f if s.isdigit() else None,
                gust=float(gu) * f if gu else None)


NO_VAR = dict(code=None, from_=None, to=None, fcard=None, tcard=None)


def variation(g):
    m = rx(r"(\d\d0)V(\d\d0)").fullmatch(g)
    if not m:
        return None
    a, b = int(m[1]), int(m[2])
    if not (10 <= a <= 360 and 10 <= b <= 360):
        return None
    return dict(code=g, from_=float(a), to=float(b), fcard=cardinal(a), tcard=cardinal(b))


NO_VIS = dict(code=None, m=None, deg=None, card=None, cavok=False)


def _metric(g, slashes=True):
    m = rx(r"(\d{4}|////)(N|NE|E|SE|S|SW|W|NW)?").fullmatch(g)
    if not m or (m[1] == "////" and not slashes):
        return None
    v = None if m[1] == "////" else float(m[1])
    if v == 9999:
        v = 10000.0
    deg = float(OCTANT_DEG[m[2]]) if m[2] else None
    return dict(code=g, m=v, deg=deg, card=m[2], cavok=False)


def visibility(g, slashes=True):
    r = _metric(g, slashes)
    if r:
        return r
    if g == "CAVOK":
        return dict(code=g, m=10000.0, deg=None, card=None, cavok=True)
    m = rx(r"[MP]?(\d{1,2}?)?_?(?:(\d)/([1-9]))?(SM|KM|M|U)").fullmatch(g)
    if not m:
        return None
    whole, num, den, unit = m.groups()
    v = None
    if unit in ("SM", "KM") and (whole or num):
        v = (float(whole) if whole else 0.0) + (float(num) / float(den) if num else 0.0)
        v *= SEA_MILE if unit == "SM" else 1000.0
    return dict(code=g.replace("_", " "), m=v, deg=None, card=None, cavok=False)


def min_visibility(g):
    r = _metric(g)
    if r:
        r.pop("cavok")
    return r


NO_MINVIS = dict(code=None, m=None, deg=None, card=None)

SIDE = {"R": "right", "L": "left", "C": "center"}


def runway(name):
    if name is None:
        return None
    if len(name) == 3:
        return name[:2] + " " + SIDE[name[2]]
    return {"88": "all runways", "99": "repeated"}.get(name, name)


def rvr(g):
    m = rx(r"R(\d\d[RLC]?)/([MP])?(\d{2,4})(?:V([MP])?(\d{2,4}))?(FT)?([NDU])?").fullmatch(g)
    if not m:
        return None
    name, lq, lo, hq, hi, ft, tr = m.groups()
    if not ft and "9999" in (lo, hi):
        raise OutOfDomain("9999 m runway range")
    f = FT if ft else 1.0
    q = {"M": "below of", "P": "above of", None: None}
    return dict(code=g, name=runway(name), low=float(lo) * f, lowq=q[lq],
                high=float(hi) * f if hi else None, highq=q[hq],
                trend={"N": "no change", "U": "increasing", "D": "decreasing", None: None}[tr])


INTENSITY = {"": None, "-": "light", "+": "heavy", "VC": "nearby",
             "-VC": "nearby light", "+VC": "nearby heavy"}
DESCRIPTOR = {"": None, "MI": "shallow", "PR": "partial", "BC": "patches of", "DR": "low drifting",
              "BL": "blowing", "SH": "showers", "TS": "thunderstorm", "FZ": "freezing"}
PRECIP = {"": None, "DZ": "drizzle", "RA": "rain", "SN": "snow", "SG": "snow grains",
          "IC": "ice crystals", "PL": "ice pellets", "GR": "hail", "GS": "snow pellets",
          "UP": "unknown precipitation"}
OBSC = {"": None, "BR": "mist", "FG": "fog", "FU": "smoke", "VA": "volcanic ash", "DU": "dust",
        "SA": "sand", "HZ": "haze", "PY": "spray"}
OTHER = {"": None, "PO": "sand whirls", "SQ": "squalls", "FC": "funnel cloud", "SS": "sandstorm",
         "DS": "dust storm", "NSW": "nil significant weather"}


def weather(g):
    rest, inten, desc = g, "", ""
    for k in ("-VC", "+VC", "-", "+", "VC"):
        if rest.startswith(k):
            inten, rest = k, rest[len(k):]
            break
    if rest[:2] in DESCRIPTOR and rest[:2]:
        desc, rest = rest[:2], rest[2:]
    r = dict(code=g, int=INTENSITY[inten], desc=DESCRIPTOR[desc], prec=None, obsc=None, other=None)
    if rest in PRECIP:
        r["prec"] = PRECIP[rest]
    elif rest in OBSC:
        r["obsc"] = OBSC[rest]
    elif rest in OTHER:
        r["other"] = OTHER[rest]
    elif rest != "/":
        return None
    return r


NO_RECENT = dict(code=None, desc=None, prec=None, obsc=None, other=None)


def recent(g):
    if not g.startswith("RE"):
        return None
    rest = g[2:]
    r = dict(code=g, desc=None, prec=None, obsc=None, other=None)
    for key, table, skip in (("desc", DESCRIPTOR, ()), ("prec", PRECIP, ()),
                             ("obsc", OBSC, ("FU",)), ("other", OTHER, ("NSW",))):
        w = rest[:2]
        if w and w in table and w not in skip:
            r[key], rest = table[w], rest[2:]
    return None if rest else r


COVER = {"SKC": "clear", "CLR": "clear", "NSC": "clear", "NCD": "clear", "FEW": "a few",
         "SCT": "scattered", "BKN": "broken", "OVC": "overcast", "0VC": "overcast",
         "///": "undefined", "VV": "indefinite ceiling"}
OKTAS = {"FEW": "1-2", "SCT": "3-4", "BKN": "5-7", "OVC": "8", "0VC": "8",
         "NSC": "not specified", "NCD": "not specified"}


def cloud(g):
    m = rx(r"(VV|CLR|SKC|NSC|NCD|BKN|SCT|FEW|OVC|0VC|///)(\d{3}|///)?(TCU|CB|///)?").fullmatch(g)
    if not m:
        return None
    c, h, t = m.groups()
    return dict(code=g, cover=COVER[c], oktas=OKTAS.get(c, "undefined"),
                type={"TCU": "towering cumulus", "CB": "cumulonimbus"}.get(t),
                ft=float(h) * 100.0 if h and h != "///" else None)


def temps(g):
    m = rx(r"([M-])?(\d\d|//|XX|MM)/([M-])?(\d\d|//|XX|MM)").fullmatch(g)
    if not m:
        return None

    def val(sign, v):
        if not v.isdigit():
            return None
        return -float(v) if sign else float(v)

    return dict(code=g, t=val(m[1], m[2]), d=val(m[3], m[4]))


NO_TEMPS = dict(code=None, t=None, d=None)


def pressure(g):
    m = rx(r"(QNH|A|Q)?(\d{4}|////)(INS)?").fullmatch(g)
    if not m:
        return None
    u, p, ins = m.groups()
    if p == "////":
        return dict(code=g, hpa=None)
    v = float(p)
    if u == "A" or ins or (u is None and v > 2500):
        v = v / 100.0 * HPA_PER_INHG
    return dict(code=g, hpa=v)


NO_PRESSURE = dict(code=None, hpa=None)


def windshear(g):
    if g == "WS_ALL_RWY":
        return dict(code="WS ALL RWY", name=None, all=True)
    m = rx(r"WS_R(\d\d[RCL]?)").fullmatch(g)
    if not m:
        return None
    n = m[1]
    return dict(code="WS R" + n, name=n[:2] + " " + SIDE[n[2]] if len(n) == 3 else n, all=False)


SEA = ["calm (glassy)", "calm (rippled)", "smooth (wavelets)", "slight", "moderate", "rough",
       "very rough", "high", "very high", "phenomenal"]
NO_SEA = dict(code=None, t=None, state=None, h=None)


def sea(g):
    m = rx(r"W(M)?(\d\d)/(?:S(\d)|H(\d{3}))").fullmatch(g)
    if not m:
        return None
    return dict(code=g, t=float(m[2]) * (-1 if m[1] else 1),
                state=SEA[int(m[3])] if m[3] else None,
                h=float(m[4]) / 10.0 if m[4] else None)


DEPOSIT = dict(zip("0123456789/", [
    "clear and dry", "damp", "wet and water patches",
    "rime and frost covered (depth normally less than 1 mm)", "dry snow", "wet snow", "slush",
    "ice", "compacted or rolled snow", "frozen ruts or ridges",
    "type of deposit not reported (e.g. due to runway clearance in progress)"]))
EXTENT = {"0": None, "1": "less than 10% of runway", "2": "11%-25% of runway",
          "5": "26%-50% of runway", "9": "51%-100% of runway", "/": "not reported"}
DEPTH9 = {91: "reserved", 92: "10 cm", 93: "15 cm", 94: "20 cm", 95: "25 cm", 96: "30 cm",
          97: "35 cm", 98: "40 cm or more",
          99: "runway(s) non-operational due to snow, slush, ice, large drifts or runway "
              "clearance, but depth not reported"}
FRICTION9 = {91: "poor", 92: "medium/poor", 93: "medium", 94: "medium/good", 95: "good",
             99: "unreliable"}
NO_STATE = dict(code=None, name=None, deposits=None, extent=None, depth=None, friction=None,
                snoclo=False, clrd=None)


def runway_state(g):
    m = rx(r"R(\d\d[RLC]?)?/(?:([\d/])([\d/])(\d\d|//)(\d\d|//)|(SNOCLO)|(CLRD//))").fullmatch(g)
    if not m:
        return None
    name = runway(m[1])
    r = dict(NO_STATE, code=g, name=name)
    if m[6]:
        r["snoclo"] = True
    elif m[7]:
        tail = {"all runways": " on all runways", "repeated": " on previous runway"}
        r["clrd"] = "contaminations have ceased to exists" + tail.get(name, f" on runway {name}")
    else:
        r["deposits"] = DEPOSIT[m[2]]
        r["extent"] = EXTENT.get(m[3], "reserved")
        if m[4] == "//":
            r["depth"] = "depth of deposit operationally not significant or not measurable"
        else:
            d = int(m[4])
            r["depth"] = "less than 1 mm" if d == 0 else f"{d} mm" if d <= 90 else DEPTH9[d]
        if m[5] == "//":
            r["friction"] = "breaking conditions not reported and/or runway not operational"
        else:
            f = int(m[5])
            r["friction"] = ("0." + m[5] if f <= 90 else
                             "breaking action " + FRICTION9[f] if f in FRICTION9 else "reserved")
    return r


TYPES = {"METAR": "Meteorological Aerodrome Report", "SPECI": "Special Aerodrome Report",
         "TAF": "Terminal Aerodrome Forecast"}
MODIFIERS = {"COR": "Correction", "CORR": "Correction", "AMD": "Amendment", "NIL": "Missing report",
             "AUTO": "Automatic report", "TEST": "Testing report", "FINO": "Missing report"}


# --------------------------------------------------------------------------
# dates
# --------------------------------------------------------------------------
def time_group(g, year, month):
    m = rx(r"(\d\d)(\d\d)(\d\d)Z").fullmatch(g)
    if not m:
        return None
    d, h, mi = int(m[1]), int(m[2]), int(m[3])
    if not (1 <= d <= calendar.monthrange(year, month)[1] and h <= 24 and mi <= 59):
        return None
    return datetime(year, month, d) + timedelta(minutes=60 * h + mi)


def first_day(ref, day):
    """Midnight of the first date from that of `ref` whose day number is `day`."""
    d = datetime(ref.year, ref.month, ref.day)
    for _ in range(70):
        if d.day == day:
            return d
        d += timedelta(days=1)
    raise OutOfDomain("day")


def valid_group(g, ref):
    m = rx(r"(\d\d)(\d\d)/(\d\d)(\d\d)").fullmatch(g)
    if not m:
        return None
    d1, h1, d2, h2 = map(int, m.groups())
    if not (1 <= d1 <= 31 and h1 <= 23 and 1 <= d2 <= 31 and h2 <= 24):
        return None
    a = first_day(ref, d1)
    b = first_day(a, d2)
    return dict(code=g, from_=a + timedelta(hours=h1), until=b + timedelta(hours=h2))


def default_valid(t):
    a = t.replace(minute=0) + timedelta(hours=1)
    return dict(code=None, from_=a, until=a + timedelta(hours=24))


# --------------------------------------------------------------------------
# sections: ordered slots, each group takes the first later slot it fits
# --------------------------------------------------------------------------
def fill(slots, toks):
    """Yields (slot, token, decoded) and returns the unparsed tokens."""
    taken, unparsed, pos = [], [], 0
    for t in toks:
        for i in range(pos, len(slots)):
            name, dec = slots[i]
            r = dec(t)
            if r is not None:
                taken.append((name, t, r))
                pos = i + 1
                break
        else:
            unparsed.append(t)
    return taken, unparsed


def join_sm(toks):
    """'1 1/2SM' is one group.  (The first group of a section is its header.)"""
    out, i, n = [], 0, 0
    while i < len(toks):
        if (i > 0 and i + 1 < len(toks) and rx(r"\d{1,2}").fullmatch(toks[i])
                and rx(r"\d/\dSM").fullmatch(toks[i + 1])):
            n += 1
            if n > 3:
                raise OutOfDomain("more than three split visibilities")
            out.append(toks[i] + "_" + toks[i + 1])
            i += 2
        else:
            out.append(toks[i])
            i += 1
    return out


def join_ws(toks):
    s = " ".join(toks)
    s = re.sub(r"WS ALL RWY", "WS_ALL_RWY", s)
    n = 0

    def sub(m):
        nonlocal n
        n += 1
        return "WS_R" + m[1] if n <= 3 else m[0]

    s2 = re.sub(r"\bWS R(?:WY)?(\d\d[CLR]?)(?!\S)", sub, s)
    if re.search(r"WS_ALL_RWY\S|\SWS |\SWS_|WS R(?:WY)?\d\d(?![CLR]?(?:\s|$))", s):
        raise OutOfDomain("text looking like a wind shear group")
    return s2.split()


def const(*words):
    return lambda g: g if g in words else None


def station_code(g):
    return g if rx(r"[A-Z][A-Z0-9]{3}").fullmatch(g) else None


def blank(code=None):
    return dict(wind=NO_WIND, vis=NO_VIS, wx=[], clouds=[], unparsed=[], code=code)


def conditions(d, taken):
    for name, tok, r in taken:
        if name in ("wind", "vis"):
            d[name] = r
        elif name in ("wx", "clouds"):
            d[name] = d[name] + [r]
    d["fr"] = flight_rules(d["vis"]["m"], d["clouds"])
    d["scavok"] = should_be_cavok(d["vis"]["m"], d["wx"], d["clouds"])
    d["ceiling"] = any(c["oktas"] in ("5-7", "8") and c["ft"] is not None and c["ft"] <= 1500
                       for c in d["clouds"])


def flight_rules(vis, clouds):
    ceil = None
    for c in clouds:
        if c["cover"] in ("broken", "overcast", "indefinite ceiling"):
            ceil = c["ft"]
            break
    if vis is None and ceil is None:
        return None
    for cat, h, v in (("VLIFR", 60, 800), ("LIFR", 150, 1600), ("IFR", 300, 5000),
                      ("MVFR", 900, 8000)):
        if (vis is not None and vis < v) or (ceil is not None and ceil * FT < h):
            return cat
    return "VFR"


def should_be_cavok(vis, wx, clouds):
    if wx or not clouds or vis is None or vis < 10000:
        return False
    return all(c["cover"] != "indefinite ceiling" and c["type"] is None
               and not (c["ft"] is not None and c["ft"] < 5000) for c in clouds)


# --------------------------------------------------------------------------
# METAR
# --------------------------------------------------------------------------
TREND_KEYS = ("NOSIG", "TEMPO", "BECMG")
MEANING = {"NOSIG": "no significant changes", "BECMG": "becoming", "TEMPO": "temporary",
           "PROB30": "probability 30%", "PROB40": "probability 40%",
           "PROB30 TEMPO": "probability 30% temporary",
           "PROB40 TEMPO": "probability 40% temporary"}


def metar_sections(toks):
    body, trend, remark = [], [], []
    cur = body
    for i, t in enumerate(toks):
        for k in TREND_KEYS:
            if t.startswith(k):
                if t != k:
                    raise OutOfDomain("keyword-like group " + t)
                cur = trend
        if t.startswith("RMK"):
            cur = remark
        cur.append(t)
    return body, trend, remark


def metar_trends(trend):
    out = []
    for t in trend:
        if t in TREND_KEYS:
            out.append([])
        out[-1].append(t)
    if len(out) > 2:
        raise OutOfDomain("more than two trends")
    if len(out) == 2 and (out[1][0] == "NOSIG" or len(out[1]) == 1):
        raise OutOfDomain("empty or NOSIG second trend")
    return out


def window_time(hhmm, start):
    """The instant with that hour and minute in the two hours from start."""
    h, mi = int(hhmm[:2]) % 24, int(hhmm[2:])
    c = [x for k in (0, 1) for x in
         [start.replace(hour=h, minute=mi) + timedelta(days=k)]
         if start <= x <= start + timedelta(hours=2)]
    if len(c) != 1:
        raise OutOfDomain("trend time outside the forecast period")
    return c[0]


def trend_period(g):
    return g if rx(r"(FM|TL|AT)([01]\d|2[0-4])[0-5]\d").fullmatch(g) else None


def metar(text, year, month):
    toks = groups(text)
    body, trend, remark = metar_sections(toks)
    slots = [
        ("type", const("METAR", "SPECI", "TAF")),
        ("station", station_code),
        ("time", lambda g: time_group(g, year, month)),
        ("modifier", const("COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO")),
        ("wind", wind), ("variation", variation),
        ("vis", visibility), ("minvis", min_visibility),
        ("rvr", rvr), ("rvr", rvr), ("rvr", rvr),
        ("wx", weather), ("wx", weather), ("wx", weather),
        ("clouds", cloud), ("clouds", cloud), ("clouds", cloud), ("clouds", cloud),
        ("temps", temps), ("pressure", pressure), ("pressure", pressure),
        ("recent", recent),
        ("windshear", windshear), ("windshear", windshear), ("windshear", windshear),
        ("sea", sea), ("state", runway_state),
    ]
    taken, unparsed = fill(slots, join_ws(join_sm(body)))
    r = blank()
    r.update(kind="metar", raw=" ".join(toks),
             sections=[" ".join(body), " ".join(trend), " ".join(remark)],
             type="METAR", station=None, time=dict(code=None, t=datetime(year, month, 1)),
             modifier=None, variation=NO_VAR, minvis=NO_MINVIS, rvr=[], temps=NO_TEMPS,
             pressure=NO_PRESSURE, recent=NO_RECENT, windshear=[], sea=NO_SEA, state=NO_STATE)
    conditions(r, taken)
    for name, tok, v in taken:
        if name == "time":
            r["time"] = dict(code=tok, t=v)
        elif name in ("rvr", "windshear"):
            r[name] = r[name] + [v]
        elif name not in ("wind", "vis", "wx", "clouds"):
            r[name] = v
    r["_order"] = [(n, t) for n, t, _ in taken]
    r["unparsed"] = list(unparsed)
    t0 = r["time"]["t"]
    r["trends"] = []
    for part in metar_trends(trend):
        tr = blank(" ".join(part).replace("_", " "))
        slots = [("ind", const(*TREND_KEYS)), ("per", trend_period), ("per", trend_period),
                 ("wind", wind), ("vis", visibility),
                 ("wx", weather), ("wx", weather), ("wx", weather),
                 ("clouds", cloud), ("clouds", cloud), ("clouds", cloud), ("clouds", cloud)]
        taken, unp = fill(slots, join_sm(part))
        conditions(tr, taken)
        ind = dict(code=part[0], meaning=MEANING[part[0]], init=t0, end=t0 + timedelta(hours=2),
                   from_=t0, until=t0 + timedelta(hours=2), at=None)
        for name, tok, v in taken:
            if name == "per":
                ind["code"] += " " + tok
                ind[{"FM": "from_", "TL": "until", "AT": "at"}[tok[:2]]] = window_time(tok[2:], t0)
        tr["ind"] = ind
        tr["unparsed"] = unp
        tr["_order"] = [(n, t) for n, t, _ in taken]
        r["unparsed"] += unp
        r["trends"].append(tr)
    return r


# --------------------------------------------------------------------------
# TAF
# --------------------------------------------------------------------------
CHANGE_KEYS = ("FM", "TEMPO", "BECMG", "PROB")


def join_prob(toks):
    out = []
    for t in toks:
        if t.startswith("TEMPO") and out and out[-1] in ("PROB30", "PROB40"):
            if t != "TEMPO":
                raise OutOfDomain(t)
            out[-1] += "_TEMPO"
        else:
            if re.search(r"PROB[34]0$", t) and t not in ("PROB30", "PROB40"):
                raise OutOfDomain(t)
            out.append(t)
    return out


def change_start(g):
    """Indicator of a change group: (kind, payload) or None."""
    if g in ("TEMPO", "BECMG", "PROB30", "PROB40", "PROB30_TEMPO", "PROB40_TEMPO"):
        return (g.replace("_", " "), None)
    m = rx(r"FM(\d\d)(\d\d)(\d\d)").fullmatch(g)
    if m and 1 <= int(m[1]) <= 31 and int(m[2]) <= 23 and int(m[3]) <= 59:
        return ("FM", tuple(map(int, m.groups())))
    return None


def taf_temp(g):
    m = rx(r"T([XN])(M)?(\d\d)/(\d\d)(\d\d)Z").fullmatch(g)
    if not m or not (1 <= int(m[4]) <= 31 and int(m[5]) <= 23):
        return None
    return dict(code=g, kind=m[1], t=float(m[3]) * (-1 if m[2] else 1),
                day=int(m[4]), hour=int(m[5]))


def taf(text, year, month):
    toks = groups(text)
    ptoks = join_prob(toks)
    head = 0
    if ptoks[head:head + 1] == ["TAF"]:
        head += 1
    if ptoks[head:head + 1] in (["AMD"], ["COR"]):
        head += 1
    body, changes = list(ptoks[:head + 1]), []
    for t in ptoks[head + 1:]:
        if t.startswith(CHANGE_KEYS):
            changes.append([t])
        elif changes:
            changes[-1].append(t)
        else:
            body.append(t)
    if body and body[-1] in ("TAF", "AMD", "COR") and changes and len(body) == head:
        raise OutOfDomain("header only")
    tm = datetime(year, month, 1)
    issue = [tm]

    def set_time(g):
        v = time_group(g, year, month)
        if v is not None:
            issue[0] = v
        return v

    tafwind = lambda g: wind(g, taf=True)
    slots = [
        ("type", const("METAR", "SPECI", "TAF")), ("modifier", const("COR", "AMD")),
        ("station", station_code), ("time", set_time), ("missing", const("NIL")),
        ("valid", lambda g: valid_group(g, issue[0])), ("cancelled", const("CNL")),
        ("wind", tafwind), ("vis", lambda g: visibility(g, slashes=False)),
        ("wx", weather), ("wx", weather), ("wx", weather),
        ("clouds", cloud), ("clouds", cloud), ("clouds", cloud), ("clouds", cloud),
        ("temp", taf_temp), ("temp", taf_temp), ("temp", taf_temp), ("temp", taf_temp),
    ]
    taken, unparsed = fill(slots, join_sm(body))
    r = blank()
    r.update(kind="taf", raw=" ".join(toks),
             sections=[" ".join(body), " ".join(" ".join(c).replace("_", " ") for c in changes)],
             type="TAF", station=None, time=dict(code=None, t=tm), modifier=None, missing=None,
             cancelled=None, valid=None, max=[], min=[])
    conditions(r, taken)
    for name, tok, v in taken:
        if name == "time":
            r["time"] = dict(code=tok, t=v)
        elif name == "temp":
            d = first_day(r["time"]["t"], v["day"]) + timedelta(hours=v["hour"])
            r["max" if v["kind"] == "X" else "min"].append(dict(code=v["code"], t=v["t"], at=d))
        elif name not in ("wind", "vis", "wx", "clouds"):
            r[name] = v
    if len(r["max"]) > 2 or len(r["min"]) > 2 or len(changes) > 8:
        raise OutOfDomain("over capacity")
    if r["valid"] is None:
        r["valid"] = default_valid(r["time"]["t"])
    r["_order"] = [(n, t) for n, t, _ in taken]
    r["unparsed"] = list(unparsed)
    r["changes"] = []
    v0 = r["valid"]
    for part in changes:
        c = blank(" ".join(part).replace("_", " "))
        slots = [("ind", change_start), ("valid", lambda g: valid_group(g, v0["from_"])),
                 ("wind", tafwind), ("vis", visibility),
                 ("wx", weather), ("wx", weather), ("wx", weather),
                 ("clouds", cloud), ("clouds", cloud), ("clouds", cloud), ("clouds", cloud)]
        taken, unp = fill(slots, join_sm(part))
        conditions(c, taken)
        ind = dict(code=None, _kind=None, valid=v0, meaning=None)
        for name, tok, v in taken:
            if name == "ind":
                ind["_kind"], fm = v
                ind["code"] = tok.replace("_", " ")
                if fm:
                    t = first_day(v0["from_"], fm[0]) + timedelta(minutes=60 * fm[1] + fm[2])
                    ind["valid"] = dict(code=None, from_=t, until=v0["until"])
                else:
                    ind["meaning"] = MEANING[v[0]]
            elif name == "valid":
                if ind["_kind"] == "FM":
                    raise OutOfDomain("FM with a valid group")
                ind["valid"] = v
                if ind["code"]:
                    ind["code"] += " " + tok
        c["ind"] = ind
        c["unparsed"] = unp
        c["_order"] = [(n, t) for n, t, _ in taken]
        r["unparsed"] += unp
        r["changes"].append(c)
    for i, c in enumerate(r["changes"]):
        if c["ind"]["_kind"] in ("FM", "BECMG"):
            for p in reversed(r["changes"][:i]):
                k = p["ind"]["_kind"]
                if k == "FM":
                    f = p["ind"]["valid"]["from_"]
                    end = c["ind"]["valid"]["from_"] - timedelta(hours=1)
                    p["ind"]["valid"] = dict(code=None, from_=f, until=max(end, f))
                if k in ("FM", "BECMG", None):
                    break
    for c in r["changes"]:
        ind = c["ind"]
        if ind["_kind"] == "FM" or (ind["_kind"] and ind["valid"]["code"] and ind["valid"] is not v0):
            v = ind["valid"]
            ind["meaning"] = ((ind["meaning"] or "") + f" from {v['from_']} until {v['until']}").strip()
    return r


def decode(kind, text, year, month):
    return (metar if kind == "metar" else taf)(text, year, month)


def is_noise(t):
    """True if no element of any section can match the group or merge it with a
    neighbour, whatever the year and month."""
    if not t or "=" in t or "_" in t or not t.isprintable() or t.split() != [t]:
        return False
    decs = [const("METAR", "SPECI", "TAF"), station_code, const(*MODIFIERS), wind, variation,
            visibility, min_visibility, rvr, weather, cloud, temps, pressure, recent, sea,
            runway_state, const(*TREND_KEYS), trend_period, const("NIL", "CNL"),
            lambda g: valid_group(g, datetime(2022, 1, 1)), taf_temp, change_start,
            lambda g: rx(r"\d{6}Z").fullmatch(g), lambda g: rx(r"\d\d?").fullmatch(g),
            lambda g: rx(r"\d/\dSM").fullmatch(g)]
    for d in decs:
        try:
            if d(t) is not None:
                return False
        except OutOfDomain:
            return False
    if t.startswith(TREND_KEYS + CHANGE_KEYS + ("RMK", "WS", "RWY", "ALL", "R")) or t.endswith("WS"):
        return False
    if t.upper() != t:
        return False
    return "RMK" not in t and "PROB" not in t
