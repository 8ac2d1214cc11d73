"""Generators of report groups and reports.  All randomness comes from `rng`."""
import calendar
import os
from datetime import datetime, timedelta

HERE = os.path.dirname(os.path.abspath(__file__))

COVERS = ["VV", "CLR", "SKC", "NSC", "NCD", "BKN", "SCT", "FEW", "OVC", "0VC", "///"]
INT = ["", "-", "+", "VC", "-VC", "+VC"]
DESC = ["", "MI", "PR", "BC", "DR", "BL", "SH", "TS", "FZ"]
PREC = ["DZ", "RA", "SN", "SG", "IC", "PL", "GR", "GS", "UP"]
OBSC = ["BR", "FG", "FU", "VA", "DU", "SA", "HZ", "PY"]
OTHER = ["PO", "SQ", "FC", "SS", "DS", "NSW"]
DIRS = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"]
FRACS = ["1/2", "1/4", "3/4", "1/8", "3/8", "5/8", "7/8", "1/3", "2/3", "1/5", "9/9", "0/1", "5/2", "1/9"]
SOME_STATIONS = ["MROC", "KJFK", "LFPG", "FMEE", "FMMI", "EGLL", "SBGR", "UUDD", "RJTT", "YSSY",
                 "KMIA", "CYUL", "ENGM", "PANC", "K1G4", "FMCH", "ZZZZ", "X9X9", "BECX", "NZAA"]


def corpus():
    out = []
    with open(os.path.join(HERE, "corpus.txt"), encoding="utf-8") as f:
        for l in f:
            k, t = l.rstrip("\n").split("\t", 1)
            out.append((k, t))
    return out


# -------------------------------------------------------------- single groups
def wind(r, taf=False):
    u = r.choice(["KT", "KT", "MPS"])
    d = r.choice(["VRB", "000", "360"] if r.random() < .2 else ["%03d" % (10 * r.randrange(37))])
    if not taf and r.random() < .06:
        d = "///"
    s = r.random()
    if s < .12:
        sp = r.choice(["00", "01", "09", "10", "99", "000", "100", "199", "049"])
    elif s < .18 and not taf:
        sp = r.choice(["//", "///"])
    elif s < .3:
        sp = "%03d" % r.randrange(1000)
    else:
        sp = "%02d" % r.randrange(100)
    p = "P" if sp[0] != "/" and r.random() < .08 else ""
    g = ""
    if r.random() < .4:
        g = "G" + r.choice(["", "", "", "P"]) + r.choice(["%02d" % r.randrange(100),
                                                       "%03d" % r.randrange(1000)])
    return d + p + sp + g + u


def variation(r):
    return "%03dV%03d" % (10 * r.randint(1, 36), 10 * r.randint(1, 36))


def metric(r):
    k = r.random()
    if k < .25:
        return r.choice(["9999", "0000", "0050", "0800", "0799", "1600", "1599", "5000", "4999",
                         "8000", "7999", "9998", "1000", "10000"[:4]])
    if k < .5:
        return "%04d" % (100 * r.randrange(100))
    return "%04d" % r.randrange(10000)


def sm(r):
    """One visibility in sea miles as a list of blank separated tokens."""
    k = r.random()
    pre = r.choice(["", "", "", "P", "M"])
    if k < .35:
        return [pre + str(r.randrange(0, 100)) + "SM"]
    if k < .6:
        return [pre + r.choice(FRACS) + "SM"]
    if k < .7:
        return [r.choice(["1", "2", "11"]) + r.choice(FRACS) + "SM"]
    return [str(r.randrange(1, 31)), r.choice(FRACS) + "SM"]


def km(r):
    return [r.choice(["", "", "P", "M"]) + r.choice(
        [str(r.randrange(100)), str(r.randrange(10)) + r.choice(FRACS), r.choice(FRACS)]) + "KM"]


def visibility(r, slashes=True, simple=False):
    """-> list of tokens"""
    k = r.random()
    if k < .08:
        return ["CAVOK"]
    if k < .6 or simple:
        return [metric(r)]
    if k < .72:
        return [metric(r) + r.choice(DIRS)]
    if k < .76 and slashes:
        return [r.choice(["////", "////" + r.choice(DIRS)])]
    if k < .92:
        return sm(r)
    return km(r)


def minvis(r):
    return metric(r) + r.choice(DIRS + [""]) if r.random() < .95 else "////" + r.choice(DIRS)


def rvr_num(r):
    while True:
        n = r.choice(["%04d" % (50 * r.randrange(1, 60)), "%04d" % r.randrange(10000),
                      "%03d" % r.randrange(1000), "%02d" % r.randrange(100), "0000"])
        if n != "9999":
            return n


def runway(r):
    if r.random() < .08:
        return r.choice(["88", "99"])
    return "%02d" % r.choice([r.randint(1, 36), r.randrange(100)]) + r.choice(["", "", "R", "L", "C"])


def rvr(r):
    s = "R" + runway(r) + "/" + r.choice(["", "", "M", "P"]) + rvr_num(r)
    if r.random() < .4:
        s += "V" + r.choice(["", "", "M", "P"]) + rvr_num(r)
    return s + r.choice(["", "", "FT"]) + r.choice(["", "N", "D", "U"])


def weather(r):
    k = r.random()
    if k < .05:
        return r.choice(["NSW", "-DZ", "VCTS", "VCSH", "TS", "FG", "+FC"])
    i = r.choice(INT)
    d = r.choice(DESC)
    ph = r.choice([r.choice(PREC), r.choice(OBSC), r.choice(OTHER), r.choice(PREC)])
    if d and r.random() < .07:
        ph = ""
    return i + d + ph


def cloud(r):
    c = r.choice(COVERS)
    k = r.random()
    if c in ("CLR", "SKC", "NSC", "NCD") and k < .8:
        return c
    if k < .1:
        h = r.choice(["", "///"])
    elif k < .35:
        h = r.choice(["000", "001", "002", "003", "004", "005", "009", "010", "014", "015", "016",
                      "019", "020", "029", "030", "031", "049", "050", "051", "100", "999"])
    elif k < .6:
        h = "%03d" % r.randrange(60)
    else:
        h = "%03d" % r.randrange(1000)
    t = r.choice(["", "", "", "", "TCU", "CB", "///"])
    return c + h + t


def temps(r):
    def v():
        return r.choice(["%02d" % r.randrange(60), "%02d" % r.randrange(100), "00"]) \
            if r.random() < .9 else r.choice(["//", "XX", "MM"])
    return r.choice(["", "", "M", "-"]) + v() + "/" + r.choice(["", "", "M", "-"]) + v()


def pressure(r):
    k = r.random()
    if k < .35:
        return "Q%04d" % r.choice([r.randint(870, 1085), r.randrange(10000)])
    if k < .6:
        return "A%04d" % r.choice([r.randint(2600, 3150), r.randrange(10000)])
    if k < .7:
        return "QNH%04dINS" % r.randint(2600, 3150)
    if k < .76:
        return r.choice(["QNH%04d" % r.randint(900, 1060), "%04dINS" % r.randint(2600, 3150)])
    if k < .88:
        return "%04d" % r.choice([r.randint(900, 1085), 2499, 2500, 2501, r.randint(2600, 3150)])
    return r.choice(["Q////", "A////", "////", "QNH////"])


def recent(r):
    k = r.random()
    d = r.choice(DESC)
    if k < .5:
        return "RE" + d + r.choice(PREC)
    if k < .7:
        return "RE" + d + r.choice([o for o in OBSC if o != "FU"])
    if k < .85:
        return "RE" + d + r.choice(OTHER[:-1])
    if k < .95:
        return "RE" + d + r.choice(PREC) + r.choice(["", "BR", "VA"]) + r.choice(["", "SQ"])
    return "RE" + (d or "TS")


def windshear(r):
    """tokens"""
    if r.random() < .2:
        return ["WS", "ALL", "RWY"]
    return ["WS", r.choice(["R", "RWY"]) + "%02d" % r.randrange(1, 37) + r.choice(["", "L", "R", "C"])]


def sea(r):
    return "W" + r.choice(["", "", "M"]) + "%02d" % r.choice([0, r.randrange(40), r.randrange(100)]) + "/" + \
        r.choice(["S%d" % r.randrange(10), "H%03d" % r.choice([0, r.randrange(150), r.randrange(1000)])])


def runway_state(r):
    n = r.choice(["", runway(r), runway(r), runway(r)])
    k = r.random()
    if k < .08:
        return "R" + n + "/SNOCLO"
    if k < .18:
        return "R" + n + "/CLRD//"
    dep = r.choice("0123456789/")
    ext = r.choice("0123456789/")
    depth = r.choice(["%02d" % r.randrange(100), "//", "00", "9%d" % r.randrange(10)])
    fric = r.choice(["%02d" % r.randrange(100), "//", "9%d" % r.randrange(10)])
    return "R" + n + "/" + dep + ext + depth + fric


def station(r):
    if r.random() < .6:
        return r.choice(SOME_STATIONS)
    a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    while True:
        s = r.choice(a) + "".join(r.choice(a + "0123456789") for _ in range(3))
        if s not in ("AUTO", "TEST", "FINO", "CORR", "METAR", "TEMPO", "PROB"):
            return s


NOISE = ["ABC", "XX1YY", "FOO123", "$", "?", "12345", "Q99", "A29", "9999X", "24010KX", "BKN01",
         "FEW0100", "RMA", "WIND", "SLP123", "LAST", "NOSPECI", "T01230045", "8/123", "CAVOKK",
         "R07", "W1/S2", "TX12", "KT", "MPS24010", "240V", "BECM", "TEMP", "RERAX", "M5", "1/2",
         "//", "+", "é", "METARS", "XCAVOK", "VRB", "0VC", "S3"]


EXOTIC = ["\ufeff", "\u200b", "\u00ad", "\0", "\x7f", "\x01", "\u0301", "\U0001f327", "\ud800", "\u202e", "\ufffd",
          "\u0661", "\uff11", "\u0130", "\u00df", "\u00b2", "\\", "'", '"', "%s", "{}", "\x1b[0m",
          "\u00b0", "\u2212", "\u2013"]


def noise(r):
    """A token that no element of any section can match and that cannot merge
    with a neighbour."""
    k = r.random()
    if k < .6:
        t = r.choice(NOISE)
    elif k < .63:                                   # what no keyboard has
        a = r.choice(EXOTIC)
        t = r.choice([a, "A" + a + "B", a + "X1", "XX" + a])
    else:
        a = "ABCDEFGHJKLXYZ0123456789/?*#@!;:,.()"
        t = "".join(r.choice(a) for _ in range(r.randint(1, 9)))
    return t


def safe_noise(r, refmod):
    """noise() filtered with the reference grammar."""
    while True:
        t = noise(r)
        if refmod.is_noise(t):
            return t


# -------------------------------------------------------------------- dates
def instant(r):
    k = r.random()
    y = r.choice([2019, 2020, 2021, 2022, 2023, 2024, 2000, 1999, 2100, r.randint(1950, 2150)])
    if r.random() < .03:                            # far from the present
        y = r.choice([r.randint(2, 999), r.randint(1000, 1900), r.randint(2200, 9996), 4, 400, 999, 9996])
    if k < .35:
        m = r.choice([1, 2, 2, 3, 4, 11, 12, 12, r.randint(1, 12)])
        last = calendar.monthrange(y, m)[1]
        d = r.choice([1, last, last, last - 1, last - 2])
    else:
        m = r.randint(1, 12)
        d = r.randint(1, calendar.monthrange(y, m)[1])
    h = r.choice([0, 23, 22, 12, r.randrange(24), r.randrange(24), r.randrange(24)])
    mi = r.choice([0, 30, 59, 15, 40, r.randrange(60), r.randrange(60)])
    return datetime(y, m, d, h, mi)


def ddhhmmz(t):
    return t.strftime("%d%H%MZ")


# ------------------------------------------------------------------ sections
def stamp(r, t):
    """the report time, where the midnight may be the hour 24 of the day before"""
    if t.hour == 0 and t.day > 1 and r.random() < .1:
        return "%02d24%02dZ" % (t.day - 1, t.minute)
    return ddhhmmz(t)


def conditions(r, taf=False, change=False, full=.5, vis_p=.75):
    """tokens of wind, visibility, weather and clouds"""
    out = []
    if r.random() < .75:
        out.append(wind(r, taf))
    v = []
    if r.random() < vis_p:
        v = visibility(r, slashes=not taf or change)
        out += v
    if r.random() < full:
        out += [weather(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < .7:
        out += [cloud(r) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    return out


def metar_body(r, p=.5):
    out = []
    if r.random() < .85:
        out.append(wind(r))
    if r.random() < p * .5:
        out.append(variation(r))
    if r.random() < .9:
        out += visibility(r)
        if r.random() < .25:
            out.append(minvis(r))
    if r.random() < p * .6:
        out += [rvr(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < p:
        out += [weather(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < .8:
        out += [cloud(r) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    if r.random() < .8:
        out.append(temps(r))
    if r.random() < .8:
        out.append(pressure(r))
        if r.random() < .15:
            out.append(pressure(r))
    if r.random() < p * .5:
        out.append(recent(r))
    if r.random() < p * .5:
        for _ in range(r.choice([1, 1, 2, 3])):
            out += windshear(r)
    if r.random() < p * .4:
        out.append(sea(r))
    if r.random() < p * .4:
        out.append(runway_state(r))
    return out


def trend_periods(r, t):
    """FM/TL/AT groups within the two hours from t."""
    k = r.random()

    def g(prefix, x):
        hh = x.strftime("%H%M")
        if hh == "0000" and prefix != "FM" and r.random() < .6:
            hh = "2400"
        return prefix + hh
    a = t + timedelta(minutes=r.choice([0, 1, 60, 119, 120, r.randint(0, 120), r.randint(0, 120)]))
    b = t + timedelta(minutes=r.choice([0, 59, 60, 61, 120, r.randint(0, 120), r.randint(0, 120)]))
    if (r.random() < .3) and t.hour >= 22:
        a = b = datetime(t.year, t.month, t.day) + timedelta(days=1)
        if not t <= a <= t + timedelta(hours=2):
            a = b = t
    if r.random() < .85:
        a, b = min(a, b), max(a, b)
    # a time two hours after a full-hour start is ambiguous by nothing: keep all
    if k < .3:
        return []
    if k < .5:
        return [g("FM", a), g("TL", b)]
    if k < .65:
        return [g("FM", a)]
    if k < .8:
        return [g("TL", b)]
    return [g("AT", a)]


def trend_tokens(r, t):
    n = r.choice([0, 1, 1, 2])
    if n == 0:
        return ["NOSIG"] if r.random() < .5 else []
    out = []
    for i in range(n):
        ind = r.choice(["TEMPO", "BECMG"])
        body = conditions(r)
        if i == 1 and not body:
            body = ["9999"]
        out += [ind] + trend_periods(r, t) + body
    if n == 1 and r.random() < .15 and len(out) > 1:
        out = ["NOSIG"] + out
    return out


REMARKS = ["AO2", "SLP134", "T02330178", "VEL", "MAX", "VTO", "25KT", "10205", "9999", "BKN020",
           "P0001", "8/1//", "$", "Q1013", "24010KT", "CAVOK", "12/08"]


def header(r, t, typ=None):
    out = [typ or r.choice(["METAR", "METAR", "SPECI"]), station(r), stamp(r, t)]
    if r.random() < .2:
        out.append(r.choice(["COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO"]))
    return out


def metar(r, t=None, trends=True):
    t = t or instant(r)
    out = header(r, t) + metar_body(r)
    if trends:
        out += trend_tokens(r, t)
    if r.random() < .25:
        out += ["RMK"] + [r.choice(REMARKS) for _ in range(r.randrange(5))]
    return dict(k="metar", t=" ".join(out), y=t.year, m=t.month)


def ddhh(t, until=False, r=None):
    if until and t.hour == 0 and (r is None or r.random() < .8):
        y = t - timedelta(days=1)
        return y.strftime("%d") + "24"
    return t.strftime("%d%H")


def change_tokens(r, kind, a, b):
    """indicator tokens of a change from a until b"""
    if kind == "FM":
        return ["FM" + a.strftime("%d%H%M")]
    return kind.split() + [ddhh(a) + "/" + ddhh(b, True, r)]


def taf(r, t=None, maxchanges=8):
    t = t or instant(r)
    v0 = t.replace(minute=0) + timedelta(hours=r.choice([0, 1, 1, 1, 2, 6, r.randint(0, 30)]))
    length = r.choice([6, 9, 12, 24, 24, 30, 30, 36, r.randint(1, 72)])
    v1 = v0 + timedelta(hours=length)
    out = ["TAF"] if r.random() < .95 else []
    if r.random() < .2:
        out.append(r.choice(["AMD", "COR"]))
    out += [station(r), stamp(r, t)]
    facts = dict(issue=str(t), valid=[str(v0), str(v1)])
    if r.random() < .03:
        out.append("NIL")
        return dict(k="taf", t=" ".join(out), y=t.year, m=t.month)
    out.append(ddhh(v0) + "/" + ddhh(v1, True, r))
    if r.random() < .04:
        out.append("CNL")
    out += conditions(r, taf=True)
    nt = r.choice([0, 0, 1, 2, 2, 3, 4])
    kinds = ["X", "N", "X", "N"][:nt] if r.random() < .6 else ["N", "X", "N", "X"][:nt]
    if nt and r.random() < .1:
        kinds = ["X", "X", "N", "N"][:nt]
    for kd in kinds:
        x = v0 + timedelta(hours=r.randint(0, length))
        out.append("T%s%s%02d/%sZ" % (kd, r.choice(["", "", "M"]), r.choice(
            [0, 1, r.randrange(60), r.randrange(60), r.randrange(60), r.randrange(100)]), x.strftime("%d%H")))
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 8])
    n = min(n, maxchanges)
    marks = sorted(r.randint(0, length * 60) for _ in range(n))
    for i in range(n):
        kind = r.choice(["FM", "FM", "BECMG", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"])
        a = v0 + timedelta(minutes=marks[i])
        if kind != "FM":
            a = a.replace(minute=0)
            b = min(a + timedelta(hours=r.choice([1, 2, 2, 4, 6, r.randint(0, 30)])), max(v1, a))
        else:
            b = None
        out += change_tokens(r, kind, a, b) + conditions(r, taf=True, change=True)
    return dict(k="taf", t=" ".join(out), y=t.year, m=t.month)


def any_report(r):
    return metar(r) if r.random() < .55 else taf(r)


# ------------------------------------------------------------------ mutation
def pool(r):
    """any single token of any kind"""
    return r.choice([
        lambda: wind(r), lambda: variation(r), lambda: visibility(r)[0], lambda: minvis(r),
        lambda: rvr(r), lambda: weather(r), lambda: cloud(r), lambda: temps(r), lambda: pressure(r),
        lambda: recent(r), lambda: sea(r), lambda: runway_state(r), lambda: station(r),
        lambda: r.choice(["METAR", "SPECI", "TAF", "COR", "AMD", "NIL", "CNL", "AUTO", "CAVOK"]),
        lambda: ddhhmmz(instant(r)), lambda: noise(r), lambda: "%02d%02d/%02d%02d" % (
            r.randint(1, 31), r.randrange(24), r.randint(1, 31), r.randrange(25)),
        lambda: "T%s%02d/%02d%02dZ" % (r.choice("XN"), r.randrange(50), r.randint(1, 31), r.randrange(24)),
    ])()


def mutate(r, text, n=None, keywords=False):
    toks = text.split()
    for _ in range(n or r.choice([1, 1, 2, 3, 5])):
        k = r.random()
        i = r.randrange(len(toks) + 1)
        if k < .25 and toks:
            del toks[min(i, len(toks) - 1)]
        elif k < .5:
            toks.insert(i, pool(r))
        elif k < .65 and toks:
            toks.insert(i, r.choice(toks))
        elif k < .8 and len(toks) > 1:
            j = r.randrange(len(toks))
            i = min(i, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif k < .92 and toks:
            i = min(i, len(toks) - 1)
            w = toks[i]
            j = r.randrange(len(w) + 1)
            c = r.choice("0123456789/MPVKTSRQAXZ+-")
            toks[i] = r.choice([w[:j] + c + w[j:], w[:j] + w[j + 1:], w[:j] + c + w[j + 1:]]) or "X"
        elif keywords:
            toks.insert(i, r.choice(["TEMPO", "BECMG", "NOSIG", "RMK", "FM121200", "PROB30", "PROB40",
                                     "PROB50", "FM0100", "WS", "RWY", "ALL", "1", "1/2SM", "R07L"]))
    return " ".join(toks) or "X"
