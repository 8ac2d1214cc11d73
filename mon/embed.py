"""Puts the groups of one element into every section where it can be reported."""
from datetime import timedelta

from . import gen

BODY = ["wind", "variation", "vis", "minvis", "rvr", "wx", "clouds", "temps", "pressure",
        "recent", "windshear", "sea", "state"]
PART = ["wind", "vis", "wx", "clouds"]


def some(r, slot, taf=False):
    n = r.choice([1, 1, 2, 3])
    return {
        "wind": lambda: [gen.wind(r, taf)], "variation": lambda: [gen.variation(r)],
        "vis": lambda: gen.visibility(r, slashes=not taf), "minvis": lambda: [gen.minvis(r)],
        "rvr": lambda: [gen.rvr(r) for _ in range(n)],
        "wx": lambda: [gen.weather(r) for _ in range(n)],
        "clouds": lambda: [gen.cloud(r) for _ in range(r.choice([1, 2, 3, 4]))],
        "temps": lambda: [gen.temps(r)], "pressure": lambda: [gen.pressure(r)],
        "recent": lambda: [gen.recent(r)],
        "windshear": lambda: [t for _ in range(n) for t in gen.windshear(r)],
        "sea": lambda: [gen.sea(r)], "state": lambda: [gen.runway_state(r)],
    }[slot]()


def fill(r, order, given, p, taf=False):
    """Groups of a section in order: the given ones, others with probability p."""
    out = []
    for s in order:
        if s in given:
            out += given[s]
        elif r.random() < p and not (s == "minvis" and "vis" not in given and p < 1):
            out += some(r, s, taf)
    return out


def section(r, where, given, p=.3):
    """A report with the given groups in the section `where`."""
    t = gen.instant(r)
    y, m = t.year, t.month
    if where == "metar":
        if p == 0:
            return dict(k="metar", t="METAR " + " ".join(fill(r, BODY, given, 0)), y=y, m=m)
        toks = gen.header(r, t) + fill(r, BODY, given, p)
        if r.random() < p:
            toks += gen.trend_tokens(r, t)
        return dict(k="metar", t=" ".join(toks), y=y, m=m)
    if where in ("trend", "trend2"):
        head = ["METAR"] if p == 0 else gen.header(r, t) + fill(r, BODY, {}, p)
        if p == 0:
            head.append(gen.ddhhmmz(t))
        body = fill(r, PART, given, p)
        ind = [r.choice(["TEMPO", "BECMG"])]
        per = gen.trend_periods(r, t) if p else []
        if where == "trend2":
            head += [r.choice(["TEMPO", "BECMG"])] + gen.conditions(r)
        toks = head + ind + per + (body or ["9999"])
        if where == "trend" and r.random() < p * .5:
            toks += [r.choice(["TEMPO", "BECMG"])] + (gen.conditions(r) or ["NSC"])
        return dict(k="metar", t=" ".join(toks), y=y, m=m)
    v0 = t.replace(minute=0) + timedelta(hours=1)
    v1 = v0 + timedelta(hours=r.choice([9, 24, 30]))
    head = ["TAF"] if p == 0 else ["TAF", gen.station(r)]
    head += [gen.ddhhmmz(t), gen.ddhh(v0) + "/" + gen.ddhh(v1, True)]
    if where == "taf":
        toks = head + fill(r, PART, given, p, True)
        if r.random() < p:
            toks += gen.change_tokens(r, "TEMPO", v0, v1) + gen.conditions(r, True, True)
        return dict(k="taf", t=" ".join(toks), y=y, m=m)
    toks = head + fill(r, PART, {}, p, True)
    kinds = ["FM", "BECMG", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"]
    before = r.choice([0, 0, 1, 2]) if p else 0
    for i in range(before):
        toks += gen.change_tokens(r, r.choice(kinds), v0, v0 + timedelta(hours=1)) + \
            gen.conditions(r, True, True)
    a = v0 + timedelta(hours=1)
    toks += gen.change_tokens(r, r.choice(kinds), a, a + timedelta(hours=2))
    toks += fill(r, PART, given, p, True)
    if r.random() < p:
        toks += gen.change_tokens(r, r.choice(kinds), a, a + timedelta(hours=2)) + \
            gen.conditions(r, True, True)
    return dict(k="taf", t=" ".join(toks), y=y, m=m)


EVERYWHERE = ["metar", "trend", "trend2", "taf", "change"]
