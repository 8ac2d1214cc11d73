"""What a report shows through its public attributes, as plain data.

The structure mirrors that of mon/ref.py so that both can be compared.
"""
from datetime import datetime, timedelta

FT = 0.3048


def wind(w):
    return dict(code=w.code, deg=w.direction_in_degrees, var=w.variable, card=w.cardinal_direction,
                kt=w.speed_in_knot, gust=w.gust_in_knot)


def vis(v):
    return dict(code=v.code, m=v.in_meters, deg=v.direction_in_degrees,
                card=v.cardinal_direction, cavok=v.cavok)


def minvis(v):
    return dict(code=v.code, m=v.in_meters, deg=v.direction_in_degrees, card=v.cardinal_direction)


def variation(v):
    return dict(code=v.code, from_=v.from_in_degrees, to=v.to_in_degrees,
                fcard=v.from_cardinal_direction, tcard=v.to_cardinal_direction)


def wx(w):
    return dict(code=w.code, int=w.intensity, desc=w.description, prec=w.precipitation,
                obsc=w.obscuration, other=w.other)


def recent(w):
    return dict(code=w.code, desc=w.description, prec=w.precipitation, obsc=w.obscuration,
                other=w.other)


def cloud(c):
    return dict(code=c.code, cover=c.cover, oktas=c.oktas, type=c.cloud_type, ft=c.height_in_feet)


def rvr(r):
    def q(text, dist):
        # the qualifier is only visible in the text of the range
        for k in ("below of", "above of"):
            if text.startswith(k):
                return k
        return None
    return dict(code=r.code, name=r.name, low=r.low_in_meters, lowq=q(r.low_range, r.low_in_meters),
                high=r.high_in_meters, highq=q(r.high_range, r.high_in_meters), trend=r.trend)


def temps(t):
    return dict(code=t.code, t=t.temperature_in_celsius, d=t.dewpoint_in_celsius)


def pressure(p):
    return dict(code=p.code, hpa=p.in_hPa)


def windshear(w):
    return dict(code=w.code, name=w.name, all=w.all_)


def sea(s):
    return dict(code=s.code, t=s.temperature_in_celsius, state=s.state, h=s.height_in_meters)


def state(s):
    return dict(code=s.code, name=s.name, deposits=s.deposits, extent=s.contamination,
                depth=s.deposits_depth, friction=s.surface_friction, snoclo=s.snoclo, clrd=s.clrd)


def station(s):
    return dict(code=s.code, name=s.name, icao=s.icao, iata=s.iata, synop=s.synop,
                lat=s.latitude, lon=s.longitude, elev=s.elevation, country=s.country)


def time(t):
    d = t.time
    if (t.year, t.month, t.day, t.hour, t.minute) != (d.year, d.month, d.day, d.hour, d.minute):
        return dict(code=t.code, t="accessors disagree with " + str(d))
    return dict(code=t.code, t=d)


COND = {
    "wind": lambda x: wind(x.wind),
    "vis": lambda x: vis(x.prevailing_visibility),
    "wx": lambda x: [wx(x.weathers[i]) for i in range(len(x.weathers))],
    "clouds": lambda x: [cloud(x.clouds[i]) for i in range(len(x.clouds))],
    "fr": lambda x: x.flight_rules,
    "scavok": lambda x: x.should_be_cavok(),
    "ceiling": lambda x: x.clouds.ceiling,
    "unparsed": lambda x: list(x.unparsed_groups),
}


def valid(v):
    return dict(code=v.code, from_=v.period_from.time, until=v.period_until.time,
                duration=v.duration)


def taf_temp(t):
    return dict(code=t.code, t=t.in_celsius, at=t.time.time)


def trend_ind(t):
    i = t.trend_indicator
    return dict(code=i.code, meaning=i.translation, init=i.forecast_period[0].time,
                end=i.forecast_period[1].time, from_=i.period_from.time,
                until=i.period_until.time, at=i.period_at.time if i.period_at else None)


def change_ind(c):
    i = c.change_indicator
    return dict(code=i.code, meaning=i.translation, valid=valid(i.valid))


def part(x, indicator, want=None):
    d = {k: f(x) for k, f in COND.items() if want is None or k in want}
    if want is None or "code" in want:
        d["code"] = x.code
    if want is None or "ind" in want:
        d["ind"] = indicator(x)
    return d


BODY = dict(COND, **{
    "raw": lambda r: r.raw_code, "sections": lambda r: list(r.sections),
    "type": lambda r: (r.type_.code, r.type_.type_), "station": lambda r: station(r.station),
    "time": lambda r: time(r.time), "modifier": lambda r: (r.modifier.code, r.modifier.description),
    "body": lambda r: r.body,
})
METAR = dict(BODY, **{
    "variation": lambda r: variation(r.wind_variation),
    "minvis": lambda r: minvis(r.minimum_visibility),
    "rvr": lambda r: [rvr(x) for x in r.runway_ranges.items],
    "temps": lambda r: temps(r.temperatures),
    "pressure": lambda r: pressure(r.pressure),
    "recent": lambda r: recent(r.recent_weather),
    "windshear": lambda r: [windshear(x) for x in r.windshears.items],
    "ws_names": lambda r: list(r.windshears.names),
    "ws_all": lambda r: r.windshears.all_runways,
    "sea": lambda r: sea(r.sea_state), "state": lambda r: state(r.runway_state),
    "trend": lambda r: r.trend, "remark": lambda r: r.remark,
})
TAF = dict(BODY, **{
    "missing": lambda r: (r.missing.code, r.missing.is_missing, r.missing.description),
    "cancelled": lambda r: (r.cancelled.code, r.cancelled.is_cancelled),
    "valid": lambda r: valid(r.valid),
    "max": lambda r: [taf_temp(t) for t in r.max_temperatures.items],
    "min": lambda r: [taf_temp(t) for t in r.min_temperatures.items],
    "weather_changes": lambda r: r.weather_changes,
})


def report(r, kind, want=None, inner=None):
    """`want`: keys of the body, `inner`: keys of the trends or changes."""
    d = {k: f(r) for k, f in (METAR if kind == "metar" else TAF).items()
         if want is None or k in want}
    d["kind"] = kind
    if inner is None or inner:
        if kind == "metar":
            d["trends"] = [part(t, trend_ind, inner) for t in r.weather_trends.items]
        else:
            d["changes"] = [part(c, change_ind, inner) for c in r.changes_forecasted.items]
    return d


# --------------------------------------------------------------------------
def same(a, b, path="", tol=3e-6):
    """None if equal, else a message.  `a` expected, `b` observed."""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b else f"{path}: expected {a!r}, got {b!r}"
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-7:
                return None
        return f"{path}: expected {a!r}, got {b!r}"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k.startswith("_"):
                continue
            if k not in b:
                return f"{path}.{k}: missing"
            m = same(a[k], b[k], f"{path}.{k}", tol)
            if m:
                return m
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: expected {len(a)} items {brief(a)}, got {len(b)} {brief(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            m = same(x, y, f"{path}[{i}]", tol)
            if m:
                return m
        return None
    return None if a == b and type(a) is type(b) else f"{path}: expected {a!r}, got {b!r}"


def brief(x):
    s = repr([i.get("code", i) if isinstance(i, dict) else i for i in x])
    return s if len(s) < 200 else s[:200] + "..."


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (datetime, timedelta)):
        return str(x)
    return x
