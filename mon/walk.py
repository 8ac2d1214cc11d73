"""Generic observation of a report: every public attribute, query, dictionary, JSON,
text, length and iteration of the report and of all elements reachable from it.
The attributes are found by introspection, so that new ones are observed too."""
import inspect
from datetime import date, datetime, timedelta

PLAIN = (str, int, float, bool, type(None), bytes, datetime, date, timedelta)
_CACHE = {}


def reads(cls):
    """Names of the argument-free public reads of a library class."""
    if cls not in _CACHE:
        props, calls = [], []
        for n in dir(cls):
            if n.startswith("_"):
                continue
            a = inspect.getattr_static(cls, n)
            if isinstance(a, property) or type(a).__name__ == "cached_property":
                props.append(n)
            elif callable(a) and not isinstance(a, (type, staticmethod, classmethod)):
                ps = list(inspect.signature(a).parameters.values())[1:]
                if all(p.default is not p.empty or p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL) for p in ps):
                    calls.append(n)
        _CACHE[cls] = (props, calls)
    return _CACHE[cls]


def is_lib(o):
    return type(o).__module__.split(".")[0] == "aeromet_py"


def observe(o, depth=0, seen=None):
    """Plain nested data describing everything public about `o`."""
    if isinstance(o, PLAIN):
        return o
    if depth > 12:
        return "..."
    if isinstance(o, dict):
        return {str(k): observe(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [observe(v, depth + 1) for v in o]
    if not is_lib(o):
        return repr(o)
    d = {"class": type(o).__name__, "str": str(o)}
    props, calls = reads(type(o))
    for n in props:
        d[n] = observe(getattr(o, n), depth + 1)
    for n in calls:
        d[n + "()"] = observe(getattr(o, n)(), depth + 1)
    if hasattr(type(o), "__len__"):
        d["len"] = len(o)
    if hasattr(type(o), "__iter__"):
        d["iter"] = [observe(v, depth + 1) for v in o]
    return d


def count(d):
    if isinstance(d, dict):
        return sum(map(count, d.values())) + 1
    if isinstance(d, list):
        return sum(map(count, d)) + 1
    return 1


def differ(a, b, path=""):
    """Path of the first difference of two observations, or None."""
    if type(a) is not type(b):
        return f"{path}: {a!r} / {b!r}"
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}.{k} only in one"
            m = differ(a[k], b[k], f"{path}.{k}")
            if m:
                return m
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} items: {str(a)[:150]} / {str(b)[:150]}"
        for i, (u, v) in enumerate(zip(a, b)):
            m = differ(u, v, f"{path}[{i}]")
            if m:
                return m
        return None
    return None if a == b or a != a and b != b else f"{path}: {str(a)[:200]!r} / {str(b)[:200]!r}"


def digest(d):
    import hashlib
    import json
    return hashlib.blake2b(json.dumps(d, default=str, sort_keys=True).encode("utf-8", "replace"),
                           digest_size=12).hexdigest()
