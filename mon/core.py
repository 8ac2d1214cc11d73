"""Shared by the monitors: verdicts, the context a case is judged in, shrinking."""
import collections
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time

from . import gen, ref, view

REPO = os.environ.get("VERIF_REPO", "/repo")


class Bad(Exception):
    """The observed behaviour contradicts the property."""

    def __init__(self, msg, mech=None):
        super().__init__(msg)
        self.mech = mech


class Skip(Exception):
    """The case is outside what this property speaks about."""


class Hang(BaseException):
    pass


class Watchdog:
    """CPU-time limit of one case (virtual timer: load on the machine does not count)."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, self.fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s, 1)

    def fire(self, *a):
        raise Hang()

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def load():
    """The library, imported from the working tree."""
    sys.path.insert(0, REPO)
    import aeromet_py
    from aeromet_py import Metar, Taf
    where = os.path.realpath(aeromet_py.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("inconclusive: aeromet_py was imported from " + where)
    return Metar, Taf


def is_a(e, name):
    """Whether the exception is of the library's class of that name."""
    return any(c.__name__ == name for c in type(e).__mro__)


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.Metar, self.Taf = load()
        self.hits = collections.Counter()
        self.keys = set()
        self.samples = []
        self.sets = collections.defaultdict(set)    # distinct observations, merged over the workers
        self.quiet = False

    # ----------------------------------------------------------- recording
    def hit(self, k, n=1):
        if not self.quiet:
            self.hits[k] += n

    def distinct(self, k, value):
        if not self.quiet:
            self.sets[k].add(str(value))

    def nontrivial(self, key):
        if not self.quiet:
            self.keys.add(int.from_bytes(hashlib.blake2b(repr(key).encode("utf-8", "replace"),
                                                         digest_size=7).digest(), "big"))

    def sample(self, x):
        if not self.quiet and len(self.samples) < 3:
            self.samples.append(x)

    # ---------------------------------------------------------- observation
    def new(self, c, **kw):
        return (self.Metar if c["k"] == "metar" else self.Taf)(c["t"], c["y"], c["m"], **kw)

    def build(self, c, strict=True, **kw):
        """The report of a case.  `strict`: the case is in the documented domain,
        so every exception contradicts the property."""
        try:
            return self.new(c, **kw)
        except Exception as e:
            if not strict or (is_a(e, "ParserError") and kw.get("truncate")):
                raise Skip()
            raise Bad(f"constructing the report raised {type(e).__name__}: {e}")

    def read(self, f, what):
        try:
            return f()
        except Bad:
            raise
        except Exception as e:
            raise Bad(f"reading {what} raised {type(e).__name__}: {e}")


def expected(c):
    try:
        return ref.decode(c["k"], c["t"], c["y"], c["m"])
    except ref.OutOfDomain:
        return None


def adapt(e, kind):
    """The reference's expectation in the shape of the view."""
    e = dict(e)
    e["type"] = (e["type"], ref.TYPES[e["type"]])
    e["modifier"] = (e["modifier"], ref.MODIFIERS[e["modifier"]] if e["modifier"] else None)
    e.pop("station", None)
    if kind == "metar":
        e["ws_all"] = len(e["windshear"]) == 1 and e["windshear"][0]["all"]
        e["ws_names"] = [] if e["ws_all"] else [w["name"] for w in e["windshear"] if w["name"] is not None]
        e["body"], e["trend"], e["remark"] = e["sections"]
    else:
        e["missing"] = (e["missing"], e["missing"] is not None,
                        "Missing report" if e["missing"] else None)
        e["cancelled"] = (e["cancelled"], e["cancelled"] is not None)
        e["body"], e["weather_changes"] = e["sections"]
        e["valid"] = dict(e["valid"], duration=e["valid"]["until"] - e["valid"]["from_"])
    return e


def pick(e, want, inner):
    d = {k: v for k, v in e.items() if k in want}
    for k in ("trends", "changes"):
        if k in e and inner:
            d[k] = [{kk: vv for kk, vv in t.items() if kk in inner} for t in e[k]]
    return d


def compare(x, c, want, inner, e=None, rep=None):
    """Differential monitor: selected observations of the report against the
    reference decoder.  Returns (expected, observed, report)."""
    e = e or expected(c)
    if e is None:
        raise Skip()
    rep = rep if rep is not None else x.build(c)
    o = x.read(lambda: view.report(rep, c["k"], want, inner), "the report")
    a = adapt(e, c["k"])
    m = view.same(pick(a, want, inner), o)
    if m:
        raise Bad("differs from the reference: " + m.lstrip("."))
    return a, o, rep


def count_obs(x, o):
    """How many elements the monitor really saw."""
    for k, v in o.items():
        if k == "kind":
            x.hit("reports_" + v)
        elif k in ("trends", "changes"):
            x.hit(k + "_seen", len(v))
            for t in v:
                count_obs(x, {kk: vv for kk, vv in t.items() if kk != "code"})
        elif isinstance(v, list):
            x.hit(k + "_seen", len(v))
        elif isinstance(v, dict):
            x.hit(k + "_seen", v.get("code") is not None)
        elif v is not None:
            x.hit(k + "_seen")


# ------------------------------------------------------------------ properties
REGISTRY = {}


class Prop:
    pid = None
    rule = ""
    need = {}          # counter -> minimum on the quick tier, else inconclusive
    shards = 8
    case_cpu = 20      # seconds of CPU per case
    assumptions = ["A report that makes the property's monitor skip a case (outside the documented "
                   "domain of the reference decoder) is counted as skipped, not as held."]
    domain_hang = True

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        if cls.pid:
            REGISTRY[cls.pid] = cls

    def cases(self, r, tier, shard, n):
        raise NotImplementedError

    def judge(self, c, x):
        raise NotImplementedError

    def setup(self, x):
        pass

    def finish(self, x):
        pass


def sliced(it, shard, n):
    for i, c in enumerate(it):
        if i % n == shard:
            yield c


@contextlib.contextmanager
def zone(tz):
    """Runs under a local time zone."""
    if not tz:
        yield
        return
    old = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def run_judge(p, c, x, limit=None):
    """(verdict, message): verdict in held, skipped, bad"""
    limit = limit or c.get("cpu") or p.case_cpu
    try:
        with Watchdog(limit), zone(c.get("zone")):
            p.judge(c, x)
        return "held", None
    except Skip:
        return "skipped", None
    except Bad as b:
        return "bad", (str(b), b.mech)
    except Hang as h:
        return "bad", (str(h) or f"no result after {limit} s of CPU time", "hang")
    except RecursionError:
        return "bad", ("RecursionError", None)
    except MemoryError:
        return "bad", ("MemoryError", None)
    except (OSError, ImportError, EOFError):
        raise                                       # the environment, not the library
    except Exception as e:
        # what is documented could not be observed: never happens on a report that has all of it
        t = e.__traceback__
        while t.tb_next:
            t = t.tb_next
        return "bad", (f"observing the report raised {type(e).__name__}: {e} "
                       f"(in {os.path.basename(t.tb_frame.f_code.co_filename)})", None)


def shrink(p, c, x, budget=250):
    """Remove groups from the text while the case still fails."""
    if "t" not in c or c.get("fixed") or "facts" in c:
        return c
    x.quiet = True
    end = time.process_time() + 40
    try:
        best, changed = c, True
        while changed and budget > 0:
            changed = False
            toks = best["t"].split()
            size = max(1, len(toks) // 2)
            while size >= 1 and budget > 0:
                i = 0
                while i < len(toks) and budget > 0:
                    if time.process_time() > end:
                        return best
                    t = toks[:i] + toks[i + size:]
                    if t:
                        budget -= 1
                        cc = dict(best, t=" ".join(t))
                        try:
                            v = run_judge(p, cc, x, min(p.case_cpu, 5))[0]
                        except Exception:
                            v = "error"
                        if v == "bad":
                            best, toks, changed = cc, t, True
                            continue
                    i += size
                size //= 2
        return best
    finally:
        x.quiet = False


def rng(seed, *parts):
    return random.Random("/".join(map(str, (seed,) + parts)))
