"""C23, C24, C29: other reports, threads, processes, the host process, the catalogue."""
import atexit
import contextvars
import copyreg
import decimal
import faulthandler
import gc
import gzip
import json
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import string
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings
from collections import Counter

from .. import core, embed, gen, walk
from .common import corpus_case, reports


def outcome(x, c):
    """Everything observable of a case, or the exception."""
    try:
        r = x.new(c)
    except Exception as e:
        return None, type(e).__name__ + ": " + str(e)
    return r, walk.observe(r)


def mixed(r, n):
    """Texts that share groups, stations and sections, so that shared state would show."""
    base = list(reports(r, n))
    out = []
    for c in base:
        out.append(c)
        if r.random() < .25:
            out.append(dict(c))                                   # the same again
        if r.random() < .25:
            out.append(dict(c, y=r.randint(1990, 2030), m=r.randint(1, 12)))
        if r.random() < .25:
            out.append(dict(c, t=gen.mutate(r, c["t"])))
        if r.random() < .15:
            out.append(dict(c, k="taf" if c["k"] == "metar" else "metar"))
        if r.random() < .1:
            out.append(dict(c, t=c["t"].split()[0]))              # almost empty
    r.shuffle(out)
    return out


class C23(core.Prop):
    pid = "C23"
    rule = """batches of related random, real and mutated reports: parsed in several orders with all of
    them alive, with the lists and dictionaries of other reports mutated by the caller in between; parsed
    and read by 8 threads that also share reports, with a tiny switch interval and yields injected at
    random lines of the library; parsed in other processes with other hash seeds and optimisation
    modes, in another order and alone.  Everything observable must equal the first observation.
    Non-trivial: a report was compared with another history; distinct by text and year."""
    need = {"order_comparisons": 5000, "mutations": 3000, "after_mutation": 3000, "thread_comparisons": 5000,
            "shared_reads": 500, "thread_switches": 20000, "distinct_switch_points": 1000,
            "process_comparisons": 2000, "alone": 12, "processes": 30}
    case_cpu = 240

    def cases(self, r, tier, shard, n):
        q = tier == "quick"
        for i in range(8 if q else 220):
            yield dict(mode="order", seed=r.randrange(1 << 30), n=45)
        for i in range(2 if q else 80):
            yield dict(mode="threads", seed=r.randrange(1 << 30), n=24)
        for i in range(1 if q else 25):
            yield dict(mode="processes", seed=r.randrange(1 << 30), n=60)

    def judge(self, c, x):
        r = core.rng(c["seed"])
        cs = mixed(r, c["n"])
        if c["mode"] == "processes":         # also every kind of element in every section
            for w in embed.EVERYWHERE:
                for s in embed.BODY:
                    if w == "metar" or s in embed.PART:
                        cs += [embed.section(r, w, {s: embed.some(r, s)}, r.choice([0, .3])) for _ in range(6)]
            cs += [gen.taf(r) for _ in range(60)]
        getattr(self, c["mode"])(r, cs, x)
        x.sample(dict(c, first=cs[0]["t"]))

    def same(self, c, a, b, how):
        m = walk.differ(a, b, "report")
        if m:
            raise core.Bad(f"{c['t']!r} ({c['k']}, {c['y']}, {c['m']}) {how}: {m}")

    def order(self, r, cs, x):
        alive, first = [], []
        for c in cs:
            rep, o = outcome(x, c)
            alive.append(rep)
            first.append(o)
        keep = list(alive)
        for how in ("in another order", "again"):
            idx = list(range(len(cs)))
            r.shuffle(idx)
            for i in idx:
                rep, o = outcome(x, cs[i])
                keep.append(rep)
                self.same(cs[i], first[i], o, how)
                x.hit("order_comparisons")
                x.nontrivial((cs[i]["t"], cs[i]["y"], cs[i]["m"]))
                if r.random() < .1:
                    del keep[r.randrange(len(keep))]
                    if r.random() < .1:
                        gc.collect()
        for i, rep in enumerate(alive):
            if rep is not None:
                self.same(cs[i], first[i], walk.observe(rep), "after parsing others")
                x.hit("order_comparisons")
        # the caller changes what it got from some reports
        victims = [i for i in range(len(cs)) if alive[i] is not None and r.random() < .2]
        for i in victims:
            self.mutate(r, alive[i], x, 0)
        for i, rep in enumerate(alive):
            if rep is not None and i not in victims:
                self.same(cs[i], first[i], walk.observe(rep), "after the caller changed other reports")
                x.hit("after_mutation")
        for i in r.sample(range(len(cs)), len(cs) // 2) + victims:
            rep, o = outcome(x, cs[i])
            self.same(cs[i], first[i], o, "parsed after the caller changed other reports")
            x.hit("after_mutation")

    def mutate(self, r, o, x, depth):
        """Everything mutable that the public reads give."""
        if isinstance(o, list):
            x.hit("mutations")
            if depth < 6:
                for v in list(o):
                    self.mutate(r, v, x, depth + 1)
            r.choice([o.clear, lambda: o.append("X"), o.reverse, lambda: o.extend(o)])()
        elif isinstance(o, dict):
            x.hit("mutations")
            for v in list(o.values()):
                self.mutate(r, v, x, depth + 1)
            o["X"] = 1
            if r.random() < .5:
                o.clear()
        elif walk.is_lib(o) and depth < 5:
            props, calls = walk.reads(type(o))
            for k in calls:
                try:
                    self.mutate(r, getattr(o, k)(), x, depth + 1)
                except Exception:
                    pass                    # reads of a report its own caller broke
            for k in props:
                try:
                    v = getattr(o, k)
                except Exception:
                    continue
                if k == "cavok":
                    o.cavok = not v
                    x.hit("mutations")
                self.mutate(r, v, x, depth + 1)

    # ------------------------------------------------------------------ threads
    def threads(self, r, cs, x):
        first = [outcome(x, c)[1] for c in cs]
        shared = [(i, outcome(x, cs[i])[0]) for i in r.sample(range(len(cs)), 5)]
        shared = [(i, s) for i, s in shared if s is not None]
        errors, done = [], Counter()
        root = os.path.realpath(os.path.join(core.REPO, "aeromet_py")) + os.sep
        last, points, n = [0], set(), [0]
        rnd = random.Random(r.random())
        me = threading.get_ident
        sleep = time.sleep

        def line(code, no):
            if not code.co_filename.startswith(root):
                return sys.monitoring.DISABLE
            t = me()
            if last[0] != t:
                last[0] = t
                n[0] += 1
                points.add((code.co_filename[len(root):], code.co_name, no))
            if rnd.random() < .02:
                sleep(0)

        def work(seed):
            q = random.Random(seed)
            try:
                idx = list(range(len(cs)))
                q.shuffle(idx)
                for i in idx:
                    if errors:
                        return
                    rep, o = outcome(x, cs[i])
                    self.same(cs[i], first[i], o, "parsed in a thread")
                    done["thread_comparisons"] += 1
                    if q.random() < .3 and shared:
                        j, s = q.choice(shared)
                        self.same(cs[j], first[j], walk.observe(s), "read by several threads")
                        done["shared_reads"] += 1
                    elif rep is not None and q.random() < .1:
                        self.mutate(q, rep, x, 0)
            except BaseException as e:
                errors.append(e if isinstance(e, core.Bad) else core.Bad(
                    f"a thread failed with {type(e).__name__}: {e}"))
        old = sys.getswitchinterval()
        mon = sys.monitoring
        mon.use_tool_id(4, "verif-threads")
        mon.register_callback(4, mon.events.LINE, line)
        try:
            mon.set_events(4, mon.events.LINE)
            mon.restart_events()
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=work, args=(r.random(),), daemon=True) for _ in range(8)]
            for t in ts:
                t.start()
            while any(t.is_alive() for t in ts):
                cpu, end = time.process_time(), time.time() + 60
                while time.time() < end and any(t.is_alive() for t in ts):
                    next(t for t in ts if t.is_alive() or t is ts[-1]).join(1)
                # runnable threads get some CPU in a minute even on a loaded machine
                if any(t.is_alive() for t in ts) and time.process_time() - cpu < .05:
                    raise core.Bad("the threads wait for each other for ever")
        finally:
            sys.setswitchinterval(old)
            mon.set_events(4, 0)
            mon.free_tool_id(4)
        if errors:
            raise errors[0]
        for k, v in done.items():
            x.hit(k, v)
        x.hit("thread_switches", n[0])
        for p in points:
            x.distinct("distinct_switch_points", p)

    # ---------------------------------------------------------------- processes
    def child(self, cs, flags=(), **env):
        p = subprocess.run([sys.executable, *flags, "-m", "mon.child_env"], input=json.dumps(dict(cases=cs)),
                           capture_output=True, text=True, env=dict(os.environ, **env),
                           cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        return json.loads(p.stdout)

    def processes(self, r, cs, x):
        first = []
        for c in cs:
            o = outcome(x, c)[1]
            first.append(o if isinstance(o, str) else walk.digest(o))
        orders = set()
        for flags, env in [((), dict(PYTHONHASHSEED="random")), ((), dict(PYTHONHASHSEED=str(r.randrange(1 << 32)))),
                           (("-O",), dict(PYTHONHASHSEED=str(r.randrange(1 << 32)))), (("-OO",), {}),
                           (("-X", "dev"), dict(TZ="Asia/Tokyo")),
                           (("-s",), dict(TZ="America/Costa_Rica", LC_ALL="C", PYTHONUTF8="0"))]:
            idx = list(range(len(cs)))
            r.shuffle(idx)
            d = self.child([cs[i] for i in idx], flags, **env)
            if ("-O" in flags) + 2 * ("-OO" in flags) != d["optimize"]:
                raise RuntimeError("the optimisation flag had no effect")
            orders.add(tuple(d["set_order"]))
            x.hit("processes")
            for i, g in zip(idx, d["digests"]):
                if g != first[i]:
                    raise core.Bad(f"{cs[i]['t']!r} ({cs[i]['k']}, {cs[i]['y']}, {cs[i]['m']}) differs in a "
                                   f"process with {flags} {env}" + (f": {g}" if ":" in g else ""))
                x.hit("process_comparisons")
        for i in r.sample(range(len(cs)), 2):
            d = self.child([cs[i]])
            if d["digests"] != [first[i]]:
                raise core.Bad(f"{cs[i]['t']!r} ({cs[i]['k']}) differs when it is the only report of a process")
            x.hit("alone")
        x.hit("set_orders_seen", len(orders))


# ------------------------------------------------------------------------- C24
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
EVENTS = ("socket.", "subprocess.", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.putenv",
          "os.unsetenv", "os.chdir", "os.fchdir", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod",
          "os.chown", "os.link", "os.symlink", "os.truncate", "os.kill", "os.utime", "shutil.", "tempfile.",
          "_thread.start_new_thread", "_thread.start_joinable_thread", "urllib.", "http.", "smtplib.", "ftplib.",
          "sqlite3.", "signal.", "resource.setrlimit", "syslog.", "webbrowser.", "pty.", "fcntl.", "mmap.",
          "sys.setprofile", "sys.settrace", "sys.excepthook", "sys.unraisablehook", "sys.addaudithook",
          "ctypes.", "builtins.input", "builtins.breakpoint", "faulthandler", "time.sleep", "gc.")


MODULES = ("json", "json.encoder", "json.decoder", "re", "math", "datetime", "logging", "warnings", "random",
           "collections", "string", "time", "builtins", "abc", "typing", "locale", "decimal")


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.seen = []

    def emit(self, rec):
        self.seen.append(f"{rec.name} {rec.levelname}: {rec.getMessage()}")


class C24(core.Prop):
    pid = "C24"
    rule = """random, real, mutated and hostile reports, sweeps of every kind of element in every section,
    with and without errors: file descriptors 1 and 2 captured at the system level, interpreter audit
    events (files opened for writing, processes, threads, network, signals, ...), log records, warnings,
    and snapshots of the host state around constructing and reading everything; fresh processes whose
    output must be empty.  Non-trivial: an execution was watched; distinct by text."""
    need = {"executions": 3000, "states_compared": 3000, "audit_events_seen": 1, "probe_output": 8,
            "probe_audit": 8, "probe_log": 8, "silent_processes": 8, "trends_and_changes": 2000}

    def setup(self, x):
        self.on, self.events, self.total = False, [], 0
        self.unusual()

        def hook(name, args):
            if not self.on:
                return
            self.total += 1
            if name == "open":
                path, mode, flags = args
                if flags & WRITES if isinstance(flags, int) else set(str(mode)) & set("wax+"):
                    self.events.append(f"open {path!r} {mode} {flags}")
            elif name.startswith(EVENTS):
                self.events.append(f"{name} {str(args)[:200]}")
        sys.addaudithook(hook)
        self.log = Records()
        logging.getLogger().addHandler(self.log)
        logging.getLogger().setLevel(1)
        self.file = tempfile.TemporaryFile(dir=os.environ.get("VERIF_TMP"))
        self.real = os.dup(1), os.dup(2)
        # what the process says about itself must be visible to the monitors
        for probe in ("output", "audit", "log"):
            def act():
                if probe == "output":
                    os.write(1, b"probe")
                elif probe == "audit":
                    try:
                        open("/nonexistent/verif", "w")
                    except OSError:
                        pass
                else:
                    logging.getLogger("probe").debug("probe")
            e = self.watch(act)[1]
            if len(e) != 1:
                raise RuntimeError(f"the monitor of {probe} saw {e}")
            x.hit("probe_" + probe)
        # (the library is already imported: only what it does later is watched)
        self.watch(lambda: x.Metar("METAR"))

    def cases(self, r, tier, shard, n):
        q = tier == "quick"
        for c in reports(r, 250 if q else 9000):
            yield c
        for i in range(4 if q else 60):
            for w in embed.EVERYWHERE:
                for s in embed.BODY:
                    if w == "metar" or s in embed.PART:
                        yield embed.section(r, w, {s: embed.some(r, s)}, r.choice([0, .3]))
        for i in range(60 if q else 2500):                  # periods of trends, errors, over-long lists
            t = ["METAR ZZZZ 312359Z", r.choice(["TEMPO", "BECMG"])] + [
                r.choice(["FM", "TL", "AT"]) + "%02d%02d" % (r.randrange(25), r.randrange(60)) for _ in range(2)]
            yield dict(k="metar", t=" ".join(t + gen.conditions(r)), y=2022, m=r.randint(1, 12))
            yield dict(k="taf", t="TAF ZZZZ 010000Z 0101/0201 " + " ".join("FM01%02d00" % h for h in range(
                r.randint(1, 11))), y=2022, m=1)
            c = corpus_case(r)
            yield dict(c, trunc=True)
            h = core.REGISTRY["C04"]().text(r)
            yield dict(k=r.choice(["metar", "taf"]), t=h or "X", y=r.choice([None, 2022]), m=r.choice([None, 2]))
        yield dict(mode="process", seed=r.randrange(1 << 30), k="metar", fixed=True, t="")

    def state(self):
        th = threading.enumerate()
        return dict(
            environment=dict(os.environ), directory=os.getcwd(), random=random.getstate(),
            locale=locale.setlocale(locale.LC_ALL), signals=[signal.getsignal(s) for s in (
                signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGUSR1, signal.SIGPIPE, signal.SIGALRM,
                signal.SIGCHLD, signal.SIGVTALRM)],
            warnings=list(warnings.filters), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
            threads=len(th), gc=(gc.isenabled(), gc.get_threshold()), trace=(sys.gettrace(), sys.getprofile()),
            stdout=(id(sys.stdout), id(sys.stderr), id(sys.stdin)), hooks=(sys.excepthook, sys.displayhook),
            path=list(sys.path), digits=sys.get_int_max_str_digits(), sockets=socket.getdefaulttimeout(),
            root=(logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
            timezone=(time.tzname, time.timezone), descriptors=len(os.listdir("/proc/self/fd")),
            showwarning=warnings.showwarning, decimal=repr(decimal.getcontext()), mask=self.umask(),
            timers=signal.getitimer(signal.ITIMER_REAL)[0] > 0,
            limits=[resource.getrlimit(l) for l in (resource.RLIMIT_CPU, resource.RLIMIT_NOFILE,
                                                    resource.RLIMIT_STACK, resource.RLIMIT_CORE)],
            exits=atexit._ncallbacks(), callbacks=[id(f) for f in gc.callbacks], more_hooks=(
                threading.excepthook, sys.unraisablehook, threading.gettrace(), threading.getprofile(),
                sys.get_asyncgen_hooks(), sys.get_coroutine_origin_tracking_depth(), sys.breakpointhook),
            importing=([id(f) for f in sys.meta_path], [id(f) for f in sys.path_hooks], sys.dont_write_bytecode),
            memory=(tracemalloc.is_tracing(), threading.stack_size()), pickling=sorted(map(str, copyreg.dispatch_table)),
            affinity=os.sched_getaffinity(0), zone=os.environ.get("TZ"), frozen=gc.get_freeze_count(),
            debug=gc.get_debug(), wakeup=self.wakeup(), asyncio=self.policy(), contexts=len(contextvars.copy_context()),
            priority=os.getpriority(os.PRIO_PROCESS, 0), faults=faulthandler.is_enabled(),
            blocked=signal.pthread_sigmask(signal.SIG_BLOCK, []), loggers={
                k: (v.level, v.disabled, v.propagate, len(v.handlers))
                for k, v in logging.root.manager.loggerDict.items() if isinstance(v, logging.Logger)},
            modules={m: {k: id(v) for k, v in vars(sys.modules[m]).items() if not k.startswith("_template")}
                     for m in MODULES})

    @staticmethod
    def wakeup():
        fd = signal.set_wakeup_fd(-1)
        signal.set_wakeup_fd(fd)
        return fd

    @staticmethod
    def policy():
        a = sys.modules.get("asyncio")
        return a and id(a.events._event_loop_policy)

    @staticmethod
    def umask():
        with open("/proc/self/status") as f:
            return next((l for l in f if l.startswith("Umask")), None)

    def unusual(self):
        """A host process none of whose settings is the default, so that a reset shows."""
        locale.setlocale(locale.LC_ALL, "C")
        locale.setlocale(locale.LC_NUMERIC, "C.utf8")
        locale.setlocale(locale.LC_TIME, "C.utf8")
        decimal.getcontext().prec = 41
        decimal.getcontext().rounding = decimal.ROUND_UP
        os.umask(0o027)
        os.environ.update(TZ="Asia/Kolkata", VERIF_UNUSUAL="1")
        time.tzset()
        random.seed(987654321)
        sys.setrecursionlimit(1477)
        sys.setswitchinterval(.0043)
        sys.set_int_max_str_digits(5001)
        gc.set_threshold(811, 12, 13)
        socket.setdefaulttimeout(17)
        signal.signal(signal.SIGUSR1, lambda *a: None)
        signal.signal(signal.SIGALRM, lambda *a: None)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2])
        resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))
        logging.getLogger("aeromet_py").setLevel(logging.DEBUG)
        logging.getLogger("verif").setLevel(17)
        warnings.filterwarnings("ignore", message="verif")

    def watch(self, f):
        """(result, effects, states) of running f"""
        del self.events[:], self.log.seen[:]
        sys.stdout.flush()
        sys.stderr.flush()
        self.file.seek(0)
        self.file.truncate()
        fd = self.file.fileno()
        caught = []
        old = warnings.showwarning
        with warnings.catch_warnings():
            warnings.resetwarnings()
            warnings.simplefilter("default")
            warnings.filterwarnings("ignore", category=DeprecationWarning)   # as by default
            warnings.filterwarnings("ignore", category=PendingDeprecationWarning)
            warnings.showwarning = lambda m, *a, **k: caught.append(f"warning {m}")
            before = self.state()
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            res = err = None
            try:
                self.on = True
                try:
                    res = f()
                except Exception as e:
                    err = e
                finally:
                    self.on = False
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os.dup2(self.real[0], 1)
                os.dup2(self.real[1], 2)
            after = self.state()
        warnings.showwarning = old
        out = os.pread(fd, 2000, 0)
        effects = list(self.events) + list(self.log.seen) + caught
        if out:
            effects.append(f"output {out!r}")
        diff = [k for k in before if before[k] != after[k]]
        return (res, err), effects, diff

    def judge(self, c, x):
        if c.get("mode") == "process":
            return self.process(c, x)
        n = self.total

        def run():
            r = x.new(c, **({"truncate": True} if c.get("trunc") else {}))
            walk.observe(r)
            for p in (r.weather_trends if c["k"] == "metar" else r.changes_forecasted):
                x.hit("trends_and_changes")
            return r
        if c["t"] == "":
            raise core.Skip()
        (rep, err), effects, diff = self.watch(run)
        if effects:
            raise core.Bad(f"parsing and reading caused: {effects[:4]}")
        if diff:
            raise core.Bad(f"parsing and reading changed the host process: {diff}")
        x.hit("executions")
        x.hit("states_compared")
        x.hit("with_error", err is not None)
        x.hit("audit_events_seen", self.total - n)
        x.nontrivial((c["k"], c["t"]))
        x.sample(c)

    def process(self, c, x):
        r = core.rng(c["seed"])
        cs = list(reports(r, 40))
        code = ("import sys, json\nsys.path.insert(0, sys.argv[1])\nfrom aeromet_py import Metar, Taf\n"
                "for c in json.load(sys.stdin):\n    try:\n"
                "        r = (Metar if c['k'] == 'metar' else Taf)(c['t'], c['y'], c['m'])\n"
                "        str(r); r.to_json()\n    except Exception:\n        pass\n")
        with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as d:
            p = subprocess.run([sys.executable, "-c", code, core.REPO], input=json.dumps(cs), capture_output=True,
                               text=True, cwd=d, env=dict(os.environ, HOME=d, TMPDIR=d))
            if p.stdout or p.stderr or p.returncode:
                raise core.Bad(f"a process that only parses prints {p.stdout[:300]!r} {p.stderr[-600:]!r} "
                               f"and exits with {p.returncode}")
            if os.listdir(d):
                raise core.Bad(f"a process that only parses created {os.listdir(d)}")
        x.hit("silent_processes")


# ------------------------------------------------------------------------- C29
FIELDS = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country")


class C29(core.Prop):
    pid = "C29"
    rule = """every ICAO code of the pinned catalogue, in a METAR and in a TAF (also corrected, amended,
    without type and with other groups), and random well-formed codes outside the catalogue, compared
    with the first entry of the pinned catalogue.  Non-trivial: a station of the catalogue was found;
    distinct by code."""
    need = {"stations_metar": 9184, "stations_taf": 9184, "unknown": 4000, "countries": 150}

    def setup(self, x):
        with gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                    "catalogue.json.gz")) as f:
            d = json.load(f)
        self.first = {}
        for s in d["stations"]:
            self.first.setdefault(s[1], s[:7] + [d["countries"][s[7]]])
        self.codes = [k for k in self.first if re.fullmatch("[A-Z][A-Z0-9]{3}", k)]

    def cases(self, r, tier, shard, n):
        for code in core.sliced(self.codes, shard, n):
            yield dict(k="metar", code=code, form=r.randrange(4))
            yield dict(k="taf", code=code, form=r.randrange(5))
            if tier == "thorough":
                for k, f in (("metar", 4), ("taf", 5)):
                    for i in range(f):
                        yield dict(k=k, code=code, form=i)
        for i in range(700 if tier == "quick" else 40000):
            k = r.random()
            if k < .5:
                code = r.choice(string.ascii_uppercase) + "".join(
                    r.choice(string.ascii_uppercase + string.digits * (k < .2)) for _ in range(3))
            else:                                   # one letter from a known one
                code = list(r.choice(self.codes))
                code[r.randrange(4)] = r.choice(string.ascii_uppercase)
                code = "".join(code)
            if code not in ("AUTO", "CORR", "TEST", "FINO") and code[:3] != "RMK":     # (see the last case)
                yield dict(k=r.choice(["metar", "taf"]), code=code, form=0)
        if shard == 0 and tier == "quick":              # a listed finding: the remark begins at the station
            yield dict(k="metar", code="RMKJ", form=0, fixed=True)

    def judge(self, c, x):
        s = c["code"]
        t = {"metar": ["METAR %s 312350Z 24010KT 9999 FEW010 21/18 Q1013", "METAR %s", "SPECI %s 010000Z AUTO", "%s 010000Z"],
             "taf": ["TAF %s 312300Z 0100/0200 24010KT CAVOK", "TAF AMD %s 010000Z", "TAF COR %s 010000Z 0101/0201 "
                     "TEMPO 0102/0103 RA", "TAF %s", "%s 010000Z 0101/0201"]}[c["k"]][c["form"]] % s
        rep = x.build(dict(k=c["k"], t=t, y=2022, m=1))
        want = dict(zip(FIELDS, self.first.get(s, [None] * 8)), code=s)
        st = rep.station
        got = x.read(lambda: {k: getattr(st, k) for k in want}, "the station")
        if got != want:
            known = c["k"] == "metar" and s == "RMKJ" and rep.remark == t[t.index(s):] and set(got.values()) == {None}
            raise core.Bad(f"the station of {t!r} is {got} instead of {want}", "station-RMKJ" if known else None)
        if rep.unparsed_groups:
            raise core.Bad(f"{t!r} left {rep.unparsed_groups} unparsed")
        if s in self.first:
            x.distinct("stations_" + c["k"], s)
            x.distinct("countries", want["country"])
            x.nontrivial((s, want["name"]))
        else:
            x.hit("unknown")
        x.sample(c)
