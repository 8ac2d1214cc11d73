#!/usr/bin/env python3
"""Runs the monitors of one property against the library in /repo.

    check.py C06 [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]

exit 0: held on everything observed; 1: violated (VIOLATION line and replay file);
2: inconclusive (the monitors could not observe what they need).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHONS = ["/opt/venv/bin/python", sys.executable]
LIMIT = {"quick": 780, "thorough": 4 * 3600}


def python():
    for p in PYTHONS:
        if os.path.exists(p) and subprocess.run(
                [p, "-c", "import typing_extensions"], capture_output=True).returncode == 0:
            return p
    print("inconclusive: no python with the library's dependencies")
    sys.exit(2)


def environment():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "FAKETIME", "LD_"))}
    repo = os.environ.get("VERIF_REPO", "/repo")
    e.update(PYTHONPATH=HERE + os.pathsep + repo, PYTHONDONTWRITEBYTECODE="1",
             PYTHONPYCACHEPREFIX=os.path.join(tempfile.gettempdir(), "verif-no-such-cache"),
             PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", TZ="UTC", LC_ALL="C.UTF-8")
    return e


def findings():
    """mechanism -> text of the unrepaired findings"""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for l in open(path, encoding="utf-8"):
            if l.startswith("finding:"):
                f = dict(w.split("=", 1) for w in l.split() if "=" in w)
                out[(f["property"], f["mechanism"])] = l.split(f["mechanism"], 1)[1].strip()
    return out


def statement(pid):
    for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
        p = json.loads(l)
        if p["id"] == pid:
            return p["title"]
    return pid


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    py, env = python(), environment()
    if a.self_test:
        sys.exit(subprocess.run([py, "-m", "mon.info", "C01"], env=env, cwd=HERE,
                                stdout=subprocess.DEVNULL).returncode)
    if not a.property:
        ap.error("which property?")
    if a.replay:
        r = subprocess.run([py, "-m", "mon.replay", a.property, a.replay], env=env, cwd=HERE)
        sys.exit(r.returncode)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        sys.exit(run(a, py, env, tmp, t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def violated(out):
    try:
        return bool(json.load(open(out))["bad"])
    except (OSError, ValueError):
        return False


def run(a, py, env, tmp, t0):
    info = json.loads(subprocess.run(
        [py, "-m", "mon.info", a.property], env=env, cwd=HERE, capture_output=True,
        text=True, check=True).stdout)
    n = info["shards"] if info["shards"] else a.jobs
    procs = []
    env = dict(env, VERIF_TMP=tmp)
    for s in range(n):
        out = os.path.join(tmp, f"{s}.json")
        procs.append((out, subprocess.Popen(
            [py, "-m", "mon.worker", a.property, a.tier, str(a.seed), str(s), str(n), out],
            env=env, cwd=HERE, stdout=open(out + ".log", "wb"), stderr=subprocess.STDOUT,
            start_new_session=True)))
    res, errors = [], []
    end = t0 + LIMIT[a.tier]
    while time.time() < end and any(p.poll() is None for _, p in procs):
        time.sleep(.05)
        if any(p.poll() is not None and violated(out) for out, p in procs):
            end = min(end, time.time() + 90)            # the others: only what they find soon
            break
    for out, p in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            errors.append("a worker did not finish in time")
        if not os.path.exists(out):
            errors.append("worker failed: " + open(out + ".log", errors="replace").read()[-1500:])
            continue
        r = json.load(open(out))
        r["keys_file"] = out + ".keys"
        if r["error"]:
            errors.append(r["error"])
        res.append(r)

    hits, keys, lines, samples, sets = {}, set(), {}, [], {}
    for r in res:
        for k, v in r["hits"].items():
            hits[k] = hits.get(k, 0) + v
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        b = open(r["keys_file"], "rb").read()
        keys.update(b[i:i + 7] for i in range(0, len(b), 7))
        for f, l in r["lines"].items():
            lines.setdefault(f, set()).update(l)
        samples += r["samples"][:1]
    hits.update((k, len(v)) for k, v in sets.items())
    bad = [b for r in res for b in r["bad"]]
    known = findings()
    new, old = [], {}
    for b in bad:
        k = (a.property, b.get("mech"))
        if k in known:
            old[known[k]] = old.get(known[k], 0) + 1
        else:
            new.append(b)
    evaluations = sum(r["evaluations"] for r in res)
    wall = time.time() - t0
    missing = {k: (v, hits.get(k, 0)) for k, v in info["need"].items() if hits.get(k, 0) < v}
    ev = dict(
        property=a.property, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(keys), rule=info["rule"],
            samples=samples[:6] or ["none"], held=sum(r["held"] for r in res),
            skipped_outside_domain=sum(r["skipped"] for r in res),
            observed=dict(sorted(hits.items())), required_observations=info["need"],
            library_lines_executed={f: len(l) for f, l in sorted(lines.items())},
            workers=len(procs), cpu_s=round(sum(r["cpu"] for r in res), 1)),
        assumptions=info["assumptions"], wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{a.property} {statement(a.property)}")
    print(f"  {evaluations} cases, {len(keys)} distinct non-trivial, "
          f"{ev['coverage']['skipped_outside_domain']} skipped, {wall:.1f} s")
    print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(hits.items())))
    for text, c in old.items():
        print(f"KNOWN-FINDING: property={a.property} {text} ({c} cases)")
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        new.sort(key=lambda b: len(json.dumps(b["case"], default=str)))
        seen = set()
        for b in new:
            sig = b["message"][:60]
            if sig in seen or len(seen) >= 5:
                continue
            seen.add(sig)
            path = os.path.join(HERE, "replays", f"{a.property}-{len(seen)}.json")
            json.dump(dict(b, property=a.property, tier=a.tier, seed=a.seed),
                      open(path, "w"), indent=1, default=str)
            print(f"  case: {json.dumps(b['case'], default=str)[:600]}")
            print(f"  observed: {b['message'][:1500]}")
            print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if errors:
        print("inconclusive: " + errors[0])
        return 2
    if missing:
        print("inconclusive: the monitors observed too little: " + str(missing))
        return 2
    return 0


if __name__ == "__main__":
    main()
