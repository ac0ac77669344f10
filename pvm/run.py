"""Runs one check: warms the jitted code up once in a private cache, spreads the cases
over worker processes, merges what their monitors observed, writes the evidence and
reports.

    python -m pvm.run C01                    (VERIF_SEED, VERIF_TIER from the environment)
    python -m pvm.run C01 --replay FILE      runs the one case a violation came from
    python -m pvm.run C01 --cases 3,17       runs these cases only
"""
import argparse
import faulthandler
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PVM_REPO", "/repo")
PY = sys.executable


def env_for(cache, scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             NUMBA_NUM_THREADS="4", PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_BOUNDSCHECK="1",
             NUMBA_CACHE_DIR=cache, TMPDIR=scratch, PYTHONPATH=REPO + os.pathsep + HERE, HOME=scratch,
             PVM_REPO=REPO, PYTHONFAULTHANDLER="1")
    e.pop("NUMBA_DISABLE_JIT", None)
    return e


# ---------------------------------------------------------------- worker side
def worker(cid, shard, nshards, out, seed, tier, cases, stop_at):
    faulthandler.enable()
    mod = importlib.import_module("pvm.checks." + cid)
    from .harness import Monitor, Broken, quiet, IllConditioned
    import numpy as np

    with quiet():
        import pydsge
    assert os.path.abspath(pydsge.__file__).startswith(os.path.abspath(REPO) + os.sep), pydsge.__file__

    if cases is None:
        n = mod.CASES[tier]
        cases = range(shard, n, nshards)
    mon = Monitor(seed, tier)
    mon.stop_at = stop_at
    mon.shard = shard
    done = 0
    try:
        for i in cases:
            if not mon.left():
                break
            rng = np.random.default_rng([seed, int(cid[1:]), i])
            np.random.seed((seed * 7919 + i) % 2 ** 31)
            nv = len(mon.violations)
            state = dict(now=i)
            with open(out + ".at", "w") as f:
                json.dump(state, f)
            try:
                with quiet():
                    mod.case(mon, rng, i)
            except Broken:
                pass
            except IllConditioned:
                mon.saw("cases left as ill-conditioned")
            except Exception as e:
                mon.violations.append(dict(what="unexpected %s: %s" % (type(e).__name__, str(e)[:500]),
                                           trace=traceback.format_exc()[-3000:]))
            for v in mon.violations[nv:]:
                v.update(case=i, seed=seed, tier=tier)
            done += 1
            if len(mon.violations) >= 3:
                break
    finally:
        d = mon.dump()
        d["done"] = done
        mon.close()
        with open(out, "w") as f:
            json.dump(d, f)
    # no lingering pools
    os._exit(0)


def warm(cid):
    mod = importlib.import_module("pvm.checks." + cid)
    from .harness import Monitor, quiet
    mon = Monitor()
    try:
        with quiet():
            getattr(mod, "warm", default_warm)(mon)
    except Exception:
        traceback.print_exc()          # the cases themselves will tell
    finally:
        mon.close()
    os._exit(0)


def default_warm(mon):
    import numpy as np
    from .harness import draw_case
    c = draw_case(mon, np.random.default_rng(0))
    c.mod.t_func(np.zeros(len(c.mod.vv)), np.zeros(len(c.mod.shocks)))


# ---------------------------------------------------------------- parent side
def known_findings(cid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % cid):
                key = line.split("key=", 1)[1].split()[0]
                out.append((key, line.split("key=" + key, 1)[1].strip()))
    return out


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--replay")
    ap.add_argument("--cases")
    ap.add_argument("--worker")
    ap.add_argument("--warm", action="store_true")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    if a.warm:
        return warm(a.cid)
    if a.worker:
        w = json.loads(a.worker)
        return worker(a.cid, **w)

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cid = a.cid
    cases = None
    if a.replay:
        r = json.load(open(a.replay))
        seed, tier, cases = r["seed"], r["tier"], [r["case"]]
    if a.cases:
        cases = [int(x) for x in a.cases.split(",")]

    sys.path.insert(0, REPO)
    mod = importlib.import_module("pvm.checks." + cid)
    base = tempfile.mkdtemp(prefix="pvm_%s_" % cid)
    cache, scratch = os.path.join(base, "nb"), os.path.join(base, "s")
    os.mkdir(cache)
    os.mkdir(scratch)
    env = env_for(cache, scratch)
    env.update(getattr(mod, "ENV", {}))
    ncpu = min(8, os.cpu_count() or 1)
    n = a.workers or (1 if cases else min(getattr(mod, "WORKERS", 6), ncpu))
    cap = {"quick": 780, "thorough": 3600}[tier]
    procs = []
    merged = None
    problems = []
    try:
        if getattr(mod, "WARM", True):
            p = subprocess.Popen([PY, "-m", "pvm.run", cid, "--warm"], cwd=scratch, env=env,
                                 stdout=open(os.path.join(base, "warm.log"), "w"), stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                p.wait(300)
            except subprocess.TimeoutExpired:
                pass
            killpg(p)
        t_warm = time.time() - t0
        stop_at = t0 + cap - 120
        for k in range(n):
            out = os.path.join(base, "out%d" % k)
            w = dict(shard=k, nshards=n, out=out, seed=seed, tier=tier, cases=cases, stop_at=stop_at)
            log = open(os.path.join(base, "log%d" % k), "w")
            p = subprocess.Popen([PY, "-m", "pvm.run", cid, "--worker", json.dumps(w)], cwd=scratch, env=env,
                                 stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((p, out, k))
        from .harness import Monitor
        merged = Monitor(seed, tier)
        done = 0
        for p, out, k in procs:
            try:
                p.wait(max(5, t0 + cap - time.time()))
                timed_out = False
            except subprocess.TimeoutExpired:
                timed_out = True
            killpg(p)
            at = None
            if os.path.exists(out + ".at"):
                try:
                    at = json.load(open(out + ".at"))["now"]
                except ValueError:
                    pass
            if os.path.exists(out):
                d = json.load(open(out))
                done += d["done"]
                merged.absorb(d)
            elif timed_out:
                problems.append("worker %d did not finish (case %s)" % (k, at))
            else:
                tail = open(os.path.join(base, "log%d" % k)).read()[-3000:]
                if at is None:
                    problems.append("worker %d did not start: %s" % (k, tail))
                else:
                    merged.violations.append(dict(what="process died (exit %s)" % p.returncode, trace=tail, case=at,
                                                  seed=seed, tier=tier))
    finally:
        for p, _, _ in procs:
            killpg(p)
        shutil.rmtree(base, ignore_errors=True)
        if merged is not None:
            merged.close()

    known = known_findings(cid)
    fresh, listed = [], {}
    for v in merged.violations:
        hit = [k for k in known if v.get("key") == k[0]]
        if hit:
            listed[hit[0][0]] = hit[0][1]
        else:
            fresh.append(v)
    for key, what in known:
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (cid, what))

    short = {}
    if not cases:
        for ev, need in getattr(mod, "MIN", {}).items():
            got = merged.events.get(ev, 0)
            if got < need:
                short[ev] = (got, need)

    ev = dict(property=cid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=int(merged.cases), distinct_nontrivial=len(merged.sigs), rule=mod.RULE,
                            samples=merged.samples or ["none"], observed=dict(sorted(merged.events.items())),
                            cases_run=done, workers=n, compile_s=round(t_warm, 1)),
              assumptions=getattr(mod, "ASSUMES", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not cases:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s seed=%d: %d cases, %d evaluations (%d distinct non-trivial), %.0fs" % (
        cid, tier, seed, done, merged.cases, len(merged.sigs), time.time() - t0))
    print("   observed: " + ", ".join("%s=%d" % kv for kv in sorted(merged.events.items())))
    for p in problems:
        print("   problem: " + p)

    if fresh:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        for v in fresh[:5]:
            print("   " + json.dumps({k: x for k, x in v.items() if k != "trace"}, default=str)[:1500])
            if "trace" in v:
                print("   " + v["trace"][-1500:].replace("\n", "\n   "))
        p = os.path.join(HERE, "evidence", "replay", "%s_seed%d_case%s.json" % (cid, seed, fresh[0].get("case")))
        with open(p, "w") as f:
            json.dump(fresh[0], f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (cid, p))
        sys.exit(1)
    if problems or short:
        for k, (g, w) in short.items():
            print("   observed too little: %s %d < %d" % (k, g, w))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
