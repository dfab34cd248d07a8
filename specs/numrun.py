"""Concrete runs of the units against the real package (real interpreter, real numpy/scipy).

Roles: validation of the trusted shims on the current tree, search for a failing input when an obligation
is not discharged, replay.   usage:  numrun.py TASKS.json   |   numrun.py --replay FILE
"""
import ast
import contextlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
ROOT = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")

from specs import units, lib, numenv  # noqa: E402

units.load_all()


def literals(root=ROOT):
    out = set()
    for d, _, fs in os.walk(os.path.join(root, "aerokit")):
        for f in fs:
            if f.endswith(".py"):
                try:
                    for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                        if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e9:
                            out.add(float(n.value))
                except SyntaxError:
                    pass
    return sorted(out)


def too_long(*a):
    raise numenv.Reject()


def attempt(uid, rng, preset, pool, lits, choices=None):
    """-> (status, failure dict)"""
    env = numenv.NumEnv(rng, preset, pool, lits, choices)
    lim = units.opts_of(uid).get("tmax")
    if lim:
        # termination is not part of what the unit states: a run that takes too long is not counted
        signal.signal(signal.SIGALRM, too_long)
        signal.setitimer(signal.ITIMER_REAL, lim)
    try:
        return attempt_(uid, env)
    except numenv.Reject:
        return "reject", env, None
    finally:
        if lim:
            signal.setitimer(signal.ITIMER_REAL, 0)


def attempt_(uid, env):
    try:
        with contextlib.redirect_stdout(env.out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            with np.errstate(all="ignore"):
                units.run_unit(uid, env)
        return "ok", env, None
    except numenv.Reject:
        return "reject", env, None
    except numenv.Failure as e:
        return "fail", env, dict(label=e.label, detail=str(e.detail)[:600])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/aerokit/" in f.filename and "/verif" not in f.filename for f in tb)
        if inrepo or isinstance(e, (AttributeError, TypeError, KeyError, ImportError, IndexError, ValueError)):
            return "fail", env, dict(label="exception", detail=("%s: %s at %s" % (type(e).__name__, e, ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:]]))[:600])
        raise


def num(x):
    return x


def run_one(uid, n, seconds, seed, presets, lits, stop_on_fail=True, allow=()):
    rng = random.Random("%s/%s" % (seed, uid))
    pool = {}
    t0 = time.time()
    acc = rej = 0
    checks = 0
    sample = None
    fails = []
    seen = set()
    opts = units.opts_of(uid)
    if opts.get("nonum"):
        return dict(unit=uid, accepted=0, rejected=0, checks=0, fails=[], sample=None, wall=0.0, nonum=opts["nonum"])
    n = max(3, int(n * opts.get("nfac", 1)))
    todo = [(p, c) for p in presets for c in (0, 1, 2, 3)]
    k = 0
    while (k < len(todo) or (acc < n and rej < 40 * n + 200)) and time.time() - t0 < seconds:
        if k < len(todo):
            pr, j = todo[k]
            pr = dict(pr)
            if j and pr:
                # neighbourhood of the model, and parts of it
                for q in list(pr):
                    if isinstance(pr[q], (int, float)):
                        u = rng.random()
                        if j == 1 and u < 0.5:
                            pr[q] = pr[q] * (1 + rng.uniform(-0.2, 0.2))
                        elif j >= 2 and u < 0.4:
                            del pr[q]
        else:
            pr = None
        k += 1
        st, env, f = attempt(uid, rng, pr, pool, lits)
        if st == "reject":
            rej += 1
            continue
        acc += 1
        checks += env.nchecks
        if sample is None or acc == 5:
            sample = {q: v for q, v in env.values.items()}
        if st == "fail":
            key = f["label"]
            if key in seen:
                continue
            seen.add(key)
            fails.append(dict(unit=uid, label=f["label"], detail=f["detail"], values=env.values, choices=dict(env.log)))
            if (stop_on_fail and f["label"] not in allow) or len(fails) > 6:
                break
    return dict(unit=uid, accepted=acc, rejected=rej, checks=checks, fails=fails, sample=sample, wall=time.time() - t0)


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        if not d.get("values"):
            print("no failing input was found for this obligation; the verifier's output:")
            print(json.dumps(d, indent=1))
            return 1
        rng = random.Random(0)
        st, env, f = attempt(d["unit"], rng, d["values"], {}, [], d.get("choices"))
        print(d["unit"], st, json.dumps(f))
        return 1 if st == "fail" else 0
    t = json.load(open(sys.argv[1]))
    lits = literals()
    out = open(t["out"], "w")
    for uid in t["units"]:
        try:
            r = run_one(uid, t["n"], t["seconds"], t["seed"], t.get("presets", {}).get(uid, []), lits, allow=t.get("allow", {}).get(uid, ()))
        except Exception as e:
            r = dict(unit=uid, accepted=0, rejected=0, checks=0, fails=[], sample=None, wall=0.0, crash=traceback.format_exc(limit=-6))
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()
    out.close()
    return 0


if __name__ == "__main__":
    sys.exit(main())
