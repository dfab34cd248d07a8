#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   --  deductive verification of one property on /repo's current source"""
import json
import os
import re
import select
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import warnings  # noqa: E402

warnings.simplefilter("ignore")
ROOT = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"

import resource  # noqa: E402
import pickle  # noqa: E402

TIERS = {"quick": dict(n=40, nsec=8, unit=200, total=500, fals=120, falsn=1500, timeout=10000),
         "thorough": dict(n=400, nsec=60, unit=500, total=3000, fals=300, falsn=20000, timeout=60000)}


def child(fn, arg):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    os.close(r)
    code = 0
    try:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        except Exception:
            pass
        out = fn(*arg)
    except MemoryError:
        out = dict(unit=arg[0], obl=[], errors=[("unsupported", "memory limit", "", None)], crash=None)
    except BaseException:
        out = dict(unit=arg[0], obl=[], errors=[], crash=traceback.format_exc())
    data = pickle.dumps(out)
    while data:
        k = os.write(w, data[:65536])
        data = data[k:]
    os._exit(code)


def run_pool(first, worker, nproc, limit, more):
    """units verified in forked processes; `more(result)` gives the units to add"""
    import signal

    todo = list(first)
    seen = set(todo)
    run = {}
    res = {}
    while todo or run:
        while todo and len(run) < nproc:
            u = todo.pop(0)
            pid, fd = child(worker, (u,))
            run[fd] = (u, pid, time.time(), [])
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for fd in rd:
            u, pid, t0, buf = run[fd]
            b = os.read(fd, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del run[fd]
            try:
                r = pickle.loads(b"".join(buf))
            except Exception:
                r = dict(unit=u, obl=[], errors=[("unsupported", "the verification process died (memory)", "", None)], crash=None)
            res[u] = r
            for v in more(r):
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        for fd in list(run):
            u, pid, t0, buf = run[fd]
            if time.time() - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del run[fd]
                res[u] = dict(unit=u, obl=[], errors=[("unsupported", "time limit of the unit (%d s)" % limit, "", None)], crash=None, wall=limit)
    return res


def numeric(units, presets, n, seconds, seed, tmp, nproc, tag, allow):
    """concrete runs, spread over processes"""
    procs = []
    groups = [[] for _ in range(max(1, min(nproc, len(units))))]
    for k, u in enumerate(units):
        groups[k % len(groups)].append(u)
    for k, g in enumerate(groups):
        if not g:
            continue
        tf, of = os.path.join(tmp, "%s%d.json" % (tag, k)), os.path.join(tmp, "%s%d.out" % (tag, k))
        json.dump(dict(units=g, n=n, seconds=seconds, seed=seed, presets=presets, out=of, allow=allow), open(tf, "w"), default=str)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=ROOT, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        procs.append((subprocess.Popen([VENV, "-W", "ignore", os.path.join(HERE, "specs", "numrun.py"), tf], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp), of, g))
    return procs


def collect(procs, limit):
    out = {}
    errs = []
    t0 = time.time()
    for p, of, g in procs:
        try:
            _, e = p.communicate(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            _, e = p.communicate()
            e = b"time limit"
        if os.path.exists(of):
            for l in open(of):
                try:
                    r = json.loads(l)
                    out[r["unit"]] = r
                except ValueError:
                    pass
        if p.returncode:
            errs.append(e.decode(errors="replace")[-1500:])
    return out, errs


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in TIERS:
        tier = "quick"
    verbose = "-v" in sys.argv
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    TI = TIERS[tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from specs import units, contract, lib
    units.load_all()
    from engine import worker
    P = units.PROPS[pid]
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if os.path.exists(os.path.join(HERE, "known_findings.json")) else []
    known = [k for k in known if k["property"] == pid and k.get("status", "open") == "open"]
    # a finding recorded under one property may show in the units of another one
    kn_all = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if known or os.path.exists(os.path.join(HERE, "known_findings.json")) else []

    first = units.units_of(pid)
    if only:
        first = [u for u in first if only in u]
    bounded_units = [u for u in first if units.opts_of(u).get("bounded")]
    sym_first = [u for u in first if u not in bounded_units]
    tmp = tempfile.mkdtemp(prefix="verif_")
    allow = {}
    for k in kn_all:
        if k.get("status", "open") == "open":
            for u in k["units"]:
                allow.setdefault(u, [])
                allow[u] += k["labels"]
    nproc = min(8, os.cpu_count() or 2)
    try:
        nump = numeric(first, {}, TI["n"], TI["nsec"], seed, tmp, 3, "n", allow)

        def work(u):
            return worker.run(u, ROOT, TI["timeout"], TI["unit"])

        def more(r):
            out = []
            if P.closure and not only:
                for k in r.get("used", ()):
                    out += [u for u in units.contract_units(k)]
            return out

        res = run_pool(sym_first, work, nproc, TI["unit"] + 60, more)
        numres, numerrs = collect(nump, 200 + TI["nsec"] * len(first))
        # a loaded machine must not decide: units with failures are verified again with longer solver limits
        kset = {(u, l) for k in kn_all if k.get("status", "open") == "open" for u in k["units"] for l in k["labels"]}
        again = [u for u, r in res.items() if (any(not o[2] and (u, o[0]) not in kset for o in r["obl"]) or any(e[0] != "exception" for e in r["errors"]))
                 and not r.get("crash") and not (r["errors"] and all(e[0] == "exception" for e in r["errors"]) and all(o[2] for o in r["obl"]))]
        if "--noretry" in sys.argv:
            again = []
        again.sort(key=lambda u: res[u].get("wall", 0))
        if again and time.time() - t0 < 400 and not any(r["fails"] for r in numres.values()):
            def work2(u):
                from engine import prover
                prover.OPTS["sign_timeout"] *= 4
                prover.OPTS["goal_timeout"] *= 3
                return worker.run(u, ROOT, TI["timeout"] * 3, TI["unit"])

            res2 = run_pool(again[:16], work2, 6, min(TI["unit"] + 60, max(30, 600 - (time.time() - t0))), lambda r: [])
            for u, r in res2.items():
                if sum(not o[2] for o in r["obl"]) + 5 * len(r["errors"]) < sum(not o[2] for o in res[u]["obl"]) + 5 * len(res[u]["errors"]):
                    res[u] = r
        late = [u for u in res if u not in first]
        np2 = numeric(late, {}, max(10, TI["n"] // 4), TI["nsec"], seed, tmp, nproc, "l", allow) if late else []
        nr2, ne2 = collect(np2, 200 + TI["nsec"] * len(late))
        numres.update(nr2)
        numerrs += ne2
        for r in res.values():
            if r.get("crash"):
                # the obligations of the unit could not be generated: they are not discharged
                r["errors"] = list(r["errors"]) + [("not generated", "the verifier failed on the current source: " + r["crash"].strip().splitlines()[-1], r["crash"], None)]
        crashes = []
        for u, r in numres.items():
            if r.get("crash"):
                res.setdefault(u, dict(unit=u, obl=[], errors=[]))
                res[u]["errors"] = list(res[u]["errors"]) + [("not run", "the concrete runner failed: " + r["crash"].strip().splitlines()[-1], r["crash"], None)]
        problems = {}   # unit -> list of (label, kind, detail, model)
        for u, r in res.items():
            for (name, kind, ok, bk, tm, why, model) in r["obl"]:
                if not ok:
                    problems.setdefault(u, []).append((name, kind, why, model))
            for (kind, msg, tb, model) in r["errors"]:
                problems.setdefault(u, []).append((kind, "error", msg + ("\n" + tb if tb else ""), model))
        nfail = []
        for u, r in numres.items():
            nfail += r["fails"]

        def knownf(u, label):
            for k in kn_all:
                if k.get("status", "open") == "open" and u in k["units"] and label in k["labels"]:
                    return k
            return None

        knhit = {}
        new_problems = {}
        for u, l in problems.items():
            for x in l:
                k = knownf(u, x[0])
                if k is not None:
                    knhit[k["id"]] = k
                else:
                    new_problems.setdefault(u, []).append(x)
        new_fail = []
        for f in nfail:
            k = knownf(f["unit"], f["label"])
            if k is not None:
                knhit[k["id"]] = k
            else:
                new_fail.append(f)
        if crashes:
            for r in crashes:
                print("ENGINE-ERROR in %s\n%s" % (r["unit"], r["crash"]))
        if numerrs:
            print("ENGINE-ERROR in the concrete runner: %s" % numerrs[0])
        # search for failing inputs of the undischarged obligations
        left = [u for u in new_problems if not any(f["unit"] == u for f in new_fail)]
        if left and not new_fail and "--nofals" not in sys.argv:
            presets = {}
            for u in left:
                ms = []
                for (name, kind, why, model) in new_problems[u]:
                    if model:
                        m = {k: v for k, v in model.items() if isinstance(v, (int, float)) and abs(v) < 1e12}
                        if m not in ms:
                            ms.append(m)
                presets[u] = ms[:12]
            # the failing units first, then the units of the property as a whole
            tgt = left[:40] + [u for u in first if u not in left][:40]
            fp = numeric(tgt, presets, TI["falsn"], max(4.0, TI["fals"] * nproc / max(1, len(tgt))), seed + 7, tmp, nproc, "f", allow)
            fr, _ = collect(fp, TI["fals"] * 2 + 60)
            for u, r in fr.items():
                for f in r["fails"]:
                    if knownf(f["unit"], f["label"]) is None:
                        new_fail.append(f)
        # ---- report
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(rdir, f))
        nviol = 0

        def slug(s):
            return re.sub(r"[^A-Za-z0-9]+", "_", s)[:60].strip("_")

        lines = []
        for f in new_fail[:8]:
            u = f["unit"]
            path = os.path.join(rdir, "%s-%s-%d.json" % (pid, slug(u.split("|")[1]), nviol))
            obls = [dict(obligation=x[0], kind=x[1], verifier=x[2][:1500]) for x in new_problems.get(u, [])]
            json.dump(dict(property=pid, unit=u, label=f["label"], detail=f["detail"], values=f["values"], choices=f["choices"], failed_obligations=obls,
                           replay="%s %s/specs/numrun.py --replay %s" % (VENV, HERE, path)), open(path, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s -- %s" % (u, f["label"], f["detail"][:300]))
            nviol += 1
        shown = {f["unit"] for f in new_fail}
        rest = [u for u in new_problems if u not in shown]
        shownl = {}
        for u in new_problems:
            for x in new_problems[u]:
                shownl.setdefault((u, x[0], x[1]), []).append(x[2])
        for (u, lab, kd), why in list(shownl.items())[:25 if not verbose else 200]:
            w = why[0] if verbose else why[0].splitlines()[0] if why[0] else ""
            print("  not discharged: %s :: %s (%s)%s %s" % (u, lab, kd, " x%d" % len(why) if len(why) > 1 else "", w[:300 if not verbose else 2500]))
        if len(shownl) > 25 and not verbose:
            print("  ... %d more" % (len(shownl) - 25))
        if rest and not new_fail:
            u = rest[0]
            path = os.path.join(rdir, "%s-obligation.json" % pid)
            json.dump(dict(property=pid, unit=u, failed_obligations=[dict(unit=v, obligation=x[0], kind=x[1], verifier=x[2][:3000], model=x[3]) for v in rest for x in new_problems[v]][:40]),
                      open(path, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            nviol += 1
        for k in known:
            if k["id"] in knhit:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        nob = sum(len(r["obl"]) for r in res.values())
        ndis = sum(1 for r in res.values() for o in r["obl"] if o[2])
        uniq = {}
        for r in res.values():
            for o in r["obl"]:
                if o[2]:
                    uniq[o[3]] = uniq.get(o[3], 0) + 1
        contracts = sorted({u.split("|")[1] for u in res if u.startswith("contract")})
        inl = sorted(set().union(*[set(r.get("inlined", ())) for r in res.values()]) if res else ())
        ass = sorted(set().union(*[set(r.get("assumed", ())) for r in res.values()]) if res else ())
        accepted = sum(r["accepted"] for r in numres.values())
        nochk = [u for u, r in numres.items() if not r["accepted"] and not r.get("nonum")]
        ev = dict(property=pid, tier=tier, seed=seed, level="proof" if sym_first else "exploration",
                  coverage=dict(obligations=nob, discharged=ndis, discharged_by=uniq, checker_cmd="python3-vt /verif/check.py %s" % pid,
                                trusted_base=TRUSTED, functions_under_contract=contracts, scenarios=sorted({u.split("|")[1] for u in res if u.startswith("scenario")}),
                                units=len(res), paths=sum(r.get("paths", 0) for r in res.values()),
                                bodies_executed=[k for k in inl], bounded_units=[u.split("|")[1] for u in bounded_units],
                                z3_seconds=round(sum(r.get("z3", 0) for r in res.values()), 2), z3_calls=sum(r.get("z3n", 0) for r in res.values()),
                                solver_and_normaliser_seconds=round(sum(o[4] for r in res.values() for o in r["obl"]), 2),
                                known_findings=sorted(knhit), undischarged=[[u, x[0]] for u in problems for x in problems[u]][:60],
                                evaluations=accepted, distinct_nontrivial=accepted,
                                rule="concrete runs of the same units on the real package; a run counts when its sampled input satisfies the preconditions",
                                concrete_checks=sum(r["checks"] for r in numres.values()), units_without_concrete_run=nochk,
                                samples=[dict(unit=u, input=r["sample"]) for u, r in list(numres.items())[:3] if r["sample"]]),
                  assumptions=ass + ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol)
        if not only:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
        print("%s %s: %d/%d obligations discharged in %d units (%d contracts), %d concrete runs, %.1f s" % (pid, tier, ndis, nob, len(res), len(contracts), accepted, time.time() - t0))
        if verbose:
            for u, r in sorted(res.items(), key=lambda x: -x[1].get("wall", 0))[:8]:
                print("   %.1fs %s (%d obl, %d paths)" % (r.get("wall", 0), u, len(r["obl"]), r.get("paths", 0)))
                for o in sorted(r["obl"], key=lambda o: -o[4])[:3]:
                    if o[4] > 2:
                        print("        %.1fs %s [%s]" % (o[4], o[0], o[3]))
            print("   no concrete run:", nochk)
            print("   units:", sorted(numres and [(round(r["wall"], 1), u) for u, r in numres.items()])[-4:])
        for l in lines:
            print(l)
        if nviol:
            return 1
        if crashes or numerrs:
            return 2
        return 0
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


TRUSTED = ["engine/terms,poly,norm,prover (normalisation to rational functions over algebraic/transcendental generators) and z3 on the residue",
           "engine/loader: AST rewriting of the source (literals to exact rationals, / and ** on integers, loop heads, contract dispatch)",
           "engine/shims,larr,fancy,reduce_: contracts of the numpy/scipy/math/builtin functions used by the code (validated by the concrete runs)"]
ASSUME = ["floating point arithmetic is treated as exact real arithmetic (rounding is not modelled); decimal literals denote their written value",
          "trusted contracts on numpy, scipy and the Python runtime (engine/shims.py)"]

if __name__ == "__main__":
    sys.exit(main())
