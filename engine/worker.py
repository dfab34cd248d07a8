"""verification of one unit: symbolic execution of the current source, discharge of every obligation"""
import time

from . import loopinv, focus, symenv, explore, prover, terms as T
from specs import lib, units, contract

lib.HOOK = symenv.Hook

CACHE = {}


def run(uid, root="/repo", timeout=None, deadline=None):
    dropped = set()
    t0 = time.time()
    for k in range(12):
        r = run_once(uid, root, timeout, deadline, dropped)
        bad = {loopinv.inv_name(o[0]) for o in r["obl"] if o[1] == "invariant" and not o[2]}
        if not bad or (deadline and time.time() - t0 > deadline):
            break
        dropped |= bad
    r["dropped"] = sorted(dropped)
    r["wall"] = time.time() - t0
    return r


def run_once(uid, root, timeout, deadline, dropped):
    t0 = time.time()
    kind, name, mode = uid.split("|")
    o = units.opts_of(uid)
    used, inlined, assumed, read = set(), set(), set(), set()
    stats0 = dict(prover.STATS)

    opq = o.get("opaque", ())

    def fn(p):
        p.state["loops"] = o.get("loops")
        p.state["dropped"] = dropped
        if o.get("lazy"):
            p.state["lazy"] = True
        pol = o.get("newton")
        if pol is not None:
            p.state["newton"] = pol
        orc = o.get("oracle")
        if orc is not None:
            p.state["oracle"] = orc() if callable(orc) else dict(orc)
        env = symenv.SymEnv(p, contract.REG, root, target=name if kind == "contract" else None, inline=o.get("inline", ()),
                            pyfloat=o.get("pyfloat", True), opaque=opq(mode) if callable(opq) else opq)
        if o.get("inline_all"):
            env.world.registry = {k: v for k, v in contract.REG.items() if k in o.get("keep", ())}
        env.root = root
        try:
            units.run_unit(uid, env)
        finally:
            used.update(p.state.get("used", ()))
            inlined.update(p.state.get("inlined", ()))
            assumed.update(p.state.get("assumed", ()))
            for k, v in p.state.get("extra_assumed", {}).items():
                assumed.add(v)
            read.update(x for x in env.world.read if x)

    ex = explore.Explorer(tlimit=o.get("tlimit", 240))
    obls = ex.run(fn)
    texp = time.time() - t0
    res = []
    if any(ob.kind == "invariant" for ob in obls):
        obls = sorted(obls, key=lambda ob: ob.kind != "invariant")
    for ob in obls:
        if ob.kind != "invariant" and any(x[1] == "invariant" and not x[2] for x in res):
            break   # the invariants are weakened first
        if deadline and time.time() - t0 > deadline:
            res.append((ob.name, ob.kind, False, "", 0.0, "unit time limit", None))
            continue
        hyps = list(ob.hyps)
        if ob.foralls:
            hyps, _ = focus.prepare(hyps, explore.instantiate(ob.foralls, hyps + [ob.goal], [ob.goal]), ob.goal)
        key = (frozenset(h.id for h in hyps), ob.goal.id)
        r = CACHE.get(key)
        if r is None:
            r = None
            if len(hyps) > 12:
                # the hypotheses over the variables of the goal first
                fv = T.free_vars(ob.goal)
                rel = [h for h in hyps if T.free_vars(h) <= fv]
                if len(rel) <= 0.6 * len(hyps):
                    st = prover.OPTS["sign_timeout"]
                    prover.OPTS["sign_timeout"] = 300
                    r = prover.prove(rel, ob.goal, 1000)
                    prover.OPTS["sign_timeout"] = st
                    tm0 = r.time
                    if not r.ok:
                        r = None
            if r is None:
                r = prover.prove(hyps, ob.goal, timeout)
            CACHE[key] = r
            tm = r.time
        else:
            tm = 0.0
        res.append((ob.name, ob.kind, bool(r.ok), r.backend if r.ok else "", tm, "" if r.ok else r.reason, None if r.ok else r.model))
    if not ex.reached and not ex.errors:
        ex.errors.append(("vacuous", "no path of the unit reaches its end", "", None, ()))
    elif not obls and not ex.errors:
        ex.errors.append(("vacuous", "the unit generated no obligation", "", None, ()))
    if ex.reached and not ex.errors and o.get("vacuity", True):
        ok = None
        for p in ex.paths[:6]:
            try:
                ok = p.ctx.satisfiable(1500)
            except Exception:
                ok = None
            if ok is not False:
                break
        if ok is False and len(ex.paths) <= 6:
            ex.errors.append(("vacuous", "the assumptions of the unit are contradictory", "", None, ()))
    errs = [(e[0], e[1], e[2] if len(e) > 2 else "", e[3] if len(e) > 3 else None) for e in ex.errors]
    return dict(unit=uid, obl=res, errors=errs, paths=len(ex.paths), reached=ex.reached, used=sorted(used), inlined=sorted(inlined), assumed=sorted(assumed),
                read=sorted(read), wall=time.time() - t0, explore=texp, z3=prover.STATS["z3_time"] - stats0["z3_time"], z3n=prover.STATS["z3_calls"] - stats0["z3_calls"])
