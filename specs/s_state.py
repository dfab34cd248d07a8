from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fT, fP
from .s_shock import ps, rho, mdown

K = "aerokit.aero.model1D:state"
RHO = Dom(0, None, s=(0.1, 5), special=(1.0, 2.0, 0.5))
PP = Dom(0, None, s=(0.1, 5), special=(1.0, 2.0, 0.5))
U = Dom(None, None, s=(-3, 3), special=(0.0, 1.0, -1.0))


class View:
    """elementwise view of a state: (index, rho, u, p)"""


def mkstate(env, mode, cls=K, sup=None, tag="", udom=U):
    """state with scalar or array fields; returns (state, gamma, cells(fn)) """
    g = env.real("gamma" + tag, GAM)
    if mode.startswith("scalar"):
        r, u, p = env.real("rho" + tag, RHO), env.real("u" + tag, udom), env.real("p" + tag, PP)
        st = env.fn(cls)(r, u, p, g) if mode == "scalar" else env.fn(cls)(rho=r, u=u, p=p, gamma=g)
        n = None
    else:
        n = env.size("n" + tag)
        r, u, p = env.arr("rho" + tag, (n,), RHO), env.arr("u" + tag, (n,), udom), env.arr("p" + tag, (n,), PP)
        st = env.fn(cls)(r, u, p, g)
    return st, g, n, (r, u, p)


def cells(env, n, *arrs):
    if n is None:
        yield (None,) + arrs
        return
    for ix in env.idx(n):
        yield (ix,) + tuple(env.at_b(a, ix) for a in arrs)


def same_fields(env, label, st, r, u, p, g, ix):
    f = lambda a: a if ix is None else env.at_b(a, ix)
    env.check(label + ": density", eq(f(st.rho), r, atol=1e-9))
    env.check(label + ": velocity", eq(f(st.u), u, atol=1e-7))
    env.check(label + ": pressure", eq(f(st.p), p, atol=1e-9))
    env.check(label + ": gamma", eq(st._gamma, g))


def a_of(r, p, g):
    return sqrt(g * p / r)


@scenario("state: derived quantities", modes=["scalar", "scalar keywords", "array"])
def derived(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode)
    env.frame()
    out = {k: getattr(st, k)() for k in ("asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot")}
    env.check_frame()
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        f = lambda k: out[k] if ix is None else env.at(out[k], ix)
        a = a_of(r, p, g)
        env.check("speed of sound", eq(f("asound") * f("asound") * r, g * p))
        env.check("speed of sound is positive", lt(0, f("asound")))
        env.check("left acoustic speed", eq(f("left_acoustic"), u - a, atol=1e-8))
        env.check("right acoustic speed", eq(f("right_acoustic"), u + a, atol=1e-8))
        env.check("Mach number", eq(f("Mach") * a, u, atol=1e-8))
        env.check("mass flow", eq(f("massflow"), r * u, atol=1e-8))
        env.check("total pressure", eq(f("Ptot"), p * fP(u / a, g)))
        env.check("total temperature", eq(f("rTtot"), p / r * fT(u / a, g)))
        env.check("total enthalpy", eq(g / (g - 1) * f("rTtot"), g / (g - 1) * p / r + u * u / 2))
        same_fields(env, "state is not modified", st, r, u, p, g, ix)


@scenario("state: copy and indexing keep the state", modes=["scalar", "array"])
def copies(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode)
    c = st.copy()
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        same_fields(env, "copy", c, r, u, p, g, ix)
        if ix is not None:
            i = st[ix[0]]
            same_fields(env, "element", i, r, u, p, g, None)
    if n is None:
        env.check("size", eq(st.size, 1))
    else:
        env.check("size", eq(st.size, n))
    x = env.real("x", POS)
    c.p = x
    c.rho = x
    c.u = x
    c._gamma = x
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        same_fields(env, "changing the copy keeps the source", st, r, u, p, g, ix)


@scenario("state: Rankine-Hugoniot jump", modes=["scalar", "array"])
def jump(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode)
    if n is None:
        env.assume(sqle(g * p0, r0 * u0 * u0))
    else:
        env.assume_all((n,), lambda ix: sqle(g * env.at(p0, ix), env.at(r0, ix) * env.at(u0, ix) * env.at(u0, ix)))
    env.frame()
    s2 = st.state_RH()
    env.check_frame()
    env.check("jump keeps gamma", eq(s2._gamma, g))
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        f = lambda a: a if ix is None else env.at(a, ix)
        r2, u2, p2 = f(s2.rho), f(s2.u), f(s2.p)
        env.check("mass", eq(r2 * u2, r * u))
        env.check("momentum", eq(r2 * u2 * u2 + p2, r * u * u + p))
        env.check("total enthalpy", eq(g / (g - 1) * p2 / r2 + u2 * u2 / 2, g / (g - 1) * p / r + u * u / 2))
        env.check("compression", land(le(p, p2), le(r, r2)))
        same_fields(env, "state is not modified", st, r, u, p, g, ix)


@scenario("state: isentropic change of Mach number", modes=["scalar", "array"])
def isen(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode)
    m = env.real("M", REAL)
    env.frame()
    s2 = st.state_isentropic_Mach(m)
    env.check_frame()
    env.check("isentropic state keeps gamma", eq(s2._gamma, g))
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        f = lambda a: a if ix is None else env.at_b(a, ix)
        r2, u2, p2 = f(s2.rho), f(s2.u), f(s2.p)
        m1 = u / a_of(r, p, g)
        env.check("Mach number", eq(u2, m * a_of(r2, p2, g), atol=1e-8))
        env.check("total temperature", eq(p2 / r2 * fT(m, g), p / r * fT(m1, g)))
        env.check("total pressure", eq(p2 * fP(m, g), p * fP(m1, g)))
        env.check("entropy", eq(p2 * power(r, g), p * power(r2, g)))
        same_fields(env, "state is not modified", st, r, u, p, g, ix)


@scenario("state: rebuilt from total pressure, total temperature and Mach number, velocity or static pressure", modes=["M", "u", "p"])
def rebuild(env, mode):
    arr = env.choose("fields", ["scalar", "array"])
    st, g, n, (r0, u0, p0) = mkstate(env, "scalar")
    if arr == "array":
        n = env.size("n")
    mk = (lambda nm, d: env.arr(nm, (n,), d)) if arr == "array" else env.real
    pt, rtt = mk("pt", POS), mk("rtt", POS)
    each = (lambda c: env.assume_all((n,), lambda ix: c(*[env.at_b(x, ix) for x in (pt, rtt, v)]))) if arr == "array" else (lambda c: env.assume(c(pt, rtt, v)))
    if mode == "M":
        v = mk("M", REAL)
        st.compute_from_pt_rtt_M(pt, rtt, v)
    elif mode == "u":
        v = mk("v", U)
        each(lambda a, b, x: lt(x * x * (g - 1) / (2 * g) * (1 + slack(0.01)), b))
        st.compute_from_pt_rtt_u(pt, rtt, v)
    else:
        v = mk("ps", PP)
        each(lambda a, b, x: sqle(x * (1 + slack(1e-4)), a))
        st.compute_from_pt_rtt_p(pt, rtt, v)
    env.check("gamma is kept", eq(st._gamma, g))
    for ix, a, b, x in cells(env, n if arr == "array" else None, pt, rtt, v):
        f = lambda q: q if ix is None else env.at_b(q, ix)
        r, u, p = f(st.rho), f(st.u), f(st.p)
        env.check("density and pressure are positive", land(lt(0, r), lt(0, p)))
        if mode == "p":
            monotone("power function", lambda t: power(t, (g - 1) / g), 1, a / x)
            hint("temperature ratio", le(1, power(a / x, (g - 1) / g)))
        m = u / a_of(r, p, g)
        env.check("total temperature", eq(p / r + (g - 1) / (2 * g) * u * u, b))
        env.check("total pressure", eq(p * fP(m, g), a))
        env.check({"M": "Mach number", "u": "velocity", "p": "static pressure"}[mode], eq({"M": m, "u": u, "p": p}[mode], x, atol=1e-7))
        if mode == "p":
            env.check("velocity is not negative", le(0, u))


@scenario("state: methods on the rebuilt state agree with the given totals")
def rebuild2(env):
    g = env.real("gamma", GAM)
    st = env.fn(K)(1, 0, 1, g)
    pt, rtt, m = env.real("pt", POS), env.real("rtt", POS), env.real("M", REAL)
    st.compute_from_pt_rtt_M(pt, rtt, m)
    env.check("total pressure", eq(st.Ptot(), pt))
    env.check("total temperature", eq(st.rTtot(), rtt))
    env.check("Mach number", eq(st.Mach(), m, atol=1e-9))


@scenario("state: default gamma is 1.4")
def dflt(env):
    st = env.fn(K)(env.real("rho", RHO), env.real("u", U), env.real("p", PP))
    env.check("gamma", eq(st._gamma, Q(7, 5)))


prop("C11", scenarios=["state: derived quantities", "state: copy and indexing keep the state", "state: Rankine-Hugoniot jump", "state: isentropic change of Mach number",
                       "state: rebuilt from total pressure, total temperature and Mach number, velocity or static pressure", "state: methods on the rebuilt state agree with the given totals",
                       "state: default gamma is 1.4"])

# ---------------------------------------------------------------- unsteady waves
W = "aerokit.aero.unsteady1D:unsteady_state"
BOTH = ["scalar", "array"]


@scenario("unsteady waves: shock curve satisfies the Rankine-Hugoniot relations", modes=BOTH)
def shockcurve(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode, W)
    p = env.real("p2", PP)
    env.frame()
    du, rr = st.delta_u_shock(p), st.rho_through_shock(p)
    env.check_frame()
    for ix, r, u, pp in cells(env, n, r0, u0, p0):
        f = lambda a: a if ix is None else env.at(a, ix)
        d, r2 = f(du), f(rr)
        env.check("density is positive", lt(0, r2))
        env.check("velocity jump", eq(d * d * r * r2, (p - pp) * (r2 - r), atol=1e-9))
        env.check("internal energy", eq((p / r2 - pp / r) * 2 * r * r2, (g - 1) * (p + pp) * (r2 - r), atol=1e-8))
        env.check("compression slows the flow", land(implies(le(pp, p), le(0, d)), implies(le(p, pp), le(d, 0))))
        same_fields(env, "state is not modified", st, r, u, pp, g, ix)


@scenario("unsteady waves: isentropic curve satisfies the Riemann invariant", modes=BOTH)
def isencurve(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode, W)
    p = env.real("p2", PP)
    env.frame()
    du, rr = st.delta_u_expansion(p), st.rho_through_isentropic(p)
    env.check_frame()
    for ix, r, u, pp in cells(env, n, r0, u0, p0):
        f = lambda a: a if ix is None else env.at(a, ix)
        d, r2 = f(du), f(rr)
        env.check("density is positive", lt(0, r2))
        env.check("entropy", eq(p * power(r, g), pp * power(r2, g)))
        env.check("Riemann invariant", eq(d, 2 / (g - 1) * (a_of(r2, p, g) - a_of(r, pp, g)), atol=1e-8))
        same_fields(env, "state is not modified", st, r, u, pp, g, ix)


@scenario("unsteady waves: both curves meet with the same slope")
def slopes(env):
    st, g, n, (r, u, p0) = mkstate(env, "scalar", W)
    env.check("no change at the initial pressure", land(eq(st.delta_u_shock(p0), 0), eq(st.delta_u_expansion(p0), 0), eq(st.rho_through_shock(p0), r), eq(st.rho_through_isentropic(p0), r)))
    if env.symbolic:
        q = env.real("q", PP)
        from engine import terms as T
        at0 = lambda e: Q_(T.subst(e.e, {q.e: p0.e}))
        from engine.values import Sym as Q_
        a = a_of(r, p0, g)
        env.check("slope of the shock curve", eq(at0(env.deriv(st.delta_u_shock, q)) * r * a, 1))
        env.check("slope of the isentropic curve", eq(at0(env.deriv(st.delta_u_expansion, q)) * r * a, 1))
        env.check("density slope of the shock curve", eq(at0(env.deriv(st.rho_through_shock, q)) * a * a, 1))
        env.check("density slope of the isentropic curve", eq(at0(env.deriv(st.rho_through_isentropic, q)) * a * a, 1))
    else:
        a = a_of(r, p0, g)
        env.check("slope of the shock curve", eq(env.deriv(st.delta_u_shock, p0) * r * a, 1, tol=1e-3))
        env.check("slope of the isentropic curve", eq(env.deriv(st.delta_u_expansion, p0) * r * a, 1, tol=1e-3))
        env.check("density slope of the shock curve", eq(env.deriv(st.rho_through_shock, p0) * a * a, 1, tol=1e-3))
        env.check("density slope of the isentropic curve", eq(env.deriv(st.rho_through_isentropic, p0) * a * a, 1, tol=1e-3))


@scenario("unsteady waves: state behind a shock of given speed", modes=BOTH)
def ushock(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode, W)
    us = env.real("ushock", Dom(None, None, s=(-6, 6)))
    if n is None:
        env.assume(sqle(g * p0, r0 * (u0 - us) * (u0 - us)))
    else:
        env.assume_all((n,), lambda ix: sqle(g * env.at(p0, ix), env.at(r0, ix) * (env.at(u0, ix) - us) * (env.at(u0, ix) - us)))
    env.frame()
    s2 = st._rankinehugoniot_from_ushock(us)
    env.check_frame()
    env.check("gamma", eq(s2._gamma, g))
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        f = lambda a: a if ix is None else env.at(a, ix)
        r2, u2, p2 = f(s2.rho), f(s2.u), f(s2.p)
        w, w2 = u - us, u2 - us
        env.check("mass", eq(r2 * w2, r * w, atol=1e-8))
        env.check("momentum", eq(r2 * w2 * w2 + p2, r * w * w + p))
        env.check("energy", eq(g / (g - 1) * p2 / r2 + w2 * w2 / 2, g / (g - 1) * p / r + w * w / 2))
        env.check("compression", le(p, p2))
        same_fields(env, "state is not modified", st, r, u, p, g, ix)


@scenario("unsteady waves: copies", modes=BOTH)
def ucopies(env, mode):
    st, g, n, (r0, u0, p0) = mkstate(env, mode, W)
    c, s = st.copy(), st.copysymmetric()
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        same_fields(env, "copy", c, r, u, p, g, ix)
        same_fields(env, "mirrored copy", s, r, -u, p, g, ix)
        same_fields(env, "state is not modified", st, r, u, p, g, ix)
    x = env.real("x", POS)
    for o in (c, s):
        o.p, o.rho, o.u, o._gamma = x, x, x, x
    for ix, r, u, p in cells(env, n, r0, u0, p0):
        same_fields(env, "changing a copy keeps the source", st, r, u, p, g, ix)


prop("C12", scenarios=["unsteady waves: shock curve satisfies the Rankine-Hugoniot relations", "unsteady waves: isentropic curve satisfies the Riemann invariant",
                       "unsteady waves: both curves meet with the same slope", "unsteady waves: state behind a shock of given speed", "unsteady waves: copies"])
