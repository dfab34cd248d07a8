from .lib import *
from .contract import Contract, P, Secant
from .units import scenario, prop
from .s_isentropic import fT, fP

S = "aerokit.aero.ShockWave:"
G = P("gamma", GAM, Q(7, 5), arr=True)
MN = P("Mn", Dom(0, None, s=(0.75, 15), special=(1.0, 2.0, 3.0, 1.5)))
ANYM = P("Mn", Dom(None, None, s=(-3, 8), special=(1.0, 2.0, 0.0, 3.0)))


def ps(M, g):
    return (2 * g * M * M - (g - 1)) / (g + 1)


def rho(M, g):
    return (g + 1) * M * M / (2 + (g - 1) * M * M)


@opaque("mdown", lambda r, M, g: [implies(land(lt(1, g), le(1, M)), land(lt(0, r), le(r, 1), lt(g - 1, 2 * g * r * r)))])
def mdown(M, g):
    return sqrt((2 + (g - 1) * M * M) / (2 * g * M * M - (g - 1)))


@opaque("ptr", lambda r, M, g: [implies(land(lt(1, g), lt(0, M), lt(g - 1, 2 * g * M * M)), lt(0, r))])
def ptr(M, g):
    return ps(M, g) * fP(mdown(M, g), g) / fP(M, g)


Contract(S + "Ps_ratio", [ANYM, G], spec=ps)
def mnp(p, g):
    return sqrt(1 + (p - 1) * (g + 1) / (2 * g))


Contract(S + "Mn_Ps_ratio", [P("Pratio", Dom(1, None, lo_eq=True, s=(1, 60), special=(1.0, 2.0, 4.5))), G], spec=mnp)
Contract(S + "Rho_ratio", [ANYM, G], spec=rho)
Contract(S + "Ts_ratio", [P("Mn", MACH), G], spec=lambda M, g: ps(M, g) / rho(M, g))
Contract(S + "downstream_Mn", [MN, G], spec=mdown, requires=lambda m, g: [lt(g - 1, 2 * g * m * m)])


@scenario("normal shock: balances of mass, momentum and total enthalpy", modes=["scalar", "array"])
def rh(env, mode):
    """upstream: unit density and pressure, gamma g, velocity u1 = M sqrt(g)"""
    f = {n: env.fn(S + n) for n in ("Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn")}
    g = env.real("gamma", GAM)
    if mode == "scalar":
        m = env.real("M", MSUP1)
        out = {n: f[n](m, g) for n in f}
        cells = [(m, out)]
    else:
        n = env.size("n")
        m = env.arr("M", (n,), MSUP1)
        out = {k: f[k](m, g) for k in f}
        cells = [(env.at(m, ix), {k: env.at(out[k], ix) for k in f}) for ix in env.idx(n)]
    for m, o in cells:
        p2, r2, t2, m2 = o["Ps_ratio"], o["Rho_ratio"], o["Ts_ratio"], o["downstream_Mn"]
        u1 = m * sqrt(g)
        u2 = m2 * sqrt(g * t2)
        env.check("perfect gas law", eq(p2, r2 * t2))
        env.check("mass", eq(r2 * u2, u1))
        env.check("momentum", eq(p2 + r2 * u2 * u2, 1 + u1 * u1))
        env.check("total enthalpy", eq(g / (g - 1) * t2 + u2 * u2 / 2, g / (g - 1) + u1 * u1 / 2))
        env.check("downstream flow is not supersonic", land(lt(0, m2), le(m2, 1)))
        env.check("compression", land(le(1, p2), le(1, r2), le(1, t2)))
        env.check("not a stronger rise of density than of pressure", le(r2, p2))


@scenario("normal shock: the downstream relation is an involution")
def invol(env):
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(1, None, lo_eq=True, s=(1, 8), special=(1.0, 2.0)))
    m2 = mdown(m, g)
    if env.symbolic:
        env.lemma("lemma downstream Mach number is above the limit", lt((g - 1) / (2 * g), m2 * m2))
    d = env.raw_fn(S + "downstream_Mn")
    env.check("twice downstream", eq(d(d(m, g), g), m))


@scenario("normal shock: inverse of the pressure ratio")
def inv_ps(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MSUP1)
    env.check("round trip", eq(env.fn(S + "Mn_Ps_ratio")(env.fn(S + "Ps_ratio")(m, g), g), m))
    p = env.real("p", Dom(1, None, lo_eq=True, s=(1, 60), special=(1.0, 2.0, 4.5)))
    r = env.fn(S + "Mn_Ps_ratio")(p, g)
    env.check("pressure ratio of the result", eq(env.fn(S + "Ps_ratio")(r, g), p))
    env.check("result is not subsonic", le(1, r))


prop("C03", contracts=[S + n for n in ("Ps_ratio", "Mn_Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn")],
     scenarios=["normal shock: balances of mass, momentum and total enthalpy", "normal shock: the downstream relation is an involution", "normal shock: inverse of the pressure ratio"])

# ---------------------------------------------------------------- total pressure
PTM = P("Mn", Dom(0, None, s=(1, 15), special=(1.0, 2.0, 3.0, 1.5)))
Contract(S + "Pt_ratio", [PTM, G], spec=ptr, requires=lambda m, g: [lt(g - 1, 2 * g * m * m)])


@scenario("total pressure ratio: not above 1, decreasing with the Mach number")
def ptmono(env):
    g = env.real("gamma", GAM)
    m1 = env.real("M1", MSUP1)
    m2 = env.real("M2", MSUP1)
    env.assume(sqle(m1, m2))
    f = env.fn(S + "Pt_ratio")
    F = lambda t: power((g + 1) * t / (2 + (g - 1) * t), g / (g - 1)) * power((g + 1) / (2 * g * t - (g - 1)), 1 / (g - 1))
    monotone("total pressure ratio", F, m1 * m1, m2 * m2, sense=-1)
    monotone("total pressure ratio from Mach 1", F, 1, m1 * m1, sense=-1)
    env.check("value at Mach 1", eq(f(1, g), 1))
    env.check("closed form", eq(f(m1, g), F(m1 * m1)))
    env.check("loss", le(f(m1, g), 1))
    env.check("decreasing", le(f(m2, g), f(m1, g)))




def pol_ptr(f0, x0, root, arg):
    g = arg("gamma")
    return [], land(lt(0, root), lt(g - 1, 2 * g * root * root)), "the secant iteration for the total pressure ratio stays in the domain of the downstream Mach number"


@scenario("total pressure ratio: inverse", newton=pol_ptr, nfac=0.5)
def ptinv(env):
    g = env.real("gamma", Dom(1, None, s=(1.1, 1.9), special=(1.4, 1.3, 5.0 / 3)))
    y = env.real("ptratio", Dom(0, None, s=(0.05, 0.97), special=(0.5, 0.72, 0.33)))
    env.assume(sqle(y, 1))
    m = env.fn(S + "Mn_Pt_ratio")(y, g)
    env.check("total pressure ratio of the result", eq(ptr(m, g), y, tol=1e-4))
    F = lambda t: power((g + 1) * t / (2 + (g - 1) * t), g / (g - 1)) * power((g + 1) / (2 * g * t - (g - 1)), 1 / (g - 1))
    if env.symbolic:
        monotone("total pressure ratio below Mach 1", F, m * m, 1, sense=-1, strict=True)
    env.check("supersonic", implies(sqlt(y, 1), le(1, m, atol=1e-3)))


@scenario("total pressure ratio: a ratio above 1 is refused")
def ptinv1(env):
    g = env.real("gamma", GAM)
    y = env.real("ptratio", Dom(1, None, s=(1.001, 5)))
    env.check("refused", eq(env.fn(S + "Mn_Pt_ratio")(y, g), 1))


prop("C04", contracts=[S + "Pt_ratio"], scenarios=["total pressure ratio: not above 1, decreasing with the Mach number", "total pressure ratio: inverse", "total pressure ratio: a ratio above 1 is refused"])
