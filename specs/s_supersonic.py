from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fT, fP

S = "aerokit.aero.Supersonic:"
G = P("gamma", GAM, Q(7, 5), arr=True)
GP = Dom(1, None, s=(1.15, 2.0), special=(1.4, 1.3, 1.6, 5.0 / 3))


def cgf(g):
    return sqrt((g + 1) / (g - 1))


def pm(M, g):
    """Prandtl-Meyer function, degrees"""
    b = sqrt(M * M - 1)
    return deg(cgf(g) * atan(b / cgf(g)) - atan(b))


def pmmax(g):
    return 90 * (cgf(g) - 1)


OM = Dom(0, None, s=(2, 60), special=(26.0, 10.0, 45.0))
PMF = Dom(-90, None, lo_eq=True, s=(-89, 60), special=(-90.0, 0.0, 10.0))
PR = Dom(0, None, s=(0.1, 4), special=(1.0, 2.0, 0.5))
Contract(S + "PrandtlMeyer_Mach", [P("Mach", MSUP1), G], spec=pm)
Contract(S + "deflection_Mach_IsentropicPsratio", [P("Mach", MSUP1), P("Pratio", PR), G],
         modes=["scalar", "int", "defaults", "array", "intarray", "0d", "allarray", "first", "last"],
         requires=lambda M, p, g: [sqle(1, fP(M, g) / p), sqle(fT(1, g) + slack(1e-6), power(fP(M, g) / p, (g - 1) / g))],
         spec=lambda M, p, g: pm(sqrt(2 * (power(fP(M, g) / p, (g - 1) / g) - 1) / (g - 1)), g) - pm(M, g))

PMW = "scipy newton started at Mach 2 converges to a supersonic root of the Prandtl-Meyer equation"


def pol(f0, x0, root, arg):
    return [("guess is supersonic", lt(1, x0))], le(1, root), PMW


@scenario("Prandtl-Meyer: zero at Mach 1, strictly increasing, integral of the wave angle relation")
def pmint(env):
    g = env.real("gamma", GAM)
    m1 = env.real("M1", MSUP1)
    m2 = env.real("M2", MSUP1)
    f = env.fn(S + "PrandtlMeyer_Mach")
    env.check("zero at Mach 1", eq(f(1, g), 0))
    env.assume(sqlt(m1, m2))
    monotone("Prandtl-Meyer function", lambda t: pm(t, g), m1, m2, strict=True)
    env.check("increasing", lt(f(m1, g), f(m2, g)))
    d = env.deriv(lambda m: f(m, g), m2)
    env.check("derivative", eq(d, deg(sqrt(m2 * m2 - 1) / (fT(m2, g) * m2)), tol=1e-4))
    env.check("below its limit", le(f(m2, g), pmmax(g)))


@scenario("Prandtl-Meyer: Mach number of an angle", modes=["scalar", "int", "array"], newton=pol, nfac=0.5)
def pminv(env, mode):
    g = env.real("gamma", GP)
    f = env.fn(S + "Mach_PrandtlMeyer")
    if mode == "array":
        n = env.size("n", 2)
        om = env.arr("omega", (n,), OM)
        env.frame()
        env.assume_all((n,), lambda ix: land(sqlt(slack(2), env.at(om, ix)), lt(env.at(om, ix), pmmax(g) * Q(8, 10))))
        r = f(om, g)
        env.check_frame()
        env.check_shape("one result per angle", r, (n,))
        cells = [(env.at(om, ix), env.at(r, ix)) for ix in env.idx(n)]
    else:
        om = env.real("omega", OM if mode == "scalar" else Dom(1, 45, lo_eq=True, kind="I", s=(1, 45)))
        env.assume(lt(om, pmmax(g) * Q(8, 10), tol=0))
        env.assume(sqlt(slack(2), om))
        r = env.choose("call", [lambda: f(om, g), lambda: f(omega=om, gamma=g)])()
        env.check("scalar result", not env.is_array(r))
        cells = [(om, r)]
    for o, m in cells:
        env.check("supersonic", le(1, m))
        env.check("angle of the result", eq(pm(m, g), o, atol=1e-5))


@scenario("Prandtl-Meyer: default gamma of the inverse", newton=pol, nfac=0.3)
def pminvd(env):
    om = env.real("omega", Dom(0, 100, s=(1, 80)))
    m = env.fn(S + "Mach_PrandtlMeyer")(om)
    env.check("angle of the result", eq(pm(m, Q(7, 5)), om, atol=1e-5))


@scenario("Prandtl-Meyer: inverse of the function value", newton=pol, nfac=0.5)
def pmrt(env):
    g = env.real("gamma", GP)
    m = env.real("M", Dom(1, None, s=(1.1, 5), special=(2.0, 3.0)))
    env.assume(sqlt(slack(2), pm(m, g)))
    r = env.fn(S + "Mach_PrandtlMeyer")(env.fn(S + "PrandtlMeyer_Mach")(m, g), g)
    monotone("Prandtl-Meyer function", lambda t: pm(t, g), r, m, strict=True, when=le(1, r))
    monotone("Prandtl-Meyer function", lambda t: pm(t, g), m, r, strict=True)
    env.check("same Mach number", eq(r, m, tol=1e-4))


@scenario("isentropic wave: pressure ratio of a deflection", newton=pol, nfac=0.5)
def isw(env):
    g = env.real("gamma", GP)
    m = env.real("M", Dom(1, None, s=(1.2, 6), special=(2.0, 3.0)))
    d = env.real("dev", Dom(None, None, s=(-30, 30), special=(0.0, 5.0, -5.0)))
    w = pm(m, g) - d
    env.assume(land(sqlt(slack(2), w), lt(w, pmmax(g) * Q(7, 10), tol=0)))
    p = env.fn(S + "IsentropicPsratio_Mach_deflection")(m, d, g)
    env.check("positive", lt(0, p))
    if env.symbolic:
        root = env.p.state["rootvars"][-1]
        monotone("Prandtl-Meyer function", lambda t: pm(t, g), root, m, when=le(1, root))
        monotone("Prandtl-Meyer function", lambda t: pm(t, g), m, root)
        monotone("pressure function", lambda t: fP(t, g), root, m, when=le(1, root))
        monotone("pressure function", lambda t: fP(t, g), m, root)
        env.lemma("lemma deflection is the change of the Prandtl-Meyer function", eq(pm(root, g), w))
        monotone("Prandtl-Meyer function, strict", lambda t: pm(t, g), root, m, strict=True, when=le(1, root))
        monotone("Prandtl-Meyer function, strict", lambda t: pm(t, g), m, root, strict=True)
    env.check("compression for a positive deflection", implies(sqlt(0, d), le(1, p, atol=1e-6)))
    env.check("expansion for a negative deflection", implies(sqlt(d, 0), le(p, 1, atol=1e-6)))
    back = env.fn(S + "deflection_Mach_IsentropicPsratio")(m, p, g)
    env.check("the angle of this pressure ratio is the opposite deflection", eq(back, -d, atol=1e-5))


@scenario("isentropic wave: angle of a pressure ratio")
def isang(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MSUP1)
    m2 = env.real("M2", MSUP1)
    env.assume(sqle(1 + slack(1e-5), m2))
    p = fP(m, g) / fP(m2, g)
    env.check("angle is the difference of the Prandtl-Meyer functions", eq(env.fn(S + "deflection_Mach_IsentropicPsratio")(m, p, g), pm(m2, g) - pm(m, g), atol=1e-6))


@scenario("angle minus Mach angle", modes=["scalar", "int", "default", "array", "array gamma"], inline=("aerokit.aero.degree:tan",))
def pmmu(env, mode):
    f = env.fn(S + "Mach_PMFmmu")
    W = Dom(0, None, lo_eq=True, s=(1, 200), special=(0.0, 90.0, 100.0))
    g = env.real("gamma", GAM) if mode != "default" else Q(7, 5)
    if mode in ("scalar", "default"):
        w = env.real("w", W)
        env.assume(sqlt(w, pmmax(g) + 90 - slack(3)))
        x = w - 90
        m = env.choose("call", [lambda: f(x, g), lambda: f(x, gamma=g)])() if mode == "scalar" else f(x)
        cells = [(x, g, m)]
    elif mode == "int":
        w = env.int("w", 0, None, s=(0, 180))
        env.assume(sqlt(w, pmmax(g) + 90 - slack(3)))
        cells = [(w - 90, g, f(w - 90, g))]
    else:
        n = env.size("n")
        w = env.arr("w", (n,), W)
        if mode == "array gamma":
            g = env.arr("gam", (n,), GAM)
        env.assume_all((n,), lambda ix: sqlt(env.at(w, ix), pmmax(env.at_b(g, ix)) + 90 - slack(3)))
        x = w - 90
        env.frame()
        r = f(x, g)
        env.check_frame()
        env.check_shape("one result per angle", r, (n,))
        cells = [(env.at(x, ix), env.at_b(g, ix), env.at(r, ix)) for ix in env.idx(n)]
    for x, gg, m in cells:
        if env.symbolic:
            y = x + 90
            env.lemma("lemma angle is in the first quadrant", land(le(0, rad(y) / cgf(gg)), lt(rad(y) / cgf(gg), pi() / 2)))
        env.check("supersonic", le(1, m))
        mu = pm(m, gg) - x
        env.check("the difference is the Mach angle", land(eq(sind(mu) * m, 1), lt(0, mu), le(mu, 90)))


prop("C08", contracts=[S + n for n in ("PrandtlMeyer_Mach", "deflection_Mach_IsentropicPsratio")],
     scenarios=["Prandtl-Meyer: zero at Mach 1, strictly increasing, integral of the wave angle relation", "Prandtl-Meyer: Mach number of an angle",
                "Prandtl-Meyer: default gamma of the inverse", "Prandtl-Meyer: inverse of the function value", "isentropic wave: pressure ratio of a deflection",
                "isentropic wave: angle of a pressure ratio", "angle minus Mach angle"])
