from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fT, fP
from .s_shock import S, G, ps, rho, mdown, mnp

SIGMA = Dom(0, 90, s=(2, 89.5), special=(30.0, 45.0, 60.0, 80.0))


def defl(M, sg, g):
    return sg - deg(atan(tand(sg) / rho(M * sind(sg), g)))


PR = P("Pratio", Dom(1, None, lo_eq=True, s=(1, 12), special=(1.0, 2.0, 4.5)))
MB = P("Mach", Dom(1, None, s=(1.05, 12), special=(2.0, 3.0, 5.0)))
Contract(S + "deflection_Mach_sigma", [P("Mach", MACH), P("sigma", SIGMA), G], spec=defl)
Contract(S + "deflection_Mach_ShockPsratio", [MB, PR, G], spec=lambda M, p, g: defl(M, deg(asin(mnp(p, g) / M)), g), requires=lambda M, p, g: [lt(mnp(p, g), M)])
Contract(S + "downstreamMach_Mach_ShockPsratio", [MB, PR, G], requires=lambda M, p, g: [lt(mnp(p, g), M)],
         spec=lambda M, p, g: oblique_m2(M, mnp(p, g), g))


def oblique_m2(M, mn, g):
    """sqrt of tangential and normal parts: M2^2 T2/T1 = M^2 - Mn^2 + (Mn/rho)^2"""
    t2 = ps(mn, g) / rho(mn, g)
    return sqrt((M * M - mn * mn + mn * mn / (rho(mn, g) * rho(mn, g))) / t2)


@scenario("oblique shock: deflection from the shock angle")
def odefl(env):
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(1, None, s=(1.01, 12), special=(2.0, 3.0)))
    sg = env.real("sigma", SIGMA)
    env.assume(sqle(1, m * sind(sg)))
    d = env.fn(S + "deflection_Mach_sigma")(m, sg, g)
    hint("shock angle from its tangent", eq(atan(tand(sg)), rad(sg)))
    monotone("arctangent", lambda t: atan(t), tand(sg) / rho(m * sind(sg), g), tand(sg))
    env.check("tangent relation", eq(tand(sg - d) * rho(m * sind(sg), g), tand(sg)))
    env.check("not negative", le(0, d))
    env.check("smaller than the shock angle", lt(d, sg))


@scenario("oblique shock: Mach wave does not deflect")
def machwave(env):
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(1, None, s=(1.01, 12), special=(2.0, 3.0)))
    env.check("no deflection", eq(env.fn(S + "deflection_Mach_sigma")(m, deg(asin(1 / m)), g), 0, atol=1e-9))


@scenario("oblique shock: pressure-ratio form against the shock-angle form, and the balances")
def opr(env):
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(1, None, s=(1.05, 12), special=(2.0, 3.0)))
    sg = env.real("sigma", SIGMA)
    env.assume(sqle(1, m * sind(sg)))
    mn = m * sind(sg)
    p = env.fn(S + "Ps_ratio")(mn, g)
    if env.symbolic:
        env.lemma("lemma normal Mach number of the pressure ratio", eq(mnp(p, g), mn))
        env.lemma("lemma shock is not normal", lt(mn, m))
        env.lemma("lemma angle of a sine", eq(asin(sind(sg)), rad(sg)))
    d = env.fn(S + "deflection_Mach_ShockPsratio")(m, p, g)
    m2 = env.fn(S + "downstreamMach_Mach_ShockPsratio")(m, p, g)
    r = rho(mn, g)
    t2 = ps(mn, g) / r
    env.check("same deflection", eq(d, env.fn(S + "deflection_Mach_sigma")(m, sg, g)))
    env.check("tangential velocity", eq(m2 * sqrt(t2) * cosd(sg - d), m * cosd(sg)))
    env.check("mass", eq(r * m2 * sqrt(t2) * sind(sg - d), m * sind(sg)))
    env.check("total enthalpy", eq(t2 * fT(m2, g), fT(m, g)))


prop("C05", contracts=[S + n for n in ("deflection_Mach_sigma", "deflection_Mach_ShockPsratio", "downstreamMach_Mach_ShockPsratio")],
     scenarios=["oblique shock: deflection from the shock angle", "oblique shock: Mach wave does not deflect", "oblique shock: pressure-ratio form against the shock-angle form, and the balances"])
