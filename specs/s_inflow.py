from .lib import *
from .units import scenario, prop
from .s_isentropic import fT, fP
from .s_state import W, RHO, PP, a_of, same_fields
from .s_riemann import GR, wave_curve

R = "aerokit.instance.unsteady_inflow:inflow_pb"
UU = Dom(None, None, s=(-0.3, 0.6), special=(0.0,))
WORDS = "scipy fsolve on the total pressure of the inflow problem ends at a positive static pressure whose velocity is below the limit velocity of the imposed total temperature"


def pol(f0, x0, root, arg):
    r, u, p, g, rtt = [arg(n) for n in ("rho", "u", "p", "gamma", "rtt0")]
    us = u + wave_curve(r, p, g, root)
    return [("guess is a positive pressure", lt(0, x0))], land(lt(0, root), lt(us * us / 2, g / (g - 1) * rtt)), WORDS


pol.nof0 = True


def val(env, x):
    return env.at(x, (0,)) if env.is_array(x) else x


@scenario("unsteady inflow: totals, wave and contact", newton=pol, nfac=0.6)
def inflow(env):
    g = env.real("gamma", GR)
    r, u, p = env.real("rho", RHO), env.real("u", UU), env.real("p", PP)
    pt0, rtt0 = env.real("pt0", PP), env.real("rtt0", Dom(0, None, s=(0.5, 3), special=(1.0, 2.0)))
    if env.numeric:
        u = u * a_of(r, p, g)
        pt0 = p * (1 + 0.2 * pt0)
        rtt0 = p / r * (1 + 0.2 * rtt0)
    st = env.fn(W)(r, u, p, g)
    cls = env.fn(R)
    env.frame()
    pb = cls(st)
    pb.solve_with_pt0_rtt0(pt0, rtt0)
    env.check_frame()
    L, M = pb.qstarL(), pb.qstarR()
    f = lambda x: val(env, x)
    ps, us = f(pb.pstar()), f(pb.ustar())
    if env.numeric:
        env.assume(ps > 0 and us * us / 2 < 0.9 * g / (g - 1) * rtt0)
    env.check("pressure is continuous at the contact", land(eq(f(L.p), ps, tol=1e-5), eq(f(M.p), ps)))
    env.check("velocity is continuous at the contact", land(eq(f(L.u), us), eq(f(M.u), us)))
    env.check("gamma of the states", land(eq(L._gamma, g), eq(M._gamma, g)))
    env.check("the pressure is positive", lt(0, ps))
    env.check("the velocity is on the wave curve", eq(us, u + wave_curve(r, p, g, ps), atol=1e-6))
    shock = env.decide(sqlt(p, ps))
    rs = f(M.rho)
    env.check("density behind the wave", eq(rs, r * ((g + 1) * ps + (g - 1) * p) / ((g - 1) * ps + (g + 1) * p)) if shock else eq(rs, r * power(ps / p, 1 / g)))
    rl = f(L.rho)
    env.check("inflow density is positive", lt(0, rl))
    env.check("imposed total enthalpy", eq(g / (g - 1) * f(L.p) / rl + us * us / 2, g / (g - 1) * rtt0, tol=1e-5))
    G = g / (g - 1)
    cut(env, "total pressure of the imposed state", (f(L.p), rl, us, g, rtt0, pt0),
        lambda P, D, V, g, h, t: [land(lt(0, P), lt(0, D), lt(1, g), lt(0, t), lt(V * V / 2, g / (g - 1) * h)),
                                  eq(g / (g - 1) * P / D + V * V / 2, g / (g - 1) * h),
                                  eq(P * power(1 + V * V / 2 / (g / (g - 1) * h - V * V / 2), g / (g - 1)), t)],
        lambda P, D, V, g, h, t: eq(P * power(h / (P / D), g / (g - 1)), t),
        steps=lambda P, D, V, g, h, t: (hint("total to static temperature", eq(h / (P / D), 1 + V * V / 2 / (g / (g - 1) * h - V * V / 2))),
                                        congruent(lambda z: power(z, g / (g - 1)), h / (P / D), 1 + V * V / 2 / (g / (g - 1) * h - V * V / 2))))
    env.check("imposed total pressure", eq(f(L.p) * power(rtt0 / (f(L.p) / rl), g / (g - 1)), pt0, tol=1e-5))
    lo, hi = f(pb.left_fastest()), f(pb.right_fastest())
    env.check("slowest wave is the contact", eq(lo, us))
    if shock:
        env.check("fastest wave is the shock: mass balance", eq((rs - r) * hi, rs * us - r * u, tol=1e-5, atol=1e-6))
    else:
        env.check("fastest wave is the head of the expansion", eq(hi, u + a_of(r, p, g)))
    same_fields(env, "initial state is not modified", st, r, u, p, g, None)
    same_fields(env, "the problem keeps the initial state", pb._qR, r, u, p, g, None)


@scenario("unsteady inflow: the wave of the solved state", newton=pol, nfac=0.4)
def inflow_wave(env):
    """the state behind the wave satisfies the jump relations of a shock, or the invariants of an expansion"""
    g = env.real("gamma", GR)
    r, u, p, ps = env.real("rho", RHO), env.real("u", UU), env.real("p", PP), env.real("ps", PP)
    us = u + wave_curve(r, p, g, ps)
    if env.decide(sqlt(p, ps)):
        rs = r * ((g + 1) * ps + (g - 1) * p) / ((g - 1) * ps + (g + 1) * p)
        if env.numeric:
            env.assume(ps > p * (1 + 1e-5))
        env.check("density increases", lt(r, rs))
        s = (rs * us - r * u) / (rs - r)
        w1, w2 = u - s, us - s
        hint("velocity jump of the shock", eq((us - u) * (us - u) * r * rs, (ps - p) * (rs - r)))
        env.check("mass through the shock", eq(rs * w2, r * w1, atol=1e-6))
        env.check("momentum through the shock", eq(rs * w2 * w2 + ps, r * w1 * w1 + p, tol=1e-5))
        env.check("total enthalpy through the shock", eq(g / (g - 1) * ps / rs + w2 * w2 / 2, g / (g - 1) * p / r + w1 * w1 / 2, tol=1e-5))
    else:
        rs = r * power(ps / p, 1 / g)
        a, a2 = a_of(r, p, g), a_of(rs, ps, g)
        env.check("entropy", eq(ps * power(r, g), p * power(rs, g), tol=1e-5))
        hint("speed of sound in the expansion", eq(a2, a * power(ps / p, (g - 1) / 2 / g)))
        env.check("Riemann invariant", eq(us - 2 / (g - 1) * a2, u - 2 / (g - 1) * a, tol=1e-5, atol=1e-6))


prop("C14", [], ["unsteady inflow: totals, wave and contact", "unsteady inflow: the wave of the solved state"])
