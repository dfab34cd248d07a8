from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_state import W, RHO, PP, U, a_of, same_fields

R = "aerokit.instance.riemann:riemann_pb"
GR = Dom(1, None, s=(1.15, 2.2), special=(1.4, 1.3, 1.6, 5.0 / 3))
UU = Dom(None, None, s=(-1.0, 1.0), special=(0.0,))
WORDS = "scipy newton on the pressure function of the Riemann problem, started from the positive two-expansion estimate, ends at its positive root"


def pol(f0, x0, root, arg):
    return [("guess is a positive pressure", lt(0, x0))], lt(0, root), WORDS


pol.nof0 = True


def build(env):
    q = {}
    for s in "LR":
        g = env.real("gamma" + s, GR)
        r, u, p = env.real("rho" + s, RHO), env.real("u" + s, UU), env.real("p" + s, PP)
        q[s] = (r, u, p, g, env.fn(W)(r, u, p, g))
    rL, uL, pL, gL, sL = q["L"]
    rR, uR, pR, gR, sR = q["R"]
    gm = (gL + gR) / 2
    aL, aR = a_of(rL, pL, gL), a_of(rR, pR, gR)
    env.assume(sqlt((gm - 1) / 2 * (uR - uL) + slack(0.05), aL + aR))
    if env.numeric:
        env.assume(2 * aL / (gL - 1) + 2 * aR / (gR - 1) > uR - uL + 0.1)
    cls = env.fn(R)
    env.frame()
    rp = cls(sL, sR)
    env.check_frame()
    return q, rp


def side(env, rp, q, s):
    r, u, p, g, st = q[s]
    sg = -1 if s == "L" else 1
    star = rp.qstarL() if s == "L" else rp.qstarR()
    w = rp._waves
    out, inn = (w[0], w[1]) if s == "L" else (w[4], w[3])
    return r, u, p, g, st, sg, star, out, inn, star.rho, star.u, star.p


def wave_curve(r, p, g, ps):
    """velocity change across the wave from (r, p) to the pressure ps"""
    a = a_of(r, p, g)
    return ite(sqlt(p, ps), lambda: (ps - p) * sqrt(2 / r / ((g + 1) * ps + (g - 1) * p)), lambda: 2 * a / (g - 1) * (power(ps / p, (g - 1) / 2 / g) - 1))


def fan_inv(r, u, p, g, sg, out, inn, rs, us, ps):
    """class invariant of one side, used by qsol"""
    a = a_of(r, p, g)
    return [("no wave is faster than the outer one", le(sg * inn, sg * out, atol=1e-9)), ("the contact is inside the waves", le(sg * us, sg * inn, atol=1e-9)),
            ("tail of the expansion", implies(sqle(ps, p), lambda: land(sqlt(0, sg * (inn - us)), eq(us - 2 / (g - 1) * (inn - us), u - 2 / (g - 1) * (out - u), tol=1e-5, atol=1e-6)))),
            ("head of the expansion", implies(sqle(ps, p), lambda: eq(out, u + sg * a))),
            ("star density and pressure are positive", land(lt(0, rs), lt(0, ps)))]


@scenario("Riemann problem: star states and waves", modes=["L", "R"], newton=pol)
def star(env, mode):
    q, rp = build(env)
    r, u, p, g, st, sg, star, out, inn, rs, us, psr = side(env, rp, q, mode)
    a = a_of(r, p, g)
    env.check("pressure is continuous", land(eq(rp.qstarL().p, rp.pstar()), eq(rp.qstarR().p, rp.pstar())))
    env.check("velocity is continuous", land(eq(rp.qstarL().u, rp.ustar()), eq(rp.qstarR().u, rp.ustar()), eq(rp._waves[2], rp.ustar())))
    env.check("gamma of the star state", eq(star._gamma, g))
    env.check("the star pressure is positive", lt(0, psr))
    shock = env.decide(sqlt(p, psr))
    curve = lambda: eq(us, u + sg * wave_curve(r, p, g, psr), atol=1e-6)
    dens = lambda: eq(rs, r * ((g + 1) * psr + (g - 1) * p) / ((g - 1) * psr + (g + 1) * p)) if shock else eq(rs, r * power(psr / p, 1 / g))
    spd = lambda: (land(eq(out, inn), eq((rs - r) * out, rs * us - r * u, atol=1e-6)) if shock else
                   land(eq(out, u + sg * a), eq(inn, us + sg * a * power(psr / p, (g - 1) / 2 / g))))
    env.check("the star velocity is on the wave curve", curve())
    env.check("density behind the wave", dens())
    env.check("wave speeds", spd())
    if env.symbolic:
        # what follows uses only the facts checked above
        env.generalize(rp)
        r, u, p, g, st, sg, star, out, inn, rs, us, psr = side(env, rp, q, mode)
        env.assume(lt(0, psr))
        env.assume(lt(p, psr) if shock else le(psr, p))
        for f in (curve, dens, spd):
            env.assume(f())
    if shock:
        s = out
        if env.numeric:
            env.assume(psr > p * (1 + 1e-5))
        env.check("density increases", lt(r, rs))
        w1, w2 = u - s, us - s
        env.check("velocity jump of the shock", eq((us - u) * (us - u) * r * rs, (psr - p) * (rs - r), tol=1e-5, atol=1e-7))
        env.check("mass through the shock", eq(rs * w2, r * w1, atol=1e-6))
        env.check("momentum through the shock", eq(rs * w2 * w2 + psr, r * w1 * w1 + p, tol=1e-5))
        env.check("total enthalpy through the shock", eq(g / (g - 1) * psr / rs + w2 * w2 / 2, g / (g - 1) * p / r + w1 * w1 / 2, tol=1e-5))
        env.check("the shock moves into the undisturbed gas", lt(0, -sg * w1))
    else:
        a2 = a_of(rs, psr, g)
        env.check("entropy", eq(psr * power(r, g), p * power(rs, g), tol=1e-5))
        hint("speed of sound in the expansion", eq(a2, a * power(psr / p, (g - 1) / 2 / g)))
        env.check("Riemann invariant", eq(us - sg * 2 / (g - 1) * a2, u - sg * 2 / (g - 1) * a, tol=1e-5, atol=1e-6))
        env.check("head speed", eq(out, u + sg * a))
        env.check("tail speed", eq(inn, us + sg * a2))
        monotone("power function", lambda t: power(t, (g - 1) / 2 / g), psr / p, 1)
        hint("speed of sound decreases", le(a2, a))
    for lab, c in fan_inv(r, u, p, g, sg, out, inn, rs, us, psr):
        env.check(lab, c)
    same_fields(env, "initial state is not modified", st, r, u, p, g, None)
    same_fields(env, "the problem keeps the initial state", rp._qL if mode == "L" else rp._qR, r, u, p, g, None)


@scenario("Riemann problem: accessors", newton=pol)
def acc(env):
    q, rp = build(env)
    env.check("fastest waves", land(eq(rp.left_fastest(), rp._waves[0]), eq(rp.right_fastest(), rp._waves[4])))
    rL, uL, pL, gL, sL = q["L"]
    x = env.real("x", POS)
    sL.p = x
    sL.u = x
    s = rp._qL
    same_fields(env, "the problem keeps its own left state", s, rL, uL, pL, gL, None)


@scenario("Riemann problem: sampled solution", modes=["L", "R"], newton=pol)
def sample(env, mode):
    q, rp = build(env)
    n = env.size("n")
    x = env.arr("xot", (n,), Dom(None, None, s=(-3, 3)))
    if env.symbolic:
        env.generalize(rp)
        env.assume(land(eq(rp.qstarL().p, rp.pstar()), eq(rp.qstarR().p, rp.pstar()), eq(rp.qstarL().u, rp.ustar()), eq(rp.qstarR().u, rp.ustar()), eq(rp._waves[2], rp.ustar())))
        for s in "LR":
            r, u, p, g, st, sg, star, out, inn, rs, us, psr = side(env, rp, q, s)
            env.assume(eq(star._gamma, g))
            for lab, c in fan_inv(r, u, p, g, sg, out, inn, rs, us, psr):
                env.assume(c)
    r, u, p, g, st, sg, star, out, inn, rs, us, psr = side(env, rp, q, mode)
    a = a_of(r, p, g)
    env.frame()
    sol = rp.qsol(x)
    env.check_frame()
    env.check_shape("one density per point", sol.rho, (n,))
    env.check_shape("one velocity per point", sol.u, (n,))
    env.check_shape("one pressure per point", sol.p, (n,))
    fan = env.decide(sqlt(psr, p))
    for ix in env.idx(n):
        xi = env.at(x, ix)
        ri, ui, pi_, gi = env.at(sol.rho, ix), env.at(sol.u, ix), env.at(sol.p, ix), env.at_b(sol._gamma, ix)
        outer = sqlt(sg * out, sg * xi)
        middle = land(sqlt(sg * us, sg * xi), sqlt(sg * xi, sg * inn))
        env.check("undisturbed state", implies(outer, lambda: land(eq(ri, r), eq(ui, u), eq(pi_, p))))
        env.check("star state", implies(middle, lambda: land(eq(ri, rs), eq(ui, us), eq(pi_, psr))))
        env.check("gamma of the side", implies(sqlt(sg * us, sg * xi), lambda: eq(gi, g)))
        if not fan:
            continue
        ins = land(sqlt(sg * inn, sg * xi), sqlt(sg * xi, sg * out))
        if env.symbolic:
            env.assume(ins)
        elif not ins:
            continue
        vel = lambda xi, ui, a: eq(ui, (g - 1) / (g + 1) * (u + 2 / (g - 1) * (-sg * a + xi)), atol=1e-7)
        env.check("fan: velocity", vel(xi, ui, a))
        ai = sg * (xi - ui)
        power_laws = lambda ai, a, ri, pi_: land(eq(pi_, p * power(ai / a, 2 * g / (g - 1))), eq(ri, r * power(pi_ / p, 1 / g)))
        if env.symbolic:
            with env.aside():
                A, US, I, X, V = env.forget(a, us, inn, xi, ui)
                env.assume(land(lt(0, A), lt(0, sg * (I - US)), eq(US - 2 / (g - 1) * (I - US), u - 2 / (g - 1) * sg * A), lt(sg * I, sg * X), vel(X, V, A)))
                env.check("fan: positive speed of sound", lt(0, sg * (X - V)))
            env.assume(lt(0, ai))
        env.check("fan: power laws", power_laws(ai, a, ri, pi_))
        if env.symbolic:
            with env.aside():
                A, B, P_, R_ = env.forget(a, ai, pi_, ri)
                env.assume(land(lt(0, A), lt(0, B), eq(A * A * r, g * p), power_laws(B, A, R_, P_)))
                env.check("fan: characteristic speed", eq(g * P_, R_ * B * B))
            ri, ui, pi_, xi = env.forget(ri, ui, pi_, xi)
            ai = sg * (xi - ui)
            env.assume(land(vel(xi, ui, a), lt(0, ai), power_laws(ai, a, ri, pi_), eq(g * pi_, ri * ai * ai)))
        env.check("fan: positive speed of sound", lt(0, ai))
        env.check("fan: entropy", eq(pi_ * power(r, g), p * power(ri, g), tol=1e-5))
        env.check("fan: characteristic speed", eq(g * pi_, ri * ai * ai, tol=1e-5))
        env.check("fan: Riemann invariant", eq(ui - sg * 2 / (g - 1) * ai, u - sg * 2 / (g - 1) * a, atol=1e-6))


prop("C13", scenarios=["Riemann problem: star states and waves", "Riemann problem: accessors", "Riemann problem: sampled solution"])
