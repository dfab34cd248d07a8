from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fT, fP

M = "aerokit.aero.MassFlow:"
G = P("gamma", GAM, Q(7, 5), arr=True)
G3 = P("gamma", Dom(1, 3, s=(1.2, 2.5), special=(1.4, 1.3, 1.6, 2.0)), Q(7, 5))
SIG = Dom(1, None, lo_eq=True, s=(1.0005, 30), special=(1.5, 2.0, 4.0, 10.0))
R_ = P("r", Dom(0, None, s=(100, 600), special=(287.1,)), Q(2871, 10), arr=False)


def ex(g):
    return (g + 1) / (2 * (g - 1))


@opaque("sigma", lambda r, M, g: [implies(land(lt(0, M), lt(1, g)), lt(0, r))])
def sigma(M, g):
    """A/A*"""
    return power(2 / (g + 1) * fT(M, g), ex(g)) / M


def wflow(M, g):
    return sqrt(g) * M * power(fT(M, g), -ex(g))


SUBW = "scipy newton started below the subsonic root (residual >= 0, 0 < guess <= 1) stays on the subsonic branch (convex, decreasing)"
SUPW = "scipy newton started at a supersonic guess (>= 1) stays on the supersonic branch (convex, increasing)"


def pol_sub(f0, x0, root, arg):
    sub_lemmas(arg("sigma"), arg("gamma"))
    return [("guess is subsonic", land(lt(0, x0), le(x0, 1))), ("guess is not above the root (residual >= 0)", le(0, f0))], land(lt(0, root), le(root, 1)), SUBW


def sub_lemmas(s, g):
    """the two lower bounds of the subsonic Mach number used as a guess"""
    x0 = 1 - sqrt((s - 1) * (g + 1) / 2)
    # sigma(M) >= 1+2(1-M)^2/(g+1) on ]0,1]
    q = lambda t: 1 + 2 * (1 - t) * (1 - t) / (g + 1)
    w = land(le(1, s), lt(0, x0), lt(1, g))
    monotone("quadratic lower bound of the section ratio", lambda t: sigma(t, g) / q(t), x0, 1, sense=-1, when=w)
    hint("guess near Mach 1", implies(w, le(s, sigma(x0, g))))
    F = lambda t: power(2 / (g + 1) * fT(t, g), ex(g))
    low = F(0) / s
    monotone("increasing mass-flow factor", F, 0, low)
    monotone("mass-flow factor below the sonic one", F, 0, 1, strict=True)
    hint("low Mach guess", le(s, sigma(low, g)))
    hint("low Mach guess is subsonic", land(lt(0, low), lt(low, 1)))


def pol_sup(f0, x0, root, arg):
    return [("guess is supersonic", le(1, x0))], le(1, root), SUPW


Contract(M + "WeightMassFlow", [P("Mach", MACH0), R_, G], spec=lambda M, r, g: wflow(M, g))
Contract(M + "Sigma_Mach", [P("Mach", MACH), G], spec=sigma)
Contract(M + "MachSub_Sigma", [P("sigma", SIG), G3],
         ensures=lambda m, s, g: [("subsonic", land(lt(0, m), le(m, 1, atol=1e-4))), ("section ratio of the result", eq(sigma(m, g), s, tol=1e-5))],
         inline=[M + "Mach_Sigma"], newton=pol_sub)
Contract(M + "MachSup_Sigma", [P("sigma", SIG), G3],
         ensures=lambda m, s, g: [("supersonic", le(1, m, atol=1e-4)), ("section ratio of the result", eq(sigma(m, g), s, tol=1e-5))],
         inline=[M + "Mach_Sigma"], newton=pol_sup)


def pol_both(f0, x0, root, arg):
    sub_lemmas(arg("sigma"), arg("gamma"))
    z = arg("Mach")
    sub, sup = le(z, 1), lt(1, z)
    return ([("guess for a subsonic branch is subsonic", implies(sub, land(lt(0, x0), le(x0, 1)))),
             ("guess for a subsonic branch is not above the root (residual >= 0)", implies(sub, le(0, f0))),
             ("guess for a supersonic branch is supersonic", implies(sup, le(1, x0)))],
            land(lt(0, root), implies(sub, le(root, 1)), implies(sup, le(1, root))), SUBW + "; " + SUPW)


@scenario("section ratio: inverse from an array of guesses", nfac=0.5, newton=pol_both)
def mach_sigma_arr(env):
    g = env.real("gamma", G3.dom)
    f = env.fn(M + "Mach_Sigma")
    n = env.size("n", 2)
    s = env.arr("sigma", (n,), SIG)
    m0 = env.arr("Mach", (n,), Dom(0, None, s=(0.1, 4), special=(1.0, 2.0, 0.5)))
    env.frame()
    r = f(s, m0, g)
    env.check_frame()
    env.check_shape("one result per element", r, (n,))
    for ix in env.idx(n):
        x, y, z = env.at(r, ix), env.at(s, ix), env.at(m0, ix)
        env.check("section ratio of the result", eq(sigma(x, g), y, tol=1e-5))
        env.check("branch of the guess", ite(sqle(z, 1), lambda: land(lt(0, x), le(x, 1, atol=1e-4)), lambda: le(1, x, atol=1e-4)))


def pol_scalar(f0, x0, root, arg):
    m, k, g = arg("M"), arg("k"), arg("gamma")
    monotone("decreasing on the subsonic branch", lambda t: sigma(t, g), k * m, m, sense=-1, when=le(m, 1))
    return pol_both0(f0, x0, root)


def pol_both0(f0, x0, root):
    return ([("guess is positive", lt(0, x0)), ("a subsonic guess is not above the root (residual >= 0)", implies(le(x0, 1), le(0, f0)))],
            land(lt(0, root), implies(lt(x0, 1), le(root, 1)), implies(lt(1, x0), le(1, root)), implies(eq(f0, 0), eq(root, x0))), SUBW + "; " + SUPW)


@scenario("section ratio: inverse from a scalar guess", nfac=0.5, newton=pol_scalar)
def mach_sigma(env):
    g = env.real("gamma", G3.dom)
    f = env.fn(M + "Mach_Sigma")
    m = env.real("M", Dom(0, None, s=(0.1, 3.5), special=(2.0, 0.5)))
    k = env.real("k", Dom(0, 1, hi_eq=True, s=(0.96, 1)))
    if env.numeric:
        env.assume(abs(m - 1) > 0.1)
    env.assume(implies(sqlt(1, m), sqlt(1, k * m)))
    s = sigma(m, g)
    r = f(s, m * k, g)
    env.check("section ratio of the result", eq(sigma(r, g), s, tol=1e-5))
    env.check("branch of the guess", ite(sqle(m, 1), lambda: land(lt(0, r), le(r, 1, atol=1e-4)), lambda: le(1, r, atol=1e-4)))


@scenario("section ratio is the mass-flow ratio, with its minimum 1 at the throat", modes=["value", "min"])
def sigma_min(env, mode):
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(0, None, s=(0.05, 6), special=(1.0, 2.0)))
    S = env.fn(M + "Sigma_Mach")
    W = env.fn(M + "WeightMassFlow")
    s = S(m, gamma=g)
    if mode == "value":
        env.check("ratio of mass flows", eq(s * W(m, gamma=g), W(1, gamma=g)))
        env.check("sonic value", eq(S(1, gamma=g), 1))
        return
    monotone("decreasing below Mach 1", lambda t: sigma(t, g), m, 1, sense=-1, strict=True, when=lt(m, 1))
    monotone("increasing above Mach 1", lambda t: sigma(t, g), 1, m, strict=True, when=lt(1, m))
    env.check("not below the throat section", le(1, s))
    env.check("above the throat section away from Mach 1", implies(lor(sqlt(m, 1), sqlt(1, m)), lt(1, s)))


@scenario("section ratio is monotone on each branch", modes=["sub", "sup"])
def sigma_mono(env, mode):
    g = env.real("gamma", GAM)
    S = env.fn(M + "Sigma_Mach")
    if mode == "sub":
        m2 = env.real("M2", Dom(0, 1, hi_eq=True, s=(0.05, 1)))
        m1 = env.real("M1", Dom(0, 1, s=(0.05, 1)))
        env.assume(sqlt(m1, m2))
    else:
        m2 = env.real("M2", Dom(1, None, lo_eq=True, s=(1, 6)))
        m1 = env.real("M1", Dom(1, None, s=(1, 7)))
        env.assume(sqlt(m2, m1))
    if mode == "sub":
        monotone("decreasing", lambda t: sigma(t, g), m1, m2, sense=-1, strict=True)
    else:
        monotone("increasing", lambda t: sigma(t, g), m2, m1, sense=1, strict=True)
    env.check("strictly farther from the throat", lt(S(m2, g), S(m1, g)))


prop("C02", contracts=[M + n for n in ("WeightMassFlow", "Sigma_Mach", "MachSub_Sigma", "MachSup_Sigma")],
     scenarios=["section ratio: inverse from a scalar guess", "section ratio: inverse from an array of guesses", "section ratio is the mass-flow ratio, with its minimum 1 at the throat",
                "section ratio is monotone on each branch"])
