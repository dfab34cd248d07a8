from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fT, fP
from .s_massflow import sigma, G

M = "aerokit.aero.Propulsion:"


def thrust(m, g):
    return sigma(m, g) / fP(m, g) * (1 + g * m * m)


Contract(M + "ThrustFunction", [P("Mach", MACH), G], spec=thrust)
W = "the secant iteration on the thrust function stays at positive Mach numbers"


def pol(f0, x0, root, arg):
    return [("guess is positive", lt(0, x0))], lt(0, root), W


@scenario("thrust function: momentum of a choked stream, stationary at Mach 1")
def stat(env):
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(0, None, s=(0.1, 5), special=(2.0, 0.5)))
    f = env.fn(M + "ThrustFunction")
    # (p + rho u^2) A / (pt A*)
    sg, pt = env.fn("aerokit.aero.MassFlow:Sigma_Mach"), env.fn("aerokit.aero.Isentropic:PtPs_Mach")
    env.check("impulse of the stream over the stagnation pressure and the throat section", eq(f(m, g) * pt(m, g), sg(m, g) * (1 + g * m * m)))
    d = env.deriv(lambda t: thrust(t, g), m)
    env.check("derivative", eq(f(m, g) * (m * m - 1), d * m * fT(m, g) * (1 + g * m * m), tol=1e-5, atol=1e-5))
    env.check("sonic value", eq(f(1, g), (1 + g) * power((g + 1) / 2, -g / (g - 1))))


@scenario("thrust function is minimal at Mach 1", modes=["sub", "sup"])
def mini(env, mode):
    g = env.real("gamma", GAM)
    m = env.real("M", MSUB if mode == "sub" else Dom(1, None, s=(1.05, 6), special=(2.0,)))
    f = env.fn(M + "ThrustFunction")
    if mode == "sub":
        monotone("decreasing below Mach 1", lambda t: thrust(t, g), m, 1, sense=-1, strict=True)
    else:
        monotone("increasing above Mach 1", lambda t: thrust(t, g), 1, m, strict=True)
    env.check("above the sonic value", lt(f(1, g), f(m, g)))


@scenario("thrust function: inverse", modes=["guess", "default guess", "default gamma", "array"], newton=pol, nfac=0.6)
def inv(env, mode):
    g = env.real("gamma", Dom(1, None, s=(1.15, 1.8), special=(1.4, 1.3))) if mode != "default gamma" else (Q(7, 5) if env.symbolic else 1.4)
    f = env.fn(M + "Mach_ThrustFunction")
    near = mode.startswith("default")
    D = Dom(0, None, s=(0.15, 3), special=(2.0, 0.5)) if not near else Dom(1, None, s=(1.4, 2.6), special=(2.0,))
    n = env.size("n") if mode == "array" else None
    m = env.arr("M", (n,), D) if n is not None else env.real("M", D)
    k = env.real("k", Dom(0, 1, hi_eq=True, s=(0.97, 1)))
    if env.numeric:
        import numpy as np
        env.assume(bool(np.all(abs(np.asarray(m) - 1) > 0.15)))
    if n is not None:
        F = env.fn(M + "ThrustFunction")
        r = f(F(m, g), k * m, gamma=g)
        env.check_shape("one Mach number per element", r, (n,))
        for ix in env.idx(n):
            env.check("thrust function of the result", eq(thrust(env.at(r, ix), g), thrust(env.at(m, ix), g), tol=1e-3))
        return
    s = thrust(m, g)
    r = f(s, k * m, g) if mode == "guess" else f(s, gamma=g) if mode == "default guess" else f(s)
    env.check("thrust function of the result", eq(thrust(r, g), s, tol=1e-3))


prop("C28", [M + "ThrustFunction"], ["thrust function: momentum of a choked stream, stationary at Mach 1", "thrust function is minimal at Mach 1", "thrust function: inverse"])
