from fractions import Fraction
from .lib import *
from .contract import Contract, P
from .units import scenario, prop

K, R = "aerokit.aero.ThermoKerosen:", "aerokit.aero.ThermoRealGas:"
FIT = Dom(0, 4000, s=(150, 3000), special=(288.0, 1000.0))     # the kerosene fit has a negative Cp above 4868 K
ANY = Dom(0, None, s=(150, 3000), special=(288.0, 1000.0))
TH = 3090


def D(s):
    return Fraction(s) if symbolic() else float(s)


def close(a, b, rel):
    """|a-b| <= rel*b for positive b"""
    e = D(rel)
    return land(le(a, b * (1 + e)), le(b * (1 - e), a))


@scenario("kerosene: heat capacity, enthalpy and entropy function")
def kero(env):
    t = env.real("T", FIT)
    cp, h, phi, r = env.fn(K + "Cp"), env.fn(K + "Enthalpy"), env.fn(K + "Phi"), env.raw_fn(K + "r_air")
    env.check("gas constant of air", eq(r, D("287.04")))
    env.check("specific heat is above 7/2 r", lt(D("3.5") * r, cp(t)))
    env.check("specific heat is the derivative of the enthalpy", close(env.deriv(h, t), cp(t), "0.00002"))
    env.check("entropy function", close(env.deriv(phi, t) * t * log(10) * r, cp(t), "0.00002"))


@scenario("kerosene: effective heating value")
def heat(env):
    t = env.real("T", ANY)
    h, pe, p0, r = env.fn(K + "Enthalpy"), env.fn(K + "Pc_eff"), env.fn(K + "Pc_inf"), env.raw_fn(K + "r_air")
    env.check("reference value", eq(p0(), 10300 * 4184))
    env.check("reference value at 288 K", le(abs(pe(288) - p0()), D("0.05") * r))
    env.check("corrected by the enthalpy difference", eq(pe(t) - pe(288), h(288) - h(t), tol=1e-9, atol=1e-6))


def temperature(env):
    """any positive temperature, as the reciprocal of x = 3090 K / T"""
    x = env.real("x", Dom(0, None, s=(1, 20), special=(3.09, 10.0)))
    hint("the exponential is above one", lt(1, exp(x)))
    return x, TH / x


@scenario("real gas: heat capacity, enthalpy and entropy function")
def real(env):
    x, t = temperature(env)
    cp, h, phi, r = env.fn(R + "Cp"), env.fn(R + "Enthalpy"), env.fn(R + "Phi"), env.raw_fn(R + "rconst")
    env.check("gas constant of air", eq(r, D("287.04")))
    env.check("specific heat is positive", lt(0, cp(t)))
    env.check("specific heat is above the translation and rotation part", lt(D("3.49") * r, cp(t)))
    env.check("specific heat is the derivative of the enthalpy", close(-env.deriv(lambda y: h(TH / y), x) * x / t, cp(t), "0.0001"))
    env.check("entropy function", close(-env.deriv(lambda y: phi(TH / y), x) * x * log(10) * r, cp(t), "0.0001"))


@scenario("real gas: ratio of specific heats")
def gam(env):
    x, t = temperature(env)
    cp, gm, r = env.fn(R + "Cp"), env.fn(R + "Gamma"), env.raw_fn(R + "rconst")
    c, g = cp(t), gm(t)
    env.check("heat capacity at constant volume is positive", lt(r, c))
    env.check("ratio of specific heats", eq(g * (c - r), c))
    env.check("above one", lt(1, g))


prop("C27", [], ["kerosene: heat capacity, enthalpy and entropy function", "kerosene: effective heating value",
                 "real gas: heat capacity, enthalpy and entropy function", "real gas: ratio of specific heats"],
     note="rounding of the printed coefficients: 2e-5 (kerosene, T<4000 K) and 1e-4 (real gas, all T) relative")
