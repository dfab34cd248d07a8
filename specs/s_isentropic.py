from .lib import *
from .contract import Contract, P

M = "aerokit.aero.Isentropic:"
G = P("gamma", GAM, Q(7, 5), arr=True)


def fT(M, g):
    """Tt/Ts"""
    return 1 + (g - 1) / 2 * M * M


@opaque("fP", lambda r, M, g: [implies(lt(1, g), le(1, r))])
def fP(M, g):
    """Pt/Ps"""
    return power(fT(M, g), g / (g - 1))


GE1 = Dom(1, None, lo_eq=True, s=(1.0, 40), special=(1.0, 1.2, 2.0, 1.892929158737854))

Contract(M + "TtTs_Mach", [P("Mach", REAL), G], spec=fT)
Contract(M + "PtPs_Mach", [P("Mach", REAL), G], spec=fP)
Contract(M + "Mach_TtTs", [P("TtTs", GE1), G], spec=lambda t, g: sqrt(2 * (t - 1) / (g - 1)))
Contract(M + "Mach_PtPs", [P("PtPs", GE1), G], spec=lambda q, g: sqrt(2 * (power(q, (g - 1) / g) - 1) / (g - 1)))
Contract(M + "Velocity_MachTt", [P("Mach", REAL), P("Tt", POS), P("r", Dom(0, None, s=(100, 600), special=(287.1, 287.0)), Q(2871, 10)), G],
         spec=lambda M, Tt, r, g: M * sqrt(g * r * Tt / fT(M, g)))
from .units import scenario, prop


@scenario("isentropic: the inverses give back the Mach number and the ratio", modes=["scalar", "array"])
def inv(env, mode):
    g = env.real("gamma", GAM)
    fs = {k: env.fn(M + k) for k in ("TtTs_Mach", "PtPs_Mach", "Mach_TtTs", "Mach_PtPs")}
    if mode == "scalar":
        m, q = env.real("M", MACH0), env.real("q", GE1)
        cells = [(m, q, lambda a: a)]
        mm, qq = m, q
    else:
        n = env.size("n")
        mm, qq = env.arr("M", (n,), MACH0), env.arr("q", (n,), GE1)
        cells = [(env.at(mm, ix), env.at(qq, ix), lambda a, ix=ix: env.at(a, ix)) for ix in env.idx(n)]
    env.frame()
    r = [fs["Mach_TtTs"](fs["TtTs_Mach"](mm, g), g), fs["Mach_PtPs"](fs["PtPs_Mach"](mm, gamma=g), gamma=g), fs["TtTs_Mach"](fs["Mach_TtTs"](qq, g), g), fs["PtPs_Mach"](fs["Mach_PtPs"](qq, g), g)]
    p = fs["PtPs_Mach"](mm, g), fs["TtTs_Mach"](mm, g)
    env.check_frame()
    for m, q, at in cells:
        env.check("Mach number from its temperature ratio", eq(at(r[0]), m, tol=1e-5, atol=1e-5))
        env.check("Mach number from its pressure ratio", eq(at(r[1]), m, tol=1e-5, atol=1e-5))
        env.check("temperature ratio of its Mach number", eq(at(r[2]), q))
        env.check("pressure ratio of its Mach number", eq(at(r[3]), q))
        env.check("isentropic relation", eq(at(p[0]), power(at(p[1]), g / (g - 1))))


@scenario("isentropic: velocity is the Mach number times the local speed of sound")
def vel(env):
    g, r = env.real("gamma", GAM), env.real("r", Dom(0, None, s=(100, 600), special=(287.1, 287.0)))
    m, t = env.real("M", REAL), env.real("Tt", POS)
    v = env.fn(M + "Velocity_MachTt")(m, t, r, g)
    ts = t / env.fn(M + "TtTs_Mach")(m, g)
    env.check("velocity", eq(v, m * sqrt(g * r * ts)))
    env.check("total enthalpy", eq(g * r / (g - 1) * ts + v * v / 2, g * r / (g - 1) * t))


prop("C01", contracts=[M + n for n in ("TtTs_Mach", "PtPs_Mach", "Mach_TtTs", "Mach_PtPs", "Velocity_MachTt")],
     scenarios=["isentropic: the inverses give back the Mach number and the ratio", "isentropic: velocity is the Mach number times the local speed of sound"]
     + ["legacy Isentropic." + k for k in ("TiTs_Mach", "PiPs_Mach", "Mach_PiPs", "Mach_TiTs", "Velocity_MachTi")])
