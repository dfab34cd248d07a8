from .lib import *
from .units import scenario, prop

A = "aerokit.aero."
OME = Dom(0, None, s=(3, 60), special=(10.0, 26.379760813416446))
GL = Dom(1, 3, s=(1.15, 1.6), special=(1.4, 1.3, 1.2))
GE = Dom(1, None, lo_eq=True, s=(1.0, 40), special=(1.0, 1.2, 2.0))
RR = Dom(0, None, s=(100, 600), special=(287.1, 287.0))
PR1 = Dom(0, 1, s=(0.05, 0.999), special=(0.5, 0.9))
DEV = Dom(None, None, s=(-12, 12), special=(0.0, 5.0, -5.0))
NEAR = Dom(1, None, s=(1.2, 3), special=(2.0,))

# (legacy module, legacy name, module, current name, domains of the positional arguments, with r, requires)
T = [("CompressibleFlow", "TtTs_Mach", "Isentropic", "TtTs_Mach", [REAL], 0), ("CompressibleFlow", "PtPs_Mach", "Isentropic", "PtPs_Mach", [REAL], 0),
     ("CompressibleFlow", "Mach_TtTs", "Isentropic", "Mach_TtTs", [GE], 0), ("CompressibleFlow", "Mach_PtPs", "Isentropic", "Mach_PtPs", [GE], 0),
     ("CompressibleFlow", "Velocity_MachTi", "Isentropic", "Velocity_MachTt", [REAL, POS], 1),
     ("CompressibleFlow", "PrandtlMeyer_Mach", "Supersonic", "PrandtlMeyer_Mach", [MSUP1], 0), ("CompressibleFlow", "Mach_PrandtlMeyer", "Supersonic", "Mach_PrandtlMeyer", [OME], 0),
     ("CompressibleFlow", "deflection_Mach_IsentropicPsratio", "Supersonic", "deflection_Mach_IsentropicPsratio", [NEAR, PR1], 0),
     ("CompressibleFlow", "IsentropicPsratio_Mach_deflection", "Supersonic", "IsentropicPsratio_Mach_deflection", [NEAR, DEV], 0),
     ("CompressibleFlow", "WeightMassFlow", "MassFlow", "WeightMassFlow", [MACH0], 1), ("CompressibleFlow", "Sigma_Mach", "MassFlow", "Sigma_Mach", [MACH], 0),
     ("CompressibleFlow", "Mach_Sigma", "MassFlow", "Mach_Sigma", [Dom(1, None, s=(1.01, 3)), Dom(1, None, s=(1.2, 3), special=(2.0,))], 0),
     ("Isentropic", "TiTs_Mach", "Isentropic", "TtTs_Mach", [REAL], 0), ("Isentropic", "PiPs_Mach", "Isentropic", "PtPs_Mach", [REAL], 0),
     ("Isentropic", "Mach_TiTs", "Isentropic", "Mach_TtTs", [GE], 0), ("Isentropic", "Mach_PiPs", "Isentropic", "Mach_PtPs", [GE], 0),
     ("Isentropic", "Velocity_MachTi", "Isentropic", "Velocity_MachTt", [REAL, POS], 1),
     ("ShockWave", "Pi_ratio", "ShockWave", "Pt_ratio", [MSUP1], 0), ("ShockWave", "Mn_Pi_ratio", "ShockWave", "Mn_Pt_ratio", [Dom(0, None, s=(0.3, 0.98), special=(0.9, 0.72, 1.5))], 0)]


def pol(f0, x0, root, arg):
    return [], lt(1, root), "the root of the deflection/section ratio stays supersonic (same call in both interfaces)"


NOG = {"Mn_Pi_ratio"}
KEYW = {"Mach_Sigma": "Mach"}


def mk(lm, ln, nm, nn, doms, hasr):
    modes = ["scalar", "scalar all positional", "defaults", "array"] if ln != "Mn_Pi_ratio" else ["scalar", "scalar all positional", "defaults"]
    if ln in KEYW:
        modes.append("guess default")

    @scenario("legacy %s.%s" % (lm, ln), modes=modes, nfac=0.4, newton=pol)
    def sc(env, mode):
        f, g = env.fn(A + lm + ":" + ln), env.fn(A + nm + ":" + nn)
        gam = env.real("gamma", GL) if mode != "defaults" else Q(7, 5) if env.symbolic else 1.4
        r = env.real("r", RR) if hasr and mode != "defaults" else (Q(2871, 10) if env.symbolic else 287.1)
        if env.symbolic and mode == "defaults":
            from .contract import lib_const
            gam, r = lib_const(gam), lib_const(r)
            env.named("gamma", gam)
        n = env.size("n") if mode == "array" else None
        xs = [env.arr("x%d" % k, (n,), d) if n is not None else env.real("x%d" % k, d) for k, d in enumerate(doms)]
        if mode == "guess default":
            xs = xs[:1]
        full = ([r] if hasr else []) + [gam]
        kw = dict(gamma=gam, **({"r": r} if hasr else {}))
        args = xs
        if ln == "IsentropicPsratio_Mach_deflection":
            # the expansion angle stays in the range of the inverse
            dom = lambda m, d: land(sqlt(0, pmf(env, m, gam) - d))
            if n is None:
                env.assume(dom(*xs))
            else:
                env.assume_all((n,), lambda ix: dom(env.at(xs[0], ix), env.at(xs[1], ix)))
            if env.numeric:
                import numpy as np
                w = env.fn(A + "Supersonic:PrandtlMeyer_Mach")(xs[0], gam) - xs[1]
                env.assume(bool(np.all(w > 3)) and bool(np.all(w < 70)))
        if mode == "defaults":
            a = f(*args)
            b = g(*(args + full)) if "guess" not in mode and ln not in () else None
        elif mode == "scalar all positional":
            a = f(*(args + full))
            b = g(*args, **kw)
        else:
            a = f(*args, **kw)
            b = g(*(args + full)) if mode != "guess default" else g(*args, **kw)
        if n is None:
            env.check("same result", eq(sc0(env, a), sc0(env, b), tol=1e-12))
        else:
            for ix in env.idx(n):
                if env.is_array(a) or env.is_array(b):
                    env.check("same result", eq(env.at_b(a, ix), env.at_b(b, ix), tol=1e-12))
                else:
                    env.check("same result", eq(a, b, tol=1e-12))


def pmf(env, m, g):
    b = sqrt(m * m - 1)
    c = sqrt((g + 1) / (g - 1))
    return deg(c * atan(b / c) - atan(b))


def sc0(env, a):
    if env.is_array(a):
        return env.at(a, tuple(0 for _ in env.dims(a)))
    return a


for t in T:
    mk(*t)


@scenario("legacy modules give the current classes and functions", modes=["riemann", "nozzle"])
def mods(env, mode):
    new, old = env.mod("aerokit.instance." + mode), env.mod("aerokit.aero." + mode)
    names = [k for k, v in vars(new).items() if not k.startswith("_") and callable(v) and getattr(getattr(v, "__vobj__", v), "__module__", None) == new.__name__]
    env.check("something to compare", eq(bool(names), True))
    for k in sorted(names):
        env.check("%s is the current one" % k, eq(getattr(old, k, None) is getattr(new, k), True))


prop("C25", scenarios=["legacy %s.%s" % t[:2] for t in T] + ["legacy modules give the current classes and functions"])
