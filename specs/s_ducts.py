from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fT, fP

# ---------------------------------------------------------------- Fanno
F = "aerokit.aero.Fanno:"
G = P("gamma", GAM, Q(7, 5), arr=True)
PM = [P("Mach", MACH), G]
fnames = ["maxFparam_Mach", "Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "V_Vcri", "NormdS"]


def tf(M, g):
    return (g + 1) / 2 / fT(M, g)


def fpar(M, g):
    return (1 - M * M) / (g * M * M) + (g + 1) / (2 * g) * log((g + 1) / 2 * M * M / fT(M, g))


def fpt(M, g):
    return power(fT(M, g) * 2 / (g + 1), (g + 1) / (2 * (g - 1))) / M


Contract(F + "maxFparam_Mach", PM, spec=fpar)
Contract(F + "Ps_Pscri", PM, spec=lambda M, g: sqrt(tf(M, g)) / M)
Contract(F + "Ts_Tscri", PM, spec=tf)
Contract(F + "Rho_Rhocri", PM, spec=lambda M, g: 1 / (M * sqrt(tf(M, g))))
Contract(F + "Pi_Picri", PM, spec=fpt)
Contract(F + "V_Vcri", PM, spec=lambda M, g: M * sqrt(tf(M, g)))
Contract(F + "NormdS", PM, spec=lambda M, g: -(g - 1) / g * log(fpt(M, g)))


@scenario("Fanno: constant-area adiabatic flow relations")
def fanno(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MACH)
    p, t, r, pt, v = [env.fn(F + n)(m, g) for n in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "V_Vcri")]
    env.check("perfect gas law", eq(p, r * t))
    env.check("mass flow", eq(r * v, 1))
    env.check("total temperature", eq(t * fT(m, g), fT(1, g)))
    env.check("velocity is Mach times speed of sound", eq(v, m * sqrt(t)))
    env.check("total pressure", eq(pt, p * power(fT(m, g) / fT(1, g), g / (g - 1))))
    for n in fnames[1:-1]:
        env.check("sonic value of " + n, eq(env.fn(F + n)(1, g), 1))
    env.check("entropy and total pressure", eq(env.fn(F + "NormdS")(m, g), -(g - 1) / g * log(pt), atol=1e-7))


@scenario("Fanno: friction parameter")
def fannof(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MACH)
    f = env.fn(F + "maxFparam_Mach")
    env.check("zero at Mach 1", eq(f(1, g), 0))
    monotone("friction parameter, subsonic", lambda t: fpar(t, g), m, 1, sense=-1, strict=True)
    monotone("friction parameter, supersonic", lambda t: fpar(t, g), 1, m, strict=True)
    env.check("not negative", le(0, f(m, g), atol=1e-7))
    if env.symbolic:
        env.check("positive", implies(lnot(eq(m, 1)), lt(0, f(m, g))))
    d = env.deriv(lambda x: f(x, g), m)
    env.check("differential relation", eq(d, -2 * (1 - m * m) / (g * m * m * m * fT(m, g)), tol=1e-3, atol=1e-4))


@scenario("Fanno: entropy is maximal at Mach 1")
def fannos(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MACH)
    f = env.fn(F + "NormdS")
    S = lambda t: -(g - 1) / g * log(fpt(t, g))
    monotone("entropy, subsonic", S, m, 1)
    monotone("entropy, supersonic", S, 1, m, sense=-1)
    env.check("sonic value", eq(f(1, g), 0))
    env.check("maximal", le(f(m, g), 0, atol=1e-7))


prop("C09", contracts=[F + n for n in fnames], scenarios=["Fanno: constant-area adiabatic flow relations", "Fanno: friction parameter", "Fanno: entropy is maximal at Mach 1"])

# ---------------------------------------------------------------- Rayleigh
R = "aerokit.aero.Rayleigh:"
rnames = ["Ps_Pscri", "Ts_Tscri", "Ti_Ticri", "Rho_Rhocri", "Pi_Picri", "V_Vcri", "NormdS"]


def rp(M, g):
    return (g + 1) / (1 + g * M * M)


def rts(M, g):
    return M * M * rp(M, g) * rp(M, g)


def rti(M, g):
    return rts(M, g) * fT(M, g) / fT(1, g)


Contract(R + "Ps_Pscri", PM, spec=rp)
Contract(R + "Ts_Tscri", PM, spec=rts)
Contract(R + "Ti_Ticri", PM, spec=rti)
Contract(R + "Rho_Rhocri", PM, spec=lambda M, g: 1 / (M * M * rp(M, g)))
Contract(R + "Pi_Picri", PM, spec=lambda M, g: rp(M, g) * power(fT(M, g) / fT(1, g), g / (g - 1)))
Contract(R + "V_Vcri", PM, spec=lambda M, g: M * M * rp(M, g))
rs = lambda M, g: log(M * M) + (g + 1) / g * log(rp(M, g))
Contract(R + "NormdS", PM, spec=rs)
TI = Dom(0, 1, lo_eq=True, hi_eq=True, s=(0.01, 1), special=(1.0, 0.5, 0.9))
Contract(R + "SubMach_TiTicri", [P("Tiratio", TI), G], ensures=lambda m, t, g: [("total temperature ratio of the result", eq(rti(m, g), t, atol=1e-9)), ("subsonic", land(le(0, m), le(m, 1)))])
Contract(R + "SupMach_TiTicri", [P("Tiratio", Dom(0, 1, hi_eq=True, s=(0.75, 1), special=(1.0, 0.95, 0.9))), G],
         requires=lambda t, g: [sqlt((g * g - 1) / (g * g) + slack(1e-3), t)],
         ensures=lambda m, t, g: [("total temperature ratio of the result", eq(rti(m, g), t, atol=1e-9)), ("supersonic", le(1, m))])


@scenario("Rayleigh: constant-area heated flow relations")
def rayleigh(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MACH)
    o = {n: env.fn(R + n)(m, g) for n in rnames}
    p, t, r, v = o["Ps_Pscri"], o["Ts_Tscri"], o["Rho_Rhocri"], o["V_Vcri"]
    env.check("perfect gas law", eq(p, r * t))
    env.check("mass flow", eq(r * v, 1))
    env.check("momentum flux", eq(p + g * r * v * v, 1 + g))
    env.check("velocity is Mach times speed of sound", eq(v, m * sqrt(t)))
    env.check("total temperature", eq(o["Ti_Ticri"], t * fT(m, g) / fT(1, g)))
    env.check("total pressure", eq(o["Pi_Picri"], p * power(fT(m, g) / fT(1, g), g / (g - 1))))
    env.check("entropy", eq(o["NormdS"], log(t) - (g - 1) / g * log(p), atol=1e-7))
    for n in rnames[:-1]:
        env.check("sonic value of " + n, eq(env.fn(R + n)(1, g), 1))
    env.check("sonic value of the entropy", eq(env.fn(R + "NormdS")(1, g), 0))


@scenario("Rayleigh: total temperature and entropy are maximal at Mach 1")
def raymax(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MACH)
    env.check("total temperature", le(env.fn(R + "Ti_Ticri")(m, g), 1))
    S = lambda t: rs(t, g)
    monotone("entropy, subsonic", S, m, 1)
    monotone("entropy, supersonic", S, 1, m, sense=-1)
    env.check("entropy", le(env.fn(R + "NormdS")(m, g), 0, atol=1e-7))


@scenario("Rayleigh: inverses of the total temperature ratio", modes=["sub", "sup"])
def rayinv(env, mode):
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(0, 1, lo_eq=True, hi_eq=True, s=(0.02, 0.99)) if mode == "sub" else Dom(1, None, lo_eq=True, s=(1.01, 5)))
    f = env.fn(R + "Ti_Ticri")
    inv = env.raw_fn(R + ("SubMach_TiTicri" if mode == "sub" else "SupMach_TiTicri"))
    t = f(m, g) if mode == "sup" else rti(m, g)
    env.check("inverse", eq(inv(t, g), m, tol=1e-5, atol=1e-6))


@scenario("Rayleigh: maximum heating ratio", modes=["gamma 1.4", "array", "default"])
def raymaxti(env, mode):
    f = env.fn(R + "maxTiratio_Mach")
    if mode == "array":
        n = env.size("n")
        a = env.arr("M", (n,), MACH)
        env.frame()
        r = f(a, Q(7, 5) if env.symbolic else 1.4)
        env.check_frame()
        env.check_shape("one ratio per Mach number", r, (n,))
        cells = [(env.at(a, ix), env.at(r, ix)) for ix in env.idx(n)]
    else:
        m = env.real("M", MACH)
        cells = [(m, f(m, Q(7, 5) if env.symbolic else 1.4) if mode == "gamma 1.4" else f(m))]
    for m, x in cells:
        env.check("reciprocal of the total temperature ratio", eq(x * rti(m, Q(7, 5)), 1))


@scenario("Rayleigh: maximum heating ratio for another gamma")
def raymaxtig(env):
    g = env.real("gamma", GAM)
    m = env.real("M", MACH)
    env.check("reciprocal of the total temperature ratio of this gamma", eq(env.fn(R + "maxTiratio_Mach")(m, g) * rti(m, g), 1))


prop("C10", contracts=[R + n for n in rnames + ["SubMach_TiTicri", "SupMach_TiTicri"]],
     scenarios=["Rayleigh: constant-area heated flow relations", "Rayleigh: total temperature and entropy are maximal at Mach 1", "Rayleigh: inverses of the total temperature ratio",
                "Rayleigh: maximum heating ratio", "Rayleigh: maximum heating ratio for another gamma"])
