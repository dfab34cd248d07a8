from .lib import *
from .units import scenario, prop

D = "aerokit.common.defaultgas"
RG = Dom(0, None, s=(100, 600), special=(287.1, 287.0))
OPS = ["set gamma", "set r", "save", "restore", "read"]


def canon(env, d, saved, gs, rs, g, r):
    """the state of the module reached by: [set, set, save,] set, set"""
    if saved:
        d.set_gamma(gs)
        d.set_r_ideal(rs)
        d.save_default()
    d.set_gamma(g)
    d.set_r_ideal(r)


def snap(d):
    return {k: v for k, v in vars(d).items() if not k.startswith("__") and not callable(v) and type(v).__name__ != "module"}


def observe(env, label, d, g, r):
    env.check(label + ": gamma", eq(d.gamma(), g))
    env.check(label + ": gas constant", eq(d.r_ideal(), r))


@scenario("default gas: every operation from every reachable state", modes=["%s%s" % (o, s) for o in OPS for s in ("", ", nothing saved") if not (o == "restore" and s)])
def step(env, mode):
    """induction over histories: from the canonical state of (saved gamma, saved r, gamma, r) each operation leads to the canonical state
    of its abstract effect (every variable of the module is compared), and the readings are those of the abstract state"""
    d = env.mod(D)
    op, _, sv = mode.partition(", ")
    saved = not sv
    names = ["gs", "rs", "g", "r", "x"]
    gs, rs, g, r, x = [env.real(k, GAM if k[0] == "g" else RG) for k in names]
    canon(env, d, saved, gs, rs, g, r)
    observe(env, "before", d, g, r)
    a = (saved, gs, rs, g, r)
    if op == "set gamma":
        d.set_gamma(x)
        a = (saved, gs, rs, x, r)
    elif op == "set r":
        d.set_r_ideal(x)
        a = (saved, gs, rs, g, x)
    elif op == "save":
        d.save_default()
        a = (True, g, r, g, r)
    elif op == "restore":
        d.restore_default()
        a = (saved, gs, rs, gs, rs)
    else:
        env.check("reading gives the gamma", eq(d.gamma(), g))
        env.check("reading gives the gas constant", eq(d.r_ideal(), r))
    observe(env, "after", d, a[3], a[4])
    s1 = snap(d)
    if a[0]:
        d.restore_default()
        observe(env, "restored", d, a[1], a[2])
    canon(env, d, *a)
    s2 = snap(d)
    env.check("no other state", eq(sorted(s1) == sorted(s2), True))
    for k in sorted(set(s1) & set(s2)):
        env.check("state %s" % k, same(s1[k], s2[k]))


def same(a, b):
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return land(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b):
        return land(*[same(a[k], b[k]) for k in a])
    return eq(a, b)


@scenario("default gas: initial values and repeated restore")
def init(env):
    d = env.mod(D)
    if env.symbolic:
        observe(env, "initial", d, Q(7, 5), Q(2871, 10))
    g, r = env.real("g", GAM), env.real("r", RG)
    d.set_gamma(g)
    d.set_r_ideal(r)
    d.save_default()
    g2, r2 = env.real("g2", GAM), env.real("r2", RG)
    d.set_gamma(g2)
    d.restore_default()
    d.set_r_ideal(r2)
    observe(env, "setting after restoring", d, g, r2)
    d.restore_default()
    d.restore_default()
    observe(env, "restored twice", d, g, r)


MODS = ["aero.Isentropic", "aero.MassFlow", "aero.ShockWave", "aero.Supersonic", "aero.Fanno", "aero.Rayleigh", "aero.model1D", "aero.unsteady1D", "aero.Propulsion", "aero.CompressibleFlow",
        "instance.nozzle", "instance.riemann"]


def with_gas(env):
    d = env.mod(D)
    vals = [env.real(k, GAM if k[0] == "g" else RG) for k in ("gs", "rs", "g", "r")]
    canon(env, d, True, *vals)
    return d, vals


def untouched(env, d, vals):
    observe(env, "after", d, vals[2], vals[3])
    d.restore_default()
    observe(env, "saved", d, vals[0], vals[1])


@scenario("default gas: flow functions do not change it", modes=["isentropic", "mass flow", "shock", "supersonic", "ducts"], inline=("aerokit.aero.degree:tan", "aerokit.aero.ShockWave:deflection_Mach_sigma"))
def functions(env, mode):
    for m in MODS:
        env.mod("aerokit." + m)
    d, vals = with_gas(env)
    g = env.real("gamma", GAM)
    m = env.real("M", Dom(1, None, s=(1.1, 5), special=(2.0,)))
    A = "aerokit.aero."
    calls = {"isentropic": [("Isentropic:" + k, (m, g)) for k in ("TtTs_Mach", "PtPs_Mach", "Mach_TtTs", "Mach_PtPs")] + [("Isentropic:Velocity_MachTt", (m, m, m, g)), ("CompressibleFlow:TtTs_Mach", (m, g))],
             "mass flow": [("MassFlow:WeightMassFlow", (m, 287, g)), ("MassFlow:Sigma_Mach", (m, g)), ("Propulsion:ThrustFunction", (m, g))],
             "shock": [("ShockWave:" + k, (m, g)) for k in ("Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn", "Pt_ratio", "Mn_Ps_ratio", "sigma_DevMax", "sigma_Sonic", "dev_Max", "dev_Sonic")],
             "supersonic": [("Supersonic:PrandtlMeyer_Mach", (m, g)), ("Supersonic:Mach_PMFmmu", (m, g))],
             "ducts": [("Fanno:" + k, (m, g)) for k in ("maxFparam_Mach", "Ps_Pscri", "Ts_Tscri", "Pi_Picri", "Rho_Rhocri", "V_Vcri", "NormdS")] + [("Rayleigh:" + k, (m, g)) for k in ("Ps_Pscri", "Ts_Tscri", "Ti_Ticri", "Pi_Picri", "Rho_Rhocri", "V_Vcri", "NormdS")]}
    for key, args in calls[mode]:
        env.raw_fn(A + key)(*args)
    untouched(env, d, vals)
    env.check("done", eq(True, True))


@scenario("default gas: building states and Riemann problems does not change it", modes=["state", "unsteady state", "riemann"], newton=__import__("specs.s_riemann", fromlist=["pol"]).pol)
def objects(env, mode):
    env.mod("aerokit.instance.riemann")
    d, vals = with_gas(env)
    if mode == "riemann":
        from . import s_riemann
        s_riemann.build(env)
    else:
        cls = env.fn("aerokit.aero.model1D:state" if mode == "state" else "aerokit.aero.unsteady1D:unsteady_state")
        r, p, g = env.real("rho", POS), env.real("p", POS), env.real("gamma", GAM)
        s = cls(r, r, p, g)
        s.copy()
        s.compute_from_pt_rtt_M(p, r, 0)
        s2 = cls(r, r, p)
        s.state_isentropic_Mach(r)
    untouched(env, d, vals)
    env.check("done", eq(True, True))


prop("C16", scenarios=["default gas: every operation from every reachable state", "default gas: initial values and repeated restore", "default gas: flow functions do not change it",
                       "default gas: building states and Riemann problems does not change it"])
