from .lib import *
from .units import scenario, prop
from .contract import REG
from .s_isentropic import fT, fP

E = "aerokit.engine."
GC, GH = Dom(1, None, s=(1.36, 1.42), special=(1.4,)), Dom(1, None, s=(1.28, 1.36), special=(1.33,))
RG = Dom(0, None, s=(280, 300), special=(287.0, 291.6))
EFF, XI = Dom(0, 1, hi_eq=True, s=(0.8, 1), special=(1.0,)), Dom(0, 1, hi_eq=True, s=(0.9, 1), special=(1.0,))
ARGS = dict(OPR=Dom(1, None, s=(3, 40)), Tt4=Dom(0, None, s=(1200, 1900)), Pci=Dom(0, None, s=(4e7, 4.4e7), special=(42.8e6,)), gam_cold=GC, gam_hot=GH, r_cold=RG, r_hot=RG,
            xi_inlet=XI, xi_cc=XI, xi_nozzle=XI, eta_cc=EFF, etapolCHP=EFF, etapolTHP=EFF, etapolTBP=EFF, etapolfan=EFF, eta_shaft=EFF,
            bpr=Dom(0, None, s=(1, 12)), fanpower_ratio=Dom(0, 1, s=(0.2, 0.8)))
FLIGHT = dict(T0=Dom(0, None, s=(210, 300)), P0=Dom(0, None, s=(2e4, 1e5)), M0=Dom(0, None, lo_eq=True, s=(0.1, 1.5), special=(0.0, 0.8)))


class MethodContract:
    """a method that fills the fields of its object: a caller sees arbitrary values that satisfy the postconditions, which
    are checked in the units named in `body`"""
    opts = {}
    spec = None
    params = ()

    def __init__(self, key, body):
        self.key, self.body = key, body
        REG[key] = self

    def mode_list(self):
        return []

    def apply(self, p, obj, a, k):
        h = p.state.get("method:" + self.key)
        if h is not None:
            return h(*a, **k)
        p.state["used"].discard(self.key)
        p.state.setdefault("inlined", set()).add(self.key)
        p.callstack.append(self.key)
        try:
            return obj(*a, **k)
        finally:
            p.callstack.pop()


def stands_for(env, key, a, e, fields, post):
    """calls of the method on e are replaced by its contract; -> the values of the fields after the call"""
    v = N()
    if env.numeric:
        return v

    def handler(self, *x, **k):
        env.check("the method is called on the object", self is e and not x and not k)
        env.check("the method is called with the parameters of the cycle", land(*[eq(getattr(self, n), getattr(a, n)) for n in vars(a) if n != "n" and hasattr(self, n)]))
        for n in fields:
            setattr(v, n, env.real(n, REAL))
            setattr(self, n, getattr(v, n))
        for c in post(v):
            env.assume(c)

    env.p.state["method:" + key] = handler
    return v


class N:
    """the parameters of a cycle"""


def params(env, names, arr=None):
    a = N()
    n = env.size("n") if arr is not None else None
    for k in names:
        d = ARGS.get(k) or FLIGHT[k]
        setattr(a, k, env.real(k, d) if k != arr else env.arr(k, (n,), d))
    a.n = n
    return a


def cp(g, r):
    return g * r / (g - 1)


def core(a):
    """stations of the gas generator, from the ambient to the outlet of the turbine of the compressor"""
    s = N()
    s.cpc, s.cph = cp(a.gam_cold, a.r_cold), cp(a.gam_hot, a.r_hot)
    s.Tt2 = a.T0 * fT(a.M0, a.gam_cold)
    s.Pt0 = a.P0 * fP(a.M0, a.gam_cold)
    s.V0 = a.M0 * sqrt(a.gam_cold * a.r_cold * a.T0)
    s.Pt2 = s.Pt0 * a.xi_inlet
    s.Pt3 = s.Pt2 * a.OPR
    s.Tt3 = s.Tt2 * power(a.OPR, (a.gam_cold - 1) / (a.gam_cold * a.etapolCHP))
    s.Pt4 = s.Pt3 * a.xi_cc
    s.far = (s.cph * a.Tt4 - s.cpc * s.Tt3) / (a.eta_cc * a.Pci - s.cph * a.Tt4)
    s.Tt45 = a.Tt4 - s.cpc * (s.Tt3 - s.Tt2) / (a.eta_shaft * s.cph * (1 + s.far))
    return s


def core_feasible(env, a, s):
    """the fuel can heat the gas, the combustor heats it, and the turbine can drive the compressor"""
    env.assume(land(lt(s.cph * a.Tt4, a.eta_cc * a.Pci), lt(s.cpc * s.Tt3, s.cph * a.Tt4)))
    if env.numeric:
        env.assume(s.Tt45 > 0.3 * a.Tt4)
    env.assume(lt(0, s.Tt45))


def core_pressure(a, s):
    return s.Pt4 * power(s.Tt45 / a.Tt4, a.gam_hot / ((a.gam_hot - 1) * a.etapolTHP))


CORE = ["OPR", "Tt4", "gam_cold", "gam_hot", "r_cold", "r_hot", "xi_inlet", "xi_cc", "eta_cc", "Pci", "etapolCHP", "etapolTHP", "eta_shaft"]
FL = ["T0", "P0", "M0"]


def kw(a, names):
    return {k: getattr(a, k) for k in names}


def check_core(env, a, s, e):
    env.check("total temperature and pressure of the flow", land(eq(e.Tt0, s.Tt2), eq(e.Pt0, s.Pt0)))
    env.check("flight velocity", eq(e.V0, s.V0))
    env.check("inlet", land(eq(e.Tt2, e.Tt0), eq(e.Pt2, a.xi_inlet * e.Pt0)))
    env.check("compressor pressure ratio", eq(e.Pt3, a.OPR * e.Pt2))
    env.check("compressor polytropic efficiency", eq(e.Tt3, s.Tt3))
    env.check("combustor pressure loss", eq(e.Pt4, a.xi_cc * e.Pt3))
    env.check("combustor energy balance", eq((1 + e.far) * s.cph * a.Tt4 - s.cpc * e.Tt3, e.far * a.eta_cc * a.Pci))
    env.check("fuel is burnt", lt(0, e.far))
    env.check("compressor work is the turbine work times the shaft efficiency", eq(s.cpc * (e.Tt3 - e.Tt2), a.eta_shaft * (1 + e.far) * s.cph * (a.Tt4 - e.Tt45)))
    env.check("turbine polytropic efficiency", eq(e.Pt45, e.Pt4 * power(e.Tt45 / a.Tt4, a.gam_hot / ((a.gam_hot - 1) * a.etapolTHP))))
    env.check("heat of the fuel", eq(e.Wsp_cc(), e.far * a.Pci))
    env.check("stations are positive", land(*core_post(e)))


def unchanged(env, a, e, names):
    env.check("parameters of the cycle are kept", land(*[eq(getattr(e, k), getattr(a, k)) for k in names]))


GASGEN, JET = E + "gasgenerator:base.update", E + "turbojet:turbojet_opt.update"
FIELDS = ["Tt0", "Pt0", "V0", "Pt2", "Tt2", "Pt3", "Tt3", "Pt4", "far", "Tt45", "Pt45"]


def core_post(e):
    return [lt(0, getattr(e, k)) for k in FIELDS if k != "V0"] + [le(0, e.V0)]


MethodContract(GASGEN, ["gas generator: energy balance of each component"])
MethodContract(JET, ["turbojet: nozzle and performance"])


def same_core(env, v, e):
    """the quantities computed by the contracted method are kept"""
    if env.symbolic:
        env.check("stations of the gas generator", land(*[eq(getattr(v, k), getattr(e, k)) for k in FIELDS]))


@scenario("gas generator: energy balance of each component", modes=["", "twice"])
def gasgen(env, mode):
    a = params(env, CORE + FL)
    s = core(a)
    core_feasible(env, a, s)
    p19 = env.real("P19", FLIGHT["P0"])
    cls = env.fn(E + "gasgenerator:base")
    env.frame()
    e = cls(**kw(a, CORE))
    if mode == "twice":      # former conditions leave no trace
        e.flight_conditions(T0=a.T0 * 2, P0=a.P0 / 3, M0=0)
    e.flight_conditions(T0=a.T0, P0=a.P0, M0=a.M0)
    e.update()
    if mode == "twice":
        e.update()
    check_core(env, a, s, e)
    g = a.gam_hot
    env.check("ideal work of the expansion to a given pressure", eq(e.Wsp_TBP_ideal(p19), (1 + e.far) * s.cph * e.Tt45 * (1 - power(p19 / e.Pt45, (g - 1) / g))))
    env.check("ideal work of the expansion to the ambient", eq(e.Wsp_TBP_ideal(), e.Wsp_TBP_ideal(P19=a.P0)))
    env.check("thermal efficiency", eq(e.thermal_efficiency() * e.far * a.Pci, e.Wsp_TBP_ideal(a.P0)))
    unchanged(env, a, e, CORE + FL)
    env.check_frame()


def at_(env, o, ix, names):
    """the values at one index of the fields of an object"""
    r = N()
    for k in names:
        v = getattr(o, k)
        setattr(r, k, env.at_b(v, ix))
    return r


@scenario("engines: arrays of parameters are treated elementwise", modes=["OPR", "Tt4", "M0"])
def arrays(env, mode):
    a = params(env, TJ + FL, arr=mode)
    shape = (a.n,)

    def feasible(ix):
        b = at_(env, a, ix, TJ + FL)
        s = core(b)
        return land(lt(s.cph * b.Tt4, b.eta_cc * b.Pci), lt(s.cpc * s.Tt3, s.cph * b.Tt4), lt(b.Tt4 * Q(1, 5) if env.numeric else 0, s.Tt45))

    env.assume_all(shape, feasible)
    e = env.fn(E + "turbojet:turbojet_opt")(**kw(a, TJ))
    env.frame()
    e.flight_conditions(T0=a.T0, P0=a.P0, M0=a.M0)
    e.update()
    one = env.fn(E + "turbojet:turbojet_opt")
    for ix in env.idx(shape):
        b = at_(env, a, ix, TJ + FL)
        f = one(**kw(b, TJ))
        f.flight_conditions(T0=b.T0, P0=b.P0, M0=b.M0)
        f.update()
        for k in FIELDS + ["Pt9", "M9", "V9"]:
            env.check("element of %s" % k, eq(env.at_b(getattr(e, k), ix), getattr(f, k)))
        env.check("element of the thrust", eq(env.at_b(e.norm_thrust(), ix), f.norm_thrust()))
        env.check("element of the kinetic energy", eq(env.at_b(e.Wsp_kinEn(), ix), f.Wsp_kinEn()))
    env.check_frame()


@scenario("gas generator: default parameters")
def defaults(env):
    a = params(env, ["OPR", "Tt4"])
    for key, extra in (("gasgenerator:base", []), ("turbojet:turbojet_opt", ["xi_nozzle"]), ("turbofan:turbofan_adapt", ["xi_nozzle", "etapolfan", "etapolTBP"])):
        cls = env.fn(E + key)
        e = cls(a.OPR, a.Tt4) if "fan" not in key else cls(a.OPR, a.Tt4, 6, Q(1, 2))
        env.check("%s: gas" % key, land(eq(e.gam_cold, Q(7, 5)), eq(e.gam_hot, Q(7, 5)), eq(e.r_cold, Q(2871, 10)), eq(e.r_hot, Q(2871, 10))))
        env.check("%s: no losses" % key, land(*[eq(getattr(e, k), 1) for k in ["xi_inlet", "xi_cc", "eta_cc", "etapolCHP", "etapolTHP", "eta_shaft"] + extra]))
        env.check("%s: heating value" % key, eq(e.Pci, 42800000))
        env.check("%s: cycle" % key, land(eq(e.OPR, a.OPR), eq(e.Tt4, a.Tt4)))
        e.flight_conditions()
        env.check("%s: ground conditions" % key, land(eq(e.T0, 1), eq(e.P0, 1), eq(e.M0, 0)))


def nozzle(env, label, Tt, Pt, P0, g, r, M, V):
    """expansion from the total conditions to the ambient pressure"""
    cut(env, "%s: expansion" % label, (Pt / P0, g), lambda x, g: [le(1, x), lt(1, g)], lambda x, g: le(1, power(x, (g - 1) / g)))
    env.check("%s: Mach number" % label, eq(M, sqrt(2 * (power(Pt / P0, (g - 1) / g) - 1) / (g - 1))))
    cut(env, "%s: positive Mach number" % label, (M, power(Pt / P0, (g - 1) / g), g), lambda m, z, g: [eq(m, sqrt(2 * (z - 1) / (g - 1))), le(1, z), lt(1, g)], lambda m, z, g: le(0, m))
    vel = lambda v, m, g, r, t: eq(v, m * sqrt(g * r * t / (1 + (g - 1) / 2 * m * m)))
    energy = lambda v, m, g, r, t: eq(v * v / 2 + g * r / (g - 1) * t / (1 + (g - 1) / 2 * m * m), g * r / (g - 1) * t)
    env.check("%s: velocity" % label, vel(V, M, g, r, Tt))
    cut(env, "%s: energy" % label, (V, M, g, r, Tt), lambda v, m, g, r, t: [vel(v, m, g, r, t), lt(1, g), lt(0, r), lt(0, t)], energy)
    env.check("%s: energy balance" % label, energy(V, M, g, r, Tt))
    env.check("%s: Mach number is positive" % label, le(0, M))


def performance(env, e, a, kin, F, sp=1):
    """efficiencies from the kinetic energy and the thrust per unit of core mass flow"""
    env.check("kinetic energy", eq(e.Wsp_kinEn(), kin))
    env.check("thrust", eq(e.norm_thrust(), F))
    env.check("specific thrust", eq(e.spec_thrust() * sp, F))
    q = e.far * a.Pci
    env.check("thermal efficiency", eq(e.thermal_efficiency() * q, kin))
    env.check("overall efficiency", eq(e.thermoprop_efficiency() * q, F * e.V0))
    if env.decide(lnot(eq(kin, 0))):
        env.check("propulsive efficiency", eq(e.propulsive_efficiency() * kin, F * e.V0))
    if env.decide(lnot(eq(F, 0))):
        env.check("specific consumption", eq(e.Sfc() * F, e.far))


TJ = CORE + ["xi_nozzle"]


@scenario("turbojet: nozzle and performance", modes=["expansion", "no expansion"])
def jet(env, mode):
    a = params(env, TJ + FL)
    e = env.fn(E + "turbojet:turbojet_opt")(**kw(a, TJ))
    env.frame()
    e.flight_conditions(T0=a.T0, P0=a.P0, M0=a.M0)
    above = lambda v: sqlt(a.P0, v.Pt45 * a.xi_nozzle) if mode == "expansion" else sqle(v.Pt45 * a.xi_nozzle, a.P0)
    if env.numeric:
        s = core(a)
        core_feasible(env, a, s)
        s.Pt45 = core_pressure(a, s)
        env.assume(above(s))
    v = stands_for(env, GASGEN, a, e, FIELDS, lambda v: core_post(v) + [above(v)])
    e.update()
    same_core(env, v, e)
    if env.numeric:
        check_core(env, a, s, e)
    env.check("nozzle pressure loss", eq(e.Pt9, a.xi_nozzle * e.Pt45) if mode == "expansion" else eq(e.Pt9, a.P0))
    nozzle(env, "nozzle", e.Tt45, e.Pt9, a.P0, a.gam_hot, a.r_hot, e.M9, e.V9)
    performance(env, e, a, ((1 + e.far) * e.V9 * e.V9 - e.V0 * e.V0) / 2, (1 + e.far) * e.V9 - e.V0)
    unchanged(env, a, e, TJ + FL)
    env.check_frame()


TF = TJ + ["bpr", "fanpower_ratio", "etapolTBP", "etapolfan"]


@scenario("turbofan: fan, low pressure turbine, nozzles and performance")
def fan(env):
    a = params(env, TF + FL)
    gh, gc, cpc, cph = a.gam_hot, a.gam_cold, cp(a.gam_cold, a.r_cold), cp(a.gam_hot, a.r_hot)
    e = env.fn(E + "turbofan:turbofan_adapt")(**kw(a, TF))
    env.frame()
    e.flight_conditions(T0=a.T0, P0=a.P0, M0=a.M0)

    def w1(v):
        """temperature drop of the full expansion of the low pressure turbine, to the ambient"""
        return (1 - power(v.Pt45 / a.P0 * a.xi_nozzle, -(gh - 1) * a.etapolTBP / gh)) * v.Tt45

    def feasible(v):
        """the fan turbine leaves a positive temperature, and both nozzles expand to the ambient"""
        t5 = v.Tt45 - w1(v) * a.fanpower_ratio
        p5 = v.Pt45 * power(t5 / v.Tt45, gh / ((gh - 1) * a.etapolTBP))
        t17 = v.Tt2 + a.eta_shaft * (1 + v.far) * cph * w1(v) * a.fanpower_ratio / (a.bpr * cpc)
        p17 = v.Pt2 * power(t17 / v.Tt2, gc * a.etapolfan / (gc - 1))
        yield sqlt(a.P0, v.Pt45 * a.xi_nozzle)
        yield land(lt(0, t5), lt(0, t17))
        yield land(sqle(a.P0, p5 * a.xi_nozzle), sqle(a.P0, p17 * a.xi_nozzle))

    if env.numeric:
        s = core(a)
        core_feasible(env, a, s)
        s.Pt45 = core_pressure(a, s)
        for c in feasible(s):
            env.assume(c)
    v = stands_for(env, JET, a, e, FIELDS, lambda v: core_post(v) + list(feasible(v)))
    e.update()
    same_core(env, v, e)
    if env.numeric:
        check_core(env, a, s, e)
    env.check("low pressure turbine: part of the full expansion", eq(e.Tt45 - e.Tt5, a.fanpower_ratio * w1(e)))
    env.check("low pressure turbine polytropic efficiency", eq(e.Pt5, e.Pt45 * power(e.Tt5 / e.Tt45, gh / ((gh - 1) * a.etapolTBP))))
    env.check("fan work is the turbine work times the shaft efficiency", eq(a.bpr * cpc * (e.Tt17 - e.Tt2), a.eta_shaft * (1 + e.far) * cph * (e.Tt45 - e.Tt5)))
    env.check("fan polytropic efficiency", eq(e.Pt17, e.Pt2 * power(e.Tt17 / e.Tt2, gc * a.etapolfan / (gc - 1))))
    env.check("nozzle pressure losses", land(eq(e.Pt9, a.xi_nozzle * e.Pt5), eq(e.Pt19, a.xi_nozzle * e.Pt17)))
    env.check("bypass nozzle is adiabatic", eq(e.Tt19, e.Tt17))
    nozzle(env, "core nozzle", e.Tt5, e.Pt9, a.P0, gh, a.r_hot, e.M9, e.V9)
    nozzle(env, "bypass nozzle", e.Tt19, e.Pt19, a.P0, gc, a.r_cold, e.M19, e.V19)
    v0 = e.V0
    performance(env, e, a, ((1 + e.far) * e.V9 * e.V9 - v0 * v0 + a.bpr * (e.V19 * e.V19 - v0 * v0)) / 2,
                (1 + e.far) * e.V9 - v0 + a.bpr * (e.V19 - v0), sp=1 + a.bpr)
    unchanged(env, a, e, TF + FL)
    env.check_frame()


CT = E + "Cycle_Turbofan:"
CY = dict(P0=FLIGHT["P0"], T0=FLIGHT["T0"], M0=FLIGHT["M0"], xi_e=XI, eta_c=EFF, eta_f=EFF, eta_comb=EFF, xi_cc=XI, eta_m=EFF, eta_turb=EFF, xi_tuy=XI)
CA = dict(lambda_=Dom(0, None, s=(1, 12)), pi_c=Dom(1, None, s=(5, 40)), Tt4=Dom(0, None, s=(1300, 1900)), m=Dom(0, None, s=(50, 300)))
CONST = dict(P0=22700, T0=217, M0=(8, 10), xi_e=(97, 100), eta_c=(90, 100), eta_f=(89, 100), eta_comb=(99, 100), xi_cc=(95, 100), eta_m=(98, 100), eta_turb=(88, 100),
             xi_tuy=(97, 100))


def cycle_params(env, extra=(), const=False):
    a = N()
    for k, d in CY.items():
        v = CONST[k] if isinstance(CONST[k], tuple) else (CONST[k], 1)
        setattr(a, k, env.real(k, d) if not const else Q(*v))
    for k, d in list(CA.items()) + list(extra):
        setattr(a, k, env.real(k, d))
    a.g, a.r = (env.real("gamma", GC), env.real("r", RG)) if not const else (Q(7, 5), 287)
    a.gh, a.rh, a.Pk = (env.real("gamma_fuel", GH), env.real("r_fuel", RG), env.real("P_k", ARGS["Pci"])) if not const else (Q(133, 100), Q(2916, 10), 42800000)
    return a


def up(a):
    """stations upstream of the turbines"""
    s = N()
    s.cpc, s.cph = cp(a.g, a.r), cp(a.gh, a.rh)
    s.Tt2, s.Pt0 = a.T0 * fT(a.M0, a.g), a.P0 * fP(a.M0, a.g)
    s.Pt2 = s.Pt0 * a.xi_e
    s.V0 = a.M0 * sqrt(a.g * a.r * a.T0)
    s.Tt3 = s.Tt2 * power(a.pi_c, (a.g - 1) / (a.g * a.eta_c))
    s.alpha = (s.cph * a.Tt4 - s.cpc * s.Tt3) / (a.eta_comb * a.Pk - s.cph * a.Tt4)
    return s


def up_feasible(a, s):
    return [lt(s.cph * a.Tt4, a.eta_comb * a.Pk), lt(s.cpc * s.Tt3, s.cph * a.Tt4)]


def build(env, a, name, *args):
    """the cycle for any flight conditions and losses: these are class attributes"""
    cls = env.fn(CT + name)
    gaz = env.fn(CT + "Gaz")
    sub = type("cycle", (cls,), {k: getattr(a, k) for k in CY})
    return sub(a.lambda_, a.pi_c, a.Tt4, a.m, gaz(a.g, a.r), gaz(a.gh, a.rh, a.Pk), *args)


UP = ["Tt0", "Pt0", "V0", "Tt2", "Pt2", "Tt3", "Pt3", "m_c", "wu_c", "m_k", "alpha", "Pt4"]


def check_up(env, a, e):
    cpc, cph = cp(a.g, a.r), cp(a.gh, a.rh)
    env.check("flight conditions", land(eq(e.Tt0, a.T0 * fT(a.M0, a.g)), eq(e.Pt0, a.P0 * fP(a.M0, a.g)), eq(e.V0, a.M0 * sqrt(a.g * a.r * a.T0))))
    env.check("inlet", land(eq(e.Tt2, e.Tt0), eq(e.Pt2, a.xi_e * e.Pt0)))
    env.check("compressor", land(eq(e.Pt3, a.pi_c * e.Pt2), eq(e.Tt3, e.Tt2 * power(a.pi_c, (a.g - 1) / (a.g * a.eta_c)))))
    env.check("core mass flow", eq(e.m_c * (1 + a.lambda_), a.m))
    env.check("compressor power", eq(e.wu_c, e.m_c * cpc * (e.Tt3 - e.Tt2)))
    env.check("fuel mass flow", eq(e.m_k, e.alpha * e.m_c))
    env.check("combustor energy balance", eq((1 + e.alpha) * cph * a.Tt4 - cpc * e.Tt3, e.alpha * a.eta_comb * a.Pk))
    env.check("combustor pressure loss", eq(e.Pt4, a.xi_cc * e.Pt3))
    env.check("stations are positive", land(*up_post(e)))


def up_post(e):
    return [lt(0, getattr(e, k)) for k in ("Tt0", "Pt0", "Tt2", "Pt2", "Tt3", "Pt3", "m_c", "m_k", "alpha", "Pt4")] + [le(0, e.V0), lt(e.Tt2, e.Tt3), lt(0, e.wu_c), eq(e.m_k, e.alpha * e.m_c)]


def fresh_stations(env, e, facts):
    """from here on the stations are arbitrary values with the properties just checked"""
    if env.symbolic:
        for k in UP:
            setattr(e, k, env.real(k, REAL))
        for c in facts():
            env.assume(c)


@scenario("turbofan cycle: upstream of the turbines", modes=["at once", "stage by stage", "fixed", "computed"])
def upstream(env, mode):
    a = cycle_params(env)
    s = up(a)
    for c in up_feasible(a, s):
        env.assume(c)
    name, args = {"fixed": ("cycle_taux_fan_fixe", (env.real("pi_f", Dom(1, None, s=(1.3, 1.8))),)), "computed": ("cycle_taux_fan_calcule", (env.real("taux", Dom(0, 1, s=(0.2, 0.8))),))}.get(mode, ("cycle_1_to_4", ()))
    e = build(env, a, name, *args)
    if mode == "at once":
        e.calculs_1_to_4()
    elif mode == "stage by stage":
        e.InitialValues()
        e.stage_2()
        e.calculs_1_to_4()
        e.calculs_1_to_4()
    check_up(env, a, e)


PERFO = ["m_c", "m_k", "alpha", "m_f", "V0", "V9", "V19", "F_c", "F_f"]


def stamp(e):
    """identity of what the performance depends on"""
    return [getattr(getattr(e, k), "e", getattr(e, k)) for k in PERFO]


def perfo_called(env, cls, e):
    """the performance method is replaced by its contract (unit `turbofan cycle: performance`); -> what it was called on"""
    done = []
    if env.symbolic:
        def handler(self):
            if all(hasattr(self, k) for k in PERFO):
                done.append(stamp(self))
        env.p.state["method:" + CT + cls + ".perfo"] = handler
    return done


for _c in ("cycle_taux_fan_fixe", "cycle_taux_fan_calcule"):
    MethodContract(CT + _c + ".perfo", ["turbofan cycle: performance"])


def cycle_performance(env, a, e):
    env.check("thrust", eq(e.F, e.F_c + e.F_f))
    env.check("specific thrust", eq(e.F_spe * a.m, e.F))
    env.check("specific consumption in g/kN/s", eq(e.mk_spe * e.F, e.m_k * 1000000))
    dE = (e.m_c * ((1 + e.alpha) * e.V9 * e.V9 - e.V0 * e.V0) + e.m_f * (e.V19 * e.V19 - e.V0 * e.V0)) / 2
    env.check("thermal efficiency", eq(e.eta_th * a.Pk * e.m_k, dE))
    env.check("propulsive efficiency", eq(e.eta_prop * dE, e.F * e.V0))
    env.check("overall efficiency", eq(e.eta, e.eta_th * e.eta_prop))


@scenario("turbofan cycle: performance", modes=["fixe", "calcule"])
def perfo(env, mode):
    """performance from arbitrary stations"""
    a = cycle_params(env, [("x", Dom(0, 1, s=(0.2, 0.7)))])
    for c in up_feasible(a, up(a)):
        env.assume(c)
    e = build(env, a, "cycle_taux_fan_" + mode, a.x)
    for k in PERFO:
        setattr(e, k, env.real(k, REAL if k not in ("m_k",) else POS))
    env.assume(lnot(eq(e.F_c + e.F_f, 0)))
    dE = e.m_c * ((1 + e.alpha) * e.V9 * e.V9 - e.V0 * e.V0) + e.m_f * (e.V19 * e.V19 - e.V0 * e.V0)
    env.assume(lnot(eq(dE, 0)))
    e.current_stage_corps, e.current_stage_fan = 9, 19
    e.perfo()
    cycle_performance(env, a, e)


def pi_nozzles(env, a, e):
    env.check("nozzles are adiabatic with the given pressure loss", land(eq(e.Tt9, e.Tt5), eq(e.Tt19, e.Tt13), eq(e.Pt9, a.xi_tuy * e.Pt5), eq(e.Pt19, a.xi_tuy * e.Pt13)))
    nozzle(env, "core nozzle", e.Tt9, e.Pt9, a.P0, a.gh, a.rh, e.M9, e.V9)
    nozzle(env, "bypass nozzle", e.Tt19, e.Pt19, a.P0, a.g, a.r, e.M19, e.V19)


def fixed_feasible(a, v, cpc, cph, mf):
    """both the fan and the compressor are driven by the turbine, both nozzles expand to the ambient, and the jets add energy and thrust"""
    t13 = v.Tt2 * power(a.pi_f, (a.g - 1) / (a.g * a.eta_f))
    t5 = a.Tt4 - (mf * cpc * (t13 - v.Tt2) + v.wu_c) / (v.m_c * (1 + v.alpha) * cph * a.eta_m)
    yield lt(0, t5)
    p9 = v.Pt4 / power(a.Tt4 / t5, a.gh / ((a.gh - 1) * a.eta_turb)) * a.xi_tuy
    p19 = v.Pt2 * a.pi_f * a.xi_tuy
    yield sqle(a.P0, p9)
    yield sqle(a.P0, p19)
    if not symbolic():
        v9, v19 = velocity(t5, p9, a.P0, a.gh, a.rh), velocity(t13, p19, a.P0, a.g, a.r)
        yield lt(0, v.m_c * ((1 + v.alpha) * v9 * v9 - v.V0 * v.V0) + mf * (v19 * v19 - v.V0 * v.V0))
        yield lt(0, v.m_c * (v9 - v.V0) + mf * (v19 - v.V0))


def velocity(Tt, Pt, P0, g, r):
    M = sqrt(2 * (power(Pt / P0, (g - 1) / g) - 1) / (g - 1))
    return M * sqrt(g * r * Tt / (1 + (g - 1) / 2 * M * M))


@scenario("turbofan cycle with a given fan ratio", modes=["at once", "stage by stage"])
def cyc_fixed(env, mode):
    a = cycle_params(env, [("pi_f", Dom(1, None, s=(1.3, 1.8)))])
    s = up(a)
    for c in up_feasible(a, s):
        env.assume(c)
    cpc, cph = cp(a.g, a.r), cp(a.gh, a.rh)
    e = build(env, a, "cycle_taux_fan_fixe", a.pi_f)
    mf = a.m * a.lambda_ / (1 + a.lambda_)
    fresh_stations(env, e, lambda: up_post(e))
    v = N()
    v.__dict__.update({k: getattr(e, k) for k in UP})
    for c in fixed_feasible(a, v, cpc, cph, mf):
        env.assume(c)
    done = perfo_called(env, "cycle_taux_fan_fixe", e)
    env.frame()
    if mode == "at once":
        e.calculs_5_to_9()
    else:
        e.stage_9()
        e.stage_13()
        e.stage_5()
        e.stage_19()
        e.calculs_5_to_9()
    env.check("stations upstream are kept", land(*[eq(getattr(v, k), getattr(e, k)) for k in UP]))
    env.check("fan", land(eq(e.Pt13, a.pi_f * e.Pt2), eq(e.Tt13, e.Tt2 * power(a.pi_f, (a.g - 1) / (a.g * a.eta_f)))))
    env.check("fan power", eq(e.wu_f, e.m_f * cpc * (e.Tt13 - e.Tt2)))
    env.check("turbine work drives the compressor and the fan", eq(e.m_c * (1 + e.alpha) * cph * (a.Tt4 - e.Tt5) * a.eta_m, e.wu_c + e.wu_f))
    env.check("turbine polytropic efficiency", eq(e.Pt5 * power(a.Tt4 / e.Tt5, a.gh / ((a.gh - 1) * a.eta_turb)), e.Pt4))
    pi_nozzles(env, a, e)
    env.check("mass flow and thrust of each stream", land(eq(e.m_f * (1 + a.lambda_), a.m * a.lambda_), eq(e.F_c, e.m_c * (e.V9 - e.V0)), eq(e.F_f, e.m_f * (e.V19 - e.V0))))
    env.check("stations are positive", land(*stations_post(a, e)))
    env.check("every stage is done", land(eq(e.current_stage_corps, 9), eq(e.current_stage_fan, 19)))
    if env.symbolic:
        env.check("performance is computed after the stages", bool(done) and done[-1] == stamp(e))
    else:
        cycle_performance(env, a, e)
    env.check_frame()


def computed_feasible(a, v, cpc, cph, mf):
    t4 = a.Tt4 - v.wu_c / (v.m_c * (1 + v.alpha) * cph * a.eta_m)
    yield lt(0, t4)
    p4 = v.Pt4 / power(a.Tt4 / t4, a.gh / ((a.gh - 1) * a.eta_turb))
    t5s = t4 * power(a.P0 / p4, (a.gh - 1) / a.gh)
    t5 = t4 + (t5s - t4) * a.taux
    yield lt(0, t5)
    p9 = p4 / power(t4 / t5, a.gh / ((a.gh - 1) * a.eta_turb)) * a.xi_tuy
    yield sqle(a.P0, p9)
    t13 = v.Tt2 + v.m_c * (1 + v.alpha) * cph * (t4 - t5) * a.eta_m / (mf * cpc)
    yield lt(0, t13)
    p19 = v.Pt2 * power(t13 / v.Tt2, a.eta_f * a.g / (a.g - 1)) * a.xi_tuy
    yield sqle(a.P0, p19)
    if not symbolic():
        v9, v19 = velocity(t5, p9, a.P0, a.gh, a.rh), velocity(t13, p19, a.P0, a.g, a.r)
        yield lt(0, v.m_c * ((1 + v.alpha) * v9 * v9 - v.V0 * v.V0) + mf * (v19 * v19 - v.V0 * v.V0))
        yield lt(0, v.m_c * (v9 - v.V0) + mf * (v19 - v.V0))


@scenario("turbofan cycle with a computed fan ratio", modes=["at once", "stage by stage"])
def cyc_computed(env, mode):
    a = cycle_params(env, [("taux", Dom(0, 1, s=(0.2, 0.7)))])
    s = up(a)
    for c in up_feasible(a, s):
        env.assume(c)
    cpc, cph = cp(a.g, a.r), cp(a.gh, a.rh)
    e = build(env, a, "cycle_taux_fan_calcule", a.taux)
    mf = a.m * a.lambda_ / (1 + a.lambda_)
    fresh_stations(env, e, lambda: up_post(e))
    v = N()
    v.__dict__.update({k: getattr(e, k) for k in UP})
    for c in computed_feasible(a, v, cpc, cph, mf):
        env.assume(c)
    done = perfo_called(env, "cycle_taux_fan_calcule", e)
    env.frame()
    if mode == "at once":
        e.calculs_5_to_9()
    else:
        e.stage_9()
        e.stage_13()
        e.stage_4_etoile()
        e.stage_5()
        e.calculs_5_to_9()
    env.check("stations upstream are kept", land(*[eq(getattr(v, k), getattr(e, k)) for k in UP]))
    env.check("compressor work is the turbine work times the shaft efficiency", eq(e.m_c * (1 + e.alpha) * cph * (a.Tt4 - e.Tt4_etoile) * a.eta_m, e.wu_c))
    env.check("stations between the turbines are positive", land(lt(0, e.Tt4_etoile), lt(0, e.Pt4_etoile)))
    env.check("turbine polytropic efficiency", eq(e.Pt4_etoile * power(a.Tt4 / e.Tt4_etoile, a.gh / ((a.gh - 1) * a.eta_turb)), e.Pt4))
    env.check("fan turbine: part of the isentropic expansion to the ambient",
              eq(e.Tt4_etoile - e.Tt5, a.taux * e.Tt4_etoile * (1 - power(a.P0 / e.Pt4_etoile, (a.gh - 1) / a.gh))))
    env.check("fan turbine polytropic efficiency", eq(e.Pt5 * power(e.Tt4_etoile / e.Tt5, a.gh / ((a.gh - 1) * a.eta_turb)), e.Pt4_etoile))
    env.check("fan work is the turbine work times the shaft efficiency", eq(e.m_f * cpc * (e.Tt13 - e.Tt2), a.eta_m * e.m_c * (1 + e.alpha) * cph * (e.Tt4_etoile - e.Tt5)))
    env.check("fan polytropic efficiency", land(eq(e.pi_f, power(e.Tt13 / e.Tt2, a.eta_f * a.g / (a.g - 1))), eq(e.Pt13, e.pi_f * e.Pt2)))
    pi_nozzles(env, a, e)
    env.check("mass flow and thrust of each stream", land(eq(e.m_f * (1 + a.lambda_), a.m * a.lambda_), eq(e.F_c, e.m_c * (e.V9 - e.V0)), eq(e.F_f, e.m_f * (e.V19 - e.V0))))
    env.check("stations are positive", land(*stations_post(a, e)))
    env.check("every stage is done", land(eq(e.current_stage_corps, 9), eq(e.current_stage_fan, 19)))
    if env.symbolic:
        env.check("performance is computed after the stages", bool(done) and done[-1] == stamp(e))
    else:
        cycle_performance(env, a, e)
    env.check_frame()


PB, PD = E + "propu_be", E + "propu_be_double_corps"
GLOBALS = dict({k: k for k in CY}, P_k="Pk", r="r", r_="rh", gamma="g", gamma_="gh")
SAMPLE = dict(P0=22000.0, T0=217.0, M0=0.8, xi_e=0.97, eta_c=0.9, eta_f=0.88, eta_comb=0.99, xi_cc=0.95, eta_m=0.98, eta_turb=0.87, xi_tuy=0.96, lambda_=6.1, pi_c=31.0, Tt4=1450.0,
              m=170.0, gamma=1.4, r=287.0, gamma_fuel=1.33, r_fuel=291.0, P_k=42.8e6, pi_f=1.6, taux=0.5)


def stations_post(a, e):
    """checked after each cycle of the class"""
    return [lt(0, e.m_f), lt(0, e.Tt13), lt(0, e.Pt13), lt(0, e.Tt5), lt(0, e.Pt5), sqle(a.P0, e.Pt9), sqle(a.P0, e.Pt19), le(0, e.M9), le(0, e.M19)]


class Names:
    """ghost names of intermediate values: each new value of an attribute of the cycle gets a variable, its definition is kept
    aside; a value of the function that equals (obligation) a definition is replaced by the variable.  The candidate is picked
    by its value at one sample point."""

    def __init__(self, env):
        self.env = env
        self.vals = dict(SAMPLE)
        self.defs = []

    def value(self, x):
        from engine import terms as T
        try:
            return T.evalf(x.e, self.vals)
        except Exception:
            return None

    def name(self, k, x, facts):
        from engine.values import Sym
        if not isinstance(x, Sym) or x.e.op in ("var", "const"):
            return x
        v = self.env.real("station_" + k, REAL)
        self.vals[v.e.val[0]] = self.value(x)
        self.defs.append((k, v, x))
        for c in facts(v):
            self.env.assume(c)
        return v

    def match(self, x):
        from engine.values import Sym
        if not isinstance(x, Sym) or x.e.op in ("var", "const"):
            return x
        y = self.value(x)
        for k, v, d in self.defs:
            w = self.vals[v.e.val[0]]
            if y is not None and w is not None and abs(y - w) <= 1e-11 * abs(w):
                self.env.check("same %s" % k, eq(x, self.unfold(d, x)))
                return v
        return x

    def unfold(self, d, x):
        """the definition d in the names that occur in x: the others are replaced by their definitions"""
        from engine import terms as T
        from engine.values import Sym
        e, here = d.e, T.free_vars(x.e)
        for _ in range(2):
            e = T.subst(e, {v.e: w.e for _, v, w in self.defs if v.e in T.free_vars(e) and v.e not in here})
        return Sym(e)

    def same(self, y, z):
        from engine.values import Sym
        if not isinstance(y, Sym) or not isinstance(z, Sym) or y.e is z.e:
            return z
        for _, v, w in self.defs:
            if v.e is z.e:
                return self.unfold(w, y)
        return z

    def run(self, f, *args):
        """run the function, replacing its local values by the matching names"""
        import sys
        from engine import symuse
        code = symuse.unwrap(f).__code__
        seen = {}

        def local(frame, event, arg):
            if event in ("line", "return"):
                for n, x in list(frame.f_locals.items()):
                    if seen.get(n) is not x:
                        frame.f_locals[n] = seen[n] = self.match(x)
            return local

        old = sys.gettrace()
        sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename == code.co_filename else None)
        try:
            return f(*args)
        finally:
            sys.settrace(old)


FACTS = {k: (lambda v: [lt(0, v)]) for k in ("Tt0", "Pt0", "Tt2", "Pt2", "Tt3", "Pt3", "m_c", "m_k", "alpha", "Pt4", "wu_c", "m_f", "Tt13", "Pt13", "Tt5", "Pt5", "Tt4_etoile", "Pt4_etoile")}
FACTS.update({k: (lambda v: [le(0, v)]) for k in ("V0", "M9", "M19")})


def func_version(env, mode, mod, cls, extra, feasible, outputs):
    """mode: `constants` (the parameters of both modules), `any` (for any parameters)"""
    m = env.mod(mod)
    a = cycle_params(env, [extra], const=mode == "constants")
    x = getattr(a, extra[0])
    if mode == "constants":
        for k, v in GLOBALS.items():
            env.check("parameter %s" % k, eq(getattr(m, k), getattr(a, v)))
            if k in CY:
                env.check("parameter %s of the class" % k, eq(getattr(env.fn(CT + cls), k), getattr(a, v)))
        env.check("default gas", land(eq(env.fn(CT + "Gaz")().gamma, a.g), eq(env.fn(CT + "Gaz")().r, a.r)))
        return
    s = up(a)
    for c in up_feasible(a, s):
        env.assume(c)
    cpc, cph = cp(a.g, a.r), cp(a.gh, a.rh)
    s.m_c = a.m / (1 + a.lambda_)
    mf = a.m * a.lambda_ / (1 + a.lambda_)
    s.wu_c, s.Pt4 = s.m_c * cpc * (s.Tt3 - s.Tt2), s.Pt2 * a.pi_c * a.xi_cc
    if env.numeric:
        for c in feasible(a, s, cpc, cph, mf):
            env.assume(c)
    keep = {k: getattr(m, k) for k in GLOBALS}
    names = Names(env)
    attrs = {k: getattr(a, k) for k in CY}
    if env.symbolic:
        def facts(self, k, v):
            r = FACTS.get(k, lambda v: [])(v)
            if k in ("Pt9", "Pt19"):
                r = r + [le(a.P0, v)]
            if k == "Tt3":
                r = r + [lt(self.Tt2, v)]
            if k == "F":      # the engine has a positive thrust and adds energy to the flow
                r = r + [lt(0, v), lt(0, self.m_c * ((1 + self.alpha) * self.V9 * self.V9 - self.V0 * self.V0) + self.m_f * (self.V19 * self.V19 - self.V0 * self.V0))]
            return r

        attrs["__setattr__"] = lambda self, k, v: object.__setattr__(self, k, names.name(k, v, lambda w: facts(self, k, w)))
    C = type("cycle", (env.fn(CT + cls),), attrs)
    gaz = env.fn(CT + "Gaz")
    e = C(a.lambda_, a.pi_c, a.Tt4, a.m, gaz(a.g, a.r), gaz(a.gh, a.rh, a.Pk), x)
    e.calculs_5_to_9()
    n0 = len(env.printed_numbers())
    args = (a.lambda_, a.pi_c, a.Tt4) + ((x, a.m) if mod == PB else (a.m, x))
    try:
        for k, v in GLOBALS.items():
            setattr(m, k, getattr(a, v))
        r = names.run(m.calculs, *args) if env.symbolic else m.calculs(*args)
    finally:
        for k in GLOBALS:
            setattr(m, k, keep[k])
    if mod == PB:
        r = env.printed_numbers()[n0:]
    else:
        r = [(y, 0) for y in r]
    env.check("number of results", len(r) == len(outputs))
    for (y, d), k in zip(r, outputs):
        z = getattr(e, k)
        if env.symbolic:
            z = names.same(y, z)
        env.check("result %s" % k, eq(y, z, tol=1e-9, atol=d))


@scenario("turbofan cycle with a given fan ratio: the function gives the results of the class", modes=["constants", "any"])
def func_fixed(env, mode):
    func_version(env, mode, PB, "cycle_taux_fan_fixe", ("pi_f", Dom(1, None, s=(1.3, 1.8))), lambda a, s, cpc, cph, mf: fixed_feasible(a, s, cpc, cph, mf),
                 ["wu_c", "wu_f", "Tt5", "F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta"])


@scenario("double spool turbofan cycle: the function gives the results of the class", modes=["constants", "any"])
def func_computed(env, mode):
    func_version(env, mode, PD, "cycle_taux_fan_calcule", ("taux", Dom(0, 1, s=(0.2, 0.7))), lambda a, s, cpc, cph, mf: computed_feasible(a, s, cpc, cph, mf),
                 ["F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "pi_f"])


CYC = ["turbofan cycle: performance", "turbofan cycle: upstream of the turbines", "turbofan cycle with a given fan ratio", "turbofan cycle with a computed fan ratio", "turbofan cycle with a given fan ratio: the function gives the results of the class", "double spool turbofan cycle: the function gives the results of the class"]
prop("C24", [], ["gas generator: energy balance of each component", "engines: arrays of parameters are treated elementwise", "gas generator: default parameters", "turbojet: nozzle and performance",
                 "turbofan: fan, low pressure turbine, nozzles and performance"] + CYC)
