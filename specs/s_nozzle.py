from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fP, fT
from .s_massflow import sigma, G3, SIG, M as MF
from .s_shock import ptr, mdown, ps, pol_ptr, S

N = "aerokit.instance.nozzle:"
GN = Dom(1, 3, s=(1.2, 2.2), special=(1.4, 1.3, 1.6))
AR = Dom(1, None, lo_eq=True, s=(1.02, 12), special=(1.5, 2.0, 4.0))
ARS = Dom(1, None, s=(1.1, 8), special=(1.5, 2.0, 4.0))


def machP(q, g):
    return sqrt(2 * (power(q, (g - 1) / g) - 1) / (g - 1))


def hmass(m, g):
    """exit mass flow for a unit static pressure: M sqrt(1+(g-1)/2 M^2)"""
    return m * sqrt(fT(m, g))


def exitM(q, a, g):
    """exit Mach number of the mass flow: hmass(M) = K"""
    K = q / a / power((g + 1) / 2, (g + 1) / 2 / (g - 1))
    return sqrt((sqrt(1 + 2 * (g - 1) * K * K) - 1) / (g - 1))


def branch(env, kind, a, g):
    """isentropic Mach number of the section ratio, by its specification (C02)"""
    return env.fn(MF + ("MachSub_Sigma" if kind == "sub" else "MachSup_Sigma"))(a, g)


@scenario("nozzle: pressure ratio limits", modes=["subsonic", "supersonic", "shock", "subsonic array", "supersonic array", "shock array", "list"])
def limits(env, mode):
    g = env.real("gamma", GN)
    arr = mode.endswith("array")
    kind = mode.split()[0]
    if arr:
        n = env.size("n")
        A = env.arr("AsAc", (n,), AR)
    else:
        A = env.real("AsAc", AR)
    msub, msup = branch(env, "sub", A, g), branch(env, "sup", A, g)
    env.frame()
    if mode == "list":
        r = env.fn(N + "_NPR_Ms_list")(A, g)
        env.check_frame()
        env.check("exit Mach numbers", land(eq(r[3], msub), eq(r[5], msup), eq(r[4], mdown(msup, g))))
        env.check("subsonic limit", eq(r[0], fP(msub, g)))
        env.check("shock limit", eq(r[1] * ptr(msup, g), fP(mdown(msup, g), g)))
        env.check("adapted limit", eq(r[2], fP(msup, g)))
        return
    f = env.fn(N + {"subsonic": "NPR_choked_subsonic", "supersonic": "NPR_choked_supersonic", "shock": "NPR_shock_at_exit"}[kind])
    r = f(A, gamma=g) if kind != "shock" else f(A, g)
    env.check_frame()
    for ix in (env.idx(n) if arr else [()]):
        a, x, lo, hi = [env.at(v, ix) if arr else v for v in (A, r, msub, msup)]
        if kind == "subsonic":
            env.check("total over static pressure of the subsonic exit", eq(x, fP(lo, g)))
            env.check("sonic throat", land(le(lo, 1, atol=1e-4), eq(sigma(machP(x, g), g), a, tol=1e-4)))
        elif kind == "supersonic":
            env.check("total over static pressure of the supersonic exit", eq(x, fP(hi, g)))
            env.check("sonic throat", land(le(1, hi, atol=1e-4), eq(sigma(machP(x, g), g), a, tol=1e-4)))
        else:
            m2 = mdown(hi, g)
            env.check("total over static pressure behind the shock of the exit", eq(x * ptr(hi, g), fP(m2, g)))
            env.check("mass flow through the sonic throat", eq(sigma(m2, g) * x, a * fP(m2, g), tol=1e-5))


@scenario("nozzle: default gamma of the pressure ratio limits", modes=["subsonic", "supersonic", "shock"])
def limits_default(env, mode):
    A = env.real("AsAc", AR)
    f = env.fn(N + {"subsonic": "NPR_choked_subsonic", "supersonic": "NPR_choked_supersonic", "shock": "NPR_shock_at_exit"}[mode])
    env.check("gamma is 1.4", eq(f(A), f(A, Q(7, 5))))


def gas(env, gam=True):
    return env.real("gamma", GN)


def inv_sigma(kind, a, g):
    """isentropic Mach number of the section ratio: the function specified by the contract of MachSub_Sigma / MachSup_Sigma (C02)"""
    if symbolic():
        return uf("res:MachSub_Sigma" if kind == "sub" else "res:MachSup_Sigma", a, g)
    from scipy.optimize import brentq
    a = max(a, 1.0)
    return brentq(lambda m: sigma(m, g) - a, *((1e-9, 1.0) if kind == "sub" else (1.0, 1e3)), xtol=1e-14)


def limits_of(a, g):
    msub, msup = inv_sigma("sub", a, g), inv_sigma("sup", a, g)
    msh = mdown(msup, g)
    return msub, msup, msh, fP(msub, g), fP(msh, g) / ptr(msup, g), fP(msup, g)


def regime(env, a, g, q):
    branch(env, "sub", a, g), branch(env, "sup", a, g)   # the facts of C02 about both Mach numbers
    return limits_of(a, g)


def ms_post(m, a, q, g):
    msub, msup, msh, n0, nsw, n1 = limits_of(a, g)
    sub, sup = sqlt(q, n0), sqlt(nsw, q)
    sh = land(sqlt(n0, q), sqlt(q, nsw))
    return [("subsonic regime: adapted exit, no sonic throat", implies(sub, lambda: land(lt(0, m), le(m, 1), eq(fP(m, g), q), le(a, sigma(m, g), atol=1e-6)))),
            ("shock in the nozzle: subsonic exit with the mass flow of the sonic throat", implies(sh, lambda: land(lt(0, m), le(m, 1), eq(sigma(m, g) * q, a * fP(m, g))))),
            ("shock in the nozzle: total pressure loss of a shock between the throat and the exit", implies(sh, lambda: land(lt(0, fP(m, g) / q), le(fP(m, g) / q, 1), le(ptr(msup, g), fP(m, g) / q)))),
            ("supersonic exit", implies(sup, lambda: land(eq(m, msup), le(1, m))))]


Contract(N + "Ms_from_AsAc_NPR", [P("AsAc", AR), P("NPR", Dom(1, None)), P("gamma", GN)], ensures=ms_post, scalar_only=True,
         requires=lambda a, q, g: (lambda L: [lor(lt(q, L[3]), land(lt(L[3], q), lt(q, L[4])), lt(L[4], q))])(limits_of(a, g)), body=["nozzle: exit Mach number of each regime"])


def k0(g):
    return power((g + 1) / 2, (g + 1) / 2 / (g - 1))


def loss(t, g):
    """total pressure ratio of the shock as a function of the squared Mach number"""
    return power((g + 1) * t / (2 + (g - 1) * t), g / (g - 1)) * power((g + 1) / (2 * g * t - (g - 1)), 1 / (g - 1))


def lemmas_order(g, a, msub, msup, msh, n0, nsw, n1):
    monotone("loss of the shock at the exit", lambda t: loss(t, g), 1, msup * msup, sense=-1)
    hint("loss of the shock at the exit", land(lt(0, ptr(msup, g)), le(ptr(msup, g), 1)))
    hint("shock at the exit is a compression", le(1, ps(msup, g)))
    hint("subsonic behind the shock", land(lt(0, msh), le(msh, 1)))
    hint("mass flow of the shock at the exit, as a section ratio", eq(sigma(msh, g), a * ptr(msup, g)))
    monotone("section ratio, subsonic", lambda t: sigma(t, g), msh, msub, sense=-1, strict=True, when=lt(msh, msub))
    hint("Mach number behind the shock is above the choked subsonic one", le(msub, msh))
    hint("mass flow of the choked subsonic exit", eq(hmass(msub, g) * a * k0(g), n0))
    hint("mass flow of the shock at the exit", eq(hmass(msh, g) * a * k0(g), nsw))
    monotone("mass flow function between both", lambda t: hmass(t, g), msub, msh)
    hint("first and second limits are ordered", le(n0, nsw))
    hint("limit of the shock at the exit", eq(nsw * ps(msup, g), n1))
    hint("second and third limits are ordered", le(nsw, n1))


def lemmas_sub(g, a, q, msub):
    """the flow is not choked: the exit Mach number of the pressure ratio is below the choked one"""
    ms = machP(q, g)
    monotone("total pressure ratio", lambda t: fP(t, g), msub, ms, strict=False, when=le(msub, ms))
    hint("exit Mach number is below the choked one", lt(ms, msub))
    monotone("section ratio on the subsonic branch", lambda t: sigma(t, g), ms, msub, sense=-1, when=lt(0, ms))
    hint("exit section above the virtual throat", implies(lt(0, ms), le(a, sigma(ms, g))))


def lemmas_shock(env, g, a, q, msub, msh, nsw, l):
    ms = exitM(q, a, g)
    P = fP(ms, g)

    def steps(m, P):
        monotone("mass flow function", lambda t: hmass(t, g) * a * k0(g), m, msub, strict=True, when=lt(m, msub))
        hint("exit Mach number is not below the choked one", le(msub, m))
        monotone("mass flow function above", lambda t: hmass(t, g) * a * k0(g), msh, m, strict=True, when=lt(msh, m))
        hint("exit Mach number is not above the one of a shock at the exit", le(m, msh))
        monotone("section ratio on the subsonic branch", lambda t: sigma(t, g), msub, m, sense=-1)
        monotone("section ratio of the exit", lambda t: sigma(t, g), m, msh, sense=-1)
        hint("positive", lt(0, sigma(m, g)))
        hint("mass flow, section ratio and total pressure ratio", eq(sigma(m, g) * hmass(m, g) * k0(g), fP(m, g)))
        hint("mass flow with the section ratio of the exit", eq(P * a, sigma(m, g) * q))
        cut(env, "total pressure loss", (P, sigma(m, g), q, a, l), lambda P, s, q, a, l: [lt(0, P), lt(0, q), lt(0, a), eq(P * a, s * q), le(s, a), le(a * l, s)], lambda P, s, q, a, l: land(lt(0, P / q), le(P / q, 1), le(l * q, P)))

    K = q / a / k0(g)
    W = sqrt(1 + 2 * (g - 1) * K * K)
    cut(env, "exit Mach number from the mass flow", (hmass(ms, g), ms, K, W, g, a, k0(g), q),
        lambda h, m, K, W, g, a, k, q: [lt(1, g), lt(0, K), le(1, W), eq(W * W, 1 + 2 * (g - 1) * K * K), le(0, h), lt(0, m), eq(m * m * (g - 1), W - 1), eq(h * h, m * m * (1 + (g - 1) / 2 * m * m)), eq(K * a * k, q)],
        lambda h, m, K, W, g, a, k, q: eq(h * a * k, q), steps=lambda h, m, K, W, g, a, k, q: (hint("squares", eq(h * h, K * K)), hint("mass flow function", eq(h, K))))
    cut(env, "exit of the diffuser", (ms, P), lambda m, P: [lt(0, m), eq(hmass(m, g) * a * k0(g), q), lt(0, P), eq(P, fP(m, g))],
        lambda m, P: land(le(msub, m), le(m, msh), lt(0, P / q), le(P / q, 1), le(l * q, P)), steps=steps, keep=True)


@scenario("nozzle: exit Mach number of each regime", modes=["subsonic", "shock", "overexpanded", "underexpanded"], inline=(N + "Ms_from_AsAc_NPR",))
def exit_mach(env, mode):
    g = gas(env)
    a = env.real("AsAc", ARS)
    q = env.real("NPR", Dom(1, None)) if env.symbolic else env.real("NPR position", Dom(0, 1, s=(0.02, 0.98), special=(0.5,)))
    msub, msup, msh, n0, nsw, n1 = regime(env, a, g, q)
    if env.numeric:
        q = {"subsonic": lambda t: 1 + t * (n0 - 1), "shock": lambda t: n0 + t * (nsw - n0), "overexpanded": lambda t: nsw + t * (n1 - nsw), "underexpanded": lambda t: n1 * (1 + t)}[mode](q)
    else:
        env.assume({"subsonic": lambda: lt(q, n0), "shock": lambda: land(lt(n0, q), lt(q, nsw)), "overexpanded": lambda: land(lt(nsw, q), lt(q, n1)), "underexpanded": lambda: lt(n1, q)}[mode]())
        lemmas_order(g, a, msub, msup, msh, n0, nsw, n1)
    f, fa = env.fn(N + "Ms_from_AsAc_NPR"), env.fn(N + "Madapt_from_AsAc_NPR")
    env.frame()
    m = f(a, q, g)
    ma = fa(a, q, gamma=g)
    env.check_frame()
    if env.symbolic and mode == "subsonic":
        lemmas_sub(g, a, q, msub)
    if env.symbolic and mode == "shock":
        lemmas_shock(env, g, a, q, msub, msh, nsw, ptr(msup, g))
    for lab, c in ms_post(m, a, q, g):
        env.check(lab, c)
    if mode == "subsonic":
        env.check("adapted subsonic exit", land(le(m, 1), eq(fP(m, g), q), eq(ma, m)))
    elif mode == "shock":
        env.check("mass flow of the sonic throat", eq(sigma(m, g) * q, a * fP(m, g)))
        env.check("same Mach number in the jet", eq(ma, m))
    else:
        if env.symbolic and mode == "underexpanded":
            monotone("total pressure ratio above the limit", lambda t: fP(t, g), machP(q, g), msup, strict=True, when=lt(machP(q, g), msup))
        env.check("supersonic exit", land(eq(m, msup), le(1, m)))
        if mode == "underexpanded":
            env.check("jet adapted by an isentropic expansion", eq(fP(ma, g), q))
            env.check("expansion", le(m, ma))
        else:
            # normal Mach number of the oblique shock of the jet from its pressure ratio
            pr = n1 / q
            sh = env.fn(S + "downstreamMach_Mach_ShockPsratio")(msup, pr, g)
            env.check("jet adapted by an oblique shock", eq(ma, sh))


def section_law(env, forced):
    """a section law with its first minimum at t, not decreasing downstream"""
    g = gas(env)
    n = env.size("n", 2)
    if env.numeric:
        t = env.int("t", 0)
        n = n + 2
        t = t % (n - 1)
        sec = [float(x) for x in env.arr("section", (n,), Dom(0, None, s=(0.1, 6)))]
        m = min(sec) + 0.05
        sec = sorted([x + 0.1 for x in sec[:t]], reverse=True) + [0.9 * m] + sorted(x + 0.2 for x in sec[t + 1:])
        sec = env.asarray(sec)
        x = env.asarray([float(k) for k in range(n)])
        T_, E_ = env.at(sec, (t,)), env.at(sec, (n - 1,))
    else:
        x = env.arr("x", (n,), REAL)
        sec = env.arr("section", (n,), POS)
        t, T_ = sec.argmin(), sec.min()
        E_ = env.at(sec, (n - 1,))
        env.assume(land(lt(t, n - 1), le(T_, E_)))
    if forced:
        k = env.real("k", Dom(1, None, s=(1.01, 1.6), special=(1.2,)))
        a = k * E_ / T_
    else:
        a = None
    return g, n, t, x, sec, T_, E_, a


def make(env, forced, q=None):
    g, n, t, x, sec, T_, E_, a = section_law(env, forced)
    kw = {"gamma": g}
    if forced:
        kw["AsoAc"] = a
    if q is not None:
        kw["NPR"] = q
    return g, n, t, sec, T_, E_, (a if forced else E_ / T_), env.fn(N + "nozzle")(x, sec, **kw)


@scenario("nozzle: geometry and limits", modes=["computed", "forced"])
def build(env, mode):
    env.frame()
    g, n, t, sec, T_, E_, a, z = make(env, mode == "forced")
    env.check_frame()
    env.check("area ratio", eq(z.AsoAc, a))
    env.check("throat", eq(z.ithroat, t))
    env.check("gamma", eq(z.gamma, g))
    for ix in env.idx(n):
        env.check("section over critical section", eq(env.at(z.AxoAc, ix) * E_, env.at(sec, ix) * a))
    msub, msup, msh, n0, nsw, n1 = regime(env, a, g, None)
    env.check("limits", land(eq(z.NPR0, n0), eq(z.NPRsw, nsw), eq(z.NPR1, n1)))
    env.check("Mach numbers of the limits", land(eq(z.Msub, msub), eq(z.Msh, msh), eq(z.Msup, msup)))


def pick(env, mode, q, n0, nsw, n1):
    if env.numeric:
        return {"subsonic": lambda t: 1 + t * (n0 - 1), "shock": lambda t: n0 + t * (nsw - n0), "supersonic": lambda t: nsw + t * 2 * (n1 - nsw)}[mode](q)
    env.assume(lt(1, q))
    env.assume({"subsonic": lambda: lt(q, n0), "shock": lambda: land(lt(n0, q), lt(q, nsw)), "supersonic": lambda: lt(nsw, q)}[mode]())
    return q


def located_lemma(g):
    """Mach number m1 of the shock: it is in the diffuser"""
    def facts(m1, msup, l):
        return [lt(0, m1), lt(g - 1, 2 * g * m1 * m1), eq(ptr(m1, g), l), le(l, 1), le(1, msup), le(ptr(msup, g), l)]

    def steps(m1, msup, l):
        hint("loss, closed form", land(eq(ptr(m1, g), loss(m1 * m1, g)), eq(ptr(msup, g), loss(msup * msup, g))))
        monotone("loss", lambda t: loss(t, g), m1 * m1, 1, strict=True, sense=-1, when=lt(m1 * m1, 1))
        hint("shock Mach number is not subsonic", le(1, m1))
        monotone("loss up to the exit", lambda t: loss(t, g), msup * msup, m1 * m1, strict=True, sense=-1, when=lt(msup * msup, m1 * m1))
        hint("squares", le(m1 * m1, msup * msup))

    return Lemma(facts, lambda m1, msup, l: land(le(1, m1), le(m1, msup)), steps)


def behind_lemma(g):
    """a section where the supersonic flow has reached m1, and any larger one, can be downstream of the shock"""
    def facts(m1, mx, x, x2, l):
        return [le(1, m1), eq(ptr(m1, g), l), le(1, mx), eq(sigma(mx, g), x), le(x, x2), le(1, x), lt(0, l)]

    def steps(m1, mx, x, x2, l):
        monotone("section ratio up to the section", lambda t: sigma(t, g), m1, mx, when=le(m1, mx))
        hint("mass flow through the shock", eq(sigma(m1, g) * l, sigma(mdown(m1, g), g)))
        hint("subsonic behind", land(lt(0, mdown(m1, g)), le(mdown(m1, g), 1)))
        monotone("section ratio behind the shock", lambda t: sigma(t, g), mdown(m1, g), 1, sense=-1)
        hint("section ratio behind the shock is not below 1", le(1, sigma(m1, g) * l))
        hint("sections", implies(le(m1, mx), land(le(sigma(m1, g), x), le(x * l, x2 * l), le(sigma(m1, g) * l, x * l))))

    return Lemma(facts, lambda m1, mx, x, x2, l: implies(le(m1, mx), le(1, x2 * l)), steps)


def injective_lemma(f, g, hi=None):
    rng = lambda x: land(lt(0, x), le(x, hi)) if hi else le(0, x)

    def steps(x, y):
        for a, b in ((x, y), (y, x)):
            monotone("strictly monotone", lambda t: f(t, g), a, b, strict=True, sense=-1 if hi else 1)

    return Lemma(lambda x, y: [rng(x), rng(y), eq(f(x, g), f(y, g))], lambda x, y: eq(x, y), steps)


def adapted_lemma(g):
    return Lemma(lambda q: [lt(1, q)], lambda q: land(lt(0, machP(q, g)), eq(fP(machP(q, g), g), q)))


def lemma_list(g):
    return {"located": (located_lemma(g), ("m1", "msup", "l")), "behind": (behind_lemma(g), ("m1", "mx", "x", "x2", "l")), "section ratio": (injective_lemma(sigma, g, 1), ("x", "y")),
            "pressure ratio": (injective_lemma(fP, g), ("x", "y")), "adapted": (adapted_lemma(g), ("q",))}


def order_lemma(g):
    """needs the facts of C02 about the Mach numbers of the section ratio"""
    def steps(a):
        lemmas_order(g, a, *limits_of(a, g))

    def goal(a):
        msub, msup, msh, n0, nsw, n1 = limits_of(a, g)
        return land(le(n0, nsw), le(nsw, n1), lt(0, ptr(msup, g)))

    return Lemma(lambda a: [le(1, a)], goal, steps)


@scenario("nozzle: lemmas", modes=["located", "behind", "section ratio", "pressure ratio", "adapted", "order"], nonum=True)
def lemma_units(env, mode):
    g = gas(env)
    if mode == "order":
        a = env.real("a", AR)
        regime(env, a, g, None)
        return order_lemma(g).prove(env, a)
    l, names = lemma_list(g)[mode]
    l.prove(env, *[env.real(k) for k in names])


@scenario("facts about opaque functions", modes=["fP", "sigma", "mdown", "ptr"], nonum=True)
def opaque_facts(env, mode):
    M, g = env.real("M"), env.real("gamma", GAM)
    f, facts = OPQ[mode]
    if mode == "ptr":
        env.assume(lt(g - 1, 2 * g * M * M))
    for c in facts(f(M, g), M, g):
        env.check("fact", c)


def few_sections(env, forced):
    """four sections, the throat is the second one"""
    g = gas(env)
    if env.numeric:
        u = sorted(env.real("u%d" % k, Dom(0, None, s=(0.1, 4))) for k in range(2))
        S_ = [1.0 + env.real("w", Dom(0, None, s=(0.1, 4))), 1.0, 1.05 + u[0], 1.1 + u[1]]
    else:
        S_ = [env.real("s%d" % k, POS) for k in range(4)]
        env.assume(land(lt(S_[1], S_[0]), le(S_[1], S_[2]), le(S_[2], S_[3]), lt(S_[1], S_[3])))
    a = env.real("k", Dom(1, None, s=(1.01, 1.6), special=(1.2,))) * S_[3] / S_[1] if forced else None
    sec, x = env.asarray(S_), env.asarray([0, 1, 2, 3])
    kw = {"gamma": g}
    if forced:
        kw["AsoAc"] = a
    z = env.fn(N + "nozzle")(x, sec, **kw)
    return g, S_, (a if forced else S_[3] / S_[1]), z


@scenario("nozzle: shock wave in the diffuser (four sections)", modes=["computed", "forced"], newton=pol_ptr, opaque=("fP", "sigma", "mdown", "ptr"), bounded="four sections, throat at the second one; any sections, pressure ratio and gamma")
def shock_profile(env, mode):
    q = env.real("NPR") if env.symbolic else env.real("NPR position", Dom(0, 1, s=(0.03, 0.97), special=(0.5, 0.03, 0.97)))
    g, S_, a, z = few_sections(env, mode == "forced")
    msub, msup, msh, n0, nsw, n1 = regime(env, a, g, q)
    q = pick(env, "shock", q, n0, nsw, n1)
    xs = [s * a / S_[3] for s in S_]
    ms = env.fn(N + "Ms_from_AsAc_NPR")(a, q, g)
    order_lemma(g).use("order of the limits", a)
    ls = fP(ms, g) / q
    m1 = env.fn(S + "Mn_Pi_ratio")(ls, g)
    mx = branch(env, "sup", xs[2], g)
    if env.symbolic:
        located_lemma(g).use("shock in the diffuser", m1, msup, ls)
        hint("total pressure loss from the mass flow", eq(ls * a, sigma(ms, g)))
        for i, j, m in ((2, 2, mx), (2, 3, mx), (3, 3, msup)):
            behind_lemma(g).use("section behind the shock", m1, m, xs[i], xs[j], ls)
    first = 2 if env.decide(sqle(m1, mx)) else 3
    z.set_NPR(q)
    M_, P_, Pt = z.Mach(), z.Ps(), z.Ptot()
    for i in range(4):
        m, p, pt, A = env.at(M_, (i,)), env.at(P_, (i,)), env.at(Pt, (i,)), xs[i]
        env.check("isentropic static pressure", eq(p * fP(m, g), pt))
        if i < first:
            env.check("no loss upstream of the shock", eq(pt, 1))
            env.check("mass flow", eq(sigma(m, g), A, tol=1e-5))
            env.check("subsonic before the throat, below the Mach number of the shock before it", land(lt(0, m), le(m, 1, atol=1e-4)) if i < 2 else land(le(1, m, atol=1e-4), le(m, m1, atol=1e-4)))
        else:
            env.check("loss of the shock", eq(pt, ls))
            if env.symbolic:
                hint("section ratio behind the shock", land(le(a, A * sigma(ms, g)), le(1, A * sigma(ms, g) / a)))
                hint("mass flow behind the shock", eq(sigma(m, g) * a, A * sigma(ms, g)))
            env.check("mass flow", eq(sigma(m, g), A * pt, tol=1e-5))
            env.check("subsonic behind the shock", land(lt(0, m), le(m, 1, atol=1e-4)))
    if env.symbolic:
        lem = lemma_list(g)
        lem["section ratio"][0].use("exit", env.at(M_, (3,)), ms)
        env.congruence(lambda m: fP(m, g), env.at(M_, (3,)), ms)
    env.check("exit static pressure", eq(env.at(P_, (3,)) * q, 1))


@scenario("nozzle: profiles of Mach number, static and total pressure", modes=["%s, %s" % (r, k) for r in ("subsonic", "supersonic") for k in ("computed", "forced")], newton=pol_ptr, opaque=("fP", "sigma", "mdown", "ptr"))
def profiles(env, mode):
    mode, k = mode.split(", ")
    q = env.real("NPR") if env.symbolic else env.real("NPR position", Dom(0, 1, s=(0.03, 0.97), special=(0.5, 0.03, 0.97)))
    env.frame()
    g, n, t, sec, T_, E_, a, z = make(env, k == "forced")
    msub, msup, msh, n0, nsw, n1 = regime(env, a, g, q)
    q = pick(env, mode, q, n0, nsw, n1)
    sc = a / E_
    xs = lambda i: env.at(sec, (i,)) * sc
    ms = env.fn(N + "Ms_from_AsAc_NPR")(a, q, g)
    lem = lemma_list(g)
    order_lemma(g).use("order of the limits", a)
    if mode == "subsonic" and env.symbolic:
        mq = machP(q, g)
        lem["adapted"][0].use("adapted exit", q)
        lem["pressure ratio"][0].use("exit Mach number", mq, ms)
        env.congruence(lambda m: sigma(m, g), mq, ms)
    env.check("throat", eq(z.ithroat, t))
    z.set_NPR(q)
    env.check_frame()
    M_, P_, Pt = z.Mach(), z.Ps(), z.Ptot()
    for v in (M_, P_, Pt):
        env.check_shape("one value per section", v, (n,))
    for ix in env.idx(n):
        i = ix[0]
        m, p, pt, A = env.at(M_, ix), env.at(P_, ix), env.at(Pt, ix), xs(i)
        env.check("isentropic static pressure", eq(p * fP(m, g), pt))
        if mode == "subsonic":
            env.check("subsonic", land(lt(0, m), le(m, 1, atol=1e-4)))
            env.check("no total pressure loss", eq(pt, 1))
            env.check("mass flow", eq(sigma(m, g) * a, A * sigma(ms, g), tol=1e-5))
        else:
            env.check("subsonic then supersonic", ite(sqle(i, t), lambda: land(lt(0, m), le(m, 1, atol=1e-4)), lambda: le(1, m, atol=1e-4)))
            env.check("no total pressure loss", eq(pt, 1))
            env.check("mass flow", eq(sigma(m, g), A, tol=1e-5))
    e = (n - 1,)
    if mode == "supersonic":
        env.check("exit Mach number", eq(env.at(M_, e), msup))
    else:
        if env.symbolic:
            lem["section ratio"][0].use("exit", env.at(M_, e), ms)
            env.congruence(lambda m: fP(m, g), env.at(M_, e), ms)
        env.check("exit static pressure", eq(env.at(P_, e) * q, 1))


prop("C15", scenarios=["nozzle: pressure ratio limits", "nozzle: default gamma of the pressure ratio limits", "nozzle: exit Mach number of each regime", "nozzle: lemmas", "facts about opaque functions", "nozzle: geometry and limits", "nozzle: profiles of Mach number, static and total pressure", "nozzle: shock wave in the diffuser (four sections)"])
