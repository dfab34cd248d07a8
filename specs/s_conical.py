from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_shock import S, G, mdown, rho
from .s_oblique import defl, oblique_m2, SIGMA

MC = Dom(1, None, s=(1.4, 8), special=(2.0, 3.0, 5.0))
SC = Dom(0, 90, s=(15, 70), special=(30.0, 45.0, 60.0))
TOLC = Dom(0, None, s=(1e-7, 1e-4), special=(1e-6,))
KEY = S + "conical_deflection_Mach_sigma"


def taylor_maccoll(phi, th, m, dth, dm, g):
    """residuals of the irrotationality and continuity equations of a conical flow; phi: ray angle, th: flow angle (degrees), m: Mach number,
    derivatives with respect to phi; components relative to the sound velocity: u along the ray, v normal to it"""
    s = phi - th
    u, v = m * cosd(s), -1 * m * sind(s)
    dms = dm * 180 / pi() / (1 + (g - 1) / 2 * m * m)      # derivative of the velocity, over the sound velocity
    du = dms * cosd(s) - m * sind(s) * (1 - dth)
    dv = -1 * dms * sind(s) - m * cosd(s) * (1 - dth)
    return (du, v), (dv * (1 - v * v) * sind(phi), (u * v * v - 2 * u) * sind(phi) - v * cosd(phi))


def regular(env, phi, th, m):
    """points where the equations are not singular"""
    env.assume(lnot(eq(sind(phi), 0)))
    s = m * sind(phi - th)
    env.assume(lnot(eq(s * s, 1, tol=1e-3)))


def check_rhs(env, F, g):
    phi, th, m = env.real("phi", Dom(0, 90, s=(5, 85))), env.real("theta", Dom(0, 90, s=(0, 60))), env.real("m", Dom(0, None, s=(0.3, 6)))
    regular(env, phi, th, m)
    f = F(phi, env.asarray([th, m]))
    a, b = taylor_maccoll(phi, th, m, env.at(f, (0,)), env.at(f, (1,)), g)
    env.check("right-hand side: irrotational flow", eq(*a))
    env.check("right-hand side: conservation of mass", eq(*b))


def vec2(v):
    from engine import larr as L

    return isinstance(v, L.LArr) and len(v._shape) == 1 and v._shape[0].op == "const" and v._shape[0].val == 2


class March:
    """roles of the loop variables: ray angle (starts at the shock angle), flow angle and Mach number (start behind the shock)"""

    def __init__(self, env, sg, start, tol):
        self.env, self.sg, self.start, self.tol = env, sg, start, tol
        self.ctl = None
        self.calls = []
        from engine.loopinv import Inv

        def pick(lid, loop):
            if loop.isfor or self.ctl is not None:
                return None
            self.ctl = Inv(self.cand, self.note)
            return self.ctl

        env.p.state["loops"] = pick

    def cand(self, v0):
        from engine.values import Sym

        env = self.env
        self.rays = [v for v, t in v0.items() if isinstance(t, Sym) and t.e is self.sg.e]
        self.states = [v for v, t in v0.items() if vec2(t)]
        self.entry = v0
        if not self.rays or len(self.states) != 1:
            env.fail("the march starts at the shock angle, with the flow angle and the Mach number")
            return []
        w = self.states[0]
        env.check("the march starts with the flow angle behind the shock", eq(v0[w].at(0), self.start[0]))
        env.check("the march starts with the Mach number behind the shock", eq(v0[w].at(1), self.start[1]))
        out = []
        for a in self.rays:
            for b in self.rays:
                if a != b:
                    out.append(("%s bounds the difference of the flow angle and %s" % (b, a), lambda s, a=a, b=b: le(absv(s[w].at(0) - s[a]), absv(s[b]))))
        return out

    def note(self, ctl, vals):
        env = self.env
        if vals is ctl.head:
            return
        w = self.states[0]
        st = lambda a: (vals[a], vals[w].at(0), vals[w].at(1))
        hd = lambda a: (ctl.head[a], ctl.head[w].at(0), ctl.head[w].at(1))
        alts = []
        for a in self.rays:
            alts.append(land(*[eq(x, y) for x, y in zip(st(a), hd(a))]))
            for x, y, h, dy, e in self.calls:
                new = (x + h, y[0] + dy[0], y[1] + dy[1])
                alts.append(land(le(e, self.tol), *[eq(p, q) for p, q in zip(st(a), new)]))
        env.check("one iteration keeps the state or takes a step with an error estimate within the tolerance", lor(*alts))

    def result(self, r):
        """mean of the last ray and flow angles, which differ by less than the tolerance"""
        h = self.ctl.head
        w = self.states[0]
        return lor(*[land(eq(2 * r, h[w].at(0) + h[a]), lt(absv(h[w].at(0) - h[a]), self.tol)) for a in self.rays])


def cone_angle(m, sg, g):
    """(concrete) fine integration with the classical fourth-order step, equations in the velocity components"""
    d = defl(m, sg, g)
    m2 = mdown(m * sind(sg), g) / sind(sg - d)
    V = (1 + 2 / ((g - 1) * m2 * m2)) ** -0.5
    u, v = V * cosd(sg - d), -V * sind(sg - d)
    phi = rad(sg)
    n = 2000
    h = -phi / n

    def f(p, u, v):
        a2 = (g - 1) / 2 * (1 - u * u - v * v)
        return v, (u * v * v - a2 * (2 * u + v / math.tan(p))) / (a2 - v * v)

    for _ in range(n - 1):
        k1 = f(phi, u, v)
        k2 = f(phi + h / 2, u + h / 2 * k1[0], v + h / 2 * k1[1])
        k3 = f(phi + h / 2, u + h / 2 * k2[0], v + h / 2 * k2[1])
        k4 = f(phi + h, u + h * k3[0], v + h * k3[1])
        du, dv = [h * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]) / 6 for j in (0, 1)]
        if v + dv >= 0:
            return deg(phi + h * (0 - v) / dv)
        u, v, phi = u + du, v + dv, phi + h
    return deg(phi)


LSIN = Lemma(lambda y: [lt(0, y), lt(y, 90)], lambda y: lt(0, sind(y)))


def LDEF_steps(m, sg, g):
    hint("shock angle from its tangent", eq(atan(tand(sg)), rad(sg)))
    monotone("arctangent", lambda t: atan(t), tand(sg) / rho(m * sind(sg), g), tand(sg))


LDEF = Lemma(lambda M, sg, g: [lt(1, M), lt(1, g), lt(0, sg), lt(sg, 90), le(1, M * sind(sg))], lambda M, sg, g: land(le(0, defl(M, sg, g)), lt(defl(M, sg, g), sg)), LDEF_steps)


@scenario("conical flow: lemmas", modes=["sine", "deflection"], nonum="proof of a lemma")
def lemmas(env, mode):
    x, y, z = env.real("x", REAL), env.real("y", REAL), env.real("z", REAL)
    if mode == "sine":
        LSIN.prove(env, x)
    else:
        LDEF.prove(env, x, y, z)


@scenario("conical flow: march from the shock to the cone", modes=["given tolerance", "default tolerance", "defaults"], inline=(KEY,), nfac=0.3, tmax=3)
def cone(env, mode):
    M, sg = env.real("Mach", MC), env.real("sigma", SC)
    g = Q(7, 5) if mode == "defaults" else env.real("gamma", GAM)
    env.assume(sqle(1, M * sind(sg)))
    env.assume(lt(slack(0.02), M * sind(sg) - 1))
    f = env.fn(KEY)
    tol = env.real("tol", TOLC) if mode == "given tolerance" else Q(1, 10 ** 6)
    args = (M, sg) if mode == "defaults" else (M, sg, g) if mode == "default tolerance" else (M, sg, g, tol)
    if env.numeric:
        d = f(*args)
        env.check("cone angle", eq(d, cone_angle(M, sg, float(g)), tol=2e-3, atol=2e-3))
        return
    d0 = defl(M, sg, g)
    start = d0, oblique_m2(M, M * sind(sg), g)
    m = None
    # the flow behind the shock
    LDEF.use("deflection", M, sg, g)
    hint("limit of the downstream Mach number", lt(g - 1, 2 * g * M * M * sind(sg) * sind(sg)))
    m = March(env, sg, start, tol)
    seen = []

    def handler(F, a, b, h):
        x, y = a, [env.at(b, (0,)), env.at(b, (1,))]
        if not seen:
            seen.append(1)
            with env.aside():
                check_rhs(env, F, g)
        hd = m.ctl.head
        w = m.states[0]
        env.check("a step starts from the current state", lor(*[land(eq(x, hd[v]), eq(y[0], hd[w].at(0)), eq(y[1], hd[w].at(1))) for v in m.rays]))
        ar = [x] + y + [h]
        e = uf("rkf:err", *ar)
        env.assume(le(0, e))
        dy = [uf("rkf:dy%d" % j, *ar) for j in (0, 1)]
        # the march is not tangent to the ray (the code divides by the difference)
        env.assume(lnot(eq(h, dy[0])))
        m.calls.append((x, y, h, dy, e))
        return env.asarray(dy), e

    env.p.state["rkf45"] = handler
    r = f(*args)
    env.check("mean of flow and ray angles which differ by less than the tolerance", m.result(r))


P_TOL = P("tol", Dom(0, None), default=Q(1, 10 ** 6))
Contract(KEY, [P("Mach", MC), P("sigma", SC), G, P_TOL], ensures=lambda r, M, s, g, t: [], requires=lambda M, s, g, t: [le(1, M * sind(s))],
         body=["conical flow: march from the shock to the cone"])

W = "the secant iteration on the shock angle (Mach number) of a cone converges to an attached shock"


def pol_sig(f0, x0, root, arg):
    M = arg("Mach")
    return [], land(lt(0, root), lt(root, 90), le(1, M * sind(root))), W


def pol_mach(f0, x0, root, arg):
    s = arg("sigma")
    return [], land(lt(1, root), le(1, root * sind(s))), W


@scenario("conical flow: shock angle of a cone", modes=["given gamma", "default gamma"], newton=pol_sig, nfac=0.3, tmax=3)
def cone_sigma(env, mode):
    M, d = env.real("Mach", MC), env.real("deflection", Dom(0, 90, s=(3, 40), special=(10.0, 20.0, 30.0)))
    g = Q(7, 5) if mode == "default gamma" else env.real("gamma", GAM)
    env.assume(lt(deg(asin(1 / M)) + d, 90))
    if env.numeric:
        # well below the largest cone angle
        top = max([cone_angle(M, q, float(g)) for q in range(2, 90, 6) if M * sind(q) > 1.01] or [0])
        env.assume(d < 0.8 * top)
    else:
        # the guess is not below the Mach angle
        monotone("sine", sin, asin(1 / M), asin(1 / M) + rad(d))
        hint("guess", le(1, M * sin(asin(1 / M) + rad(d))))
        hint("guess in degrees", le(1, M * sind(deg(asin(1 / M)) + d)))
    k = {} if mode == "default gamma" else {"gamma": g}
    r = env.fn(S + "conical_sigma_Mach_walldeflection")(M, d, **k)
    env.check("cone angle of the shock angle", eq(env.fn(KEY)(M, r, **k), d, tol=1e-4, atol=1e-4))


@scenario("conical flow: Mach number of a cone and a shock angle", modes=["given gamma", "default gamma"], newton=pol_mach, nfac=0.3, tmax=3)
def cone_mach(env, mode):
    d, s = env.real("deflection", Dom(0, 90, s=(3, 35), special=(10.0, 20.0, 30.0))), env.real("sigma", SC)
    g = Q(7, 5) if mode == "default gamma" else env.real("gamma", GAM)
    env.assume(lt(d, s))
    if env.numeric:
        env.assume(d < s - 8)
        top = cone_angle(40., s, float(g))
        env.assume(d < 0.8 * top)
    else:
        monotone("sine", sind, s - d / 2, s)
        LSIN.use("sine of the guess", s - d / 2)
        hint("guess", le(1, 1 / sind(s - d / 2) * sind(s)))
        hint("guess is supersonic", lt(sind(s - d / 2), 1))
    k = {} if mode == "default gamma" else {"gamma": g}
    r = env.fn(S + "conical_Mach_walldeflection_sigma")(d, s, **k)
    env.check("cone angle of the Mach number", eq(env.fn(KEY)(r, s, **k), d, tol=1e-4, atol=1e-4))


prop("C07", [], ["conical flow: lemmas", "conical flow: march from the shock to the cone", "conical flow: shock angle of a cone", "conical flow: Mach number of a cone and a shock angle"])
