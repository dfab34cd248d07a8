from .lib import *
from .units import scenario, prop
from .s_state import RHO, PP
from .s_shock import ps, rho, mdown
from .s_isentropic import fT, fP
from .s_stability import grid, Matrices, delta
from .s_engine import MethodContract

EU = "aerokit.stability.Euler:Euler1D"
ST = "aerokit.aero.model1D:state"


JUMP, ISEN = ST + ".state_RH", ST + ".state_isentropic_Mach"
MethodContract(JUMP, ["state: Rankine-Hugoniot jump"])
MethodContract(ISEN, ["state: isentropic change of Mach number"])


class EulerRef:
    """linearized Euler equations of a base flow, unknowns (rho', u', p') at each point:
    d rho'/dt = -(u rho'_x + rho u'_x + rho_x u' + u_x rho')
    d u'/dt = -(u u'_x + p'_x / rho + u_x u' - p_x rho' / rho^2)
    d p'/dt = -(u p'_x + gamma p u'_x + p_x u' + gamma u_x p')"""

    def __init__(self, env, D, q, g):
        self.env, self.D, self.g = env, D, g
        self.q = q
        self.dq = [D @ a for a in q]

    def B(self, r, c, i, j):
        env, g = self.env, self.g
        rh, u, p = [env.at(a, (i,)) for a in self.q]
        drh, du, dp = [env.at(a, (i,)) for a in self.dq]
        x = [[u, rh, 0], [0, u, 1 / rh], [0, g * p, u]][r][c]
        o = [[du, drh, 0], [-1 * dp / (rh * rh), du, 0], [0, dp, g * du]][r][c]
        return -1 * (x * env.at(self.D, (i, j)) + o * delta(i, j))


def base(env, udom, lo=2):
    n, xa, xb = grid(env, lo)
    g = env.real("gamma", GAM)
    q = [env.arr("rho", (n,), RHO), env.arr("u", (n,), udom), env.arr("p", (n,), PP)]
    D = Matrices(env, n, xa, xb, (1,))
    return n, xa, xb, g, q, D


def model(env, n, xa, xb, st):
    cls = env.fn(EU)
    if env.choose("base state", ["at construction", "later"]) == "later":
        m = cls(n, xmin=xa, xmax=xb)
        m.set_basestate(st)
        return m
    return cls(n, xa, xb, st)


ANYU = Dom(None, None, s=(-3, 3), special=(0.0, 1.0))


def interior(env, n, i):
    return land(le(1, i), le(i, n - 2))


def check_rows(env, B, At, ref, n, where, cols=0):
    """rows where(r, i) are those of the linearized Euler equations and of the identity"""
    names = ("density", "velocity", "pressure")
    for i, j in env.idx(n, n):
        for r in range(3):
            for c in range(3):
                ix = (r * n + i, c * n + j)
                env.check("%s equation, %s terms" % (names[r], names[c]), implies(where(r, i), lambda: eq(env.at(B, ix), ref.B(r, c, i, j), atol=1e-7)))
                env.check("%s equation, time derivative of the %s" % (names[r], names[c]), implies(where(r, i), lambda: eq(env.at(At, ix), delta(i, j) if r == c else 0)))
    if cols:
        for (i,) in env.idx(n):
            for r in range(3):
                env.check("%s equation does not depend on the shock" % names[r], implies(where(r, i), lambda: land(eq(env.at(B, (r * n + i, 3 * n)), 0), eq(env.at(At, (r * n + i, 3 * n)), 0))))


def at3(env, a, row, n, j):
    return [env.at(a, (row, c * n + j)) for c in range(3)]


@scenario("linearized Euler: rows away from the boundaries", modes=["sym", "per"])
def inner(env, mode):
    n, xa, xb, g, q, D = base(env, ANYU)
    m = model(env, n, xa, xb, env.fn(ST)(q[0], q[1], q[2], g))
    m.set_BC(mode, {"type": mode})
    env.frame()
    B, At = m.get_RHS_time_matrices()
    env.check_frame()
    env.check_shape("operator", B, (3 * n, 3 * n))
    env.check_shape("time matrix", At, (3 * n, 3 * n))
    check_rows(env, B, At, EulerRef(env, D[1], q, g), n, lambda r, i: interior(env, n, i))


@scenario("linearized Euler: symmetry and periodicity", modes=["sym", "per"])
def bc(env, mode):
    n, xa, xb, g, q, D = base(env, ANYU)
    m = model(env, n, xa, xb, env.fn(ST)(q[0], q[1], q[2], g))
    lbc, rbc = [{"type": mode} if env.choose(s, ["name", "dict"]) == "dict" else mode for s in ("left", "right")]
    m.set_BC(lbc, rbc)
    env.frame()
    B, At = m.get_RHS_time_matrices()
    env.check_frame()
    d = D[1]
    for (j,) in env.idx(n):
        for w, e in (("first", 0), ("last", n - 1)):
            for r in range(3):
                row = at3(env, B, r * n + e, n, j)
                if mode == "sym":
                    want = delta(j, e) if r == 1 else env.at(d, (e, j))
                    label = "%s point: %s" % (w, "zero velocity" if r == 1 else "zero derivative of the " + ("density", "", "pressure")[r])
                elif w == "first":
                    want, label = delta(j, 0) - delta(j, n - 1), "same value at both ends"
                else:
                    want, label = env.at(d, (0, j)) - env.at(d, (n - 1, j)), "same derivative at both ends"
                env.check(label, land(*[eq(row[c], want if c == r else 0) for c in range(3)]))
                env.check("%s point: no time derivative" % w, land(*[eq(z, 0) for z in at3(env, At, r * n + e, n, j)]))
    for x in (lbc, rbc):
        env.check("boundary settings of the user are kept", isinstance(x, str) or (len(x) == 1 and x["type"] == mode))


@scenario("linearized Euler: refused settings")
def refused(env):
    n, xa, xb, g, q, D = base(env, Dom(0, None, s=(0.3, 3)))
    admissible(env, [env.at(a, (0,)) for a in q], g)
    m = model(env, n, xa, xb, env.fn(ST)(q[0], q[1], q[2], g))
    what = env.choose("settings", ["no condition", "unknown condition", "unknown parameter of the shock", "no gradient for the shock", "periodic on the left only"])
    exc = ValueError
    if what == "unknown condition":
        good = env.choose("side", ["left", "right"])
        try:
            m.set_BC(*(("wall", "sym") if good == "left" else ("sym", {"type": "wall"})))
        except ValueError:
            pass
        else:
            env.fail("an unknown condition is refused")
            return
    elif what == "unknown parameter of the shock":
        m.set_BC({"type": "RH", "dM0dx": 0.1, "Mach": 2.0}, "sym")
    elif what == "no gradient for the shock":
        m.set_BC("RH", "sym")
    elif what == "periodic on the left only":
        m.set_BC("per", "sym")
        exc = AssertionError
    try:
        m.get_RHS_time_matrices()
    except exc:
        pass
    else:
        env.fail(what + " is refused")


def admissible(env, q, g):
    """state of positive velocity downstream of a normal shock"""
    M = q[1] / sqrt(g * q[2] / q[0])
    env.assume(land(lt(0, M), lt(g - 1, 2 * g * M * M)))


class Upstream:
    """state upstream of the shock, and state of another Mach number of the same isentropic flow. The code under check sees
    the contracts of the two methods of the state: their values are those of the jump relations and of the isentropic flow
    (proved in the units of these methods)"""

    def __init__(self, env, g, q1, M):
        self.env, self.g, self.q1, self.M = env, g, q1, M
        self.q0 = self.qm = None
        if env.symbolic:
            env.p.state["method:" + JUMP] = self.jump
            env.p.state["method:" + ISEN] = self.isentropic

    def same(self, label, st, q):
        self.env.check(label, land(eq(st._gamma, self.g), *[eq(x, y) for x, y in zip((st.rho, st.u, st.p), q)]))

    def new(self, tag):
        env = self.env
        q = env.real("rho" + tag, POS), env.real("u" + tag, REAL), env.real("p" + tag, POS)
        return q, env.fn(ST)(q[0], q[1], q[2], self.g)

    def jump(self, st):
        self.same("jump from the state at the boundary", st, self.q1)
        self.q0, st = self.new("0")
        return st

    def isentropic(self, st, Mach):
        self.same("isentropic flow of the upstream state", st, self.upstream())
        self.env.check("Mach number one cell away of the shock", eq(Mach, self.M))
        self.qm, st = self.new("m")
        return st

    def upstream(self):
        if self.q0 is None:
            (r, u, p), g = self.q1, self.g
            M = u / sqrt(g * p / r)
            self.q0 = r * rho(M, g), u / rho(M, g), p * ps(M, g)
        return self.q0

    def away(self):
        if self.qm is None:
            (r, u, p), g, M = self.upstream(), self.g, self.M
            m = u / sqrt(g * p / r)
            pm, rtm = p * fP(m, g) / fP(M, g), (p / r + u * u * (g - 1) / (2 * g)) / fT(M, g)
            self.qm = pm / rtm, M * sqrt(g * rtm), pm
        return self.qm


@scenario("linearized Euler: shock boundary", modes=["rows", "shock"])
def shock(env, mode):
    n, xa, xb, g, q, D = base(env, Dom(0, None, s=(0.3, 3)))
    side = env.choose("side", ["left", "right"])
    e = 0 if side == "left" else n - 1
    first = [env.at(a, (e,)) for a in q]
    r1, u1, p1 = first
    admissible(env, first, g)
    dM0 = env.real("dM0dx", Dom(None, None, s=(-0.3, 0.3)))
    x, M0 = D.ref.x, mdown(u1 / sqrt(g * p1 / r1), g)
    dx = env.at(x, (1,)) - env.at(x, (0,))
    up = Upstream(env, g, first, M0 + dM0 * dx)
    m = model(env, n, xa, xb, env.fn(ST)(q[0], q[1], q[2], g))
    lbc = {"type": "RH", "dM0dx": dM0}
    m.set_BC(*((lbc, "sym") if side == "left" else ("sym", lbc)))
    env.frame()
    B, At = m.get_RHS_time_matrices()
    env.check_frame()
    env.check("boundary settings of the user are kept", land(len(lbc) == 2, lbc["type"] == "RH", eq(lbc["dM0dx"], dM0)))
    ref = EulerRef(env, D[1], q, g)
    if mode == "rows":
        env.check_shape("operator and shock position", B, (3 * n + 1, 3 * n + 1))
        env.check_shape("time matrix and shock position", At, (3 * n + 1, 3 * n + 1))
        check_rows(env, B, At, ref, n, lambda r, i: lor(interior(env, n, i), land(eq(i, e), r == 1)), cols=1)
        return
    (r0, u0, p0), qm = up.upstream(), up.away()
    grad0 = [(b - a) / dx for a, b in zip((r0, u0, p0), qm)]
    grad1 = [env.at(a, (e,)) for a in ref.dq]
    R, P = rho(M0, g), ps(M0, g)
    dR, dP = 4 * R * R / ((g + 1) * M0 ** 3), 4 * g * M0 / (g + 1)
    a0 = sqrt(g * p0 / r0)
    # rho1 = rho0 R(M), rho1 (u1 - s) = rho0 (u0 - s), p1 = p0 P(M), with M = (u0 - s)/a0 at the position of the shock
    before = [[-R / r0, 0, 0], [-u0 / r0, -1, 0], [0, 0, -P / p0]]
    after = [[1 / r0, 0, 0], [u1 / r0, R, 0], [0, 0, 1 / p0]]
    move = [-dR * dM0, 0, -dP * dM0]
    speed = [dR / a0, 1 - R, dP / a0]
    for k, (row, name) in enumerate(((e, "density ratio"), (3 * n, "mass"), (2 * n + e, "pressure ratio"))):
        for (j,) in env.idx(n):
            want = [after[k][c] * delta(j, e) for c in range(3)]
            env.check("shock, %s: perturbation of the flow" % name, land(*[eq(z, w) for z, w in zip(at3(env, B, row, n, j), want)]))
            env.check("shock, %s: no time derivative of the flow" % name, land(*[eq(z, 0) for z in at3(env, At, row, n, j)]))
        env.check("shock, %s: speed of the shock" % name, eq(env.at(At, (row, 3 * n)), -1 * speed[k]))
        pos = move[k] + sum(before[k][c] * grad0[c] + after[k][c] * grad1[c] for c in range(3))
        env.check("shock, %s: position of the shock" % name, eq(env.at(B, (row, 3 * n)), pos, atol=1e-6))


prop("C21", scenarios=["linearized Euler: rows away from the boundaries", "linearized Euler: symmetry and periodicity", "linearized Euler: refused settings", "linearized Euler: shock boundary"])
