from .lib import *
from .units import scenario, prop
from .s_engine import MethodContract

CH = "aerokit.common.numspectral:ChebCollocation"
MAT = CH + ".matder"
OS = "aerokit.stability.OrrSommerfeld"

MethodContract(MAT, ["Chebyshev: differentiation matrices on request"])


def grid(env, lo):
    """number of points and an interval, x increasing"""
    n = 2 * env.size("half", lo=lo // 2) + env.choose("parity", [0, 1])
    xa, xb = env.real("xmin", Dom(None, None, s=(-3, 3))), env.real("xmax", Dom(None, None, s=(-3, 3)))
    env.assume(lt(xa, xb))
    if env.numeric:
        env.assume(xb - xa > 0.2)
    return n, xa, xb


class Matrices:
    """differentiation matrices of a grid: a model sees arbitrary matrices, one for each order (contract of matder)"""

    def __init__(self, env, n, xa, xb, orders):
        self.env, self.n, self.ref = env, n, env.fn(CH)(n, xa, xb)
        if env.symbolic:
            self.m = {k: env.arr("D%d" % k, (n, n), REAL) for k in orders}
            env.p.state["method:" + MAT] = self.handler

    def handler(self, col, order):
        from engine.values import Sym

        env = self.env
        env.check("differentiation matrices of the grid of the model", eq(col.npts, self.n))
        for (i,) in env.idx(self.n):
            env.check("differentiation matrices of the interval of the model", eq(env.at(col.x, (i,)), env.at(self.ref.x, (i,))))
        if isinstance(order, Sym) or order not in self.m:
            env.fail("order of the differentiation matrix")
            raise NotImplementedError("order %r" % order)
        return self.m[order]

    def __getitem__(self, k):
        return self.m[k] if self.env.symbolic else self.ref.matder(k)


def re_im(env, a, ix):
    z = env.at(a, ix)
    return (z.real, z.imag) if hasattr(z, "imag") else (z, 0)


def delta(i, j):
    return ite(eq(i, j), 1, 0)


class OSRef:
    """Orr-Sommerfeld equation (D2 - a^2)^2 v / Re - i a (U (D2 - a^2) - U'') v = -i omega (D2 - a^2) v"""

    def __init__(self, env, D, u, alpha, Re):
        self.env, self.D, self.u, self.alpha, self.Re = env, D, u, alpha, Re
        self.ddu = D[2] @ u

    def At(self, i, j):
        return self.env.at(self.D[2], (i, j)) - self.alpha ** 2 * delta(i, j)

    def B(self, i, j):
        env, a = self.env, self.alpha
        d2, d4 = env.at(self.D[2], (i, j)), env.at(self.D[4], (i, j))
        re = (d4 - 2 * a ** 2 * d2 + a ** 4 * delta(i, j)) / self.Re
        im = -1 * a * (env.at(self.u, (i,)) * self.At(i, j) - env.at(self.ddu, (i,)) * delta(i, j))
        return re, im


def check_os(env, model, ref, D, n, part):
    B, At = model.get_RHS_time_matrices()
    env.check_shape("operator is a square matrix", B, (n, n))
    env.check_shape("time matrix is a square matrix", At, (n, n))
    if part == "interior":
        for i, j in env.idx(n, n):
            b, a = re_im(env, B, (i, j)), re_im(env, At, (i, j))
            inner = land(le(2, i), le(i, n - 3))
            s = ref.B(i, j)
            env.check("interior rows: time matrix", implies(inner, lambda: land(eq(a[0], ref.At(i, j)), eq(a[1], 0))))
            env.check("interior rows: viscous terms", implies(inner, lambda: eq(b[0], s[0])))
            env.check("interior rows: transport by the base flow", implies(inner, lambda: eq(b[1], s[1])))
        return
    for w, rows, e in (("first", (0, 1), 0), ("last", (n - 2, n - 1), n - 1)):
        for (j,) in env.idx(n):
            b = [re_im(env, B, (i, j)) for i in rows]
            env.check("%s wall: no time derivative" % w, land(*[eq(z, 0) for i in rows for z in re_im(env, At, (i, j))]))
            env.check("%s wall: real coefficients" % w, land(*[eq(z[1], 0) for z in b]))
            v, d = delta(j, e), env.at(D[1], (e, j))
            env.check("%s wall: value and derivative are zero" % w, lor(land(eq(b[0][0], v), eq(b[1][0], d)), land(eq(b[1][0], v), eq(b[0][0], d))))


def os_params(env):
    return env.real("alpha", Dom(0, None, s=(0.2, 2), special=(1.0,))), env.real("Re", Dom(0, None, s=(10, 8000)))


@scenario("Orr-Sommerfeld: operators", modes=["interior", "walls"])
def os_ops(env, mode):
    n, xa, xb = grid(env, 5)
    alpha, Re = os_params(env)
    f = env.func("uprofile")
    D = Matrices(env, n, xa, xb, (1, 2, 4))
    state = {"alpha": alpha, "Reynolds": Re, "uprofile": f}
    late = env.choose("base state", ["at construction", "later"])
    cls = env.fn(OS + ":OrrSommerfeldModel")
    if late == "later":
        m = cls(n, xa, xb)
        m.set_basestate(state)
    else:
        m = cls(n, xmin=xa, xmax=xb, basestate=state)
    m.set_BC("wall", {"type": "wall"})
    env.frame()
    ref = OSRef(env, D, f(D.ref.x), alpha, Re)
    check_os(env, m, ref, D, n, mode)
    env.check_frame()
    env.check("base state of the user is kept", land(eq(state["alpha"], alpha), eq(state["Reynolds"], Re), state["uprofile"] is f, len(state) == 3))


@scenario("Orr-Sommerfeld: Poiseuille flow", modes=["interior", "walls"])
def poiseuille(env, mode):
    n = env.size("n", lo=5)
    alpha, Re = os_params(env)
    D = Matrices(env, n, -1, 1, (1, 2, 4))
    m = env.fn(OS + ":Poiseuille")(n, alpha, Re)
    x = D.ref.x
    check_os(env, m, OSRef(env, D, 1 - x * x, alpha, Re), D, n, mode)


@scenario("Orr-Sommerfeld: missing parameters")
def os_missing(env):
    n, xa, xb = grid(env, 5)
    cls = env.fn(OS + ":OrrSommerfeldModel")
    err = env.fn(OS + ":DictKeyError")
    alpha, Re = os_params(env)
    state = {"alpha": alpha, "Reynolds": Re, "uprofile": env.func("uprofile")}
    miss = env.choose("missing", [("alpha",), ("Reynolds",), ("uprofile",), ("alpha", "uprofile"), ("alpha", "Reynolds", "uprofile")])
    for k in miss:
        del state[k]
    how = env.choose("base state", ["at construction", "later"])
    try:
        if how == "later":
            m = cls(n, xa, xb)
        else:
            m = None
            cls(n, xa, xb, basestate=state)
        if m is not None:
            m.set_basestate(state)
    except err as e:
        env.check("the message names what is missing", land(*[k in str(e) for k in miss]))
        if m is not None:
            env.check("base state is not set", lnot(m.check_basestate()))
    else:
        env.fail("an incomplete base state is refused")


prop("C22", scenarios=["Orr-Sommerfeld: operators", "Orr-Sommerfeld: Poiseuille flow", "Orr-Sommerfeld: missing parameters"])

