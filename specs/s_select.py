"""selection and ordering of eigenvalues, operators after any change of the settings"""
from .lib import *
from .units import scenario, prop
from .s_state import RHO, PP
from .s_stability import grid, Matrices, delta, OS, os_params
from .s_euler import EU, ST

BASE = "aerokit.stability._base:LinOperator"
DEFAULTS = dict(realmin=0, realmax=10 ** 99, imagmin=-10 ** 10, imagmax=10 ** 10)


class Eig:
    """eigenvalues and eigenvectors of the pencil (trusted solver: arbitrary complex values); the unit checks what is solved"""

    def __init__(self, env, want=None):
        self.env, self.want, self.calls = env, want, 0
        if env.symbolic:
            env.p.state["oracle"] = {"eig": self.eig}

    def eig(self, B, M=None, **k):
        env = self.env
        self.calls += 1
        N = B.shape[0]
        if M is None or k:
            env.fail("generalized eigenvalue problem")
            raise NotImplementedError
        if self.want is not None:
            self.want(B, M)
        self.N = N
        self.w, self.v = env.arr("eigenvalue", (N,), dt="c"), env.arr("eigenvector", (N, N), dt="c")
        return self.w, self.v


class Select:
    """numpy.compress and numpy.argsort (trusted): the elements of the condition, in order; a sorting permutation"""

    def __init__(self, env, n, inside):
        self.env, self.n, self.inside = env, n, inside
        self.pos = None
        self.orders = 0
        if env.symbolic:
            env.p.state["oracle"].update(compress=self.compress, argsort=self.argsort)

    def selection(self):
        env = self.env
        if self.pos is None:
            self.size = env.int("selected", 0)
            self.pos, self.rank = env.arr("position", (self.size,), dt="i"), env.arr("rank", (self.n,), dt="i")
            pos, rank, inside = self.pos, self.rank, self.inside
            env.assume_all((self.size,), lambda ix: (lambda p: land(le(0, p), lt(p, self.n), inside(p)))(env.at(pos, ix)))
            env.assume_all((self.n,), lambda ix: (lambda r: implies(inside(ix[0]), land(le(0, r), lt(r, self.size), eq(env.at(pos, (r,)), ix[0]))))(env.at(rank, ix)))
        return self.pos

    def compress(self, cond, a, axis=None):
        env = self.env
        env.check_shape("condition on each eigenvalue", cond, (self.n,))
        for ix in env.idx(self.n):
            env.check("selection: requested bounds", iff(env.at(cond, ix), self.inside(ix[0])))
        pos = self.selection()
        if len(a.shape) == 1:
            return a[pos]
        if axis == 1:
            return a[:, pos]
        if axis == 0:
            return a[pos]
        raise NotImplementedError("compress axis %r" % axis)

    def argsort(self, s, **k):
        env = self.env
        m = s.shape[0]
        self.orders += 1
        o = env.arr("order%d" % self.orders, (m,), dt="i")
        at = lambda i: env.at(s, (env.at(o, (i,)),))
        env.assume_all((m,), lambda ix: (lambda p: land(le(0, p), lt(p, m)))(env.at(o, ix)))
        env.assume_all((m, m), lambda ix: implies(lt(ix[0], ix[1]), land(le(at(ix[0]), at(ix[1])), lnot(eq(env.at(o, (ix[0],)), env.at(o, (ix[1],)))))))
        return o


def iff(a, b):
    return land(implies(a, b), implies(b, a))


def model(env, kind):
    """a model with some settings"""
    n, xa, xb = grid(env, 5)
    if kind == "euler":
        D = Matrices(env, n, xa, xb, (1,))
        m = env.fn(EU)(n, xa, xb, euler_base(env, n, ""))
        m.set_BC("per", "per")
    else:
        D = Matrices(env, n, xa, xb, (1, 2, 4))
        m = env.fn(OS + ":OrrSommerfeldModel")(n, xa, xb, os_base(env, ""))
        m.set_BC("wall", "wall")
    return n, (xa, xb), m


def interval(env):
    xa, xb = env.real("xmin", Dom(None, None, s=(-3, 3))), env.real("xmax", Dom(None, None, s=(-3, 3)))
    env.assume(lt(xa, xb))
    if env.numeric:
        env.assume(xb - xa > 0.2)
    return env.size("n", 5), xa, xb


def euler_base(env, n, tag):
    U = Dom(None, None, s=(-2, 2))
    q = [env.arr(v + tag, (n,), d) for v, d in (("rho", RHO), ("u", U), ("p", PP))]
    return env.fn(ST)(q[0], q[1], q[2], env.real("gamma" + tag, GAM))


def os_base(env, tag):
    return {"alpha": env.real("alpha" + tag, Dom(0, None, s=(0.2, 2))), "Reynolds": env.real("Re" + tag, Dom(0, None, s=(10, 8000))), "uprofile": env.func("uprofile" + tag)}


@scenario("stability: eigenvalues of the operators", modes=["euler", "Orr-Sommerfeld"])
def solve(env, mode):
    n, xs, m = model(env, mode)
    B, At = m.get_RHS_time_matrices()
    N = B.shape[0]

    def pencil(b, a):
        env.check_shape("operator", b, (N, N))
        env.check_shape("time matrix", a, (N, N))
        for ix in cells(env, n, N):
            x, y = cplx(env.at(B, ix)), cplx(env.at(b, ix))
            env.check("operator of the settings", land(eq(x[0], y[0]), eq(x[1], y[1])))
            x, y = cplx(env.at(At, ix)), cplx(env.at(a, ix))
            env.check("time matrix: q ~ exp(-i omega t)", land(eq(x[1], y[0]), eq(-1 * x[0], y[1])))

    e = Eig(env, pencil)
    vals, vects = m.solve_eig()
    if env.symbolic:
        env.check("eigenvalues of the solver", land(e.calls == 1, vals is e.w, vects is e.v))
    else:
        import numpy as np

        ok = np.isfinite(vals) & (abs(vals) < 1e4)
        r = B @ vects[:, ok] + 1j * (At @ vects[:, ok]) * vals[ok]
        env.check("eigenvalues of the pencil", bool((abs(r) <= 1e-6 * (1 + abs(B).max())).all()))


def cells(env, n, N):
    """indices of the elements of an operator, block by block"""
    k = range(3 if N is not n and not eq_int(env, N, n) else 1)
    for i, j in env.idx(n, n):
        for r in k:
            for c in k:
                yield r * n + i, c * n + j


def eq_int(env, a, b):
    return bool(a == b) if env.numeric else env.decide(eq(a, b))


def cplx(z):
    return (z.real, z.imag) if hasattr(z, "imag") else (z, 0)


def bounds(env, vals):
    b = {}
    for k in DEFAULTS:
        if env.choose(k, ["default", "given"]) == "given":
            b[k] = env.real(k, Dom(None, None, s=(-2, 2), special=(0.0, 1.0, -1.0)))
    return b


@scenario("stability: selection of eigenvalues", modes=["real", "imag", "default"], nfac=0.5)
def select(env, mode):
    n, xs, m = model(env, "Orr-Sommerfeld")
    e = Eig(env)
    W, V = synthetic(env, n, m) if env.numeric and env.choose("spectrum", ["synthetic", "model"]) == "synthetic" else m.solve_eig()
    N = n
    b = bounds(env, W)
    lim = dict(DEFAULTS, **b)

    def inside(i):
        re, im = cplx(env.at(W, (i,)))
        return land(le(lim["realmin"], re), lt(re, lim["realmax"]), lt(lim["imagmin"], im), lt(im, lim["imagmax"]))

    kw = dict(b) if mode == "default" else dict(b, sort=mode)
    if env.numeric:
        return numeric_select(env, m, W, V, lim, kw, mode)
    s = Select(env, N, inside)
    env.frame()
    vals, vects, order = m.select_and_sort(**kw)
    env.check_frame()
    s.selection()
    K = s.size
    env.check_shape("selected eigenvalues", vals, (K,))
    env.check_shape("selected eigenvectors", vects, (N, K))
    env.check_shape("order", order, (K,))
    same = lambda x, y: land(eq(x.real, y.real), eq(x.imag, y.imag))
    for k, r in env.idx(K, N):
        p = env.at(s.pos, (k,))
        env.check("selected value is an eigenvalue", same(env.at(vals, (k,)), env.at(W, (p,))))
        env.check("selected value is inside the bounds", inside(p))
        env.check("eigenvector of the selected value", same(env.at(vects, (r, k)), env.at(V, (r, p))))
    for i, r in env.idx(N, N):
        k = env.at(s.rank, (i,))
        p = env.at(s.pos, (k,))
        for part in ("real", "imag"):
            env.congruence(lambda x: getattr(env.at(W, (x,)), part), p, i)
            env.congruence(lambda x: getattr(env.at(V, (r, x)), part), p, i)
        env.check("every eigenvalue inside the bounds is selected, with its eigenvector", implies(inside(i), lambda: land(le(0, k), lt(k, K), same(env.at(vals, (k,)), env.at(W, (i,))), same(env.at(vects, (r, k)), env.at(V, (r, i))))))
    for k, l in env.idx(K, K):
        ok, ol = env.at(order, (k,)), env.at(order, (l,))
        env.check("order: index of a selected value", land(le(0, ok), lt(ok, K)))
        env.check("order: each value once", implies(lt(k, l), lnot(eq(ok, ol))))
        a, c = env.at(vals, (ok,)), env.at(vals, (ol,))
        if mode == "imag":
            env.check("order: decreasing imaginary part", implies(lt(k, l), le(c.imag, a.imag)))
        else:
            env.check("order: increasing real part", implies(lt(k, l), le(a.real, c.real)))


def synthetic(env, n, m):
    """run the model with a solver that returns sampled eigenvalues"""
    import numpy as np
    import scipy.linalg as sl

    d = Dom(None, None, s=(-2, 2), special=(0.0, 1.0, -1.0))
    W = np.array(env.arr("re", (n,), d)) + 1j * np.array(env.arr("im", (n,), d))
    V = np.arange(n * n).reshape(n, n) * (1 + 0.5j)
    old = sl.eig
    sl.eig = lambda *a, **k: (W.copy(), V.copy())
    try:
        return m.solve_eig()
    finally:
        sl.eig = old


def numeric_select(env, m, W, V, lim, kw, mode):
    import numpy as np

    W, V = W.copy(), V.copy()
    vals, vects, order = m.select_and_sort(**kw)
    lim = {k: float(v) for k, v in lim.items()}
    c = [i for i in range(len(W)) if lim["realmin"] <= W[i].real < lim["realmax"] and lim["imagmin"] < W[i].imag < lim["imagmax"]]
    env.check("selected eigenvalues", len(c) == len(vals) and bool((W[c] == vals).all()))
    env.check("eigenvectors of the selected values", vects.shape == (V.shape[0], len(c)) and bool((V[:, c] == vects).all()))
    env.check("order: each value once", sorted(int(k) for k in order) == list(range(len(c))))
    s = vals[order]
    d = np.diff(s.real) if mode != "imag" else -np.diff(s.imag)
    env.check("order of the values", bool((d >= 0).all()))


CHANGES = ["base state", "boundary conditions", "base state, boundary conditions", "boundary conditions, base state", "none", "refused boundary condition", "refused base state", "compute between"]


@scenario("stability: operators after changes of the settings", modes=["%s: %s" % (k, c) for c in CHANGES for k in ("euler", "Orr-Sommerfeld") if (k, c) != ("euler", "refused base state")], nfac=0.4)
def fresh(env, mode):
    """any state of the model (settings, operators computed or not), then any change: the operators are those of a new model
    with the last settings"""
    mode, change = mode.split(": ")
    n, xa, xb = interval(env)
    D = Matrices(env, n, xa, xb, (1,) if mode == "euler" else (1, 2, 4))
    cls = env.fn(EU if mode == "euler" else OS + ":OrrSommerfeldModel")
    mk = (lambda t: euler_base(env, n, t)) if mode == "euler" else (lambda t: os_base(env, t))
    bcs = {"a": ("per", "per"), "b": ("sym", "sym")} if mode == "euler" else {"a": ("wall", "wall"), "b": ({"type": "wall"}, "wall")}
    m = cls(n, xa, xb)
    base, bc = mk("1"), bcs["a"]
    m.set_basestate(base)
    m.set_BC(*bc)
    e = Eig(env)
    before = env.choose("before", ["operators not computed", "operators", "eigenvalues"])
    if before == "operators":
        m.get_RHS_time_matrices()
    elif before == "eigenvalues":
        m.solve_eig()
    for w in change.split(", "):
        if w == "base state":
            base = mk("2")
            m.set_basestate(base)
        elif w == "boundary conditions":
            bc = bcs["b"]
            m.set_BC(*bc)
        elif w == "refused boundary condition":
            bad = env.choose("unknown", [("slip", "wall"), (bc[0], "slip"), ({"type": "slip"}, bc[1])])
            try:
                m.set_BC(*bad)
            except ValueError:
                pass
            else:
                env.fail("an unknown boundary condition is refused")
        elif w == "refused base state" and mode != "euler":
            bad = mk("2")
            del bad[env.choose("missing", ["alpha", "Reynolds", "uprofile"])]
            try:
                m.set_basestate(bad)
            except Exception:
                pass
            else:
                env.fail("an incomplete base state is refused")
        elif w == "compute between":
            m.set_BC(*bcs["b"])
            m.get_RHS_time_matrices()
            base, bc = mk("2"), bcs["a"]
            m.set_basestate(base)
            m.get_RHS_time_matrices()
            m.set_BC(*bc)
    ref = cls(n, xa, xb)
    ref.set_basestate(base)
    ref.set_BC(*bc)
    B0, At0 = ref.get_RHS_time_matrices()
    N = B0.shape[0]
    got = {}

    def pencil(b, a):
        got["B"], got["M"] = b, a

    if env.symbolic and env.choose("next", ["operators", "eigenvalues"]) == "eigenvalues":
        e.want = pencil
        m.solve_eig()
        if not got:
            env.fail("a new eigenvalue problem is solved")
            return
        B, At, f = got["B"], got["M"], lambda z: (z[1] * -1, z[0])
    else:
        B, At = m.get_RHS_time_matrices()
        f = lambda z: z
    env.check_shape("operator", B, (N, N))
    env.check_shape("time matrix", At, (N, N))
    for ix in cells(env, n, N):
        for label, x, y in (("operator", cplx(env.at(B0, ix)), cplx(env.at(B, ix))), ("time matrix", cplx(env.at(At0, ix)), f(cplx(env.at(At, ix))))):
            env.check("%s of the last settings" % label, land(eq(x[0], y[0]), eq(x[1], y[1])))


@scenario("stability: two models are independent", modes=["euler", "Orr-Sommerfeld"])
def independent(env, mode):
    """a second model of other settings, used in between, does not change the operators of the first"""
    n, xa, xb = interval(env)
    D = Matrices(env, n, xa, xb, (1,) if mode == "euler" else (1, 2, 4))
    cls = env.fn(EU if mode == "euler" else OS + ":OrrSommerfeldModel")
    mk = (lambda t: euler_base(env, n, t)) if mode == "euler" else (lambda t: os_base(env, t))
    bc1, bc2 = (("per", "per"), ("sym", "sym")) if mode == "euler" else (("wall", "wall"),) * 2
    b1, b2 = mk("1"), mk("2")
    ms = []
    for b, bc in ((b1, bc1), (b2, bc2)):
        m = cls(n, xa, xb)
        m.set_basestate(b)
        m.set_BC(*bc)
        ms.append(m)
    early = env.choose("first model is computed", ["before", "after"])
    if early == "before":
        ms[0].get_RHS_time_matrices()
    ms[1].get_RHS_time_matrices()
    B, At = ms[0].get_RHS_time_matrices()
    ref = cls(n, xa, xb)
    ref.set_basestate(b1)
    ref.set_BC(*bc1)
    B0, At0 = ref.get_RHS_time_matrices()
    for ix in cells(env, n, B0.shape[0]):
        for label, x, y in (("operator", cplx(env.at(B0, ix)), cplx(env.at(B, ix))), ("time matrix", cplx(env.at(At0, ix)), cplx(env.at(At, ix)))):
            env.check("%s of its own settings" % label, land(eq(x[0], y[0]), eq(x[1], y[1])))


prop("C23", scenarios=["stability: eigenvalues of the operators", "stability: selection of eigenvalues", "stability: operators after changes of the settings", "stability: two models are independent"])
