from .lib import *
from .units import scenario, prop
from .s_stability import CH, MAT, grid


def xi_of(k, n):
    return cos(k * pi() / (n - 1))


def sign(k):
    return (-1) ** k if symbolic() else (-1.0) ** k


def end(i, n):
    """2 at both ends, 1 inside"""
    return ite(lor(eq(i, 0), eq(i, n - 1)), 2, 1)


def weights(i, j, n):
    """ratio w_j / w_i of the barycentric weights of the Chebyshev nodes"""
    return sign(i) * sign(j) * end(i, n) / end(j, n)


def derivative_entry(W, l, i, j, n):
    """entry (i, j), i != j, of the matrix of order l+1, W(i, j) the one of order l"""
    return (l + 1) / (xi_of(i, n) - xi_of(j, n)) * (weights(i, j, n) * W(i, i) - W(i, j))


LSIN = Lemma(lambda t: [lt(0, t), lt(t, pi())], lambda t: lt(0, sin(t)))
LCOS = Lemma(lambda a, b: [le(0, a), lt(a, b), le(b, pi())], lambda a, b: lt(cos(b), cos(a)),
             lambda a, b: (LSIN.use("sine of the half sum", (a + b) / 2), LSIN.use("sine of the half difference", (b - a) / 2)))
LNODES = Lemma(lambda i, j, n: [le(0, i), lt(i, j), lt(j, n)], lambda i, j, n: lt(xi_of(j, n), xi_of(i, n)),
               lambda i, j, n: (hint("last index", le(j, n - 1)), hint("order of the angles", lt(i * pi() / (n - 1), j * pi() / (n - 1))), hint("last angle", le(j * pi() / (n - 1), pi())), hint("first angle", le(0, i * pi() / (n - 1))),
                                LCOS.use("cosine decreases", i * pi() / (n - 1), j * pi() / (n - 1))))


@scenario("Chebyshev: lemmas", modes=["sine", "cosine", "nodes"], nonum="proof of a lemma")
def lemmas(env, mode):
    if mode == "sine":
        LSIN.prove(env, env.real("t", REAL))
    elif mode == "cosine":
        LCOS.prove(env, env.real("a", REAL), env.real("b", REAL))
    else:
        LNODES.prove(env, env.int("i"), env.int("j"), env.int("n", 2))


class Recursion:
    """invariant of the loop on the orders: the current matrix is the one of order k on the nodes, the matrices of lower orders are stored, scaled"""

    def __init__(self, env, n, scale):
        self.env, self.n, self.scale = env, n, scale
        self.ctl = None
        env.p.state["loops"] = lambda lid, loop: self if loop.isfor else None

    def order(self, l, i, j):
        return uf("welfert", l, i, j)

    def stored(self, l, i, j):
        return self.order(l, i, j) * self.scale ** l

    def enter(self, p, loop, vals):
        from engine import larr as L, terms as T
        from engine.values import Sym, term
        env, n = self.env, self.n
        mats = [v for v, x in vals.items() if isinstance(x, L.LArr) and len(x._shape) == 2]
        cubes = [v for v, x in vals.items() if isinstance(x, L.LArr) and len(x._shape) == 3]
        if loop.k is None or len(mats) != 1 or len(cubes) != 1 or set(vals) - {"#k"} - set(mats + cubes):
            raise NotImplementedError("variables of the loop on the orders: %s" % sorted(vals))
        self.mat, self.cube = mats[0], cubes[0]
        env.check_shape("matrix of order 0", vals[self.mat], (n, n))
        for i, j in env.idx(n, n):
            env.check("loop invariant holds initially: matrix of order 0", eq(env.at(vals[self.mat], (i, j)), ite(eq(i, j), 1, 0)))
        k0 = vals["#k"]
        k = T.var(T.fresh_name("order"), "I")
        p.assume(T.le(term(k0), k))
        p.assume(T.or_(T.le(k, term(loop.bound.hi)), T.le(k, term(loop.bound.lo))))
        hav = dict(vals)
        hav["#k"] = Sym(k, "I")
        self.k = hav["#k"] - k0
        self.k0 = k0
        k = self.k.e
        S = lambda e: Sym(e, "I")
        hav[self.mat] = L.LArr.new(lambda ix: term(self.order(self.k, S(ix[0]), S(ix[1]))), vals[self.mat]._shape, "f")
        c0 = vals[self.cube].snapshot()
        self.head = L.LArr.new(lambda ix: T.ite(T.lt(ix[2], k), term(self.stored(S(ix[2]) + 1, S(ix[0]), S(ix[1]))), c0.get(ix)), vals[self.cube]._shape, "f")
        hav[self.cube] = self.head.copy()
        self.shape = vals[self.cube]._shape
        self.depth = loop.bound.hi - k0
        return hav

    def back(self, p, loop, vals):
        env, n, k = self.env, self.n, self.k
        W = lambda i, j: self.order(k, i, j)
        env.check("next order", eq(vals["#k"], self.k0 + k + 1))
        D, C = vals[self.mat], vals[self.cube]
        env.check_shape("matrix of the next order", D, (n, n))
        for i, j in env.idx(n, n):
            d = env.at(D, (i, j))
            if env.decide(eq(i, j)):
                r = D.sum(axis=1)
                env.check("loop invariant is preserved: the derivative of a constant is zero", eq(env.at(r, (i,)), 0))
                env.check_defined("diagonal entry is defined", d)
            else:
                LNODES.use("distinct nodes", *((i, j) if env.decide(lt(i, j)) else (j, i)), n)
                env.check("loop invariant is preserved: matrix of the next order", eq(d, derivative_entry(W, k, i, j, n)))
                env.check_defined("entry is defined", d)
            (m,), = env.idx(self.depth)
            env.check("loop invariant is preserved: stored matrices", eq(env.at(C, (i, j, m)), ite(lt(m, k), lambda: self.stored(m + 1, i, j), lambda: ite(eq(m, k), lambda: d * self.scale ** (k + 1), lambda: env.at(self.head, (i, j, m))))))


@scenario("Chebyshev: differentiation matrices on request", inline=(MAT,))
def on_request(env):
    n, xa, xb = grid(env, 2)
    col = env.fn(CH)(n, xa, xb)
    env.check("number of points", eq(col.npts, n))
    orders = [env.int("first order", 1, None, s=(1, 4)), env.int("second order", 1, None, s=(1, 4))]
    if env.numeric:
        got = [(k, col.matder(k), exact_matrix(n, k, xa, xb)) for k in orders]
        for k, D, ref in got:
            env.check_shape("differentiation matrix", D, (n, n))
            env.check("differentiation matrix", bool(abs(D - ref).max() <= 1e-8 * abs(exact_matrix(n, 1, xa, xb)).max() ** k))
        return
    R = Recursion(env, n, -2 / (xb - xa))
    got = []
    for k in orders:
        got.append((k, col.matder(k)))
        env.check_shape("differentiation matrix", got[-1][1], (n, n))
        for o, D in got:
            for i, j in env.idx(n, n):
                env.check("matrix of the order requested, whatever was requested before", eq(env.at(D, (i, j)), R.stored(o, i, j)))


def exact_matrix(n, k, xa, xb):
    """(concrete) derivatives of the Lagrange polynomials of the nodes, computed with long rationals"""
    import numpy as np
    from fractions import Fraction
    x = [Fraction(math.cos(math.pi * i / (n - 1))) for i in range(n)]
    x = [Fraction(xa) + (1 - t) * (Fraction(xb) - Fraction(xa)) / 2 for t in x]
    out = np.zeros((n, n))
    for j in range(n):
        c = [Fraction(1)]
        for m in range(n):
            if m != j:
                d = x[j] - x[m]
                c = [(c[q - 1] if q else 0) / d - (c[q] * x[m] / d if q < len(c) else 0) for q in range(len(c) + 1)]
        for _ in range(k):
            c = [q * a for q, a in enumerate(c)][1:]
        for i in range(n):
            out[i, j] = float(sum(a * x[i] ** q for q, a in enumerate(c)))
    return out


@scenario("Chebyshev: nodes", modes=["interval", "default"])
def nodes(env, mode):
    if mode == "interval":
        n, xa, xb = grid(env, 2)
        col = env.fn(CH)(n, xa, xb) if env.choose("call", ["positional", "keyword"]) == "positional" else env.fn(CH)(npts=n, xmin=xa, xmax=xb)
    else:
        n, xa, xb = 2 * env.size("half") + env.choose("parity", [0, 1]), -1, 1
        col = env.fn(CH)(n)
    xi, x = col.xi, col.x
    env.check_shape("reference nodes", xi, (n,))
    env.check_shape("nodes", x, (n,))
    for (i,) in env.idx(n):
        env.check("Chebyshev extrema", eq(env.at(xi, (i,)), xi_of(i, n), atol=1e-12))
        env.check("nodes mapped on the interval", eq(env.at(x, (i,)), (xa + xb) / 2 - (xb - xa) / 2 * xi_of(i, n), atol=1e-10))
        if env.symbolic:
            env.assume(lt(i, n - 1))
            LNODES.use("order of the nodes", i, i + 1, n)
        if env.symbolic or i < n - 1:
            env.check("nodes increase", lt(env.at(x, (i,)), env.at(x, (i + 1,))))
    env.check("both ends are nodes", land(eq(env.at(x, (0,)), xa, atol=1e-12), eq(env.at(x, (n - 1,)), xb, atol=1e-12)))


@scenario("Chebyshev: mapping to and from the reference interval", modes=["number", "array"])
def mapping(env, mode):
    n, xa, xb = grid(env, 2)
    col = env.fn(CH)(n, xa, xb)
    d = Dom(None, None, s=(-2, 2))
    m = env.size("m")
    t = env.real("t", d) if mode == "number" else env.arr("t", (m,), d)
    a, b = col._x_to_xi(col._xi_to_x(t)), col._xi_to_x(col._x_to_xi(t))
    for ix in env.idx(m) if mode == "array" else [()]:
        v = env.at_b(t, ix)
        env.check("to the interval and back", eq(env.at_b(a, ix), v, atol=1e-9))
        env.check("to the reference interval and back", eq(env.at_b(b, ix), v, atol=1e-9))
        env.check("mapping of the interval", eq(env.at_b(col._x_to_xi(t), ix) * (xb - xa), xa + xb - 2 * v, atol=1e-9))


class Poly:
    """trusted contracts of numpy: Vandermonde matrix and value of a sum of Chebyshev polynomials (uninterpreted), linear solve (the matrix is not
    singular for distinct nodes) and least squares"""

    def __init__(self, env, n):
        self.env, self.n = env, n
        self.coefs = None
        if env.symbolic:
            env.p.state["oracle"] = {"chebvander": self.vander, "chebval": self.val, "solve": self.solve, "lstsq": self.lstsq}

    def T(self, k, x):
        return uf("chebyshev", k, x)

    def vander(self, x, deg):
        from engine import larr as L
        from engine.values import Sym, term
        env = self.env
        env.check("degree of the interpolation", eq(deg, self.n - 1))
        g = x.snapshot()
        return L.LArr.new(lambda ix: term(self.T(Sym(ix[1], "I"), Sym(g.get((ix[0],))))), (x._shape[0], term(deg + 1)), "f")

    def solve(self, a, b):
        env = self.env
        c = env.arr("coefficients", (self.n,), REAL)
        v = a @ c
        from engine import terms as T
        from engine.values import Sym, SymB, term
        i = Sym(T.var(T.fresh_name("i"), "I"), "I")
        row = eq(env.at(v, (i,)), env.at(b, (i,))).e
        env.assume_all((self.n,), lambda ix: SymB(T.subst(row, {i.e: term(ix[0])})))
        self.system, self.coefs = (a, b), c
        return c

    def lstsq(self, a, b, **k):
        self.coefs = self.env.arr("coefficients", (self.n,), REAL)
        self.system = (a, b)
        return self.coefs, None, None, None

    def val(self, x, c):
        from engine import larr as L
        from engine.reduce_ import sumterm
        from engine.values import Sym, term
        env = self.env
        env.check("coefficients of the interpolation", c is self.coefs)
        cg = c.snapshot()
        s = lambda e: sumterm(term(0), c._shape[0], lambda k: term(self.T(Sym(k, "I"), Sym(e)) * Sym(cg.get((k,)))))
        if isinstance(x, L.LArr):
            g = x.snapshot()
            return L.LArr.new(lambda ix: s(g.get(ix)), x._shape, "f")
        return Sym(s(term(x)))


@scenario("Chebyshev: interpolation", modes=["nodes", "number", "array", "fit"])
def interpolation(env, mode):
    n, xa, xb = grid(env, 2)
    col = env.fn(CH)(n, xa, xb)
    O = Poly(env, n)
    nw = env.size("m")
    if mode == "fit":
        xs, f = env.arr("x", (nw,), Dom(None, None, s=(-3, 3))), env.arr("f", (nw,), Dom(None, None, s=(-3, 3)))
    else:
        f = env.arr("f", (n,), Dom(None, None, s=(-3, 3)))
    env.frame()
    to = lambda v: (xa + xb - 2 * v) / (xb - xa)
    if env.numeric:
        import numpy as np
        Tm = lambda v, m=n: np.cos(np.outer(np.arccos(np.clip(v, -1, 1)), np.arange(m)))
        c = np.array([env.rng.uniform(-1, 1) for _ in range(n)])
        t = np.array([env.rng.uniform(xa, xb) for _ in range(n + 2)])
        exact = Tm(to(t)) @ c
        data = Tm(to(np.array(col.x))) @ c
        if mode == "nodes":
            env.check("data are reproduced at the nodes", bool(np.allclose(col.extrapol(f, col.x), f, atol=1e-8)))
        elif mode == "number":
            env.check("polynomials are reproduced", eq(float(col.extrapol(data, float(t[0]))), float(exact[0]), atol=1e-8))
        elif mode == "array":
            env.check("polynomials are reproduced", bool(np.allclose(col.extrapol(data, t), exact, atol=1e-8)))
        else:
            t = xa + (xb - xa) * (np.arange(n + 2) + 0.5) / (n + 2)
            env.check("polynomials are reproduced by the fit", bool(np.allclose(col.fit_to_gauss(t, Tm(to(t)) @ c), data, atol=1e-6)))
        env.check_frame()
        return
    if mode == "nodes":
        r = col.extrapol(f, col.x)
        env.check_shape("one value for each node", r, (n,))
        for ix in env.idx(n):
            env.check("data are reproduced at the nodes", eq(env.at(r, ix), env.at(f, ix)))
    elif mode == "fit":
        r = col.fit_to_gauss(xs, f)
        a, b = O.system
        env.check_shape("one value for each node", r, (n,))
        env.check_shape("matrix of the least squares", a, (nw, n))
        env.check("data of the least squares", b is f)
        for i, k in env.idx(nw, n):
            env.check("matrix of the least squares", eq(env.at(a, (i, k)), O.T(k, to(env.at(xs, (i,))))))
        ref = O.val(col.xi, O.coefs)
        for ix in env.idx(n):
            env.check("value of the fit at the nodes", eq(env.at(r, ix), env.at(ref, ix)))
    else:
        x = env.real("x", REAL) if mode == "number" else env.arr("x", (nw,), REAL)
        r = col.extrapol(f, x)
        a, b = O.system
        for i, k in env.idx(n, n):
            env.check("interpolation conditions at the nodes", land(eq(env.at(a, (i, k)), O.T(k, xi_of(i, n))), eq(env.at(b, (i,)), env.at(f, (i,)))))
        for ix in env.idx(nw) if mode == "array" else [()]:
            env.check("value of the polynomial", eq(env.at_b(r, ix), O.val(to(env.at_b(x, ix)), O.coefs)))
    env.check_frame()


prop("C20", scenarios=["Chebyshev: nodes", "Chebyshev: mapping to and from the reference interval", "Chebyshev: lemmas", "Chebyshev: differentiation matrices on request", "Chebyshev: interpolation"])
