from .lib import *
from .contract import P, Secant
from .units import scenario, prop

K = "aerokit.aero.IterativeSolve:secant_solve"
TOL = Dom(0, Q(1, 10), s=(1e-8, 1e-3), special=(1e-5,))
GUESS = Dom(None, None, s=(-20, 20), special=(0.0, 1e-7, -1e-6, 1.0))
MAXEV = 20


class Naming_:
    def __init__(self, env):
        self.n = None
        if env.symbolic:
            from engine.loader import Naming

            self.n = Naming(60)
            env.p.state["loops"] = lambda lid, loop: None if loop.isfor else self.n

    def value(self, x):
        """the definition of a value named at a loop head"""
        if self.n is not None:
            from engine.values import Sym

            d = self.n.defs.get(x.e.id)
            if d is not None:
                return Sym(d[1])
        return x


def call(env, f, y, x, tol, how):
    s = env.fn(K)
    return s(f, y, x) if tol is None else s(f, y, x, tol=tol) if how == "keyword" else s(f, y, x, tol)


@scenario("secant solver: updates, exit criterion and number of evaluations", modes=["default", "keyword", "positional"], vacuity=False, lazy=True, inline=(K,))
def steps(env, mode):
    y, x = env.real("y", REAL), env.real("x", GUESS)
    tol = Q(1, 100000) if mode == "default" else env.real("tol", TOL)
    nm = Naming_(env)
    log = []
    if env.numeric:
        F = env.func("f")

    def f(t):
        if env.symbolic:
            # an arbitrary function: nothing is known about its values
            v = env.real("f%d" % len(log))
        else:
            if log and t == x:
                log.clear()   # np.vectorize runs the function once more to find the output type
            v = F(t)
        if log:
            env.assume(lnot(eq(v, log[-1][1], tol=1e-4)))
        log.append((t, v))
        if len(log) > 2:
            update(len(log) - 1, t)
        return v

    def update(k, nx):
        (x1, v1), (x0, v0) = log[k - 1], log[k - 2]
        env.check("secant update", eq(nm.value(nx), x1 + (x1 - x0) / (v1 - v0) * (y - v1), tol=1e-4, atol=1e-7))

    before = len(env.printed())
    r = call(env, f, y, x, None if mode == "default" else tol, mode)
    n = len(log)
    env.check("bounded number of evaluations", 2 <= n <= MAXEV)
    if not 2 <= n <= MAXEV:
        return
    env.check("the first point is the guess", eq(log[0][0], x))
    update(n, r)
    last = log[-1][0]
    conv = le(absv(r - last), tol, atol=1e-12)
    conv = lor(conv, le(absv(r - last), tol * absv(r), atol=1e-12))
    printed = len(env.printed()) > before
    if n < MAXEV:
        env.check("last correction within the tolerance", conv)
    else:
        env.check("warning when the maximum number of iterations is reached", lor(conv, printed))


@scenario("secant solver: affine functions are solved exactly", modes=["scalar", "array of targets", "array of guesses", "both"], inline=(K,))
def affine(env, mode):
    a, b = env.real("a", Dom(None, None, s=(0.3, 6), special=(1.0, -2.0))), env.real("b", REAL)
    if env.numeric and abs(a) < 0.1:
        a = a + 1.0
    env.assume(lnot(eq(a, 0)))
    f = lambda t: a * t + b
    n = 1 if mode == "scalar" else 2
    ys = [env.real("y%d" % k, REAL) for k in range(n)]
    xs = [env.real("x%d" % k, GUESS) for k in range(n)]
    # the iterations start from two distinct points
    Y = ys[0] if mode in ("scalar", "array of guesses") else env.asarray(ys)
    X = xs[0] if mode in ("scalar", "array of targets") else env.asarray(xs)
    r = call(env, f, Y, X, None, mode)
    if mode == "scalar":
        env.check("exact solution", eq(a * r + b, ys[0], atol=1e-6))
        return
    env.check_shape("one solution per element", r, (n,))
    for k in range(n):
        y = ys[0] if mode == "array of guesses" else ys[k]
        env.check("exact solution", eq(a * env.at(r, (k,)) + b, y, atol=1e-6))


Secant(K, ["secant solver: updates, exit criterion and number of evaluations", "secant solver: affine functions are solved exactly"])
prop("C18", [], ["secant solver: updates, exit criterion and number of evaluations", "secant solver: affine functions are solved exactly"])
