from .lib import *
from .contract import REG
from .units import scenario, prop

O = "aerokit.common._ode"
STEP = Dom(0, None, s=(0.01, 0.6), special=(0.1, 0.25, 1.0))
N = 2


class StepContract:
    """one step of the embedded pair is a function of (right-hand side, x, y, h): increment and error estimate, see the unit `one step`"""
    opts = {}
    spec = None
    params = ()

    def __init__(self, key, body):
        self.key, self.body = key, body
        REG[key] = self

    def mode_list(self):
        return []

    def apply(self, p, obj, a, k):
        import inspect
        from engine import symuse
        from engine.explore import Unsupported

        h = p.state.get("rkf45")
        if h is None:
            raise Unsupported("step of the embedded pair without contract in this unit")
        ba = inspect.signature(symuse.unwrap(obj)).bind(*a, **k)
        ba.apply_defaults()
        return h(*ba.arguments.values())


def F_(env, name="F"):
    """an arbitrary right-hand side, two components"""
    f = [env.func("%s%d" % (name, j), 3) for j in range(N)]
    return lambda x, y: env.asarray([f[j](x, env.at(y, (0,)), env.at(y, (1,))) for j in range(N)])


def vec(env, y):
    return [env.at(y, (j,)) for j in range(N)]


def rk4(env, F, x, y, h):
    """the classical step, from its definition"""
    add = lambda u, c, k: [u[j] + c * k[j] for j in range(N)]
    f = lambda x, u: vec(env, F(x, env.asarray(u)))
    k1 = f(x, y)
    k2 = f(x + h / 2, add(y, h / 2, k1))
    k3 = f(x + h / 2, add(y, h / 2, k2))
    k4 = f(x + h, add(y, h, k3))
    return [y[j] + h * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]) / 6 for j in range(N)]


@scenario("fixed-step integrator: one step is the classical fourth order update", modes=["system", "scalar"], inline_all=True)
def rk4_step(env, mode):
    x, h = env.real("x", REAL), env.real("h", STEP)
    y = [env.real("y%d" % j, REAL) for j in range(N)]
    if mode == "scalar":
        f = env.func("F0", 2)
        X, Y = env.fn(O + ":RK4")(f, x, y[0], x + h, h)
        k1 = f(x, y[0])
        k2 = f(x + h / 2, y[0] + h / 2 * k1)
        k3 = f(x + h / 2, y[0] + h / 2 * k2)
        k4 = f(x + h, y[0] + h * k3)
        env.check("two points", eq(len(X), 2))
        env.check("end point", eq(env.at(X, (1,)), x + h))
        env.check("first value", eq(env.at(Y, (0,)), y[0]))
        env.check("classical update", eq(env.at(Y, (1,)), y[0] + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6))
        return
    F = F_(env)
    X, Y = env.fn(O + ":RK4")(F, x, env.asarray(y), x + h, h)
    env.check("two points", eq(len(X), 2))
    env.check("first point", eq(env.at(X, (0,)), x))
    env.check("end point", eq(env.at(X, (1,)), x + h))
    w = rk4(env, F, x, y, h)
    for j in range(N):
        env.check("first value", eq(env.at(Y, (0, j)), y[j]))
        env.check("classical update", eq(env.at(Y, (1, j)), w[j]))


BS = [Q(2825, 27648), 0, Q(18575, 48384), Q(13525, 55296), Q(277, 14336), Q(1, 4)]


def conditions(A, b, c, order):
    s = range(len(b))
    dot = lambda u, v: sum((u[i] * v[i] for i in s), 0)
    mul = lambda *vs: [__import__("functools").reduce(lambda p, q: p * q, [v[i] for v in vs]) for i in s]
    M = lambda v: [sum((A[i][j] * v[j] for j in s), 0) for i in s]
    c2, c3, c4 = mul(c, c), mul(c, c, c), mul(c, c, c, c)
    Ac, Ac2, Ac3 = M(c), M(c2), M(c3)
    AAc = M(Ac)
    one = [1 for _ in s]
    T = [(1, one, 1), (2, c, 2), (3, c2, 3), (3, Ac, 6), (4, c3, 4), (4, mul(c, Ac), 8), (4, Ac2, 12), (4, AAc, 24),
         (5, c4, 5), (5, mul(c2, Ac), 10), (5, mul(Ac, Ac), 20), (5, mul(c, Ac2), 15), (5, Ac3, 20), (5, mul(c, AAc), 30), (5, M(mul(c, Ac)), 40), (5, M(Ac2), 60), (5, M(AAc), 120)]
    return [("order %d, tree 1/%d" % (o, d), dot(b, w), Q(1, d)) for o, w, d in T if o <= order]


@scenario("embedded pair: tableau of one step, order conditions and error estimate")
def rkf_step(env):
    """the right-hand side returns arbitrary values k_i at its i-th call"""
    step = env.raw_fn(O + ":_rkf45")
    x, h = env.real("x", REAL), env.real("h", STEP)
    y = [env.real("y%d" % j, REAL) for j in range(N)]
    S = 6

    def run(k):
        """arguments of each evaluation, increment and error for the values k[i][j]"""
        log = []

        def F(t, u):
            log.append((t, vec(env, u)))
            if len(log) > S:
                env.fail("number of evaluations")
            return env.asarray(k[len(log) - 1])

        dy, e = step(F, x, env.asarray(y), h)
        return log, vec(env, dy), e

    zero = [[0 * h] * N for _ in range(S)]
    A, b = [[0] * S for _ in range(S)], [0] * S
    c = None
    for q in range(S):
        k = [list(r) for r in zero]
        k[q][0] = 1 + 0 * h
        log, dy, e = run(k)
        env.check("number of evaluations", eq(len(log), S))
        for i in range(S):
            A[i][q] = (log[i][1][0] - y[0]) / h
        b[q] = dy[0] / h
        c = [(t - x) / h for t, _ in log]
    K = [[env.real("k%d%d" % (i, j), REAL) for j in range(N)] for i in range(S)]
    log, dy, e = run(K)
    err = 0
    for j in range(N):
        for i in range(S):
            env.check("stage %d: value" % i, eq(log[i][1][j], y[j] + h * sum((A[i][q] * K[q][j] for q in range(S)), 0)))
        env.check("increment", eq(dy[j], h * sum((b[i] * K[i][j] for i in range(S)), 0)))
        err = err + (dy[j] - h * sum((BS[i] * K[i][j] if env.symbolic else float(BS[i]) * K[i][j] for i in range(S)), 0)) ** 2
    for i in range(S):
        env.check("stage %d is explicit" % i, land(*[eq(A[i][q], 0) for q in range(i, S)]))
        env.check("stage %d: abscissa" % i, eq(c[i], sum((A[i][q] for q in range(S)), 0)))
    for lab, u, v in conditions(A, b, c, 5):
        env.check("increment: " + lab, eq(u, v, atol=1e-8))
    bs = BS if env.symbolic else [float(v) for v in BS]
    for lab, u, v in conditions(A, bs, c, 4):
        env.check("embedded formula: " + lab, eq(u, v, atol=1e-8))
    env.check("error estimate: RMS of the difference with the embedded formula", eq(e * e, err / N, atol=1e-12))
    env.check("error estimate is not negative", le(0, e))


StepContract(O + ":_rkf45", ["embedded pair: tableau of one step, order conditions and error estimate"])


def isx(env, v, t):
    from engine.values import Sym

    return isinstance(v, Sym) and v.e is t.e


def elems(env, v):
    from engine import larr as L

    return [v.at(j) for j in (0, 1)] if isinstance(v, L.LArr) and len(v._shape) == 1 else None


class March:
    """roles of the loop variables and candidate invariants of a marching loop"""

    def __init__(self, env, x0, y0, xs, sense):
        from engine.loopinv import Inv

        self.env, self.x0, self.y0, self.xs, self.sense = env, x0, y0, xs, sense
        self.lists = []
        self.ctl = None

        def pick(lid, loop):
            big = isinstance(loop.iter0, range) and len(loop.iter0) > 50
            if loop.isfor and not big or self.ctl is not None:
                return None
            self.ctl = Inv(self.cand, self.note)
            return self.ctl

        env.p.state["loops"] = pick

    def isy(self, v):
        e = elems(self.env, v)
        return e is not None and all(a.e is b.e for a, b in zip(e, self.y0))

    def cand(self, v0):
        from engine.values import Sym, SymB
        from engine.loader import SymList
        env, x0, y0, xs = self.env, self.x0, self.y0, self.xs
        X = [v for v, t in v0.items() if isx(env, t, x0)]
        Y = [v for v, t in v0.items() if self.isy(t)]
        LX = [v for v, t in v0.items() if isinstance(t, (list, SymList)) and len(t) == 1 and isx(env, t[0], x0)]
        LY = [v for v, t in v0.items() if isinstance(t, (list, SymList)) and len(t) == 1 and self.isy(t[0])]
        self.LX, self.LY = LX, LY
        fl = [v for v, t in v0.items() if v != "#k" and (isinstance(t, (bool, SymB)) or isinstance(t, int) or isinstance(t, Sym) and (t.k == "I" or t.e.op == "const"))]
        H = [v for v, t in v0.items() if isinstance(t, Sym) and v not in X and t.k == "R"]
        lt_ = (lambda a, b: lt(a, b)) if self.sense > 0 else (lambda a, b: lt(b, a))
        le_ = (lambda a, b: le(a, b)) if self.sense > 0 else (lambda a, b: le(b, a))
        out = []
        on = lambda t: t if isinstance(t, SymB) else lnot(eq(t, 0)) if not isinstance(t, bool) else eq(t, True)

        def c(label, f, *alias):
            out.append((label, f) + alias)

        for v in X:
            c("%s does not pass the end" % v, lambda s, v=v: le_(s[v], xs))
            c("%s is before the end" % v, lambda s, v=v: lt_(s[v], xs))
            c("%s is after the start" % v, lambda s, v=v: le_(x0, s[v]))
            for l in LX:
                c("%s is the last point" % v, lambda s, v=v, l=l: eq(s[l][-1], s[v]), (l, v))
            for h in H:
                c("%s + %s does not pass the end" % (v, h), lambda s, v=v, h=h: le_(s[v] + s[h], xs))
                c("%s is the given one before the end" % h, lambda s, v=v, h=h: lor(eq(s[h], v0[h]), eq(s[v], xs)))
                for f in fl:
                    c("%s set: %s + %s is the end" % (f, v, h), lambda s, v=v, h=h, f=f: implies(on(s[f]), eq(s[v] + s[h], xs)))
                    c("%s not set: %s + %s is the end" % (f, v, h), lambda s, v=v, h=h, f=f: implies(lnot(on(s[f])), eq(s[v] + s[h], xs)))
                    c("%s set: %s + %s is before the end" % (f, v, h), lambda s, v=v, h=h, f=f: implies(on(s[f]), lt_(s[v] + s[h], xs)))
                    c("%s not set: %s + %s is before the end" % (f, v, h), lambda s, v=v, h=h, f=f: implies(lnot(on(s[f])), lt_(s[v] + s[h], xs)))
                    c("%s not set: %s is before the end" % (f, v), lambda s, v=v, f=f: implies(lnot(on(s[f])), lt_(s[v], xs)))
        for h in H:
            c("%s is at most the given one" % h, lambda s, h=h: le_(s[h], v0[h]))
            c("%s has the sign of the march" % h, lambda s, h=h: le_(0, s[h]))
            c("%s is strictly of the sign of the march" % h, lambda s, h=h: lt_(0, s[h]))
        for f in fl:
            if not isinstance(v0[f], (bool, SymB)):
                c("%s is 0 or 1" % f, lambda s, f=f: lor(eq(s[f], 0), eq(s[f], 1)))
        for l in LY:
            for w in Y:
                c("%s is the last value" % w, lambda s, w=w, l=l: land(*[eq(env.at(s[l][-1], (j,)), env.at(s[w], (j,))) for j in (0, 1)]), (l, w))
        return out

    def note(self, ctl, vals):
        if vals is ctl.head:
            self.state = {l: (vals[l], vals[l][-1]) for l in self.LX + self.LY}
        else:
            self.steps(vals[self.LX[0]], vals[self.LY[0]])

    def steps(self, X, Y):
        """points appended since the loop head"""
        env = self.env
        env.check("as many points as values", eq(len(X.new), len(Y.new)))
        x, y = self.state[self.LX[0]][1], vec(env, self.state[self.LY[0]][1])
        for a, b in zip(X.new, Y.new):
            u = vec(env, b)
            for lab, c in self.step(x, y, a, u):
                env.check(lab, c)
            x, y = a, u


def trajectory(env, X, Y, m, step, xs, sense, count=None):
    """whole result (concrete) or what is known of it (symbolic)"""
    L_ = lambda a, b: le(a, b, atol=1e-9) if sense > 0 else le(b, a, atol=1e-9)
    if env.symbolic:
        m.steps(X.sl, Y.sl)
        return X[0], vec(env, Y[0]), X[-1]
    n = len(X)
    env.check("as many points as values", eq(n, len(Y)))
    for k in range(1, n):
        for lab, c in step(X[k - 1], list(Y[k - 1]), X[k], list(Y[k])):
            env.check(lab, c)
        env.check("points do not pass the end", L_(X[k], xs))
    return X[0], list(Y[0]), X[-1]


@scenario("fixed-step integrator: marching to the end point", inline_all=True, nfac=0.5)
def rk4_march(env):
    x, h = env.real("x", REAL), env.real("h", STEP)
    ln = env.real("length", Dom(0, None, lo_eq=True, s=(0, 3), special=(0.0, 1.0)))
    y = [env.real("y%d" % j, REAL) for j in range(N)]
    F = F_(env)
    xs = x + ln
    ylist = env.asarray(y)

    def step(xa, ya, xb, yb):
        w = rk4(env, F, xa, ya, xb - xa)
        return [("classical update", land(*[eq(yb[j], w[j], tol=1e-5, atol=1e-7) for j in range(N)])), ("points increase", lt(xa, xb)), ("steps are at most the given one", le(xb - xa, h, atol=1e-9)),
                ("full steps, except the last one", lor(eq(xb - xa, h, atol=1e-9), eq(xb, xs, atol=1e-9)))]

    m = None
    if env.symbolic:
        m = March(env, x, y, xs, 1)
        m.step = step
    X, Y = env.fn(O + ":RK4")(F, x, ylist, xs, h)
    f, g, l = trajectory(env, X, Y, m, step, xs, 1)
    env.check("starts at the initial point", eq(f, x))
    env.check("starts with the initial value", land(*[eq(g[j], y[j]) for j in range(N)]))
    env.check("ends at the requested abscissa", eq(l, xs, atol=1e-9))


@scenario("adaptive integrator: marching to the end point, accepted steps", modes=["forward", "backward", "default tolerance"], keep=(O + ":_rkf45",), inline_all=True, nfac=0.4)
def rkf_march(env, mode):
    sense = -1 if mode == "backward" else 1
    x, h = env.real("x", REAL), env.real("h", STEP) * sense
    ln = env.real("length", Dom(0, None, s=(0.05, 3), special=(1.0, 0.1)))
    tol = env.real("tol", Dom(0, None, s=(1e-8, 1e-3), special=(1e-6,))) if mode != "default tolerance" else Q(1, 10 ** 6)
    if env.numeric:
        tol = float(tol)
    y = [env.real("y%d" % j, REAL) for j in range(N)]
    F = F_(env)
    xs = x + sense * ln
    if env.symbolic:
        def handler(G, a, b, c):
            env.check("the step is taken with the given right-hand side", eq(G is F, True))
            ar = [a] + vec(env, b) + [c]
            e = uf("rkf:err", *ar)
            env.assume(le(0, e))
            dy = [uf("rkf:dy%d" % j, *ar) for j in range(N)]
            env.assume(implies(eq(c, 0), land(eq(e, 0), *[eq(v, 0) for v in dy])))
            return env.asarray(dy), e

        env.p.state["rkf45"] = handler
        one = lambda a, b, c: handler(F, a, env.asarray(b), c)
    else:
        one = lambda a, b, c: env.fn(O + ":_rkf45")(F, a, env.asarray(b), c)

    def step(xa, ya, xb, yb):
        dy, e = one(xa, ya, xb - xa)
        return [("error estimate of the accepted step within the tolerance", le(e, tol, tol=1e-4, atol=1e-9)), ("value of the accepted step", land(*[eq(yb[j], ya[j] + env.at(dy, (j,)), atol=1e-7) for j in range(N)])),
                ("points do not pass the end", le(xb, xs, atol=1e-9) if sense > 0 else le(xs, xb, atol=1e-9)), ("points progress", le(xa, xb, atol=1e-9) if sense > 0 else le(xb, xa, atol=1e-9))]

    m = None
    if env.symbolic:
        m = March(env, x, y, xs, sense)
        m.step = step
    f = env.fn(O + ":RKF45")
    X, Y = f(F, x, env.asarray(y), xs, h) if mode == "default tolerance" else f(F, x, env.asarray(y), xs, h, tol)
    if env.numeric and len(X) > 9000:
        env.assume(False)
    f, g, l = trajectory(env, X, Y, m, step, xs, sense)
    env.check("starts at the initial point", eq(f, x))
    env.check("starts with the initial value", land(*[eq(g[j], y[j]) for j in range(N)]))
    end = eq(l, xs, atol=1e-9)
    if env.symbolic and m.ctl is not None and "#k" in m.ctl.head:
        end = lor(end, le(9999, m.ctl.head["#k"]))
    env.check("ends at the requested abscissa", end)


prop("C19", scenarios=["fixed-step integrator: one step is the classical fourth order update", "fixed-step integrator: marching to the end point",
                       "embedded pair: tableau of one step, order conditions and error estimate", "adaptive integrator: marching to the end point, accepted steps"])
