"""Assertion language shared by the symbolic verifier and by the concrete replay (floats).

The functions dispatch on the argument: symbolic scalars build terms, numbers are evaluated with math.
"""
import math
from fractions import Fraction as Fr

HOOK = None  # set by the symbolic engine


def Q(a, b=1):
    return Fr(a, b)


def _sym(*xs):
    if HOOK is None:
        return False
    return any(HOOK.is_sym(x) for x in xs)


def _f1(name, f):
    def g(x):
        if HOOK is not None:
            return HOOK.fn(name, x)
        return f(x)

    g.__name__ = name
    return g


sqrt = _f1("sqrt", math.sqrt)
exp = _f1("exp", math.exp)
log = _f1("log", math.log)
sin = _f1("sin", math.sin)
cos = _f1("cos", math.cos)
tan = _f1("tan", math.tan)
atan = _f1("atan", math.atan)
asin = _f1("asin", lambda x: math.asin(max(-1.0, min(1.0, x)) if abs(x) < 1 + 1e-9 else x))
acos = _f1("acos", lambda x: math.acos(max(-1.0, min(1.0, x)) if abs(x) < 1 + 1e-9 else x))


def atan2(y, x):
    if HOOK is not None:
        return HOOK.fn("atan2", y, x)
    return math.atan2(y, x)


class _Pi:
    pass


def pi():
    return HOOK.pi() if HOOK is not None else math.pi


def power(a, b):
    if HOOK is not None:
        return HOOK.power(a, b)
    return float(a) ** float(b)


def rad(d):
    return d * pi() / 180


def deg(r):
    return r * 180 / pi()


def sind(d):
    return sin(rad(d))


def cosd(d):
    return cos(rad(d))


def tand(d):
    return tan(rad(d))


class NB:
    """numeric truth value"""
    __slots__ = ("v", "d")

    def __init__(self, v, d=""):
        self.v, self.d = bool(v), d

    def __bool__(self):
        return self.v

    def __repr__(self):
        return "%s[%s]" % (self.v, self.d)


TOL = [1e-6, 1e-9]  # relative, absolute (numeric mode)


def _fl(x):
    if isinstance(x, complex):
        return x
    try:
        return float(x)
    except TypeError:
        return complex(x)


def eq(a, b, tol=None, atol=None):
    if HOOK is not None:
        return HOOK.cmp("eq", a, b)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return NB(a == b, "%r == %r" % (a, b))
    a, b = _fl(a), _fl(b)
    if a == b:
        return NB(True)
    rt = TOL[0] if tol is None else tol
    at = TOL[1] if atol is None else atol
    d = abs(a - b)
    ok = d <= rt * max(abs(a), abs(b)) + at and d == d and d != float("inf")
    return NB(ok, "%r == %r" % (a, b))


def le(a, b, tol=None, atol=None):
    if HOOK is not None:
        return HOOK.cmp("le", a, b)
    a, b = _fl(a), _fl(b)
    rt = TOL[0] if tol is None else tol
    at = TOL[1] if atol is None else atol
    if a <= b:
        return NB(True)
    if math.isinf(a) or math.isinf(b):
        return NB(False, "%r <= %r" % (a, b))
    return NB(a <= b + rt * max(abs(a), abs(b)) + at, "%r <= %r" % (a, b))


def lt(a, b, tol=None, atol=None):
    if HOOK is not None:
        return HOOK.cmp("lt", a, b)
    r = le(a, b, tol, atol)
    return r


def ge(a, b, **k):
    return le(b, a, **k)


def gt(a, b, **k):
    return lt(b, a, **k)


def _b(x):
    return bool(x)


def land(*xs):
    if HOOK is not None:
        return HOOK.land(xs)
    return NB(all(bool(x) for x in xs), " and ".join(repr(x) for x in xs if not x))


def lor(*xs):
    if HOOK is not None:
        return HOOK.lor(xs)
    return NB(any(bool(x) for x in xs), " or ".join(repr(x) for x in xs))


def lnot(x):
    if HOOK is not None:
        return HOOK.lnot(x)
    return NB(not bool(x))


def implies(a, b):
    """b may be a thunk (evaluated numerically only when a holds)"""
    if HOOK is not None:
        return HOOK.implies(a, b() if callable(b) else b)
    if not bool(a):
        return NB(True)
    return b() if callable(b) else b


def ite(c, a, b):
    """a, b may be thunks"""
    if HOOK is not None:
        return HOOK.ite(c, a() if callable(a) else a, b() if callable(b) else b)
    r = a if bool(c) else b
    return r() if callable(r) else r


def sqlt(a, b):
    """strict comparison used to *select* (no tolerance)"""
    if HOOK is not None:
        return HOOK.cmp("lt", a, b)
    return a < b


def sqle(a, b):
    if HOOK is not None:
        return HOOK.cmp("le", a, b)
    return a <= b


def absv(x):
    return ite(sqle(0, x), x, lambda: -x)


def maxv(a, b):
    return ite(sqlt(a, b), b, a)


def minv(a, b):
    return ite(sqlt(b, a), b, a)


class Dom:
    """real (or integer) interval with a sampling range for the concrete runs"""

    def __init__(self, lo=None, hi=None, lo_eq=False, hi_eq=False, s=None, special=(), kind="R"):
        self.lo, self.hi, self.lo_eq, self.hi_eq, self.s, self.special, self.kind = lo, hi, lo_eq, hi_eq, s, tuple(special), kind

    def facts(self, x):
        out = []
        if self.lo is not None:
            out.append(le(self.lo, x) if self.lo_eq else lt(self.lo, x))
        if self.hi is not None:
            out.append(le(x, self.hi) if self.hi_eq else lt(x, self.hi))
        return out

    def contains(self, x):
        if self.lo is not None and not (x >= self.lo if self.lo_eq else x > self.lo):
            return False
        if self.hi is not None and not (x <= self.hi if self.hi_eq else x < self.hi):
            return False
        return True


GAM = Dom(1, None, s=(1.05, 2.2), special=(1.4, 1.3, 5.0 / 3, 1.2, 1.6, 2.0, 1.33))
MACH = Dom(0, None, s=(0.02, 12), special=(1.0, 2.0, 0.5, 3.0, 10.0, 0.1, 1.5))
MACH0 = Dom(0, None, lo_eq=True, s=(0.0, 12), special=(0.0, 1.0, 2.0, 0.5, 3.0))
MSUP = Dom(1, None, s=(1.001, 15), special=(2.0, 3.0, 1.5, 5.0, 10.0))
MSUP1 = Dom(1, None, lo_eq=True, s=(1.0, 15), special=(1.0, 2.0, 3.0, 1.5))
MSUB = Dom(0, 1, s=(0.02, 0.999), special=(0.5, 0.2, 0.9))
POS = Dom(0, None, s=(0.05, 50), special=(1.0, 2.0, 0.5, 10.0))
REAL = Dom(None, None, s=(-5, 5), special=(0.0, 1.0, -1.0, 2.0))


def slack(x):
    """0 in the proofs; a margin that keeps the concrete runs away from a boundary"""
    return 0 if HOOK is not None else x


# ---- proof hints (no effect on the concrete runs)
def bernoulli(u, e):
    if HOOK is not None:
        HOOK.bernoulli(u, e)


def monotone(label, F, a, b, sense=1, strict=False, when=True):
    if HOOK is not None:
        HOOK.monotone(label, F, a, b, sense, strict, when)


def hint(label, c):
    """prove, then use"""
    if HOOK is not None:
        HOOK.lemma(label, c)


def congruent(f, x, y):
    """x = y => f(x) = f(y)"""
    if HOOK is not None:
        HOOK.congruent(f, x, y)


def cut(env, label, vals, facts, goal, steps=None, keep=False):
    """prove facts(vals); from these facts (with arbitrary values in place of vals; keep: and from what is known) prove goal; then use goal(vals)"""
    if HOOK is None:
        return
    for k, c in enumerate(facts(*vals)):
        env.lemma("%s: fact %d" % (label, k), c)
    with env.aside():
        v = env.fresh(*vals) if keep else env.forget(*vals)
        for c in facts(*v):
            env.assume(c)
        if steps is not None:
            steps(*v)
        env.check("lemma " + label, goal(*v))
    env.p.assume(HOOK.b2t(goal(*vals)))


class Lemma:
    """goal(env, *vals) follows from facts(env, *vals) for all real vals: proved in its own unit by prove(), used by use()"""

    def __init__(self, facts, goal, steps=None):
        self.facts, self.goal, self.steps = facts, goal, steps

    def prove(self, env, *vals):
        for c in self.facts(*vals):
            env.assume(c)
        if self.steps is not None and HOOK is not None:
            self.steps(*vals)
        env.check("lemma", self.goal(*vals))

    def use(self, label, *vals):
        if HOOK is None:
            return
        for k, c in enumerate(self.facts(*vals)):
            HOOK.lemma("%s: fact %d" % (label, k), c)
        HOOK.assume(self.goal(*vals))


def symbolic():
    return HOOK is not None


def uf(name, *args):
    return HOOK.uf(name, *args)


OPQ = {}


def opaque(name, facts=None):
    """a specification function that a unit may keep uninterpreted (option opaque=(name, ...)); facts(result, *args) are then
    known about it, they are proved by the scenario `facts about opaque functions`"""
    def deco(f):
        OPQ[name] = (f, facts)

        def g(*args):
            if HOOK is not None and HOOK.is_opaque(name):
                return HOOK.uf("opq:" + name, *args)
            return f(*args)
        g.__name__ = f.__name__
        g.__wrapped__ = f
        return g
    return deco


def const1(x):
    """the symbolic value is the literal 1"""
    e = getattr(x, "e", x)
    return getattr(e, "op", None) == "const" and e.val == 1 or (isinstance(x, (int, float)) and x == 1)
