"""Hash-consed terms of the verifier's assertion language (first-order terms over the reals,
integers used as array indices, and booleans).

The constructors only do constant folding and flattening; everything with mathematical content
happens in norm.py / prover.py.
"""
from fractions import Fraction as Fr

_TABLE = {}
_CNT = [0]


class E:
    __slots__ = ("op", "args", "val", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (_rebuild, (self.op, self.args, self.val))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _rebuild(op, args, val):
    return mk(op, args, val)


def mk(op, args=(), val=None):
    k = (op, tuple(a.id for a in args), val)
    e = _TABLE.get(k)
    if e is None:
        e = E.__new__(E)
        e.op, e.args, e.val = op, tuple(args), val
        e.id = _CNT[0]
        _CNT[0] += 1
        _TABLE[k] = e
    return e


BOOL_OPS = {"lt", "le", "eq", "and", "or", "not", "true", "false", "bvar", "ubool", "bite"}

TRUE = mk("true")
FALSE = mk("false")


def is_bool(e):
    return e.op in BOOL_OPS


def const(x):
    if isinstance(x, bool):
        x = int(x)
    return mk("const", (), Fr(x))


ZERO, ONE, TWO = const(0), const(1), const(2)
HALF = const(Fr(1, 2))


def var(name, kind="R"):
    """kind: R real, I integer"""
    return mk("var", (), (name, kind))


def bvar(name):
    return mk("bvar", (), name)


PI = mk("var", (), ("pi", "R"))


def add(*xs):
    out, c = [], Fr(0)
    for x in xs:
        if x.op == "const":
            c += x.val
        elif x.op == "add":
            for y in x.args:
                if y.op == "const":
                    c += y.val
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.id)
    return mk("add", out)


def mul(*xs):
    out, c = [], Fr(1)
    for x in xs:
        if x.op == "const":
            c *= x.val
        elif x.op == "mul":
            for y in x.args:
                if y.op == "const":
                    c *= y.val
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0 and all(total(x) for x in out):
        return ZERO
    if c != 1 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.id)
    return mk("mul", out)


_TOT = {}


def total(e):
    """syntactically total term (no partial operation inside)"""
    r = _TOT.get(e.id)
    if r is None:
        if e.op in ("const", "var"):
            r = True
        elif e.op in ("add", "mul", "ite", "lt", "le", "eq", "and", "or", "not", "uf"):
            r = all(total(a) for a in e.args)
        elif e.op == "pow":
            r = e.args[1].op == "const" and e.args[1].val.denominator == 1 and e.args[1].val > 0 and total(e.args[0])
        elif e.op in ("true", "false", "bvar"):
            r = True
        else:
            r = False
        _TOT[e.id] = r
    return r


def neg(x):
    return mul(const(-1), x)


def sub(a, b):
    return add(a, neg(b))


def power(b, e):
    if e.op == "const":
        if e.val == 1:
            return b
        if e.val == 0:
            return ONE
        if b.op == "const" and e.val.denominator == 1:
            if not (b.val == 0 and e.val < 0):
                return const(b.val ** int(e.val))
        if b.op == "pow" and e.val.denominator == 1 and b.args[1].op == "const":
            if b.args[1].val.denominator == 1:
                # (x^m)^n, integers: only when no definedness is lost (x^-1)^-1 keeps the partial op
                if b.args[1].val > 0 and e.val > 0:
                    return power(b.args[0], const(b.args[1].val * e.val))
    if b.op == "const" and b.val == 1:
        return ONE
    return mk("pow", (b, e))


def div(a, b):
    return mul(a, power(b, const(-1)))


def fn(name, *args):
    return mk("fn", args, name)


def uf(name, *args):
    return mk("uf", args, name)


def sqrt(x):
    return power(x, HALF)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) or is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b))


def lt(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.val < b.val else FALSE
    if a is b and total(a):
        return FALSE
    return mk("lt", (a, b))


def le(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.val <= b.val else FALSE
    if a is b and total(a):
        return TRUE
    return mk("le", (a, b))


def eq(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.val == b.val else FALSE
    if a is b and total(a):
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b))


def and_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out)


def or_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", out)


def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.args[0]
    if x.op == "lt":
        return le(x.args[1], x.args[0])
    if x.op == "le":
        return lt(x.args[1], x.args[0])
    if x.op == "and":
        return or_(*[not_(y) for y in x.args])
    if x.op == "or":
        return and_(*[not_(y) for y in x.args])
    return mk("not", (x,))


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- traversal


def rebuild(e, args):
    op = e.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    return mk(op, args, e.val)


def subst(e, m, memo=None):
    """replace subterms (dict E->E)"""
    if memo is None:
        memo = {}
    r = m.get(e)
    if r is not None:
        return r
    if not e.args:
        return e
    r = memo.get(e.id)
    if r is None:
        na = [subst(a, m, memo) for a in e.args]
        r = e if all(x is y for x, y in zip(na, e.args)) else rebuild(e, na)
        memo[e.id] = r
    return r


_FV = {}


def free_vars(e):
    r = _FV.get(e.id)
    if r is None:
        if e.op in ("var", "bvar"):
            r = frozenset([e])
        elif not e.args:
            r = frozenset()
        else:
            s = set()
            for a in e.args:
                s |= free_vars(a)
            if e.op == "sum":
                s.discard(e.args[0])
            r = frozenset(s)
        _FV[e.id] = r
    return r


_IA = {}
_UFS = {}


def is_int(e):
    if e.op == "var":
        return e.val[1] == "I"
    if e.op == "const":
        return e.val == int(e.val)
    if e.op in ("add", "mul"):
        return all(is_int(a) for a in e.args)
    return False


def int_args(e):
    """compound integer arguments of the uninterpreted functions (array reads) of e"""
    r = _IA.get(e.id)
    if r is None:
        s = set()
        for a in e.args:
            s |= int_args(a)
        if e.op in ("uf", "ubool") and not (isinstance(e.val, str) and e.val.startswith(("res:", "opq:"))):
            for a in e.args:
                if a.op in ("add", "mul", "const") and is_int(a):
                    s.add(a)
        r = _IA[e.id] = frozenset(s)
    return r


def ufs(e):
    """results of relational contracts in e"""
    r = _UFS.get(e.id)
    if r is None:
        s = set()
        for a in e.args:
            s |= ufs(a)
        if e.op == "uf" and e.val.startswith(("res:", "opq:")):
            s.add(e)
        r = _UFS[e.id] = frozenset(s)
    return r


def subterms(e, seen=None):
    if seen is None:
        seen = set()
    if e.id in seen:
        return
    seen.add(e.id)
    yield e
    for a in e.args:
        yield from subterms(a, seen)


_FRESH = [0]


def fresh_name(base):
    _FRESH[0] += 1
    return "%s!%d" % (base, _FRESH[0])


def reset_fresh():
    _FRESH[0] = 0


# ---------------------------------------------------------------- calculus


def diff(e, x):
    """derivative of a real term with respect to the variable x (rules of differentiation; trusted)"""
    memo = {}

    def d(t):
        if x not in free_vars(t):
            return ZERO
        r = memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if t is x:
            r = ONE
        elif op == "add":
            r = add(*[d(a) for a in t.args])
        elif op == "mul":
            ts = []
            for i, a in enumerate(t.args):
                da = d(a)
                if da is not ZERO:
                    ts.append(mul(da, *(t.args[:i] + t.args[i + 1:])))
            r = add(*ts) if ts else ZERO
        elif op == "pow":
            b, ex = t.args
            if x not in free_vars(ex):
                r = mul(ex, power(b, sub(ex, ONE)), d(b))
            else:
                r = mul(t, add(mul(d(ex), fn("log", b)), mul(ex, d(b), power(b, const(-1)))))
        elif op == "fn":
            a = t.args[0]
            n = t.val
            if n == "exp":
                r = mul(t, d(a))
            elif n == "log":
                r = div(d(a), a)
            elif n == "sin":
                r = mul(fn("cos", a), d(a))
            elif n == "cos":
                r = mul(const(-1), fn("sin", a), d(a))
            elif n == "tan":
                r = mul(add(ONE, power(t, TWO)), d(a))
            elif n == "atan":
                r = div(d(a), add(ONE, power(a, TWO)))
            elif n == "asin":
                r = div(d(a), sqrt(sub(ONE, power(a, TWO))))
            elif n == "acos":
                r = neg(div(d(a), sqrt(sub(ONE, power(a, TWO)))))
            else:
                raise NotImplementedError("derivative of %s" % n)
        elif op == "ite":
            r = ite(t.args[0], d(t.args[1]), d(t.args[2]))
        else:
            raise NotImplementedError("derivative of %s" % op)
        memo[t.id] = r
        return r

    return d(e)


# ---------------------------------------------------------------- numeric evaluation (for models)


def evalf(e, env):
    """float evaluation of a term; env maps variable name -> float. Raises on domain errors."""
    import math

    memo = {}

    def ev(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == "const":
            r = float(t.val)
        elif op == "var":
            r = math.pi if t is PI else env[t.val[0]]
        elif op == "bvar":
            r = env[t.val]
        elif op == "true":
            r = True
        elif op == "false":
            r = False
        elif op == "ite":
            r = ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        elif op == "and":
            r = all(ev(a) for a in t.args)
        elif op == "or":
            r = any(ev(a) for a in t.args)
        else:
            a = [ev(x) for x in t.args]
            if op == "add":
                r = math.fsum(a)
            elif op == "mul":
                r = 1.0
                for y in a:
                    r *= y
            elif op == "pow":
                r = math.pow(a[0], a[1])
            elif op == "lt":
                r = a[0] < a[1]
            elif op == "le":
                r = a[0] <= a[1]
            elif op == "eq":
                r = abs(a[0] - a[1]) <= 1e-9 * max(1.0, abs(a[0]), abs(a[1]))
            elif op == "not":
                r = not a[0]
            elif op == "fn":
                n = t.val
                if n == "atan2":
                    r = math.atan2(*a)
                elif n == "abs":
                    r = abs(a[0])
                elif n == "floor":
                    r = math.floor(a[0])
                elif n == "trunc":
                    r = math.trunc(a[0])
                elif n == "idiv":
                    r = a[0] // a[1]
                elif n == "imod":
                    r = a[0] % a[1]
                elif n == "sinh":
                    r = math.sinh(a[0])
                else:
                    r = getattr(math, n)(*a)
            else:
                raise KeyError(op)
        memo[t.id] = r
        return r

    return ev(e)


# ---------------------------------------------------------------- printing


def show(e, depth=12):
    if depth <= 0:
        return "…"
    op = e.op
    a = [show(x, depth - 1) for x in e.args] if op not in ("const", "var") else []
    if op == "const":
        return str(e.val)
    if op == "var":
        return e.val[0]
    if op in ("true", "false"):
        return op
    if op == "bvar":
        return e.val
    if op == "add":
        return "(" + " + ".join(a) + ")"
    if op == "mul":
        return "*".join(a)
    if op == "pow":
        return "(%s)^(%s)" % tuple(a)
    if op == "lt":
        return "%s < %s" % tuple(a)
    if op == "le":
        return "%s <= %s" % tuple(a)
    if op == "eq":
        return "%s == %s" % tuple(a)
    if op == "and":
        return "(" + " & ".join(a) + ")"
    if op == "or":
        return "(" + " | ".join(a) + ")"
    if op == "not":
        return "!(%s)" % a[0]
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(a)
    return "%s(%s)" % (e.val if e.val is not None else op, ", ".join(a))
