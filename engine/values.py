"""Symbolic scalars: Sym (real or integer), SymB (boolean), CX (complex)."""
from fractions import Fraction as Fr
import numbers

from . import terms as T
from .explore import cur, Unsupported


def is_sym(x):
    return isinstance(x, (Sym, SymB, CX))


def term(x):
    """real term of a scalar"""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool):
        return T.ONE if x else T.ZERO
    if isinstance(x, (int, Fr)):
        return T.const(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non finite float")
        return T.const(Fr(repr(x)))
    if isinstance(x, SymB):
        return T.ite(x.e, T.ONE, T.ZERO)
    if isinstance(x, T.E):
        return x
    if hasattr(x, "_as_term"):
        return x._as_term()
    raise TypeError("not a real scalar: %r" % (type(x),))


def term_bool(x):
    if isinstance(x, SymB):
        return x.e
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, T.E):
        if T.is_bool(x):
            return x
        return T.not_(T.eq(x, T.ZERO))
    if isinstance(x, (Sym, int, float, Fr)):
        return T.not_(T.eq(term(x), T.ZERO))
    if hasattr(x, "_as_bool"):
        return x._as_bool()
    raise TypeError("not a boolean: %r" % (type(x),))


def scalar_ok(x):
    return isinstance(x, (Sym, int, float, Fr, SymB)) or (isinstance(x, numbers.Number) and not isinstance(x, complex))


def kind(x):
    if isinstance(x, Sym):
        return x.k
    if isinstance(x, (bool, int, SymB)):
        return "I"
    return "R"


def _bin(f, keepint=True, swap=False):
    def op(self, o):
        if isinstance(o, complex):
            o = CX.of(o)
        if isinstance(o, CX):
            a, b = (o, CX.of(self)) if swap else (CX.of(self), o)
            return f_c[f](a, b)
        if not scalar_ok(o):
            return NotImplemented
        a, b = self.e, term(o)
        if swap:
            a, b = b, a
        k = "I" if keepint and self.k == "I" and kind(o) == "I" else "R"
        return Sym(f(a, b), k)

    return op


def _cmp(f):
    def op(self, o):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            # reals are below +inf and above -inf
            one = T.ZERO, (T.ONE if o > 0 else T.const(-1))
            return SymB(f(*one))
        if not scalar_ok(o):
            return NotImplemented
        return SymB(f(self.e, term(o)))

    return op


class Sym:
    __slots__ = ("e", "k")
    __array_priority__ = 10.0

    def __init__(self, e, k="R"):
        self.e = e
        self.k = k

    __add__ = _bin(T.add)
    __radd__ = _bin(T.add, swap=True)
    __sub__ = _bin(T.sub)
    __rsub__ = _bin(T.sub, swap=True)
    __mul__ = _bin(T.mul)
    __rmul__ = _bin(T.mul, swap=True)
    __truediv__ = _bin(T.div, keepint=False)
    __rtruediv__ = _bin(T.div, keepint=False, swap=True)

    def __pow__(self, o):
        if isinstance(o, (CX, complex)):
            raise Unsupported("complex power")
        if not scalar_ok(o):
            return NotImplemented
        t = term(o)
        k = "I" if self.k == "I" and kind(o) == "I" and t.op == "const" and t.val >= 0 else "R"
        return Sym(T.power(self.e, t), k)

    def __rpow__(self, o):
        if not scalar_ok(o):
            return NotImplemented
        b = term(o)
        if b.op == "const" and b.val == -1 and self.k == "I":
            return Sym(T.uf("negpow", self.e), "R")
        return Sym(T.power(b, self.e), "R")

    def __floordiv__(self, o):
        if not scalar_ok(o):
            return NotImplemented
        if self.k == "I" and kind(o) == "I":
            return Sym(idiv(self.e, term(o)), "I")
        return Sym(T.fn("floor", T.div(self.e, term(o))), "R")

    def __rfloordiv__(self, o):
        return Sym(term(o), kind(o)) // self

    def __mod__(self, o):
        if not scalar_ok(o):
            return NotImplemented
        if self.k == "I" and kind(o) == "I":
            return Sym(imod(self.e, term(o)), "I")
        q = T.fn("floor", T.div(self.e, term(o)))
        return Sym(T.sub(self.e, T.mul(q, term(o))), "R")

    def __rmod__(self, o):
        return Sym(term(o), kind(o)) % self

    def __neg__(self):
        return Sym(T.neg(self.e), self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(T.ite(T.le(T.ZERO, self.e), self.e, T.neg(self.e)), self.k)

    __lt__ = _cmp(T.lt)
    __le__ = _cmp(T.le)
    __gt__ = _cmp(lambda a, b: T.lt(b, a))
    __ge__ = _cmp(lambda a, b: T.le(b, a))
    __eq__ = _cmp(T.eq)
    __ne__ = _cmp(lambda a, b: T.not_(T.eq(a, b)))

    def __hash__(self):
        if self.e.op == "const":
            return hash(self.e.val)
        return hash(("Sym", self.e.id))

    def __bool__(self):
        return cur().branch(T.not_(T.eq(self.e, T.ZERO)))

    def __index__(self):
        if self.e.op == "const" and self.e.val.denominator == 1 and self.k == "I":
            return int(self.e.val)
        raise Unsupported("symbolic integer used as a concrete index")

    def __int__(self):
        if self.e.op == "const":
            import math
            return math.trunc(self.e.val)
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        raise Unsupported("float() of a symbolic value by a C function")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        if n is not None and not isinstance(n, int):
            raise Unsupported("round")
        s = T.const(Fr(10) ** (n or 0))
        return Sym(T.div(T.uf("rint", T.mul(self.e, s)), s), "I" if n is None else "R")

    def __trunc__(self):
        return Sym(T.fn("trunc", self.e), "I")

    def __floor__(self):
        return Sym(T.fn("floor", self.e), "I")

    def __ceil__(self):
        return Sym(T.neg(T.fn("floor", T.neg(self.e))), "I")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<%s>" % T.show(self.e, 6)

    def __format__(self, spec):
        """a mark that printed_numbers() of the environment turns back into the value (rounding of the format is dropped)"""
        SHOWN[self.e.id] = self
        return "<value#%d>" % self.e.id

    # numpy scalar / 0-d interface
    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(T.ZERO, self.k)

    def conjugate(self):
        return self

    @property
    def size(self):
        return _npscalar(self, "size", 1)

    @property
    def ndim(self):
        return _npscalar(self, "ndim", 0)

    @property
    def shape(self):
        return _npscalar(self, "shape", ())

    def copy(self):
        return _npscalar(self, "copy", self)

    def astype(self, d):
        from . import larr
        return _npscalar(self, "astype", larr.cast_scalar(self, larr.dtype_of(d)))

    def is_integer(self):
        return SymB(T.eq(self.e, T.fn("floor", self.e)))

    def __getattr__(self, n):
        if n in ("min", "max", "sum", "mean", "all", "any", "flatten", "ravel", "reshape", "T", "dtype", "__array__"):
            raise AttributeError("scalar has no attribute %r" % n)
        raise AttributeError("scalar has no attribute %r" % n)


def _npscalar(x, name, v):
    """attributes that numpy scalars have but Python floats do not: the unit decides (scalar mode)"""
    p = cur()
    if p.state.get("pyfloat", True) and x.e.op in ("var", "const"):
        raise AttributeError("'float' object has no attribute %r" % name)
    return v


class SymB:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        if isinstance(o, (SymB, bool)):
            return SymB(T.and_(self.e, term_bool(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymB, bool)):
            return SymB(T.or_(self.e, term_bool(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.e, term_bool(o)
        return SymB(T.or_(T.and_(a, T.not_(b)), T.and_(T.not_(a), b)))

    def __invert__(self):
        return SymB(T.not_(self.e))

    def _num(self):
        return Sym(T.ite(self.e, T.ONE, T.ZERO), "I")

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __eq__(self, o):
        if isinstance(o, (bool, SymB)):
            b = term_bool(o)
            return SymB(T.or_(T.and_(self.e, b), T.and_(T.not_(self.e), T.not_(b))))
        return self._num() == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(("SymB", self.e.id))

    def any(self):
        return self

    def all(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<%s>" % T.show(self.e, 6)


class CX:
    """complex scalar"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, CX):
            return x
        if isinstance(x, complex):
            return CX(term(x.real), term(x.imag))
        return CX(term(x), T.ZERO)

    def __add__(self, o):
        if not (isinstance(o, (CX, complex)) or scalar_ok(o)):
            return NotImplemented
        o = CX.of(o)
        return CX(T.add(self.re, o.re), T.add(self.im, o.im))

    __radd__ = __add__

    def __neg__(self):
        return CX(T.neg(self.re), T.neg(self.im))

    def __sub__(self, o):
        if not (isinstance(o, (CX, complex)) or scalar_ok(o)):
            return NotImplemented
        return self + (-CX.of(o))

    def __rsub__(self, o):
        return CX.of(o) - self

    def __mul__(self, o):
        if not (isinstance(o, (CX, complex)) or scalar_ok(o)):
            return NotImplemented
        o = CX.of(o)
        return CX(T.sub(T.mul(self.re, o.re), T.mul(self.im, o.im)), T.add(T.mul(self.re, o.im), T.mul(self.im, o.re)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not (isinstance(o, (CX, complex)) or scalar_ok(o)):
            return NotImplemented
        o = CX.of(o)
        if o.im is T.ZERO:
            return CX(T.div(self.re, o.re), T.div(self.im, o.re))
        d = T.add(T.power(o.re, T.TWO), T.power(o.im, T.TWO))
        n = self * CX(o.re, T.neg(o.im))
        return CX(T.div(n.re, d), T.div(n.im, d))

    def __rtruediv__(self, o):
        return CX.of(o) / self

    def __pow__(self, n):
        if isinstance(n, Sym) and n.e.op == "const" and n.e.val.denominator == 1:
            n = int(n.e.val)
        if isinstance(n, int) and n >= 0:
            r = CX(T.ONE, T.ZERO)
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported("complex power")

    @property
    def real(self):
        return Sym(self.re)

    @property
    def imag(self):
        return Sym(self.im)

    def conjugate(self):
        return CX(self.re, T.neg(self.im))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<%s + i %s>" % (T.show(self.re, 4), T.show(self.im, 4))


SHOWN = {}

f_c = {T.add: lambda a, b: a + b, T.sub: lambda a, b: a - b, T.mul: lambda a, b: a * b, T.div: lambda a, b: a / b}


def real(name):
    return Sym(T.var(name))


def integer(name):
    return Sym(T.var(name, "I"), "I")


def intlin(e):
    """integer linear form {term: coefficient}, constant under None"""
    d = {}

    def add(t, c):
        if t.op == "const":
            d[None] = d.get(None, 0) + c * t.val
        elif t.op == "add":
            for a in t.args:
                add(a, c)
        elif t.op == "mul" and any(a.op == "const" for a in t.args):
            k = [a for a in t.args if a.op == "const"][0]
            add(T.mul(*[a for a in t.args if a is not k]), c * k.val)
        else:
            d[t] = d.get(t, 0) + c

    add(e, 1)
    return d


def idiv(a, b):
    """floor division of integers: multiples of the divisor are taken out"""
    if b.op == "const" and b.val > 0 and b.val.denominator == 1:
        d = intlin(a)
        k = int(b.val)
        if all(c.denominator == 1 for c in d.values()):
            out, rest = [], []
            for t, c in d.items():
                c = int(c)
                if t is None:
                    out.append(T.const(c // k))
                    rest.append(T.const(c % k))
                elif c % k == 0:
                    out.append(T.mul(T.const(c // k), t))
                else:
                    rest.append(T.mul(T.const(c), t))
            r = T.add(*rest) if rest else T.ZERO
            if r.op == "const" and 0 <= r.val < k:
                return T.add(*out) if out else T.ZERO
            if out and any(o is not T.ZERO for o in out):
                return T.add(T.fn("idiv", r, b), *out)
    return T.fn("idiv", a, b)


def imod(a, b):
    if b.op == "const" and b.val > 0:
        q = idiv(a, b)
        if not (q.op == "fn" and q.args[0] is a):
            return T.sub(a, T.mul(b, q))
    return T.fn("imod", a, b)
