"""Trusted contracts on the dependencies: numpy, math, scipy, inspect and the Python builtins that
touch numbers.  Each entry is the mathematical (real arithmetic) meaning of the function."""
import builtins
import functools as _ft
import itertools
import types
from fractions import Fraction as Fr

from . import terms as T
from .explore import Unsupported, cur, CUR
from .values import Sym, SymB, CX, term, term_bool, scalar_ok, kind, is_sym
from . import larr as L
from .larr import LArr, MArr, ew, asarray, DTYPES, dtype_of, promote, dt_scalar, elem, wrap, dimterm, pydim

PI_S = Sym(T.PI)


def is_arr(x):
    return isinstance(x, (LArr, MArr))


def num(x):
    return scalar_ok(x) or isinstance(x, (CX, complex))


def arr(x):
    if isinstance(x, (list, tuple)):
        return asarray(x)
    return x


def unop(name, f, fc=None, keepint=False):
    """element-wise function: f on real terms"""

    def g(x, out=None, where=True, dtype=None, **kw):
        if where is not True:
            return _where_arg(g, (x,), out, where)
        if kw:
            raise Unsupported("%s(%s)" % (name, ", ".join(kw)))
        x = arr(x)
        if is_arr(x):
            if x.dt == "c":
                if fc is None:
                    raise Unsupported("complex %s" % name)
                r = ew(fc[0], (x,), fc[1])
            else:
                dt = "i" if keepint and x.dt in ("i", "b") else "f"
                r = ew(f, (x,), dt, promote(x.dt, "i"))
            if out is not None:
                out.assign(r)
                return out
            return r
        if isinstance(x, (CX, complex)):
            if fc is None:
                raise Unsupported("complex %s" % name)
            return wrap(fc[0](CX.of(x)), fc[1])
        if not scalar_ok(x):
            raise TypeError("loop of ufunc %s does not support argument of type %s" % (name, type(x).__name__))
        return Sym(f(term(x)), "I" if keepint and kind(x) == "I" else "R")

    g.__name__ = name
    return g


def _where_arg(g, args, out, where):
    args = [arr(a) for a in args]
    r = g(*args)
    if out is None:
        raise Unsupported("ufunc where= without out=")
    w = arr(where)
    res = where3(w, r, out)
    out.assign(res if is_arr(res) else asarray(res))
    return out


def binop(name, f, dtf=None, intok=False):
    def g(x, y, out=None, where=True, **kw):
        if where is not True:
            return _where_arg(g, (x, y), out, where)
        if kw:
            raise Unsupported(name)
        x, y = arr(x), arr(y)
        if is_arr(x) or is_arr(y):
            if not (is_arr(x) or num(x)) or not (is_arr(y) or num(y)):
                raise TypeError("ufunc %s: bad operand" % name)
            d1 = x.dt if is_arr(x) else dt_scalar(x)
            d2 = y.dt if is_arr(y) else dt_scalar(y)
            dt = promote(d1, d2, "i")
            if dt == "c":
                raise Unsupported("complex %s" % name)
            if not intok:
                dt = "f"
            r = ew(f, (x, y), dtf or dt, dt)
            if out is not None:
                out.assign(r)
                return out
            return r
        if not scalar_ok(x) or not scalar_ok(y):
            raise Unsupported("%s of %s, %s" % (name, type(x).__name__, type(y).__name__))
        r = f(term(x), term(y))
        if dtf == "b":
            return wrap(r, "b")
        return Sym(r, "I" if intok and kind(x) == "I" and kind(y) == "I" else "R")

    g.__name__ = name
    return g


def lift(op):
    """python operator applied after converting lists"""

    def g(x, y, out=None, **kw):
        if kw:
            raise Unsupported("ufunc keyword")
        x, y = arr(x), arr(y)
        x, y = _npnum(x), _npnum(y)
        r = op(x, y)
        if out is not None:
            out.assign(r)
            return out
        return r

    return g


def _npnum(x):
    if isinstance(x, (int, bool, float)) and not isinstance(x, Sym):
        return Sym(term(x), kind(x)) if not isinstance(x, bool) else x
    return x


def blogic(fb):
    def g(x, y, out=None):
        x, y = tob(arr(x)), tob(arr(y))
        if is_arr(x) or is_arr(y):
            return ew(fb, (x, y), "b", "b")
        return wrap(fb(term_bool(x), term_bool(y)), "b")

    return g


def tob(x):
    if is_arr(x):
        return x if x.dt == "b" else (x != 0)
    if isinstance(x, (bool, SymB)):
        return x
    return x != 0


def lnot(x):
    x = tob(arr(x))
    if is_arr(x):
        return ~x
    return wrap(T.not_(term_bool(x)), "b")


def where3(c, a, b):
    c, a, b = arr(c), arr(a), arr(b)
    c = tob(c)
    if not is_arr(c) and not is_arr(a) and not is_arr(b):
        d = promote(dt_scalar(a), dt_scalar(b))
        e = L.ite_elem(term_bool(c), L.conv(elem(a), dt_scalar(a), d), L.conv(elem(b), dt_scalar(b), d), d)
        return wrap(e, d)
    da = a.dt if is_arr(a) else dt_scalar(a)
    db = b.dt if is_arr(b) else dt_scalar(b)
    d = promote(da, db)
    # conditions keep their own dtype: evaluate through a helper that converts a, b
    if is_arr(a) and a.dt != d:
        a = a.astype(DTYPES[d])
    if is_arr(b) and b.dt != d:
        b = b.astype(DTYPES[d])
    if not is_arr(a):
        a = wrap(L.conv(elem(a), da, d), d)
    if not is_arr(b):
        b = wrap(L.conv(elem(b), db, d), d)
    return ew(lambda x, y, z: L.ite_elem(x, y, z, d), (c, a, b), d)


def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    return where3(c, a, b)


def _max(x, y):
    return T.ite(T.lt(x, y), y, x)


def _min(x, y):
    return T.ite(T.lt(y, x), y, x)


def clip(x, lo=None, hi=None, a_min=None, a_max=None, out=None, min=None, max=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    lo = min if lo is None else lo
    hi = max if hi is None else hi
    r = x
    if lo is not None:
        r = np_maximum(r, lo)
    if hi is not None:
        r = np_minimum(r, hi)
    if out is not None:
        out.assign(r)
        return out
    return r


np_maximum = binop("maximum", _max, intok=True)
np_minimum = binop("minimum", _min, intok=True)


def fsign(x):
    return T.ite(T.lt(T.ZERO, x), T.ONE, T.ite(T.lt(x, T.ZERO), T.const(-1), T.ZERO))


def fabs(x):
    return T.ite(T.le(T.ZERO, x), x, T.neg(x))


def cabs(a):
    return T.sqrt(T.add(T.power(a.re, T.TWO), T.power(a.im, T.TWO)))


def cbrt(x):
    return T.mul(fsign(x), T.power(fabs(x), T.const(Fr(1, 3))))


def half(x):
    return T.mul(T.HALF, x)


F = {
    "sqrt": T.sqrt,
    "exp": lambda x: T.fn("exp", x),
    "log": lambda x: T.fn("log", x),
    "sin": lambda x: T.fn("sin", x),
    "cos": lambda x: T.fn("cos", x),
    "tan": lambda x: T.fn("tan", x),
    "atan": lambda x: T.fn("atan", x),
    "asin": lambda x: T.fn("asin", x),
    "acos": lambda x: T.fn("acos", x),
    "log1p": lambda x: T.fn("log", T.add(T.ONE, x)),
    "expm1": lambda x: T.sub(T.fn("exp", x), T.ONE),
    "log10": lambda x: T.div(T.fn("log", x), T.fn("log", T.const(10))),
    "log2": lambda x: T.div(T.fn("log", x), T.fn("log", T.TWO)),
    "exp2": lambda x: T.power(T.TWO, x),
    "cbrt": cbrt,
    "sinh": lambda x: half(T.sub(T.fn("exp", x), T.fn("exp", T.neg(x)))),
    "cosh": lambda x: half(T.add(T.fn("exp", x), T.fn("exp", T.neg(x)))),
    "tanh": lambda x: T.sub(T.ONE, T.div(T.TWO, T.add(T.fn("exp", T.mul(T.TWO, x)), T.ONE))),
    "degrees": lambda x: T.div(T.mul(x, T.const(180)), T.PI),
    "radians": lambda x: T.div(T.mul(x, T.PI), T.const(180)),
    "square": lambda x: T.power(x, T.TWO),
    "reciprocal": lambda x: T.div(T.ONE, x),
    "floor": lambda x: T.fn("floor", x),
    "ceil": lambda x: T.neg(T.fn("floor", T.neg(x))),
    "trunc": lambda x: T.fn("trunc", x),
    "rint": lambda x: T.uf("rint", x),
    "sinc": None,
}
FB = {
    "atan2": lambda y, x: T.fn("atan2", y, x),
    "hypot": lambda x, y: T.sqrt(T.add(T.power(x, T.TWO), T.power(y, T.TWO))),
    "fmod": None,
    "copysign": lambda x, y: T.mul(fabs(x), T.ite(T.lt(y, T.ZERO), T.const(-1), T.ONE)),
    "heaviside": lambda x, y: T.ite(T.lt(x, T.ZERO), T.ZERO, T.ite(T.eq(x, T.ZERO), y, T.ONE)),
}


# ------------------------------------------------------------------ array construction


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(dimterm(x) for x in s)
    if is_arr(s):
        raise Unsupported("shape given by an array")
    if kind(s) != "I":
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (dimterm(s),)


def full_(shape, e, dt):
    return LArr.new(lambda idx: e, _shape(shape), dt)


def zero(dt):
    return {"c": CX(T.ZERO, T.ZERO), "b": T.FALSE}.get(dt, T.ZERO)


def one(dt):
    return {"c": CX(T.ONE, T.ZERO), "b": T.TRUE}.get(dt, T.ONE)


def zeros(shape, dtype=None, order=None):
    d = dtype_of(dtype)
    return full_(shape, zero(d), d)


def ones(shape, dtype=None, order=None):
    d = dtype_of(dtype)
    return full_(shape, one(d), d)


def full(shape, v, dtype=None, order=None):
    if is_arr(v):
        raise Unsupported("np.full of an array")
    d = dtype_of(dtype) if dtype is not None else dt_scalar(v)
    return full_(shape, L.conv(elem(v), dt_scalar(v), d), d)


_emp = [0]


def empty(shape, dtype=None, order=None):
    d = dtype_of(dtype)
    sh = _shape(shape)
    return L.mkvar(T.fresh_name("empty"), sh, d)


def _like(x, dtype):
    x = arr(x)
    if is_arr(x):
        if isinstance(x, MArr):
            raise Unsupported("like of a masked selection")
        return x._shape, dtype_of(dtype) if dtype is not None else x.dt
    return (), dtype_of(dtype) if dtype is not None else dt_scalar(x)


def zeros_like(x, dtype=None, shape=None, **k):
    s, d = _like(x, dtype)
    return full_(s if shape is None else shape, zero(d), d)


def ones_like(x, dtype=None, shape=None, **k):
    s, d = _like(x, dtype)
    return full_(s if shape is None else shape, one(d), d)


def empty_like(x, dtype=None, shape=None, **k):
    s, d = _like(x, dtype)
    return empty(s if shape is None else shape, DTYPES[d])


def full_like(x, v, dtype=None, shape=None, **k):
    s, d = _like(x, dtype)
    if is_arr(v):
        r = empty(s, DTYPES[d])
        r.assign(v)
        return r
    return full_(s, L.conv(elem(v), dt_scalar(v), d), d)


def array(x, dtype=None, copy=True, ndmin=0, order=None, **kw):
    d = dtype_of(dtype) if dtype is not None else None
    if isinstance(x, types.GeneratorType) or isinstance(x, (range, map)):
        x = list(x)
    from .loader import SymList

    if isinstance(x, SymList):
        return SymListArr(x)
    if isinstance(x, MArr):
        return x.astype(DTYPES[d]) if d else x
    r = asarray(x, d)
    if isinstance(x, LArr) and copy and r is x:
        r = x.copy()
    if ndmin:
        while len(r._shape) < ndmin:
            r = r[None]
    return r


class SymListArr:
    """array made from a list of unknown length: first and last elements are known"""

    def __init__(self, sl):
        self.sl = sl
        self.first, self.last = sl.first, sl.last

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            return self[i[0]][i[1]]
        return self.sl[i]


def np_asarray(x, dtype=None, order=None, **k):
    return array(x, dtype, copy=False)


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if step != 1 or kind(a) != "I" or kind(b) != "I":
        if all(isinstance(v, int) or (isinstance(v, Sym) and v.e.op == "const") for v in (a, b, step)):
            import math
            A, B, S = (Fr(term(v).val) for v in (a, b, step))
            n = max(0, math.ceil((B - A) / S))
            r = asarray([Sym(T.const(A + i * S), "I" if all(kind(v) == "I" for v in (a, b, step)) else "R") for i in range(n)])
            return r.astype(dtype) if dtype is not None else r
        raise Unsupported("arange with a real step")
    A, B = term(a), term(b)
    n = T.sub(B, A)
    d = dtype_of(dtype) if dtype is not None else "i"
    return LArr.new(lambda idx: T.add(A, idx[0]), (n,), d)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    A, B, n = term(a), term(b), term(num)
    den = T.sub(n, T.ONE) if endpoint else n
    r = LArr.new(lambda idx: T.add(A, T.mul(T.div(idx[0], den), T.sub(B, A))), (n,), "f")
    if retstep:
        return r, Sym(T.div(T.sub(B, A), den))
    return r


def eye(n, M=None, k=0, dtype=None, order=None):
    d = dtype_of(dtype)
    n, m = dimterm(n), dimterm(M if M is not None else n)
    o = one(d)
    z = zero(d)
    kk = dimterm(k)
    r = LArr.new(lambda idx: L.ite_elem(_eqi(T.add(idx[0], kk), idx[1]), o, z, d), (n, m), d)
    if M is None and k == 0:
        r.diagv = LArr.new(lambda idx: o, (n,), d)
    return r


def _eqi(a, b):
    c = T.eq(a, b)
    if c is T.TRUE or c is T.FALSE:
        return c
    return L.simp_cond(c) if CUR[0] is not None else c


def diag(v, k=0):
    v = arr(v)
    if not is_arr(v):
        raise Unsupported("diag of a scalar")
    if k != 0:
        raise Unsupported("diag(k)")
    if len(v._shape) == 2:
        return v.diagonal()
    if len(v._shape) != 1:
        raise ValueError("Input must be 1- or 2-d.")
    s = v.snapshot()
    d = v.dt
    n = v._shape[0]
    r = LArr.new(lambda idx: L.ite_elem(_eqi(idx[0], idx[1]), s.get((idx[0],)), zero(d), d), (n, n), d)
    r.diagv = v.copy()
    return r


def fill_diagonal(a, v, wrap=False):
    if len(a._shape) != 2:
        raise Unsupported("fill_diagonal")
    if not L.same_dim(a._shape[0], a._shape[1]):
        raise Unsupported("fill_diagonal of a non square matrix")
    if is_arr(v):
        s, sd = v.snapshot(), v.dt
        if len(v._shape) != 1:
            raise Unsupported("fill_diagonal")
        if not L.same_dim(v._shape[0], a._shape[0]):
            raise Unsupported("fill_diagonal length")
        get = lambda idx: L.conv(s.get((idx[0],)), sd, a.dt)
    else:
        e = L.conv(elem(v), dt_scalar(v), a.dt)
        get = lambda idx: e
    a._store(get, lambda idx: T.eq(idx[0], idx[1]))
    a.diagv = None


def tile(a, reps):
    a = arr(a)
    if not is_arr(a):
        a = asarray(a)
    if not isinstance(reps, tuple):
        reps = (reps,)
    sh = a._shape
    if len(sh) == 1 and len(reps) == 2 and reps[1] == 1:
        s = a.snapshot()
        return LArr.new(lambda idx: s.get((idx[1],)), (dimterm(reps[0]), sh[0]), a.dt)
    if len(sh) == 1 and len(reps) == 1:
        s = a.snapshot()
        n = sh[0]
        k = reps[0]
        if not isinstance(k, int):
            raise Unsupported("tile with a symbolic count")
        return concatenate([a] * k)
    raise Unsupported("tile")


def _add(*x):
    return T.add(*x)


def concatenate(xs, axis=0, **kw):
    xs = [arr(x) for x in xs]
    nd = len(xs[0]._shape)
    if axis < 0:
        axis += nd
    for x in xs[1:]:
        if len(x._shape) != nd:
            raise ValueError("all the input array dimensions must match")
        for j in range(nd):
            if j != axis and not L.same_dim(xs[0]._shape[j], x._shape[j]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    d = promote(*[x.dt for x in xs])
    sn = [(x.snapshot(), x.dt) for x in xs]
    offs = [T.ZERO]
    for x in xs:
        offs.append(T.add(offs[-1], x._shape[axis]))
    memo = {}

    def fn(idx):
        r = memo.get(idx)
        if r is not None:
            return r
        i = idx[axis]
        # find the block
        conds = []
        for k in range(len(xs)):
            c = T.TRUE if k == len(xs) - 1 else L.simp_cond(T.lt(i, offs[k + 1]))
            if c is T.FALSE:
                continue
            conds.append((c, k))
            if c is T.TRUE:
                break
        def ev(k):
            j = T.sub(i, offs[k])
            s, sd = sn[k]
            return L.conv(s.get(idx[:axis] + (j,) + idx[axis + 1:]), sd, d)
        r = ev(conds[-1][1])
        for c, k in reversed(conds[:-1]):
            r = L.ite_elem(c, ev(k), r, d)
        memo[idx] = r
        return r

    sh = list(xs[0]._shape)
    sh[axis] = offs[-1]
    return LArr.new(fn, sh, d)


def vstack(xs, **k):
    xs = [arr(x) for x in xs]
    xs = [x if is_arr(x) else asarray([x]) for x in xs]
    return concatenate([x if len(x._shape) > 1 else x[None, :] for x in xs], 0)


def hstack(xs, **k):
    xs = [arr(x) for x in xs]
    xs = [x if is_arr(x) else asarray([x]) for x in xs]
    return concatenate(xs, 0 if len(xs[0]._shape) == 1 else 1)


def stack(xs, axis=0):
    if axis == 0:
        return asarray(list(xs))
    r = asarray(list(xs))
    if axis in (-1, len(r._shape) - 1) and len(r._shape) == 2:
        return r.T
    raise Unsupported("stack axis")


def block(rows):
    if isinstance(rows, list) and rows and isinstance(rows[0], list):
        return concatenate([concatenate([arr(x) for x in r], 1) for r in rows], 0)
    if isinstance(rows, list):
        xs = [arr(x) for x in rows]
        return concatenate(xs, len(xs[0]._shape) - 1)
    return rows


def flip(a, axis=None):
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in a._shape)]
    k = [slice(None)] * len(a._shape)
    k[axis] = slice(None, None, -1)
    return a[tuple(k)]


def kron(a, b):
    a, b = arr(a), arr(b)
    if len(a._shape) != 2 or len(b._shape) != 2:
        raise Unsupported("kron")
    if not all(x.op == "const" for x in a._shape):
        raise Unsupported("kron with a symbolic first operand")
    r, c = int(a._shape[0].val), int(a._shape[1].val)
    sa = a.snapshot()
    return block([[wrap(sa.get((T.const(i), T.const(j))), a.dt) * b for j in range(c)] for i in range(r)])


def outer(a, b):
    return asarray(a)[:, None] * asarray(b)[None, :]


def toeplitz(c, r=None):
    c = asarray(c)
    r = asarray(r) if r is not None else c
    sc, sr = c.snapshot(), r.snapshot()
    d = promote(c.dt, r.dt)

    def fn(idx):
        i, j = idx
        le = L.simp_cond(T.le(j, i))
        return L.ite_elem(le, L.conv(sc.get((T.sub(i, j),)), c.dt, d), L.conv(sr.get((T.sub(j, i),)), r.dt, d), d)

    return LArr.new(fn, (c._shape[0], r._shape[0]), d)


def np_size(a, axis=None):
    a = arr(a)
    if is_arr(a):
        return a.size if axis is None else a.shape[axis]
    if isinstance(a, SymListArr):
        raise Unsupported("size")
    return 1


def np_shape(a):
    a = arr(a)
    return a.shape if is_arr(a) else ()


def np_ndim(a):
    a = arr(a)
    return len(a._shape) if isinstance(a, LArr) else 0


def red(meth):
    def g(a, axis=None, **kw):
        a = arr(a)
        if kw.get("keepdims"):
            if meth == "sum":
                return a.sum(axis, True)
            raise Unsupported("keepdims")
        if is_arr(a):
            if isinstance(a, MArr):
                raise Unsupported("%s of a masked selection" % meth)
            return getattr(a, meth)(axis)
        if meth in ("any", "all"):
            return tob(a)
        if meth in ("argmin", "argmax"):
            return 0
        return a

    return g


def atleast_1d(*xs):
    r = []
    for x in xs:
        x = arr(x)
        if not is_arr(x):
            x = asarray(x)
        if isinstance(x, LArr) and x._shape == ():
            x = x.reshape((1,))
        r.append(x)
    return r[0] if len(r) == 1 else r


def atleast_2d(x):
    x = atleast_1d(x)
    return x[None, :] if len(x._shape) == 1 else x


def broadcast_to(a, shape):
    a = asarray(a)
    z = LArr.new(lambda idx: zero(a.dt), _shape(shape), a.dt)
    return ew(lambda x, y: x, (a, z), a.dt)


def broadcast_arrays(*xs):
    xs = [asarray(x) for x in xs]
    out = []
    for k, x in enumerate(xs):
        out.append(ew(lambda *es, k=k: es[k], tuple(xs), x.dt))
    return out


def isclose(a, b, rtol=None, atol=None, **k):
    rt = T.const(Fr(1, 100000)) if rtol is None else term(rtol)
    at = T.const(Fr(1, 10**8)) if atol is None else term(atol)
    f = lambda x, y: T.le(fabs(T.sub(x, y)), T.add(at, T.mul(rt, fabs(y))))
    return binop("isclose", f, "b")(a, b)


def allclose(a, b, rtol=None, atol=None, **k):
    r = isclose(a, b, rtol, atol)
    return r.all() if is_arr(r) else r


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if len(a._shape) != len(b._shape) or not all(L.same_dim(x, y) for x, y in zip(a._shape, b._shape)):
        return False
    return (a == b).all()


def isfinite(x):
    x = arr(x)
    if is_arr(x):
        return ew(lambda a: T.TRUE, (x,), "b")
    return True


def isnan(x):
    x = arr(x)
    if is_arr(x):
        return ew(lambda a: T.FALSE, (x,), "b")
    return False


def isscalar(x):
    return scalar_ok(x) or isinstance(x, (str, CX, complex))


def iscomplexobj(x):
    return (is_arr(x) and x.dt == "c") or isinstance(x, (CX, complex))


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where3(c, v, r)
    return r


def piecewise(x, conds, fns):
    x = arr(x)
    call = lambda f: f(x) if callable(f) else f
    n = len(conds)
    r = call(fns[n]) if len(fns) > n else 0
    for c, f in reversed(list(zip(conds, fns))):
        r = where3(c, call(f), r)
    return r


def cumsum(a, axis=None):
    a = asarray(a)
    if len(a._shape) != 1 or a._shape[0].op != "const":
        raise Unsupported("cumsum")
    out = []
    s = 0
    for i in range(int(a._shape[0].val)):
        s = s + a[i]
        out.append(s)
    return asarray(out)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    if n != 1 or len(a._shape) != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def dot(a, b):
    a, b = arr(a), arr(b)
    if not is_arr(a) or not is_arr(b):
        return a * b
    return a @ b


def vdot(a, b):
    return asarray(a).conj() @ asarray(b)


def einsum(*a, **k):
    raise Unsupported("einsum")


def roll(a, shift, axis=None):
    if len(a._shape) == 1 and isinstance(shift, int):
        if shift % 1 == 0 and shift > 0:
            return concatenate([a[-shift:], a[:-shift]])
        if shift < 0:
            return concatenate([a[-shift:], a[:-shift]])
        return a.copy()
    raise Unsupported("roll")


def compress(cond, a, axis=None):
    from . import abstractions

    return abstractions.compress(arr(cond), arr(a), axis)


def flatnonzero(c):
    """positions of the elements of a condition: contract of compress of the unit"""
    c = arr(c)
    if len(c._shape) != 1:
        raise Unsupported("nonzero")
    return compress(c, arange(Sym(c._shape[0], "I")))


def nonzero(c):
    return (flatnonzero(c),)


def argsort(a, axis=-1, kind=None, order=None, **k):
    from . import abstractions

    return abstractions.argsort(arr(a))


class vectorize:
    """np.vectorize: the scalar function applied at every element.  On arrays, the element function is
    run at a generic index (its branches fork the path), for all elements at once."""

    def __init__(self, f=None, otypes=None, excluded=None, **k):
        if f is None:
            raise Unsupported("vectorize()")
        self.f = f
        self.otypes = otypes
        try:
            _ft.update_wrapper(self, f)
        except Exception:
            pass

    def __call__(self, *a, **k):
        arrs = [x for x in list(a) + list(k.values()) if is_arr(x) or isinstance(x, (list, tuple))]
        if not arrs:
            return self.f(*a, **k)
        from . import abstractions

        return abstractions.vectorized(self.f, a, k)


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class NDArrayType:
    __name__ = "ndarray"


class NumType:
    """float / int / complex / bool and the numpy scalar types: callable casts, usable as dtype"""

    def __init__(self, name, code, cast):
        self.__name__ = name
        self.code = code
        self.cast = cast

    def __call__(self, x=0, *a):
        return self.cast(x, *a)

    def __eq__(self, o):
        return self is o or (isinstance(o, L.DType) and o.code == self.code)

    def __hash__(self):
        return hash(self.__name__)

    def __repr__(self):
        return "<class '%s'>" % self.__name__

    def __or__(self, o):
        return object

    __ror__ = __or__


def _float(x=0):
    if isinstance(x, LArr):
        x = x.item()
    if isinstance(x, MArr):
        raise Unsupported("float of masked selection")
    if isinstance(x, str):
        s = x.strip().lower().lstrip("+-")
        if s in ("inf", "infinity", "nan"):
            return float(x)
        return Sym(T.const(Fr(x)))
    if isinstance(x, (CX, complex)):
        raise TypeError("can't convert complex to float")
    if isinstance(x, float):
        return x
    return Sym(term(x))


def _int(x=0, base=None):
    if isinstance(x, str):
        return int(x) if base is None else int(x, base)
    if isinstance(x, LArr):
        x = x.item()
    if isinstance(x, Sym):
        if x.k == "I":
            return x
        if x.e.op == "const":
            import math
            return math.trunc(x.e.val)
        return Sym(T.fn("trunc", x.e), "I")
    if isinstance(x, SymB):
        return x._num()
    return int(x)


def _complex(re=0, im=0):
    return CX.of(re) + CX(T.ZERO, T.ONE) * CX.of(im)


def _bool(x=False):
    if isinstance(x, LArr):
        x = x.item()
    if isinstance(x, SymB):
        return x
    if isinstance(x, Sym):
        return SymB(T.not_(T.eq(x.e, T.ZERO)))
    return bool(x)


FLOAT = NumType("float", "f", _float)
INT = NumType("int", "i", _int)
COMPLEX = NumType("complex", "c", _complex)
BOOL = NumType("bool", "b", _bool)


def is_instance(x, c):
    if isinstance(c, tuple):
        return any(is_instance(x, y) for y in c)
    if isinstance(c, types.UnionType):
        return any(is_instance(x, y) for y in c.__args__)
    if isinstance(c, NDArrayType):
        return is_arr(x) or isinstance(x, SymListArr)
    if isinstance(c, NumType):
        npy = c.__name__ not in ("float", "int", "complex", "bool")
        if isinstance(x, (Sym, SymB, CX, bool, int, float, complex)):
            if npy and CUR[0] is not None and CUR[0].state.get("pyfloat", True) and (not isinstance(x, Sym) or x.e.op in ("var", "const")):
                return False
            if c.code == "f":
                return (isinstance(x, Sym) and x.k == "R") or isinstance(x, float)
            if c.code == "i":
                return (isinstance(x, Sym) and x.k == "I") or (isinstance(x, int) and not (npy and isinstance(x, bool)))
            if c.code == "b":
                return isinstance(x, (SymB, bool))
            if c.code == "c":
                return isinstance(x, (CX, complex))
        if c.code == "any":
            return isinstance(x, (Sym, SymB, CX))
        return False
    if isinstance(c, vectorize) or not isinstance(c, type):
        try:
            return isinstance(x, c)
        except TypeError:
            raise Unsupported("isinstance with %r" % (c,))
    import numbers

    if isinstance(x, (Sym, SymB)):
        if c in (numbers.Number, numbers.Real, numbers.Complex):
            return True
        if c in (numbers.Integral, numbers.Rational):
            return kind(x) == "I"
        return c is object
    if isinstance(x, CX):
        return c in (numbers.Number, numbers.Complex, object)
    if c in (list,) and x.__class__.__name__ == "SymList":
        return True
    return isinstance(x, c)


def b_min(*a, key=None, **kw):
    return _mm(a, key, kw, builtins.min, False)


def b_max(*a, key=None, **kw):
    return _mm(a, key, kw, builtins.max, True)


def _mm(a, key, kw, f, mx):
    if len(a) == 1:
        it = a[0]
        if is_arr(it):
            it = list(iter(it))
        items = list(it)
    else:
        items = list(a)
    if key is not None or not items or not any(isinstance(x, (Sym, SymB)) for x in items) or not all(scalar_ok(x) for x in items):
        return f(items, key=key, **kw) if key is not None or kw else f(items)
    r = items[0]
    for x in items[1:]:
        a_, b_ = term(r), term(x)
        if isinstance(x, float) or isinstance(r, float):
            raise Unsupported("non finite in min/max")
        k = "I" if kind(r) == "I" and kind(x) == "I" else "R"
        r = Sym(T.ite(T.lt(a_, b_), b_, a_) if mx else T.ite(T.lt(b_, a_), b_, a_), k)
    return r


def b_len(x):
    if isinstance(x, LArr):
        return x.symlen()
    if isinstance(x, MArr):
        return x.size
    return builtins.len(x)


def b_range(*a):
    a = [int(x.e.val) if isinstance(x, Sym) and x.e.op == "const" and x.k == "I" else x for x in a]
    for x in a:
        if isinstance(x, Sym) and x.k != "I" or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return range(*a)
    from .loader import SymRange

    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    raise Unsupported("range with a symbolic step")


def b_sum(it, start=0):
    if is_arr(it):
        if len(it._shape) == 1:
            return it.sum() + start
        return it.sum(0) + start
    r = start
    for x in it:
        r = r + x
    return r


def b_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


class b_type_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return INT if x.k == "I" else FLOAT
        if isinstance(x, SymB):
            return BOOL
        if isinstance(x, CX):
            return COMPLEX
        if is_arr(x):
            return ND
        if builtins.type(x) is int:
            return INT
        if builtins.type(x) is bool:
            return BOOL
        return builtins.type(x)
    return builtins.type(*a)


ND = NDArrayType()


def b_print(*a, **k):
    p = CUR[0]
    if p is not None:
        p.events.append(("print", tuple(x if isinstance(x, str) else format(x, "") if isinstance(x, Sym) else repr(x) if isinstance(x, (int, float)) else "?" for x in a)))


def b_any(it):
    if is_arr(it):
        return it.any()
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    if is_arr(it):
        return it.all()
    for x in it:
        if not x:
            return False
    return True


def b_enumerate(it, start=0):
    return builtins.enumerate(it, start)


def b_callable(x):
    return builtins.callable(x)


def b_abs(x):
    return abs(x)


def b_pow(a, b, m=None):
    from .loader import pow_

    if m is not None:
        raise Unsupported("three argument pow")
    return pow_(a, b)


def b_divmod(a, b):
    return a // b, a % b


def make_builtins(world):
    d = dict(vars(builtins))
    d["__import__"] = world.imp
    d.update(
        isinstance=is_instance, float=FLOAT, int=INT, bool=BOOL, complex=COMPLEX, min=b_min, max=b_max, len=b_len, range=b_range,
        sum=b_sum, round=b_round, print=b_print, any=b_any, all=b_all, pow=b_pow, divmod=b_divmod,
    )
    d["type"] = TypeShim
    for k in ("open", "exec", "eval", "compile", "input", "breakpoint", "exit", "quit"):
        if k not in ("exit", "quit"):
            d[k] = _forbid(k)
    return d


class _TypeShimMeta(type):
    def __call__(cls, *a):
        return b_type(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, (type, NumType, NDArrayType))


class TypeShim(metaclass=_TypeShimMeta):
    pass


def _forbid(k):
    def f(*a, **kw):
        raise Unsupported("builtin %s" % k)

    return f


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s has no trusted contract" % (self.__name__, n))


def make(world):
    np = Mod("numpy")
    d = np.__dict__
    al = {"atan": "arctan", "asin": "arcsin", "acos": "arccos", "sqrt": "sqrt"}
    for n, f in F.items():
        if f is None:
            continue
        fc = None
        ki = n in ("square", "floor", "ceil", "trunc", "rint")
        if n == "square":
            fc = (lambda a: a * a, "c")
        u = unop(n, f, fc, ki)
        d[n] = u
        if n in al:
            d[al[n]] = u
    d["deg2rad"], d["rad2deg"] = d["radians"], d["degrees"]
    d["abs"] = d["absolute"] = unop("absolute", fabs, (cabs, "f"), True)
    d["fabs"] = unop("fabs", fabs)
    d["sign"] = unop("sign", fsign, None, True)
    d["negative"] = unop("negative", T.neg, (lambda a: -a, "c"), True)
    d["positive"] = lambda x: +x
    for n, f in FB.items():
        if f is not None:
            d[n] = binop(n, f)
    d["arctan2"] = d["atan2"]
    d["maximum"] = d["fmax"] = np_maximum
    d["minimum"] = d["fmin"] = np_minimum
    import operator as op
    from .loader import div, pow_

    d["add"], d["subtract"], d["multiply"] = lift(op.add), lift(op.sub), lift(op.mul)
    d["divide"] = d["true_divide"] = lift(div)
    d["power"] = lift(pow_)
    d["float_power"] = lambda a, b: pow_(_tofloat(a), _tofloat(b))
    d["floor_divide"], d["mod"], d["remainder"] = lift(op.floordiv), lift(op.mod), lift(op.mod)
    d["less"], d["less_equal"], d["greater"], d["greater_equal"] = lift(op.lt), lift(op.le), lift(op.gt), lift(op.ge)
    d["equal"], d["not_equal"] = lift(op.eq), lift(op.ne)
    d["logical_and"], d["logical_or"], d["logical_not"] = blogic(T.and_), blogic(T.or_), lnot
    d["bitwise_and"], d["bitwise_or"], d["invert"] = d["logical_and"], d["logical_or"], lnot
    d["where"], d["select"], d["piecewise"], d["clip"] = where, select, piecewise, clip
    d["pi"], d["e"] = PI_S, Sym(T.fn("exp", T.ONE))
    d["inf"], d["nan"], d["newaxis"] = float("inf"), float("nan"), None
    d["ndarray"] = ND
    for n, c in (("float64", "f"), ("double", "f"), ("float_", "f"), ("floating", "f"), ("int64", "i"), ("int_", "i"), ("intp", "i"), ("integer", "i"), ("bool_", "b"), ("complex128", "c")):
        d[n] = NumType(n, c, {"f": _float, "i": _int, "b": _bool, "c": _complex}[c])
    d["number"] = NumType("number", "any", _float)
    d["generic"] = NumType("generic", "any", _float)
    d["dtype"] = lambda x: DTYPES[dtype_of(x)]
    for n in ("zeros", "ones", "full", "empty", "zeros_like", "ones_like", "empty_like", "full_like", "arange", "linspace", "eye", "diag",
              "fill_diagonal", "tile", "concatenate", "vstack", "hstack", "stack", "block", "flip", "kron", "outer", "atleast_1d", "atleast_2d",
              "broadcast_to", "broadcast_arrays", "isclose", "allclose", "array_equal", "isfinite", "isnan", "isscalar", "iscomplexobj",
              "cumsum", "diff", "dot", "vdot", "einsum", "roll", "compress", "argsort", "flatnonzero", "nonzero", "vectorize", "errstate"):
        d[n] = globals()[n]
    d["identity"] = eye
    d["array"], d["asarray"], d["asanyarray"], d["ascontiguousarray"], d["asfarray"] = array, np_asarray, np_asarray, np_asarray, lambda x: np_asarray(x, "float")
    d["copy"] = lambda a, **k: array(a)
    d["size"], d["shape"], d["ndim"] = np_size, np_shape, np_ndim
    for n in ("sum", "any", "all", "min", "max", "argmin", "argmax", "mean"):
        d[n] = red(n)
    d["amin"], d["amax"] = d["min"], d["max"]
    d["flipud"] = lambda a: flip(a, 0)
    d["fliplr"] = lambda a: flip(a, 1)
    d["transpose"] = lambda a: asarray(a).T
    d["reshape"] = lambda a, s: asarray(a).reshape(s)
    d["ravel"] = lambda a: asarray(a).ravel()
    d["squeeze"] = lambda a: a.squeeze() if is_arr(a) else a
    d["expand_dims"] = lambda a, ax: a[None] if ax == 0 else a[..., None]
    d["diagonal"] = lambda a: a.diagonal()
    d["trace"] = lambda a: a.diagonal().sum()
    d["matmul"] = lambda a, b: a @ b
    d["real"] = lambda x: arr(x).real
    d["imag"] = lambda x: arr(x).imag
    d["conj"] = d["conjugate"] = lambda x: x.conj() if is_arr(x) else x.conjugate()
    d["set_printoptions"] = lambda *a, **k: None
    d["seterr"] = lambda *a, **k: {}
    d["testing"] = None
    d["cross"] = _forbid("np.cross")
    d["result_type"] = lambda *a: DTYPES[promote(*[x.dt if is_arr(x) else (dtype_of(x) if isinstance(x, (L.DType, NumType, str)) else dt_scalar(x)) for x in a])]
    d["finfo"] = lambda *a: types.SimpleNamespace(eps=Sym(T.const(Fr(2) ** -52)), max=Sym(T.const(Fr(2) ** 1023)), tiny=Sym(T.const(Fr(2) ** -1022)))
    d["nan_to_num"] = lambda x, **k: x
    d["poly1d"] = _forbid("poly1d")

    lin = Mod("numpy.linalg")
    from . import abstractions as A

    lin.__dict__.update(solve=A.solve, norm=A.norm, lstsq=A.lstsq, LinAlgError=A.LinAlgError, inv=A.inv, eig=A.npeig)
    d["linalg"] = lin
    poly = Mod("numpy.polynomial")
    cheb = Mod("numpy.polynomial.chebyshev")
    cheb.__dict__.update(chebvander=A.chebvander, chebval=A.chebval)
    poly.chebyshev = cheb
    d["polynomial"] = poly
    np.polyval = A.polyval

    m = Mod("math")
    md = m.__dict__

    def mathf(f, nm):
        def g(x):
            if isinstance(x, LArr):
                x = x.item()
            if not scalar_ok(x):
                raise TypeError("must be real number, not %s" % type(x).__name__)
            return Sym(f(term(x)))

        g.__name__ = nm
        return g

    for n, f in F.items():
        if f is not None and n not in ("square", "reciprocal", "rint", "floor", "ceil", "trunc"):
            md[n] = mathf(f, n)
    for n in ("floor", "ceil", "trunc"):
        md[n] = (lambda f: lambda x: Sym(f(term(x)), "I"))(F[n])
    md["log"] = lambda x, base=None: mathf(F["log"], "log")(x) if base is None else mathf(F["log"], "log")(x) / mathf(F["log"], "log")(base)
    md["fabs"] = mathf(fabs, "fabs")
    md["atan2"] = lambda y, x: Sym(T.fn("atan2", term(y), term(x)))
    md["hypot"] = lambda *a: Sym(T.sqrt(T.add(*[T.power(term(x), T.TWO) for x in a])))
    md["pow"] = lambda a, b: Sym(T.power(term(a), term(b)))
    md["copysign"] = lambda a, b: Sym(FB["copysign"](term(a), term(b)))
    md["pi"], md["e"], md["tau"] = PI_S, Sym(T.fn("exp", T.ONE)), 2 * PI_S
    md["inf"], md["nan"] = float("inf"), float("nan")
    md["isfinite"], md["isnan"], md["isinf"] = (lambda x: True), (lambda x: False), (lambda x: False)
    md["isclose"] = lambda a, b, rel_tol=None, abs_tol=None: _misclose(a, b, rel_tol, abs_tol)
    md["fsum"] = lambda it: b_sum(it)
    md["prod"] = lambda it, start=1: _ft.reduce(lambda a, b: a * b, it, start)
    def m_factorial(n):
        import math as _m
        return _m.factorial(n if isinstance(n, int) else n.__index__())
    md["factorial"] = m_factorial
    np.math = m

    sp = Mod("scipy")
    spo = Mod("scipy.optimize")
    from . import roots

    spo.__dict__.update(newton=roots.newton, fsolve=roots.fsolve, brentq=roots.brentq, bisect=roots.brentq, root_scalar=roots.root_scalar)
    spl = Mod("scipy.linalg")
    spl.__dict__.update(toeplitz=toeplitz, eig=A.eig, solve=A.solve, norm=A.norm, block_diag=A.block_diag, LinAlgError=A.LinAlgError)
    sp.optimize, sp.linalg = spo, spl
    sp.special = Mod("scipy.special")

    ins = Mod("inspect")
    ins.__dict__.update(stack=lambda *a: [("f", "f", 0, "f")], signature=__import__("inspect").signature, currentframe=lambda: None)
    ft = Mod("functools")
    import functools as RF

    ft.__dict__.update({k: getattr(RF, k) for k in ("wraps", "partial", "reduce", "total_ordering", "singledispatch", "partialmethod", "update_wrapper", "cached_property")})
    ft.lru_cache = RF.lru_cache
    ft.cache = RF.cache
    return {"numpy": np, "numpy.linalg": lin, "numpy.polynomial": poly, "numpy.polynomial.chebyshev": cheb, "math": m, "scipy": sp,
            "scipy.optimize": spo, "scipy.linalg": spl, "scipy.special": sp.special, "inspect": ins, "functools": ft}


def _tofloat(a):
    a = arr(a)
    if is_arr(a):
        return a.astype(DTYPES["f"]) if a.dt != "c" else a
    return Sym(term(a))


def _misclose(a, b, rt, at):
    rt = T.const(Fr(1, 10**9)) if rt is None else term(rt)
    at = T.ZERO if at is None else term(at)
    a, b = term(a), term(b)
    return SymB(T.le(fabs(T.sub(a, b)), _max(T.mul(rt, _max(fabs(a), fabs(b))), at)))
