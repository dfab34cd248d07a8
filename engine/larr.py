"""Symbolic arrays of symbolic shape: lambda arrays over buffers with views and in-place updates."""
from fractions import Fraction as Fr

from . import terms as T
from .explore import cur, Unsupported
from .values import Sym, SymB, CX, term, term_bool, scalar_ok, kind, idiv, imod

ORDER = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}


def promote(*ds):
    return max(ds, key=lambda d: ORDER[d])


def dt_scalar(x):
    if isinstance(x, (CX, complex)):
        return "c"
    if isinstance(x, (bool, SymB)):
        return "b"
    if isinstance(x, Sym):
        return "i" if x.k == "I" else "f"
    if isinstance(x, int):
        return "i"
    return "f"


class DType:
    def __init__(self, code, name):
        self.code, self.name = code, name
        self.kind = {"f": "f", "i": "i", "b": "b", "c": "c", "O": "O"}[code]
        self.type = self
        self.itemsize = 8

    def __eq__(self, o):
        try:
            return dtype_of(o) == self.code
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.code)

    def __repr__(self):
        return "dtype('%s')" % self.name


DTYPES = {"f": DType("f", "float64"), "i": DType("i", "int64"), "b": DType("b", "bool"), "c": DType("c", "complex128"), "O": DType("O", "object")}


def dtype_of(d):
    if d is None:
        return "f"
    if isinstance(d, DType):
        return d.code
    n = d if isinstance(d, str) else getattr(d, "__name__", str(d))
    if n in ("float", "float64", "f8", "d", "double", "float_", "floating", "f", "longdouble"):
        return "f"
    if n in ("float32", "float16", "f4", "single", "half"):
        raise Unsupported("reduced precision dtype %s" % n)
    if n in ("int", "int64", "i8", "int_", "intp", "i", "l", "integer"):
        return "i"
    if n in ("bool", "bool_"):
        return "b"
    if n in ("complex", "complex128", "D", "c16"):
        return "c"
    if n == "object":
        return "O"
    raise Unsupported("dtype %r" % (n,))


def elem(x, dt=None):
    """python scalar -> element representation for dtype dt (E real / E bool / CX)"""
    d = dt or dt_scalar(x)
    if d == "c":
        return CX.of(x)
    if d == "b":
        return term_bool(x)
    if isinstance(x, (CX, complex)):
        raise Unsupported("complex stored into a real array")
    return term(x)


def wrap(e, dt):
    """element -> python scalar"""
    if dt == "c":
        return e
    if dt == "b":
        if e is T.TRUE:
            return True
        if e is T.FALSE:
            return False
        return SymB(e)
    return Sym(e, "I" if dt == "i" else "R")


def conv(e, src, dst):
    """element conversion (assignment / astype)"""
    if src == dst:
        return e
    if dst == "c":
        return CX.of(wrap(e, src))
    if src == "c":
        raise Unsupported("complex to real conversion")
    if src == "b":
        e = T.ite(e, T.ONE, T.ZERO)
        return e
    if dst == "b":
        return T.not_(T.eq(e, T.ZERO))
    if dst == "i" and src == "f":
        if e.op == "const":
            import math
            return T.const(math.trunc(e.val))
        return T.fn("trunc", e)
    return e


def cast_scalar(x, dst):
    return wrap(conv(elem(x), dt_scalar(x), dst), dst)


def dimterm(d):
    if isinstance(d, T.E):
        return d
    return term(d)


def pydim(d):
    """dimension term -> python int or Sym"""
    if d.op == "const":
        return int(d.val)
    return Sym(d, "I")


def lin_eq(a, b):
    """cheap syntactic equality of integer terms"""
    if a is b:
        return True
    if a.op == "const" and b.op == "const":
        return a.val == b.val
    return None


def truth(c, fork=True):
    """boolean term -> bool, deciding with the path condition (forking if needed)"""
    if c is T.TRUE:
        return True
    if c is T.FALSE:
        return False
    return cur().branch(c)


def same_dim(a, b):
    r = lin_eq(a, b)
    if r is not None:
        return r
    return truth(T.eq(a, b))


class Buf:
    __slots__ = ("fn", "shape", "dt", "ver", "owner", "ro")

    def __init__(self, fn, shape, dt):
        self.fn, self.shape, self.dt = fn, tuple(shape), dt
        self.ver = 0
        self.owner = None
        self.ro = False


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = T.ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is T.ONE:
                continue
            if d is T.ONE:
                d = x
            elif d is x:
                pass
            else:
                if same_dim(d, x):
                    continue
                if truth(T.eq(x, T.ONE)):
                    continue
                if truth(T.eq(d, T.ONE)):
                    d = x
                    continue
                raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bget(a, idx, n):
    """element of a at broadcast index idx"""
    s = a.shape
    k = n - len(s)
    ii = []
    for j, d in enumerate(s):
        ii.append(T.ZERO if d is T.ONE else idx[k + j])
    return a.get(tuple(ii))


def ew(f, args, dt, din=None):
    """element-wise: f works on elements; args are LArr/MArr or python scalars already converted"""
    marr = [a for a in args if isinstance(a, MArr)]
    if marr:
        m = marr[0]
        for a in marr[1:]:
            if not m.same(a):
                raise Unsupported("operation between differently masked arrays")
        els = []
        for a in args:
            if isinstance(a, MArr):
                els.append((a.fn, a.dt))
            elif isinstance(a, LArr):
                if a.shape == () or all(d is T.ONE for d in a.shape):
                    els.append((lambda idx, a=a: a.get((T.ZERO,) * len(a.shape)), a.dt))
                else:
                    raise Unsupported("mixing masked selection and full array")
            else:
                d = dt_scalar(a)
                e = elem(a)
                els.append((lambda idx, e=e: e, d))
        return MArr(m.mask, lambda idx: f(*[conv(g(idx), d, din or d) for g, d in els]), dt)
    arrs = [a for a in args if isinstance(a, LArr)]
    shape = bshape([a.shape for a in arrs])
    n = len(shape)
    gs = []
    for a in args:
        if isinstance(a, LArr):
            gs.append((a.snapshot(), a.dt))
        else:
            gs.append((elem(a), dt_scalar(a)))
    memo = {}

    def fn(idx):
        r = memo.get(idx)
        if r is None:
            es = []
            for g, d in gs:
                e = bget(g, idx, n) if isinstance(g, Snap) else g
                es.append(conv(e, d, din) if din else e)
            r = f(*es)
            memo[idx] = r
        return r

    return LArr.new(fn, shape, dt)


class Snap:
    """immutable snapshot of a view"""
    __slots__ = ("fn", "shape", "fwd")

    def __init__(self, fn, shape, fwd):
        self.fn, self.shape, self.fwd = fn, shape, fwd

    def get(self, idx):
        return self.fn(self.fwd(idx))


def _ident(idx):
    return idx


def _arith(f, swap=False, div=False):
    def op(self, o):
        if isinstance(o, (list, tuple)):
            o = asarray(o)
        if not isinstance(o, (LArr, MArr)) and not (scalar_ok(o) or isinstance(o, (CX, complex))):
            return NotImplemented
        d2 = o.dt if isinstance(o, (LArr, MArr)) else dt_scalar(o)
        dt = promote(self.dt, d2)
        if div:
            dt = promote(dt, "f")
        if dt == "b":
            if f is T.mul:
                return ew(T.and_, (self, o), "b")
            if f is T.add:
                return ew(T.or_, (self, o), "b")
            dt = "i"
        a = (o, self) if swap else (self, o)
        if dt == "c":
            from .values import f_c

            return ew(f_c[f], a, "c", "c")
        return ew(f, a, dt, dt)

    return op


def _compare(f):
    def op(self, o):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = asarray(o)
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            one = T.ZERO, (T.ONE if o > 0 else T.const(-1))
            return ew(lambda a: f(*one), (self,), "b")
        if not isinstance(o, (LArr, MArr)) and not scalar_ok(o):
            return NotImplemented
        d2 = o.dt if isinstance(o, (LArr, MArr)) else dt_scalar(o)
        if "c" in (self.dt, d2):
            raise Unsupported("complex comparison")
        dt = promote(self.dt, d2, "i")
        return ew(f, (self, o), "b", dt)

    return op


def _logic(fb):
    def op(self, o):
        if not isinstance(o, (LArr, MArr, SymB, bool)):
            return NotImplemented
        return ew(fb, (self, o), "b", "b")

    return op


def _powop(swap=False):
    def op(self, o):
        if not isinstance(o, (LArr, MArr)) and not (scalar_ok(o) or isinstance(o, (CX, complex))):
            return NotImplemented
        d2 = o.dt if isinstance(o, (LArr, MArr)) else dt_scalar(o)
        dt = promote(self.dt, d2, "i")
        a = (o, self) if swap else (self, o)
        if dt == "c":
            return ew(lambda x, y: CX.of(x) ** Sym(y), a, "c")
        if dt == "i":
            ex = a[1]
            if isinstance(ex, int):
                if ex < 0:
                    raise ValueError("Integers to negative integer powers are not allowed.")
            elif isinstance(ex, Sym):
                if not truth(T.le(T.ZERO, ex.e)):
                    raise ValueError("Integers to negative integer powers are not allowed.")
            else:
                raise Unsupported("integer array power array")
        def pw(x, y):
            if y.op != "const" and x.op == "const" and x.val == -1:
                return T.uf("negpow", y)
            return T.power(x, y)
        return ew(pw, a, dt, dt)

    return op


class _Ops:
    __array_priority__ = 20.0
    __add__ = _arith(T.add)
    __radd__ = _arith(T.add, True)
    __sub__ = _arith(T.sub)
    __rsub__ = _arith(T.sub, True)
    __mul__ = _arith(T.mul)
    __rmul__ = _arith(T.mul, True)
    __truediv__ = _arith(T.div, False, True)
    __rtruediv__ = _arith(T.div, True, True)
    __pow__ = _powop()
    __rpow__ = _powop(True)
    __lt__ = _compare(T.lt)
    __le__ = _compare(T.le)
    __gt__ = _compare(lambda a, b: T.lt(b, a))
    __ge__ = _compare(lambda a, b: T.le(b, a))
    __eq__ = _compare(T.eq)
    __ne__ = _compare(lambda a, b: T.not_(T.eq(a, b)))
    __and__ = _logic(T.and_)
    __rand__ = __and__
    __or__ = _logic(T.or_)
    __ror__ = __or__
    __hash__ = object.__hash__

    def __neg__(self):
        if self.dt == "c":
            return ew(lambda a: -a, (self,), "c")
        return ew(T.neg, (self,), promote(self.dt, "i"))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        if self.dt == "c":
            return ew(lambda a: T.sqrt(T.add(T.power(a.re, T.TWO), T.power(a.im, T.TWO))), (self,), "f")
        return ew(lambda a: T.ite(T.le(T.ZERO, a), a, T.neg(a)), (self,), self.dt)

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("~ on non boolean array")
        return ew(T.not_, (self,), "b")

    def __mod__(self, o):
        if self.dt == "i" and isinstance(o, (int, Sym)):
            return ew(imod, (self, o), "i", "i")
        raise Unsupported("array %")

    def __floordiv__(self, o):
        if self.dt == "i" and isinstance(o, (int, Sym)):
            return ew(idiv, (self, o), "i", "i")
        raise Unsupported("array //")

    @property
    def dtype(self):
        return DTYPES[self.dt]

    @property
    def real(self):
        if self.dt == "c":
            return ew(lambda a: a.re, (self,), "f")
        return self

    @property
    def imag(self):
        if self.dt == "c":
            return ew(lambda a: a.im, (self,), "f")
        return self * 0


class MArr(_Ops):
    """array[mask] : values of the selected elements, indexed by their position in the full array"""

    def __init__(self, mask, fn, dt):
        self.mask, self.fn, self.dt = mask, fn, dt

    def same(self, o):
        return self.mask is o.mask or same_mask(self.mask, o.mask)

    def copy(self):
        return self

    @property
    def size(self):
        c = cur().state.setdefault("maskcount", {})
        k = mask_key(self.mask)
        if k not in c:
            v = T.var(T.fresh_name("count"), "I")
            cur().assume(T.le(T.ZERO, v))
            n = T.ONE
            for d in self.mask.shape:
                n = T.mul(n, d)
            cur().assume(T.le(v, n))
            c[k] = v
        return Sym(c[k], "I")

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        raise Unsupported("len of masked selection")

    def astype(self, d):
        d = dtype_of(d)
        s = self.dt
        return MArr(self.mask, lambda idx: conv(self.fn(idx), s, d), d)

    def any(self):
        raise Unsupported("any of a masked selection")

    def __bool__(self):
        raise Unsupported("truth of a masked selection")


def mask_key(m):
    idx = tuple(T.var("mk@%d" % i, "I") for i in range(len(m._shape)))
    return (tuple(d.id for d in m._shape), m.get(idx).id)


def same_mask(a, b):
    return mask_key(a) == mask_key(b)


class LArr(_Ops):
    def __init__(self, buf, shape, fwd, inv, base=None):
        self.buf = buf
        self._shape = tuple(shape)
        self.fwd = fwd
        self.inv = inv
        self.base = base
        self.diagv = None  # set when the matrix is diag(v)

    @staticmethod
    def new(fn, shape, dt):
        shape = tuple(dimterm(d) for d in shape)
        b = Buf(fn, shape, dt)
        return LArr(b, shape, _ident, lambda idx: (T.TRUE, idx))

    @property
    def dt(self):
        return self.buf.dt

    @property
    def shape(self):
        return self._shape if _RAW[0] else tuple(pydim(d) for d in self._shape)

    @shape.setter
    def shape(self, v):
        raise Unsupported("assignment to .shape")

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        n = T.ONE
        for d in self._shape:
            n = T.mul(n, d)
        return pydim(n)

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        d = self._shape[0]
        if d.op != "const":
            raise Unsupported("iteration over an array of symbolic length")
        return iter([self[i] for i in range(int(d.val))])

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return pydim(self._shape[0]).__index__()

    def symlen(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return pydim(self._shape[0])

    def get(self, idx):
        return self.buf.fn(self.fwd(tuple(idx)))

    def at(self, *idx):
        return wrap(self.get(tuple(dimterm(i) for i in idx)), self.dt)

    def snapshot(self):
        return Snap(self.buf.fn, self._shape, self.fwd)

    def copy(self, order=None):
        s = self.snapshot()
        r = LArr.new(s.get, self._shape, self.dt)
        r.diagv = self.diagv
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, d, copy=True):
        d = dtype_of(d)
        s, src = self.snapshot(), self.dt
        return LArr.new(lambda idx: conv(s.get(idx), src, d), self._shape, d)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        for d in self._shape:
            if d is not T.ONE and not truth(T.eq(d, T.ONE)):
                raise ValueError("can only convert an array of size 1 to a Python scalar")
        return wrap(self.get((T.ZERO,) * len(self._shape)), self.dt)

    def _as_term(self):
        if self._shape == () or all(d is T.ONE for d in self._shape):
            if self.dt == "c":
                raise TypeError("complex")
            e = self.get((T.ZERO,) * len(self._shape))
            return conv(e, self.dt, "f")
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def _as_bool(self):
        e = self.item()
        return term_bool(e)

    def __bool__(self):
        if any(d is not T.ONE for d in self._shape):
            for d in self._shape:
                if d is not T.ONE and not truth(T.eq(d, T.ONE)):
                    raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        x = self.item()
        return bool(x)

    def __index__(self):
        if self.dt == "i" and (self._shape == ()):
            return self.item().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __iter__(self):
        n = self.__len__()
        return iter([self[i] for i in range(n)])

    def tolist(self):
        return [x.tolist() if isinstance(x, LArr) else x for x in self]

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        n = len(self._shape)
        f, i = self.fwd, self.inv

        def inv(idx):
            c, v = i(idx)
            return c, tuple(reversed(v))

        return LArr(self.buf, tuple(reversed(self._shape)), lambda idx: f(tuple(reversed(idx))), inv, self)

    def ravel(self, order=None):
        return self.reshape(-1)

    def flatten(self, order=None):
        return self.reshape(-1).copy()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        sh = [None if (isinstance(d, int) and d == -1) else dimterm(d) for d in shape]
        if None in sh:
            if len(sh) == 1:
                n = T.ONE
                for d in self._shape:
                    n = T.mul(n, d)
                sh = [n]
            elif all(d is None or d is T.ONE for d in sh):
                n = T.ONE
                for d in self._shape:
                    n = T.mul(n, d)
                sh = [n if d is None else d for d in sh]
            else:
                raise Unsupported("reshape")
        if tuple(sh) == self._shape:
            return LArr(self.buf, self._shape, self.fwd, self.inv, self)
        nz = [d for d in self._shape if d is not T.ONE]
        nz2 = [d for d in sh if d is not T.ONE]
        if len(nz) == len(nz2) and all(same_dim(a, b) for a, b in zip(nz, nz2)):
            src = [k for k, d in enumerate(self._shape) if d is not T.ONE]
            dst = [k for k, d in enumerate(sh) if d is not T.ONE]
            ns = len(self._shape)
            nd = len(sh)
            f, i = self.fwd, self.inv

            def fwd(idx):
                o = [T.ZERO] * ns
                for a, b in zip(src, dst):
                    o[a] = idx[b]
                return f(tuple(o))

            def inv(idx):
                c, v = i(idx)
                o = [T.ZERO] * nd
                for a, b in zip(src, dst):
                    o[b] = v[a]
                return c, tuple(o)

            return LArr(self.buf, sh, fwd, inv, self)
        if len(self._shape) == 2 and len(sh) == 1:
            m = self._shape[1]
            s = self.snapshot()
            return LArr.new(lambda idx: s.get((T.fn("idiv", idx[0], m), T.fn("imod", idx[0], m))), sh, self.dt)
        raise Unsupported("reshape")

    def squeeze(self, axis=None):
        return self.reshape(tuple(pydim(d) for d in self._shape if d is not T.ONE)) if any(d is T.ONE for d in self._shape) else self

    # ---- indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nn = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, LArr) and k.dt == "b"))
        nb = sum(len(k._shape) for k in key if isinstance(k, LArr) and k.dt == "b")
        nd = len(self._shape)
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (nd - nn - nb)
                seen = True
            else:
                out.append(k)
        if not seen:
            out += [slice(None)] * (nd - nn - nb)
        return out

    def _view(self, key):
        """basic indexing -> (shape, fwd, inv) or raise"""
        key = self._parse(key)
        dims = []   # per source axis: ('i', term) | ('s', start, len, step)
        newax = []  # result axes: source axis number or None
        ax = 0
        for k in key:
            if k is None:
                newax.append((None, T.ONE))
                continue
            if ax >= len(self._shape):
                raise IndexError("too many indices for array")
            n = self._shape[ax]
            if isinstance(k, slice):
                st, ln, step = _slice(k, n)
                dims.append(("s", st, step))
                newax.append((ax, ln))
            else:
                i = _index(k, n)
                dims.append(("i", i))
            ax += 1
        shape = tuple(d for _, d in newax)
        f, g = self.fwd, self.inv

        def fwd(idx):
            o = [None] * len(dims)
            for a, d in enumerate(dims):
                if d[0] == "i":
                    o[a] = d[1]
            for r, (a, ln) in enumerate(newax):
                if a is not None:
                    st, step = dims[a][1], dims[a][2]
                    o[a] = T.add(st, idx[r] if step == 1 else T.mul(T.const(step), idx[r]))
            return f(tuple(o))

        def inv(idx):
            c, v = g(idx)
            cs = [c]
            out = [T.ZERO] * len(newax)
            for a, d in enumerate(dims):
                if d[0] == "i":
                    cs.append(T.eq(v[a], d[1]))
            for r, (a, ln) in enumerate(newax):
                if a is not None:
                    st, step = dims[a][1], dims[a][2]
                    if step == 1:
                        w = T.sub(v[a], st)
                    elif step == -1:
                        w = T.sub(st, v[a])
                    else:
                        raise Unsupported("store through a strided view")
                    out[r] = w
                    n = self._shape[a]
                    if not (st is T.ZERO and ln is n and step == 1):
                        cs += [T.le(T.ZERO, w), T.lt(w, ln)]
            return T.and_(*cs), tuple(out)

        return LArr(self.buf, shape, fwd, inv, self)

    def __getitem__(self, key):
        from . import fancy

        r = fancy.getitem(self, key)
        if r is not None:
            return r
        v = self._view(key)
        if v._shape == ():
            return wrap(v.get(()), self.dt)
        return v

    def __setitem__(self, key, val):
        from . import fancy

        if fancy.setitem(self, key, val):
            return
        self._view(key).assign(val)

    def assign(self, val):
        b = self.buf
        if isinstance(val, (list, tuple)):
            val = asarray(val)
        if isinstance(val, MArr):
            raise Unsupported("assignment of a masked selection to a slice")
        if isinstance(val, LArr):
            n = len(self._shape)
            vs = val._shape
            while len(vs) > n and vs[0] is T.ONE:
                val = val.reshape(tuple(pydim(d) for d in vs[1:]))
                vs = val._shape
            for k, d in enumerate(vs):
                if d is not T.ONE and not same_dim(d, self._shape[n - len(vs) + k]):
                    if truth(T.eq(d, T.ONE)):
                        raise Unsupported("symbolic broadcast in assignment")
                    raise ValueError("could not broadcast input array into shape")
            s = val.snapshot()
            sdt = val.dt
            get = lambda idx: conv(bget(s, idx, n), sdt, b.dt)
        else:
            e = conv(elem(val), dt_scalar(val), b.dt)
            get = lambda idx: e
        self._store(get)

    def _store(self, get, extra=None):
        b = self.buf
        old = b.fn
        inv = self.inv
        dt = b.dt
        memo = {}

        def fn(idx):
            r = memo.get(idx)
            if r is None:
                c, v = inv(idx)
                if c is T.FALSE:
                    r = old(idx)
                else:
                    if extra is not None:
                        c = T.and_(c, extra(v))
                    c = simp_cond(c)
                    if c is T.TRUE:
                        r = get(v)
                    elif c is T.FALSE:
                        r = old(idx)
                    else:
                        r = ite_elem(c, get(v), old(idx), dt)
                memo[idx] = r
            return r

        b.fn = fn
        b.ver += 1

    # ---- in place
    def _inplace(self, r):
        if isinstance(r, LArr):
            if ORDER[r.dt] > ORDER[self.dt]:
                raise TypeError("Cannot cast ufunc output from dtype %s to dtype %s with casting rule 'same_kind'" % (r.dt, self.dt))
            self.assign(r)
            return self
        raise Unsupported("in place")

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def fill(self, v):
        self[...] = v

    # ---- reductions
    def sum(self, axis=None, keepdims=False):
        from . import reduce_

        return reduce_.asum(self, axis, keepdims)

    def any(self, axis=None):
        from . import reduce_

        return reduce_.any_(self, axis)

    def all(self, axis=None):
        from . import reduce_

        return reduce_.all_(self, axis)

    def min(self, axis=None):
        from . import reduce_

        return reduce_.extremum(self, axis, -1)[0]

    def max(self, axis=None):
        from . import reduce_

        return reduce_.extremum(self, axis, 1)[0]

    def argsort(self, axis=-1, kind=None, order=None, **k):
        from . import abstractions

        return abstractions.argsort(self)

    def argmin(self, axis=None):
        from . import reduce_

        return reduce_.extremum(self, axis, -1)[1]

    def argmax(self, axis=None):
        from . import reduce_

        return reduce_.extremum(self, axis, 1)[1]

    def mean(self, axis=None):
        n = self.size if axis is None else pydim(self._shape[axis])
        return self.sum(axis) / n

    def dot(self, o):
        return self @ o

    def diagonal(self):
        if len(self._shape) != 2:
            raise Unsupported("diagonal")
        f = self.snapshot()
        n = self._shape[0]
        if not same_dim(n, self._shape[1]):
            raise Unsupported("diagonal of a non square matrix")
        return LArr.new(lambda idx: f.get((idx[0], idx[0])), (n,), self.dt)

    def conj(self):
        if self.dt == "c":
            return ew(lambda a: a.conjugate(), (self,), "c")
        return self

    conjugate = conj

    def __matmul__(self, o):
        from . import reduce_

        if not isinstance(o, LArr):
            return NotImplemented
        return reduce_.matmul(self, o)

    def __repr__(self):
        return "<array %s %s>" % (self.dt, "x".join(T.show(d) for d in self._shape))

    def __format__(self, spec):
        return repr(self)


_RAW = [False]


class raw:
    def __enter__(self):
        self.o = _RAW[0]
        _RAW[0] = True

    def __exit__(self, *a):
        _RAW[0] = self.o


# internal code uses ._shape ; bget/bshape use .shape of Snap or LArr: give them the term shape
def _fix():
    global bget

    def bget(a, idx, n):
        s = a._shape if isinstance(a, LArr) else a.shape
        k = n - len(s)
        return a.get(tuple(T.ZERO if d is T.ONE else idx[k + j] for j, d in enumerate(s)))

    globals()["bget"] = bget


_fix()
_oldew = ew


def ew(f, args, dt, din=None):
    with raw():
        return _oldew(f, args, dt, din)


def ite_elem(c, a, b, dt):
    if dt == "c":
        return CX(T.ite(c, a.re, b.re), T.ite(c, a.im, b.im))
    if dt == "b":
        return T.or_(T.and_(c, a), T.and_(T.not_(c), b)) if not (a is b) else a
    return T.ite(c, a, b)


def simp_cond(c):
    """simplify the conjuncts of a region condition with the path condition"""
    if c is T.TRUE or c is T.FALSE:
        return c
    out = []
    from .explore import CUR
    if CUR[0] is None:
        return c
    for a in (c.args if c.op == "and" else (c,)):
        d = cur().ctx.decide(a)
        if d is False:
            return T.FALSE
        if d is True:
            continue
        out.append(a)
    return T.and_(*out)


def _index(k, n):
    if isinstance(k, LArr) and k._shape == ():
        k = k.item()
    if isinstance(k, SymB) or isinstance(k, bool):
        raise Unsupported("boolean scalar index")
    if isinstance(k, Sym):
        if k.k != "I":
            raise IndexError("only integers, slices, ... are valid indices")
        e = k.e
    elif isinstance(k, int):
        e = T.const(k)
    else:
        raise IndexError("only integers, slices (`:`), ... are valid indices: %r" % (k,))
    if e.op == "const" and e.val < 0:
        if not truth(T.le(T.neg(e), n)):
            raise IndexError("index out of bounds")
        return T.add(n, e)
    if e.op != "const" and not truth(T.le(T.ZERO, e)):
        if not truth(T.le(T.neg(e), n)):
            raise IndexError("index out of bounds")
        return T.add(n, e)
    if not truth(T.lt(e, n)):
        raise IndexError("index out of bounds")
    return e


def _slice(k, n):
    step = 1 if k.step is None else k.step
    if isinstance(step, Sym):
        step = step.__index__()
    if step == -1 and k.start is None and k.stop is None:
        return T.sub(n, T.ONE), n, -1
    if step not in (1,):
        if step > 1 and k.start is None and k.stop is None:
            ln = T.fn("idiv", T.add(n, T.const(step - 1)), T.const(step))
            if n.op == "const":
                ln = T.const(-(-int(n.val) // step))
            return T.ZERO, ln, step
        raise Unsupported("slice step %r" % step)

    def bound(x, default):
        if x is None:
            return default
        if isinstance(x, LArr):
            x = x.item()
        if kind(x) != "I":
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        e = term(x)
        if e.op == "const" and n.op == "const":
            v, m = int(e.val), int(n.val)
            if v < 0:
                v += m
            return T.const(min(max(v, 0), m))
        if (e.val < 0) if e.op == "const" else not truth(T.le(T.ZERO, e)):
            e = T.add(n, e)
            if not truth(T.le(T.ZERO, e)):
                return T.ZERO
            return e
        if e is n or truth(T.le(e, n)):
            return e
        return n

    a = bound(k.start, T.ZERO)
    b = bound(k.stop, n)
    if a is T.ZERO:
        return a, b, 1
    if not truth(T.le(a, b)):
        return a, T.ZERO, 1
    return a, T.sub(b, a), 1


def asarray(x, dt=None):
    if isinstance(x, LArr):
        if dt is not None and x.dt != dt:
            return x.astype(DTYPES[dt])
        return x
    if isinstance(x, MArr):
        return x
    if isinstance(x, (list, tuple)):
        items = [asarray(y) if isinstance(y, (list, tuple)) else y for y in x]
        if not items:
            return LArr.new(lambda idx: T.ZERO, (T.ZERO,), dt or "f")
        if any(isinstance(y, MArr) for y in items):
            raise Unsupported("array of masked selections")
        if any(isinstance(y, LArr) for y in items):
            items = [y if isinstance(y, LArr) else LArr.new((lambda e: lambda idx: e)(elem(y)), (), dt_scalar(y)) for y in items]
            sh = items[0]._shape
            for y in items[1:]:
                if len(y._shape) != len(sh) or not all(same_dim(a, b) for a, b in zip(sh, y._shape)):
                    raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            d = dt or promote(*[y.dt for y in items])
            sn = [(y.snapshot(), y.dt) for y in items]

            def fn(idx):
                if idx[0].op == "const":
                    s, sd = sn[int(idx[0].val)]
                    return conv(s.get(idx[1:]), sd, d)
                r = conv(sn[-1][0].get(idx[1:]), sn[-1][1], d)
                for k in range(len(sn) - 2, -1, -1):
                    r = ite_elem(T.eq(idx[0], T.const(k)), conv(sn[k][0].get(idx[1:]), sn[k][1], d), r, d)
                return r

            return LArr.new(fn, (T.const(len(items)),) + tuple(sh), d)
        for y in items:
            if not (scalar_ok(y) or isinstance(y, (CX, complex))):
                raise Unsupported("array of %r" % type(y))
        d = dt or promote(*[dt_scalar(y) for y in items])
        es = [conv(elem(y), dt_scalar(y), d) for y in items]

        def fn(idx):
            if idx[0].op == "const":
                return es[int(idx[0].val)]
            r = es[-1]
            for k in range(len(es) - 2, -1, -1):
                r = ite_elem(T.eq(idx[0], T.const(k)), es[k], r, d)
            return r

        return LArr.new(fn, (T.const(len(es)),), d)
    if scalar_ok(x) or isinstance(x, (CX, complex)):
        d = dt or dt_scalar(x)
        e = conv(elem(x), dt_scalar(x), d)
        return LArr.new(lambda idx: e, (), d)
    raise Unsupported("array of %r" % (type(x),))


def mkvar(name, shape, dt="f"):
    """a fresh symbolic array: elements are uninterpreted functions of the index"""
    shape = tuple(dimterm(d) for d in shape)
    if dt == "c":
        fn = lambda idx: CX(T.uf(name + ".re", *idx), T.uf(name + ".im", *idx))
    elif dt == "b":
        fn = lambda idx: T.mk("ubool", idx, name)
    else:
        fn = lambda idx: T.uf(name, *idx)
    return LArr.new(fn, shape, dt)
