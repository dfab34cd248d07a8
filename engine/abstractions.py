"""abstract contracts for linear algebra and polynomial routines"""
from . import terms as T
from .explore import Unsupported, cur
from .values import Sym, SymB, CX, term
from . import larr as L


class LinAlgError(Exception):
    pass


def _un(name):
    def f(*a, **k):
        raise Unsupported("%s" % name)

    return f


def _opaque(name, args, kw, outs):
    """a deterministic, otherwise unknown function of its array arguments: the event is recorded with
    snapshots of the arguments, the unit states the contract of the result"""
    p = cur()
    h = p.state.get("oracle", {}).get(name)
    if h is None:
        raise Unsupported("%s has no trusted contract in this unit" % name)
    return h(*args, **kw)


def solve(a, b, **k):
    return _opaque("solve", (a, b), k, None)


def eig(a, b=None, **k):
    return _opaque("eig", (a, b), k, None)


def npeig(a):
    return _opaque("eig", (a,), {}, None)


def lstsq(a, b, rcond=None, **k):
    return _opaque("lstsq", (a, b), {}, None)


def norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm")
    if not isinstance(x, L.LArr):
        x = L.asarray(x)
    if len(x._shape) != 1 and ord is not None:
        raise Unsupported("matrix norm")
    s = (x.real * x.real + x.imag * x.imag).sum() if x.dt == "c" else (x * x).sum()
    return Sym(T.sqrt(term(s)))


inv = _un("inv")


def chebvander(x, deg):
    return _opaque("chebvander", (x, deg), {}, None)


def chebval(x, c, tensor=True):
    return _opaque("chebval", (x, c), {}, None)


def polyval(p, x):
    r = 0
    for c in list(iter(p)):
        r = r * x + c
    return r


block_diag = _un("block_diag")


def compress(cond, a, axis=None):
    return _opaque("compress", (cond, a), {"axis": axis}, None)


def argsort(a):
    return _opaque("argsort", (a,), {}, None)


def vectorized(f, a, k):
    """np.vectorize over arrays of constant size: the scalar function applied to every element"""
    import itertools
    a = [L.asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
    k = {n: L.asarray(x) if isinstance(x, (list, tuple)) else x for n, x in k.items()}
    arrs = [x for x in list(a) + list(k.values()) if isinstance(x, L.LArr)]
    shape = L.bshape([x._shape for x in arrs])
    if not all(d.op == "const" and d.val <= 8 for d in shape):
        raise Unsupported("np.vectorize over arrays of unknown size")
    el = lambda x, ix: L.wrap(L.bget(x, ix, len(shape)), x.dt) if isinstance(x, L.LArr) else x
    vals = {}
    for ix in itertools.product(*[[T.const(i) for i in range(int(d.val))] for d in shape]):
        r = f(*[el(x, ix) for x in a], **{n: el(x, ix) for n, x in k.items()})
        vals[ix] = Sym(term(r))

    def fn(ix):
        ix = tuple(ix)
        if ix in vals:
            return vals[ix].e
        out = None
        for j, v in vals.items():
            out = v.e if out is None else T.ite(T.and_(*[T.eq(x, y) for x, y in zip(ix, j)]), v.e, out)
        return out

    return L.LArr.new(fn, shape, "f")
