"""boolean masks and integer-array indexing"""
from . import terms as T
from .explore import Unsupported, cur
from .values import Sym, SymB, term
from . import larr as L


def _mask(a, key):
    if isinstance(key, tuple):
        if len(key) == 1:
            key = key[0]
        else:
            return None
    if isinstance(key, L.LArr) and key.dt == "b":
        return key
    if isinstance(key, (SymB, bool)) and False:
        return key
    return None


def _selected(a, key):
    """array[..., condition, ...] in a unit with a contract for numpy.compress"""
    h = cur().state.get("oracle", {}).get("compress")
    ks = key if isinstance(key, tuple) else (key,)
    if h is None or not any(isinstance(k, L.LArr) and k.dt == "b" and len(k._shape) == 1 for k in ks):
        return None
    for ax, k in enumerate(ks):
        if isinstance(k, L.LArr):
            if k.dt != "b" or any(x != slice(None) for j, x in enumerate(ks) if j != ax and not isinstance(x, L.LArr)) or sum(isinstance(x, L.LArr) for x in ks) > 1:
                return None
            if not L.same_dim(k._shape[0], a._shape[ax]):
                raise IndexError("boolean index did not match indexed array")
            return h(k, a, axis=ax)


def getitem(a, key):
    r = _selected(a, key)
    if r is not None:
        return r
    m = _mask(a, key)
    if m is not None:
        if len(m._shape) != len(a._shape):
            if len(m._shape) < len(a._shape):
                raise Unsupported("partial mask")
            raise IndexError("too many indices for array")
        for x, y in zip(m._shape, a._shape):
            if not L.same_dim(x, y):
                raise IndexError("boolean index did not match indexed array")
        s = a.snapshot()
        return L.MArr(m.copy(), s.get, a.dt)
    ks = key if isinstance(key, tuple) else (key,)
    if any(isinstance(k, list) for k in ks):
        ks = tuple(L.asarray(k) if isinstance(k, list) else k for k in ks)
    if any(isinstance(k, L.LArr) and k._shape != () for k in ks):
        if any(isinstance(k, L.LArr) and k.dt == "b" for k in ks):
            raise Unsupported("mask combined with other indices")
        if len(ks) == 1 and len(ks[0]._shape) == 1:
            k = ks[0]
            if k.dt != "i":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            n = a._shape[0]
            i = T.var(T.fresh_name("fi"), "I")
            p = cur()
            e = k.get((i,))
            from . import prover
            cond = T.implies(T.and_(T.le(T.ZERO, i), T.lt(i, k._shape[0])), T.and_(T.le(T.ZERO, e), T.lt(e, n)))
            p.oblige("fancy index in bounds", cond, "bounds")
            s, ks_ = a.snapshot(), k.snapshot()
            return L.LArr.new(lambda idx: s.get((ks_.get((idx[0],)),) + tuple(idx[1:])), (k._shape[0],) + tuple(a._shape[1:]), a.dt)
        if len(ks) == 2 and all(isinstance(k, L.LArr) and k.dt == "i" for k in ks):
            s = a.snapshot()
            r = L.ew(lambda x, y: (x, y), (ks[0], ks[1]), "i")
            g = r.buf.fn
            return L.LArr.new(lambda idx: s.get(g(idx)), r._shape, a.dt)
        if len(ks) == 2 and isinstance(ks[0], slice) and ks[0] == slice(None) and isinstance(ks[1], L.LArr) and ks[1].dt == "i":
            s, k = a.snapshot(), ks[1].snapshot()
            return L.LArr.new(lambda idx: s.get((idx[0], k.get((idx[1],)))), (a._shape[0], ks[1]._shape[0]), a.dt)
        raise Unsupported("advanced indexing")
    return None


def setitem(a, key, val):
    m = _mask(a, key)
    if m is not None:
        if len(m._shape) != len(a._shape):
            raise Unsupported("partial mask store")
        for x, y in zip(m._shape, a._shape):
            if not L.same_dim(x, y):
                raise IndexError("boolean index did not match indexed array")
        ms = m.snapshot()
        if isinstance(val, L.MArr):
            if not L.same_mask(m, val.mask):
                raise Unsupported("masked store of a selection made with another mask")
            f, sd = val.fn, val.dt
            a._store(lambda v: L.conv(f(v), sd, a.dt), ms.get)
            return True
        if isinstance(val, L.LArr) and val._shape != () and not all(d is T.ONE for d in val._shape):
            raise Unsupported("masked store of an array")
        if isinstance(val, L.LArr):
            val = val.item()
        e = L.conv(L.elem(val), L.dt_scalar(val), a.dt)
        a._store(lambda v: e, ms.get)
        return True
    ks = key if isinstance(key, tuple) else (key,)
    if any(isinstance(k, (list,)) or (isinstance(k, L.LArr) and k._shape != ()) for k in ks):
        raise Unsupported("advanced indexed store")
    return False
