"""sums, products of matrices, quantifiers, extrema"""
from . import terms as T
from .explore import Unsupported, cur
from .values import Sym, SymB, CX, term
from . import larr as L

UNROLL = 64
_LEV = {}


def level(e):
    r = _LEV.get(e.id)
    if r is None:
        r = 0
        for a in e.args:
            r = max(r, level(a))
        if e.op == "sum":
            r += 1
        _LEV[e.id] = r
    return r


def sumterm(lo, hi, body):
    """sum_{lo <= k < hi} body(k)"""
    if lo.op == "const" and hi.op == "const" and hi.val - lo.val <= UNROLL:
        return T.add(*[body(T.const(k)) for k in range(int(lo.val), int(hi.val))]) if hi.val > lo.val else T.ZERO
    probe = T.var("sum?%d" % 0, "I")
    k0 = T.var(T.fresh_name("sk"), "I")
    p = cur()
    # inside the sum the index is in range
    b = body(k0)
    if b is T.ZERO:
        return T.ZERO
    # a single non-zero term: sum ite(k==j, e, 0)
    s = _delta(b, k0, lo, hi)
    if s is not None:
        return s
    kv = T.var("\u03ba%d" % (level(b) + 1), "I")
    b = T.subst(b, {k0: kv})
    return mksum(kv, lo, hi, b)


def mksum(kv, lo, hi, b):
    # pull index free factors out
    if b.op == "mul":
        out = [a for a in b.args if kv not in T.free_vars(a)]
        if out:
            inn = [a for a in b.args if kv in T.free_vars(a)]
            if inn:
                return T.mul(*(out + [mksum(kv, lo, hi, T.mul(*inn))]))
    if kv not in T.free_vars(b):
        return T.mul(b, T.sub(hi, lo))
    return T.mk("sum", (kv, lo, hi, b))


def _delta(b, k, lo, hi):
    if b.op == "mul":
        for i, a in enumerate(b.args):
            if a.op == "ite" and a.args[2] is T.ZERO:
                b = T.ite(a.args[0], T.mul(a.args[1], *(b.args[:i] + b.args[i + 1:])), T.ZERO)
                break
    if b.op == "ite" and b.args[2] is T.ZERO:
        c = b.args[0]
        cs = list(c.args) if c.op == "and" else [c]
        for a in cs:
            if a.op == "eq" and k in a.args:
                j = a.args[0] if a.args[1] is k else a.args[1]
                if k in T.free_vars(j):
                    continue
                rest = T.and_(*[x for x in cs if x is not a])
                m = {k: j}
                inr = T.and_(T.le(lo, j), T.lt(j, hi), T.subst(rest, m))
                inr = L.simp_cond(inr)
                return T.ite(inr, T.subst(b.args[1], m), T.ZERO)
    return None


def sum_elem(lo, hi, body, dt):
    if dt == "c":
        return CX(sumterm(lo, hi, lambda k: body(k).re), sumterm(lo, hi, lambda k: body(k).im))
    return sumterm(lo, hi, body)


def asum(a, axis, keepdims=False):
    s = a.snapshot()
    sh = a._shape
    dt = "i" if a.dt == "b" else a.dt
    get = lambda idx: L.conv(s.get(idx), a.dt, dt)
    if axis is None:
        if len(sh) == 0:
            return L.wrap(get(()), dt)
        if len(sh) == 1:
            return L.wrap(sum_elem(T.ZERO, sh[0], lambda k: get((k,)), dt), dt)
        if len(sh) == 2:
            return L.wrap(sum_elem(T.ZERO, sh[0], lambda i: sum_elem(T.ZERO, sh[1], lambda j: get((i, j)), dt), dt), dt)
        raise Unsupported("sum of a %d-d array" % len(sh))
    n = len(sh)
    if axis < 0:
        axis += n
    rs = sh[:axis] + sh[axis + 1:]
    memo = {}

    def fn(idx):
        if keepdims:
            idx = idx[:axis] + idx[axis + 1:]
        r = memo.get(idx)
        if r is None:
            r = sum_elem(T.ZERO, sh[axis], lambda k: get(idx[:axis] + (k,) + idx[axis:]), dt)
            memo[idx] = r
        return r

    if not rs:
        v = fn(())
        return L.wrap(v, dt)
    if keepdims:
        return L.LArr.new(fn, sh[:axis] + (T.ONE,) + sh[axis + 1:], dt)
    return L.LArr.new(fn, rs, dt)


def matmul(a, b):
    dt = L.promote(a.dt, b.dt)
    if dt == "b":
        raise Unsupported("boolean matmul")
    sa, sb = a._shape, b._shape
    if not sa or not sb:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    ka = sa[-1]
    kb = sb[0] if len(sb) == 1 else sb[-2]
    if not L.same_dim(ka, kb):
        raise ValueError("matmul: dimension mismatch")
    if len(sa) > 2 or len(sb) > 2:
        raise Unsupported("stacked matmul")
    ga, gb = a.snapshot(), b.snapshot()
    A = lambda idx: L.conv(ga.get(idx), a.dt, dt)
    B = lambda idx: L.conv(gb.get(idx), b.dt, dt)
    mul = (lambda x, y: x * y) if dt == "c" else T.mul
    # diagonal factors
    if a.diagv is not None and len(sa) == 2:
        dv = a.diagv
        D = lambda i: L.conv(dv.get((i,)), a.dt, dt)
        if len(sb) == 1:
            return L.LArr.new(lambda idx: mul(D(idx[0]), B(idx)), sb, dt)
        return L.LArr.new(lambda idx: mul(D(idx[0]), B(idx)), (sa[0], sb[1]), dt)
    memo = {}
    if len(sa) == 2 and len(sb) == 2:
        def fn(idx):
            r = memo.get(idx)
            if r is None:
                i, j = idx
                r = memo[idx] = sum_elem(T.ZERO, ka, lambda k: mul(A((i, k)), B((k, j))), dt)
            return r
        return L.LArr.new(fn, (sa[0], sb[1]), dt)
    if len(sa) == 2:
        def fn(idx):
            r = memo.get(idx)
            if r is None:
                r = memo[idx] = sum_elem(T.ZERO, ka, lambda k: mul(A((idx[0], k)), B((k,))), dt)
            return r
        return L.LArr.new(fn, (sa[0],), dt)
    if len(sb) == 2:
        return L.LArr.new(lambda idx: sum_elem(T.ZERO, ka, lambda k: mul(A((k,)), B((k, idx[0]))), dt), (sb[1],), dt)
    return L.wrap(sum_elem(T.ZERO, ka, lambda k: mul(A((k,)), B((k,))), dt), dt)


def _inrange(idx, shape):
    return T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(idx, shape)])


def any_(a, axis=None):
    """exists"""
    return ~all_(~_tobool(a), axis)


def _tobool(a):
    if a.dt == "b":
        return a
    return L.LArr.new(lambda idx, s=a.snapshot(), d=a.dt: L.conv(s.get(idx), d, "b"), a._shape, "b")


def all_(a, axis=None):
    if axis is not None and not (axis == 0 and len(a._shape) == 1):
        raise Unsupported("all(axis)")
    a = _tobool(a)
    sh = a._shape
    if all(d.op == "const" for d in sh):
        n = 1
        for d in sh:
            n *= int(d.val)
        if n <= 64:
            import itertools
            return SymB(T.and_(*[a.get(tuple(T.const(i) for i in ix)) for ix in itertools.product(*[range(int(d.val)) for d in sh])]))
    p = cur()
    s = a.snapshot()
    key = L.mask_key(a)
    tab = p.state.setdefault("forall", {})
    if key in tab:
        return SymB(tab[key])
    # b <=> forall idx in range. a(idx)
    b = T.bvar(T.fresh_name("all"))
    tab[key] = b

    def fact(idx):
        g = s.get(tuple(idx))
        return T.implies(T.and_(b, _inrange(idx, sh)), g)

    fact.arity = len(sh)
    p.assume_forall(fact)
    # skolem witness when false
    w = tuple(T.var(T.fresh_name("wit"), "I") for _ in sh)
    p.assume(T.or_(b, T.and_(_inrange(w, sh), T.not_(s.get(w)))))
    # non-negative dimensions
    for d in sh:
        p.assume(T.le(T.ZERO, d))
    return SymB(b)


def extremum(a, axis, sgn):
    """(value, index) of min (sgn<0) / max, first occurrence"""
    if axis is not None and not (axis in (0, -1) and len(a._shape) == 1):
        raise Unsupported("extremum along an axis")
    if len(a._shape) == 0:
        return a.item(), 0
    if len(a._shape) != 1:
        raise Unsupported("extremum of a %d-d array" % len(a._shape))
    n = a._shape[0]
    if not L.truth(T.lt(T.ZERO, n)):
        raise ValueError("zero-size array to reduction operation which has no identity")
    s = a.snapshot()
    p = cur()
    LE, LT = (T.implies, lambda x, y: T.and_(T.not_(x), y)) if a.dt == "b" else (T.le, T.lt)
    if n.op == "const" and n.val <= 8:
        v, j = s.get((T.ZERO,)), T.ZERO
        for k in range(1, int(n.val)):
            e = s.get((T.const(k),))
            c = L.simp_cond(LT(e, v) if sgn < 0 else LT(v, e))
            v, j = (T.or_(T.and_(c, e), T.and_(T.not_(c), v)) if a.dt == "b" else T.ite(c, e, v)), T.ite(c, T.const(k), j)
        return L.wrap(v, a.dt), Sym(j, "I")
    tab = p.state.setdefault("extr", {})
    key = (n.id, sgn, s.get((T.var("mk@0", "I"),)).id)
    if key in tab:
        j = tab[key]
        return L.wrap(s.get((j,)), a.dt), Sym(j, "I")
    j = T.var(T.fresh_name("argm"), "I")
    tab[key] = j
    p.assume(T.and_(T.le(T.ZERO, j), T.lt(j, n)))
    v = s.get((j,))

    def fact(idx):
        k = idx[0]
        e = s.get((k,))
        inr = T.and_(T.le(T.ZERO, k), T.lt(k, n))
        le = LE(v, e) if sgn < 0 else LE(e, v)
        lt = LT(v, e) if sgn < 0 else LT(e, v)
        return T.and_(T.implies(inr, le), T.implies(T.and_(inr, T.lt(k, j)), lt))

    fact.arity = 1
    p.assume_forall(fact)
    return L.wrap(v, a.dt), Sym(j, "I")
