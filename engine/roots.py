"""Trusted contracts of the scalar root finders (scipy.optimize.newton, fsolve, ...).

Assumed: the call converges and its result r satisfies f(r) == 0 (exact arithmetic).  What is still an
obligation: the stopping tolerances are at least as tight as the library defaults, the initial guess is
defined, and -- when the unit states which root is wanted -- the conditions (`newton policy`) under
which the iteration can be claimed to stay on the branch of the initial guess.
"""
import contextlib
from fractions import Fraction as Fr

from . import terms as T
from . import prover
from .explore import Unsupported, cur
from .values import Sym, term, term_bool, scalar_ok
from . import larr as L

TOL_MAX = Fr(148, 10**10)


def _num(x):
    if x is None:
        return None
    t = term(x)
    if t.op != "const":
        raise Unsupported("symbolic tolerance")
    return t.val


def _tol(p, name, v, mx):
    v = _num(v)
    if v is not None:
        p.oblige("%s of the root finder is not looser than %s" % (name, float(mx)), T.TRUE if 0 <= v <= mx else T.FALSE, "pre")


def _memo(p, key, make):
    """the root finders are deterministic: the same residual, guess and tolerances give the same root"""
    d = p.state.setdefault("rootmemo", {})
    if key in d:
        return d[key]
    d[key] = make
    return make


def _canon(e, m):
    return T.subst(e, m).id


def _root(f, x0, who, args=(), tols=()):
    p = cur()
    p.state.setdefault("assumed", set()).add("%s converges to a zero of its argument" % who)
    p.state.setdefault("rootvars", [])
    pol = p.state.get("newton")
    if isinstance(x0, (list, tuple)):
        x0 = L.asarray(x0)
    if isinstance(x0, L.LArr):
        nm = T.fresh_name("root")
        r = L.mkvar(nm, x0._shape, "f")
        sx = x0.snapshot()
        shape = x0._shape
        small = all(d.op == "const" for d in shape) and len(shape) == 1 and shape[0].val == 1
        if small:
            i0 = (T.ZERO,)
            df = prover.defn(sx.get(i0))
            p.oblige("initial guess is defined", df, "pre")
            if pol is not None:
                f0 = f(x0.copy(), *args)
                _policy(p, pol, Sym(f0.get(i0) if isinstance(f0, L.LArr) else term(f0)), Sym(sx.get(i0)), Sym(r.get(i0)), None, i0)
            v = f(r.copy(), *args)
            e = v.get(i0) if isinstance(v, L.LArr) else term(v)
            p.assume(T.eq(e, T.ZERO))
            p.assume(prover.defn(e))
            return _memo(p, (who, tols, "1", _canon(e, {r.get(i0): T.var("root@")}), sx.get(i0).id), r).copy()
        idx = tuple(T.var(T.fresh_name("ri"), "I") for _ in shape)
        rng = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(idx, shape)])
        sr = r.snapshot()
        p.oblige("initial guess is defined", T.implies(rng, prover.defn(sx.get(idx))), "pre")
        if pol is not None:
            f0 = f(x0.copy(), *args)
            _chk(f0, shape)
            extra = _policy(p, pol, Sym(f0.snapshot().get(idx)), Sym(sx.get(idx)), Sym(sr.get(idx)), rng, idx)

            def bfact(ix):
                inr = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(ix, shape)])
                return T.implies(inr, T.subst(extra, dict(zip(idx, ix))))

            bfact.arity = len(shape)
            p.assume_forall(bfact)
        v = f(r.copy(), *args)
        _chk(v, shape)
        sv = v.snapshot()

        def fact(ix):
            e = sv.get(tuple(ix))
            inr = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(ix, shape)])
            return T.implies(inr, T.eq(e, T.ZERO))

        fact.arity = len(shape)
        p.assume_forall(fact)
        cix = tuple(T.var("ri@%d" % k, "I") for k in range(len(shape)))
        key = (who, tols, tuple(d.id for d in shape), _canon(sv.get(cix), {sr.get(cix): T.var("root@")}), sx.get(cix).id)
        return _memo(p, key, r).copy()
    if not scalar_ok(x0):
        raise Unsupported("root finder started from %r" % type(x0))
    t0 = term(x0)
    p.oblige("initial guess is defined", prover.defn(t0), "pre")
    r = Sym(T.var(T.fresh_name("root")))
    p.state["rootvars"].append(r)
    if pol is not None:
        f0 = None if getattr(pol, "nof0", False) else Sym(term(_sc(f(Sym(t0), *args))))
        _policy(p, pol, f0, Sym(t0), r)
    v = _sc(f(r, *args))
    e = term(v)
    p.assume(T.eq(e, T.ZERO))
    p.assume(prover.defn(e))
    return _memo(p, (who, tols, _canon(e, {r.e: T.var("root@")}), t0.id), NPf(r.e))


def _chk(v, shape):
    if not isinstance(v, L.LArr) or len(v._shape) != len(shape):
        raise Unsupported("residual of the array root finder is not an array of the same shape")
    for a, b in zip(v._shape, shape):
        if not L.same_dim(a, b):
            raise ValueError("operands could not be broadcast together")


def _policy(p, pol, f0, x0, root, rng=None, idx=()):
    """pol(residual at the guess, guess, root, arg) -> ([(label, obligation)], trusted fact about the root, its wording)"""
    def arg(name):
        """input of the unit by its name (its element at the current index)"""
        v = p.state["named"][name]
        if isinstance(v, L.LArr):
            return Sym(L.bget(v, idx, len(idx)))
        return Sym(term(v)) if not isinstance(v, Sym) else v

    with contextlib.ExitStack() as st:
        if rng is not None and rng is not T.TRUE:
            st.enter_context(p.scoped(rng))
        obl, fact, words = pol(f0, x0, root, arg)
        for lab, c in obl:
            c = term_bool(c)
            p.oblige("root finder: " + lab, c, "pre")
            p.assume(c)
    p.state.setdefault("assumed", set()).add(words)
    fact = term_bool(fact)
    if rng is None:
        p.assume(fact)
        return None
    return fact


def _sc(v):
    if isinstance(v, L.LArr):
        return v.item()
    return v


class NPf(Sym):
    """numpy float scalar (has the array attributes)"""
    __slots__ = ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def copy(self):
        return self


def newton(func, x0, fprime=None, args=(), tol=None, maxiter=50, fprime2=None, x1=None, rtol=None, full_output=False, disp=True):
    p = cur()
    if full_output:
        raise Unsupported("newton(full_output)")
    _tol(p, "tol", tol, TOL_MAX)
    _tol(p, "rtol", rtol, Fr(1, 10**8))
    if not isinstance(maxiter, int) or maxiter < 50:
        p.oblige("maxiter of newton is at least the library default", T.FALSE, "pre")
    return _root(func, x0, "scipy.optimize.newton", tuple(args), (str(tol), str(rtol), maxiter))


def fsolve(func, x0, args=(), fprime=None, full_output=0, col_deriv=0, xtol=None, maxfev=0, band=None, epsfcn=None, factor=100, diag=None):
    p = cur()
    if full_output:
        raise Unsupported("fsolve(full_output)")
    _tol(p, "xtol", xtol, Fr(2, 10**8))
    if maxfev not in (0,) and not (isinstance(maxfev, int) and maxfev >= 200):
        p.oblige("maxfev of fsolve is at least the library default", T.FALSE, "pre")
    if not isinstance(x0, (L.LArr, list, tuple)):
        x0 = L.asarray([x0])
    if isinstance(x0, L.LArr) and x0._shape == ():
        x0 = L.asarray([x0.item()])
    if not isinstance(args, tuple):
        args = (args,)
    return _root(func, x0, "scipy.optimize.fsolve", args, (str(xtol), maxfev))


def brentq(f, a, b, args=(), xtol=None, rtol=None, maxiter=100, full_output=False, disp=True):
    p = cur()
    if full_output:
        raise Unsupported("brentq(full_output)")
    _tol(p, "xtol", xtol, Fr(2, 10**8))
    _tol(p, "rtol", rtol, Fr(1, 10**8))
    fa, fb = term(_sc(f(a, *args))), term(_sc(f(b, *args)))
    p.oblige("brentq: f(a) and f(b) have different signs", T.le(T.mul(fa, fb), T.ZERO), "pre")
    r = Sym(T.var(T.fresh_name("root")))
    p.state.setdefault("assumed", set()).add("scipy.optimize.brentq converges to a zero of its argument in the bracket")
    p.assume(T.le(term(a), r.e))
    p.assume(T.le(r.e, term(b)))
    p.assume(T.eq(term(_sc(f(r, *args))), T.ZERO))
    return Sym(r.e)


def root_scalar(*a, **k):
    raise Unsupported("scipy.optimize.root_scalar")


def secant_apply(p, obj, a, k):
    """call-site contract of the library's own secant solver: the result r satisfies f(r) == y when the iteration
    converges (assumed; the exit criterion and the update of the body are verified separately).
    Obligations: the tolerance is at most the library default, f is defined at the guess, the policy of the unit."""
    import inspect
    from . import symuse

    sig = inspect.signature(symuse.unwrap(obj))
    ba = sig.bind(*a, **k)
    ba.apply_defaults()
    names = list(sig.parameters)
    if len(names) < 3:
        raise Unsupported("secant solver: signature changed")
    vals = [ba.arguments[n] for n in names]
    f, y, x0 = vals[:3]
    if not callable(f):
        raise Unsupported("secant solver: first argument is not a function")
    if len(names) > 3:
        _tol(p, "tol", vals[3], Fr(1, 10**5))
    p.state.setdefault("assumed", set()).add("the secant iteration converges (f(r)=y within its tolerance) from the given guess")
    pol = p.state.get("newton")
    if isinstance(x0, (list, tuple)):
        x0 = L.asarray(x0)
    if isinstance(y, (list, tuple)):
        y = L.asarray(y)
    if isinstance(x0, L.LArr) and x0._shape == ():
        x0 = x0.item()
    if isinstance(y, L.LArr) and y._shape == ():
        y = y.item()
    if not isinstance(x0, L.LArr) and not isinstance(y, L.LArr):
        t0 = term(x0)
        ty = term(y)
        p.oblige("initial guess is defined", prover.defn(t0), "pre")
        p.oblige("target is defined", prover.defn(ty), "pre")
        r = Sym(T.var(T.fresh_name("root")))
        v0 = term(_sc(f(Sym(t0))))
        if pol is not None:
            _policy(p, pol, Sym(T.sub(v0, ty)), Sym(t0), r)
        p.oblige("function is defined at the guess", prover.defn(v0), "pre")
        e = term(_sc(f(r)))
        p.assume(T.eq(e, ty))
        p.assume(prover.defn(e))
        r = _memo(p, ("secant", str(_num(vals[3])) if len(vals) > 3 else None, _canon(e, {r.e: T.var("root@")}), t0.id, ty.id), r)
        p.state.setdefault("roots", []).append(r)
        return r
    shape = L.bshape([v._shape for v in (x0, y) if isinstance(v, L.LArr)])
    nm = T.fresh_name("root")
    res = L.mkvar(nm, shape, "f")
    idx = tuple(T.var(T.fresh_name("ri"), "I") for _ in shape)
    rng = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(idx, shape)])
    xs = Sym(L.bget(x0, idx, len(shape))) if isinstance(x0, L.LArr) else Sym(term(x0))
    ys = Sym(L.bget(y, idx, len(shape))) if isinstance(y, L.LArr) else Sym(term(y))
    r = Sym(res.get(idx))
    with p.scoped(rng):
        p.oblige("initial guess is defined", prover.defn(xs.e), "pre")
        p.oblige("target is defined", prover.defn(ys.e), "pre")
        v0 = term(_sc(f(xs)))
        facts = []
        if pol is not None:
            extra = _policy(p, pol, Sym(T.sub(v0, ys.e)), xs, r, T.TRUE, idx)
            facts.append(extra)
            p.assume(extra)
        p.oblige("function is defined at the guess", prover.defn(v0), "pre")
        e = term(_sc(f(r)))
        facts += [T.eq(e, ys.e), prover.defn(e)]

    def bfact(ix):
        inr = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(ix, shape)])
        return T.implies(inr, T.subst(T.and_(*facts), dict(zip(idx, ix))))

    bfact.arity = len(shape)
    p.assume_forall(bfact)
    return res
