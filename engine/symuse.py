"""use of a contract at a call site"""
import inspect

from . import terms as T
from . import prover
from .explore import Unsupported, cur, instantiate
from .values import Sym, SymB, CX, term, term_bool, scalar_ok, kind
from . import larr as L
from .symenv import b2t


def assume_all(env, shape, cond, trigger=None):
    """trigger: an application of an uninterpreted function; only obligations about it get instances"""
    sh = tuple(term(d) if not isinstance(d, T.E) else d for d in shape)

    def fact(idx):
        inr = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(idx, sh)])
        return T.implies(inr, b2t(cond(tuple(Sym(i, "I") for i in idx))))

    fact.arity = len(sh)
    if trigger is not None:
        fact.trigger = term(trigger)
    env.p.assume_forall(fact)


def unwrap(obj):
    f = obj
    for _ in range(5):
        if hasattr(f, "__vobj__"):
            f = f.__vobj__
        elif f.__class__.__name__ == "vectorize":
            f = f.f
        else:
            break
    return f


def bind(c, obj, a, k):
    sig = inspect.signature(unwrap(obj))
    ba = sig.bind(*a, **k)
    given = set(ba.arguments)
    ba.apply_defaults()
    names = list(sig.parameters)
    for q in sig.parameters.values():
        if q.kind in (q.VAR_POSITIONAL, q.VAR_KEYWORD):
            raise Unsupported("%s: signature with *args" % c.key)
    want = [p.name for p in c.params]
    if set(want) <= set(names):
        args = [ba.arguments[n] for n in want]
        rest = [n for n in names if n not in want]
    else:
        if len(names) < len(want):
            raise Unsupported("%s: signature changed" % c.key)
        args = [ba.arguments[n] for n in names[:len(want)]]
        rest = names[len(want):]
    for n in rest:
        if n in given:
            raise Unsupported("%s called with the unspecified parameter %s" % (c.key, n))
    return args


def apply(c, p, obj, a, k):
    args = [L.asarray(x) if isinstance(x, (list, tuple)) else x for x in bind(c, obj, a, k)]
    for x in args:
        if not (scalar_ok(x) or isinstance(x, (L.LArr, L.MArr))):
            raise TypeError("%s called with a %s" % (c.key, type(x).__name__))
    short = c.key.split(":")[1]
    cond_pre = p.state.get("pathcond_pre")
    if not any(isinstance(x, (L.LArr, L.MArr)) for x in args):
        sa = [Sym(term(x), kind(x)) if not isinstance(x, Sym) else x for x in args]
        for lab, g in c.pre(sa):
            g = b2t(g)
            d = T.and_(*[prover.defn(x.e) for x in sa])
            p.oblige("precondition of %s: %s" % (short, lab), g, "pre")
            p.assume(g)
        return result_scalar(c, p, sa)
    # element-wise
    if c.scalar_only:
        raise Unsupported("%s is only specified for scalars" % c.key)
    if any(isinstance(x, L.MArr) for x in args):
        m = next(x for x in args if isinstance(x, L.MArr))
        shape = m.mask._shape
    else:
        shape = L.bshape([x._shape for x in args if isinstance(x, L.LArr)])
    # precondition at a generic index
    idx = tuple(T.var(T.fresh_name("pi"), "I") for _ in shape)
    rng = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(idx, shape)])
    if any(isinstance(x, L.MArr) for x in args):
        rng = T.and_(rng, m.mask.get(idx))
    gen = []
    for x in args:
        if isinstance(x, L.LArr):
            gen.append(Sym(L.conv(L.bget(x, idx, len(shape)), x.dt, "f" if x.dt != "i" else "i"), "I" if x.dt == "i" else "R"))
        elif isinstance(x, L.MArr):
            gen.append(Sym(x.fn(idx), "R"))
        else:
            gen.append(Sym(term(x), kind(x)))
    for lab, g in c.pre(gen):
        g = b2t(g)
        p.oblige("precondition of %s (all elements): %s" % (short, lab), T.implies(rng, g), "pre")
    if c.spec is not None:
        def f(*es):
            return term(c.spec(*[Sym(e) for e in es]))

        return L.ew(f, tuple(args), "f", "f")
    nm = "res:" + short

    def f(*es):
        return T.uf(nm, *es)

    r = L.ew(f, tuple(args), "f", "f")
    if isinstance(r, L.MArr):
        raise Unsupported("relational contract on a masked selection")
    sn = [(x.snapshot() if isinstance(x, L.LArr) else Sym(term(x))) for x in args]
    rs = r.snapshot()

    def fact(ix):
        inr = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(ix, shape)])
        es = [Sym(L.bget(s, ix, len(shape))) if isinstance(s, L.Snap) else s for s in sn]
        v = Sym(rs.get(tuple(ix)))
        return T.implies(inr, T.and_(*[b2t(q) for _, q in c.post(v, es)]))

    fact.arity = len(shape)
    p.assume_forall(fact)
    done = p.state.setdefault("ufax", set())
    if nm not in done:
        done.add(nm)
        p.assume_forall(UfFact(nm, c))
    return r


class UfFact:
    """the contract of an element-wise function at every application in the obligation: precondition => postcondition"""
    arity = "uf"

    def __init__(self, nm, c):
        self.nm, self.c = nm, c

    def instances(self, exprs):
        seen, out = set(), []
        for e in exprs:
            for u in T.ufs(e):
                if u.val == self.nm and u.id not in seen and not any(v.op == "var" and v.val[0].startswith("\u03ba") for v in T.free_vars(u)):
                    seen.add(u.id)
                    sa = [Sym(a) for a in u.args]
                    pre = T.and_(*[b2t(g) for _, g in self.c.pre(sa)])
                    out.append(T.implies(pre, T.and_(*[b2t(q) for _, q in self.c.post(Sym(u), sa)])))
        return out


def result_scalar(c, p, sa):
    if c.spec is not None:
        r = c.spec(*sa)
        if not isinstance(r, Sym):
            r = Sym(term(r))
        return r
    v = Sym(T.uf("res:" + c.key.split(":")[1], *[x.e for x in sa]))
    for lab, q in c.post(v, sa):
        p.assume(b2t(q))
    return v
