"""proof rules of real analysis usable as lemmas in the contracts (trusted rules; their premises are obligations)"""
from . import terms as T
from . import prover
from .explore import cur
from .values import Sym, term, term_bool


def bernoulli(u, e):
    """(1+x)^e against its tangent, an axiom instance: for u > 0:
       e >= 1 or e <= 0 : u^e >= 1+e(u-1), strict when u != 1 and e not in {0,1};  0 <= e <= 1 : reversed"""
    p = cur()
    u, e = term(u), term(e)
    w = T.power(u, e)
    t = T.add(T.ONE, T.mul(e, T.sub(u, T.ONE)))
    pos = T.lt(T.ZERO, u)
    conv = T.or_(T.le(T.ONE, e), T.le(e, T.ZERO))
    sconv = T.or_(T.lt(T.ONE, e), T.lt(e, T.ZERO))
    conc = T.and_(T.le(T.ZERO, e), T.le(e, T.ONE))
    ne = T.or_(T.lt(u, T.ONE), T.lt(T.ONE, u))
    p.assume(T.implies(T.and_(pos, conv), T.le(t, w)))
    p.assume(T.implies(T.and_(pos, sconv, ne), T.lt(t, w)))
    p.assume(T.implies(T.and_(pos, conc), T.le(w, t)))


def monotone(label, F, a, b, sense=1, strict=False, when=True):
    """mean value rule: the derivative of F has the sign `sense` on ]a,b[ (obligation), F is defined on [a,b] (obligation)
       ==> a <= b implies sense*(F(b)-F(a)) >= 0"""
    p = cur()
    a, b = term(a), term(b)
    t = T.var(T.fresh_name("t"))
    Ft = term(F(Sym(t)))
    d = T.diff(Ft, t)
    if sense < 0:
        d = T.neg(d)
    w = term_bool(when)
    p.oblige("lemma %s: defined on the interval" % label, T.implies(T.and_(w, T.le(a, t), T.le(t, b)), prover.defn(Ft)), "lemma")
    p.oblige("lemma %s: sign of the derivative" % label,
             T.implies(T.and_(w, T.lt(a, t), T.lt(t, b)), (T.lt if strict else T.le)(T.ZERO, d)), "lemma")
    Fa, Fb = term(F(Sym(a))), term(F(Sym(b)))
    c = (T.le(Fa, Fb), T.lt(Fa, Fb))
    if sense < 0:
        c = (T.le(Fb, Fa), T.lt(Fb, Fa))
    p.assume(T.implies(T.and_(w, T.le(a, b)), c[0]))
    if strict:
        p.assume(T.implies(T.and_(w, T.lt(a, b)), c[1]))


def lemma(label, c):
    p = cur()
    g = term_bool(c)
    p.oblige("lemma " + label, g, "lemma")
    p.assume(g)


def congruent(f, x, y):
    cur().assume(T.implies(T.eq(term(x), term(y)), T.eq(term(f(x)), term(f(y)))))


def assume(c):
    cur().assume(term_bool(c))
