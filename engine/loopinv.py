"""Loop invariants for loops with an unknown number of iterations.

The unit gives candidate invariants (conditions on the values of the variables at the loop head, found by their role -- their value
when the loop is entered -- not by their name).  A candidate that does not hold when the loop is entered or is not preserved by one
generic iteration is dropped and the unit is verified again (worker.run), so that what is finally assumed at the loop head has been
proved initially and preserved; the postconditions have to follow from the remaining ones."""
from . import terms as T
from . import larr as L
from .explore import Unsupported
from .values import Sym, SymB, term, term_bool, scalar_ok, kind


class Inv:
    def __init__(self, cand, note=None):
        """cand(vals at entry) -> [(label, fn(vals) -> condition)]"""
        self.cand, self.note = cand, note
        self.inst = 0

    def enter(self, p, loop, vals):
        dropped = p.state.setdefault("dropped", set())
        self.vals0 = vals
        hav = {v: havoc(v, x) for v, x in vals.items()}
        self.head = hav
        self.lid = loop.lid
        if loop.k is not None:
            p.assume(T.le(term(loop.bound.lo), hav["#k"].e))
            p.assume(T.or_(T.le(hav["#k"].e, term(loop.bound.hi)), T.le(hav["#k"].e, term(loop.bound.lo))))
            self.hi = loop.bound.hi
        cs = [c for c in self.cand(vals) if c[0] not in dropped]
        for c in cs:
            if len(c) > 2:
                # the invariant says that the last element of the list is the value of the variable
                hav[c[2][0]].last = hav[c[2][1]]
        self.cands = [c[:2] for c in cs]
        for n, f in self.cands:
            self._oblige(p, n, "holds initially", f(vals))
        for n, f in self.cands:
            p.assume(b2t(f(hav)))
        if self.note is not None:
            self.note(self, hav)
        return hav

    def _oblige(self, p, n, what, c):
        p.oblige("loop invariant %s: %s" % (what, n), b2t(c), "invariant")

    def back(self, p, loop, vals):
        for n, f in self.cands:
            self._oblige(p, n, "is preserved", f(vals))
        if self.note is not None:
            self.note(self, vals)


def b2t(c):
    from .symenv import b2t as b

    return b(c)


def inv_name(obl_name):
    """candidate of an obligation"""
    return obl_name.split(": ", 1)[1]


def havoc(v, x):
    from .loader import SymList

    nm = T.fresh_name("at:" + v.strip("#"))
    if isinstance(x, SymB) or isinstance(x, bool):
        b = T.var(nm, "I")
        return SymB(T.eq(b, T.ONE))
    if isinstance(x, Sym):
        return Sym(T.var(nm, x.k), x.k)
    if isinstance(x, int):
        return Sym(T.var(nm, "I"), "I")
    if scalar_ok(x):
        return Sym(T.var(nm))
    if isinstance(x, L.LArr):
        return L.mkvar(nm, x._shape, x.dt)
    if isinstance(x, list) and x:
        return SymList(x[0], havoc(v, x[-1]), None, nm)
    if isinstance(x, SymList):
        return SymList(x.first, havoc(v, x.last), None, nm)
    if isinstance(x, tuple):
        return tuple(havoc(v, y) for y in x)
    if x is None or callable(x) or isinstance(x, str):
        raise Unsupported("loop variable %s of type %s" % (v, type(x).__name__))
    raise Unsupported("loop variable %s of type %s" % (v, type(x).__name__))
