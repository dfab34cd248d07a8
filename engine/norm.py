"""Normaliser: real terms -> rational functions over atoms, under a context of sign facts.

Every rewriting used here is an identity of real analysis that is valid when the term is defined and the
side conditions (sign facts, ranges) hold; the side conditions are established by the context (z3).
"""
from fractions import Fraction as Fr
import math
import random

from . import terms as T
from . import poly as P
from .poly import (Poly, RF, gen, pgen, pconst, padd, pmul, pscale, pneg, psub, GENS, PONE, PZERO, rf, radd, rsub,
                   rneg, rmul, rinv, rdiv, rpow, rconst, RZERO, RONE, factor, primitive)


class Unsupported(Exception):
    pass


class UnitChanged(Exception):
    pass


class NotStrict(Exception):
    pass


PIG = gen("V", T.PI.id, T.PI, "pi")

# ------------------------------------------------------------------ exponent bases (Q-linear independence)


_DEP = {}
_INDEX = {}


def _index(k):
    v = T.var("\u03bb%d" % k, "I")
    _INDEX[v] = k
    return v


def _dependence(i):
    """generators whose value depends on the bound variable i"""
    memo = _DEP.setdefault(i.id, {})

    def rfd(r):
        return any(dep(g) for p in [r.num] + list(r.den) for g in p.gens())

    def data(x):
        if isinstance(x, P.Poly):
            return any(dep(g) for g in x.gens())
        if isinstance(x, RF):
            return rfd(x)
        if isinstance(x, (tuple, list)):
            return any(data(y) for y in x)
        if isinstance(x, T.E):
            return i in T.free_vars(x)
        return not (x is None or isinstance(x, (str, Fr)))

    def dep(g):
        r = memo.get(g)
        if r is None:
            G = P.GENS[g]
            if G.kind == "UF":
                r = any(rfd(a) for a in G.data[1])
            elif G.kind == "SUM" and isinstance(G.data, tuple):
                r = any(rfd(x) for x in G.data[2:]) or (G.data[0] is not i and data(G.data[1]))
            elif G.kind == "EXP":
                r = rfd(EXPX.items[G.data])
            elif G.kind == "B":
                r = data(G.data[0]) or rfd(EXPB.items[G.data[1]])
            else:
                r = data(G.data)
            memo[g] = r
        return r

    return dep


class Basis:
    """Q-vector space of rational functions: keeps linearly independent representatives."""

    def __init__(self, with_one):
        self.items = []
        self.with_one = with_one
        self.cache = {}
        if with_one:
            self.items.append(RONE)
        self.rnd = random.Random(12345)
        self.pts = []
        self.gv = {}

    def _val(self, gid, k):
        v = self.gv.get((gid, k))
        if v is None:
            v = Fr(random.Random((gid + 1) * 7919 + k * 104729).randint(3, 9973), random.Random(gid * 31 + k * 17 + 5).choice([7, 11, 13, 17, 19]))
            self.gv[(gid, k)] = v
        return v

    def _ev(self, r, k):
        def pe(p):
            s = Fr(0)
            for m, c in p.t.items():
                t = c
                for g, e in m:
                    if isinstance(e, Fr):
                        raise Unsupported("radical in exponent")
                    t = t * self._val(g, k) ** e
                s += t
            return s

        d = Fr(1)
        for p, e in r.den.items():
            d *= pe(p) ** e
        if d == 0:
            raise ZeroDivisionError
        return pe(r.num) / d

    def coords(self, r):
        """list of (index, coefficient)"""
        k = r.key()
        c = self.cache.get(k)
        if c is not None:
            return c
        if r.is_zero():
            return []
        res = self._solve(r)
        if res is None:
            best = r
            if self.with_one and r.den:
                for k in (1, -1, Fr(1, 2), Fr(-1, 2), 2, -2, Fr(3, 2), Fr(-3, 2)):
                    q = rsub(r, rconst(k))
                    if _size(q) < _size(best):
                        best = q
            c, p = primitive(best.num)
            best = RF(p, best.den)
            self.items.append(best)
            res = self._solve(r)
            if res is None:
                self.items[-1] = r
                res = [(len(self.items) - 1, Fr(1))]
        self.cache[k] = res
        return res

    def _solve(self, r):
        rg = r.gens()
        # only use the items sharing generators (and the constant 1)
        idx = [i for i, b in enumerate(self.items) if not b.gens() or (b.gens() & rg)]
        if not idx:
            return None
        n = len(idx)
        rows = []
        k = 0
        while len(rows) < n + 2:
            k += 1
            try:
                rows.append([self._ev(self.items[i], k) for i in idx] + [self._ev(r, k)])
            except ZeroDivisionError:
                continue
        # gaussian elimination
        piv = []
        row = 0
        M = rows
        for c in range(n):
            p = None
            for i in range(row, len(M)):
                if M[i][c] != 0:
                    p = i
                    break
            if p is None:
                continue
            M[row], M[p] = M[p], M[row]
            iv = M[row][c]
            M[row] = [x / iv for x in M[row]]
            for i in range(len(M)):
                if i != row and M[i][c] != 0:
                    f = M[i][c]
                    M[i] = [a - f * b for a, b in zip(M[i], M[row])]
            piv.append(c)
            row += 1
        for i in range(row, len(M)):
            if M[i][n] != 0:
                return None
        sol = [(idx[c], M[i][n]) for i, c in enumerate(piv) if M[i][n] != 0]
        chk = r
        for i, c in sol:
            chk = rsub(chk, rmul(rconst(c), self.items[i]))
        if not chk.is_zero():
            return None
        return sol


def _size(r):
    return (len(r.num.t), sum(sum(e for _, e in m) for m in r.num.t))


EXPB = Basis(True)   # exponents of powers
EXPX = Basis(False)  # arguments of exp
UNIT = {}            # angle monomial key -> unit coefficient


def _isqrt_frac(x):
    return x


class Norm:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.bound = frozenset()   # indices of the sums around the term

    # ---- sign facts
    def sgn(self, p):
        return self.ctx.sign(p)

    def rsgn(self, r):
        s = self.sgn(r.num)
        if s is None:
            return None
        for p, e in r.den.items():
            if e % 2:
                q = self.sgn(p)
                if q is None:
                    return None
                s *= 1 if q > 0 else -1
        return s

    # ---- main
    def rf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._rf(t)
            self.memo[t.id] = r
        return r

    def _rf(self, t):
        op = t.op
        if op == "const":
            return rconst(t.val)
        if op == "var":
            return rf(pgen(gen("V", t.id, t, t.val[0])))
        if op == "add":
            # balanced addition with grouping by denominators
            rs = [self.rf(a) for a in t.args]
            return self._sum(rs)
        if op == "mul":
            r = RONE
            for a in t.args:
                r = rmul(r, self.rf(a))
            return r
        if op == "pow":
            b, e = self.rf(t.args[0]), self.rf(t.args[1])
            try:
                return self._pow(b, e, t)
            except NotStrict:
                return self._oppow(b, e)
        if op == "fn":
            return self._fn(t.val, [self.rf(a) for a in t.args], t)
        if op == "uf":
            a = [self.rf(x) for x in t.args]
            if t.val == "negpow":
                r = self._negpow(a[0])
                if r is not None:
                    return r
            return rf(pgen(gen("UF", (t.val, tuple(x.key() for x in a)), (t.val, a, t), T.show(t, 3)[:60])))
        if op == "sum":
            return self._sumbinder(t)
        if op == "ite":
            c, a, b = t.args
            v = self.ctx.decide(c)
            if v is True:
                return self.rf(a)
            if v is False:
                return self.rf(b)
            if self.bound:
                try:
                    ra, rb = self.rf(a), self.rf(b)
                except (NotStrict, Unsupported):
                    ra = None
                if ra is not None:
                    if ra.key() == rb.key():
                        return ra
                    if T.free_vars(c) & self.bound:
                        k = self._indicator(c)
                        return radd(rb, rmul(k, rsub(ra, rb)))
            return rf(pgen(gen("OP", t.id, t, "ite#%d" % t.id)))
        raise Unsupported("normalise %s" % op)

    def _sum(self, rs):
        groups = {}
        for r in rs:
            k = frozenset(r.den.items())
            groups.setdefault(k, []).append(r)
        out = []
        for k, l in groups.items():
            n = l[0].num
            for r in l[1:]:
                n = padd(n, r.num)
            out.append(P._canc(n, dict(l[0].den)))
        out.sort(key=lambda r: (len(r.den), len(r.num.t)))
        r = RZERO
        for x in out:
            r = radd(r, x)
        return r

    def _negpow(self, a):
        """(-1)^a for a linear form with integer coefficients"""
        if a.den:
            return None
        r = RONE
        for m, c in a.num.t.items():
            if c.denominator != 1:
                return None
            if not all(GENS[g].kind == "V" and GENS[g].data.val[1] == "I" and isinstance(e, int) and e > 0 for g, e in m):
                return None
            if c % 2 == 0:
                continue
            if not m:
                r = rneg(r)
            else:
                r = rmul(r, rf(pgen(gen("NP", m, tuple(RF(Poly({m: Fr(1)})) for _ in (0,)), "negpow(%s)" % P.pshow(Poly({m: Fr(1)}))))))
        return r

    def _indicator(self, c):
        """1 if the condition holds, else 0"""
        if c.op == "not":
            return rsub(RONE, self._indicator(c.args[0]))
        if c.op == "and":
            r = RONE
            for a in c.args:
                r = rmul(r, self._indicator(a))
            return r
        if c.op == "eq":
            d = rsub(self.rf(c.args[0]), self.rf(c.args[1]))
            if d.num.t and d.num.t[P.leading(d.num)] < 0:
                d = rneg(d)
            return rf(pgen(gen("IV", ("eq", d.key()), (d, c), "[%s]" % T.show(c, 4)[:60])))
        return rf(pgen(gen("IV", c.id, (None, c), "[%s]" % T.show(c, 4)[:60])))

    def _sumbinder(self, t):
        """sum(idx, lo, hi, body): linear in the body, index-free factors are pulled out, conditions on the index split the sum"""
        i, lo, hi, body = t.args
        old = self.bound
        # the name of the index only depends on the indices that the term depends on
        j = _index(1 + max([_INDEX[v] for v in T.free_vars(t) & old], default=-1))
        body = T.subst(body, {i: j})
        i = j
        self.bound = old | {i}
        try:
            parts = self._guarded(body, i, lo, hi, (), {})
        except (NotStrict, Unsupported):
            return rf(pgen(gen("SUM", t.id, t, T.show(t, 4)[:80])))
        finally:
            self.bound = old
        return self._sum(self._binder(parts, i, self.rf(lo), self.rf(hi)))

    def _guarded(self, e, i, lo, hi, neg, out):
        """{guards: value}: the value of the body where the conditions (None for the whole range) hold; a guard (conditions that are
        false..., [condition that is true]); where the index is known the value alone, under the key None"""
        c = self._cond(e, i)
        if c is None:
            r = self.rf(e)
            out[neg] = radd(out[neg], r) if neg in out else r
            return out
        pt, pf = T.subst(e, {c: T.TRUE}), T.subst(e, {c: T.FALSE})
        if c.op == "eq" and i in c.args:
            v = c.args[0] if c.args[1] is i else c.args[1]
            if i not in T.free_vars(v) and not any(s for _, s in neg) and self.ctx.decide(T.and_(T.le(lo, v), T.lt(v, hi))) is True:
                r = self.rf(T.subst(pt, {i: v}))
                for d, _ in neg:
                    r = rmul(r, rsub(RONE, self._closed(T.subst(d, {i: v}))))
                out[None] = radd(out[None], r) if None in out else r
                return self._guarded(pf, i, lo, hi, neg + ((c, False),), out)
        a, b = self._guarded(pt, i, lo, hi, neg + ((c, True),), {}), self._guarded(pf, i, lo, hi, neg + ((c, False),), {})
        n = len(neg)
        same = len(a) == len(b)
        m = {}
        if same:
            for k, v in a.items():
                k2 = None if k is None else k[:n] + ((c, False),) + k[n + 1:]
                if k2 not in b or b[k2].key() != v.key():
                    same = False
                    break
                m[None if k is None else k[:n] + k[n + 1:]] = v
        for d in [m] if same else [a, b]:
            for k, v in d.items():
                out[k] = radd(out[k], v) if k in out else v
        return out

    def _closed(self, c):
        v = self.ctx.decide(c)
        return RONE if v is True else RZERO if v is False else self._indicator(c)

    def _cond(self, e, i):
        """an atomic condition on the index in the term"""
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            if x.id in seen or i not in T.free_vars(x):
                continue
            seen.add(x.id)
            if x.op == "ite":
                cs = [x.args[0]]
                while cs:
                    c = cs.pop()
                    if c.op in ("and", "or", "not"):
                        cs += c.args
                    elif i in T.free_vars(c) and c.op in ("eq", "le", "lt"):
                        if not any(y.op == "ite" for y in c.args):
                            return c
            todo += x.args
        return None

    def _binder(self, parts, i, lo, hi):
        dep = _dependence(i)
        res = []
        for guards, b in parts.items():
            if guards is None:
                res.append(b)
                continue
            g = RONE
            for c, pos in guards:
                k = self._indicator(c)
                g = rmul(g, k if pos else rsub(RONE, k))
            b = RF(pmul(g.num, b.num), b.den)
            din = {f: e for f, e in b.den.items() if any(dep(x) for x in f.gens())}
            out = RF(PONE, {f: e for f, e in b.den.items() if f not in din})
            mono = {}
            for m, c in b.num.t.items():
                k = tuple(x for x in m if dep(x[0]))
                o = tuple(x for x in m if not dep(x[0]))
                mono.setdefault(k, {})[o] = c
            ikey = (i.val, lo.key(), hi.key(), tuple(sorted(((f.key(), e) for f, e in din.items()), key=repr)))
            for k, d in mono.items():
                if not k and not din:
                    v = rsub(hi, lo)
                else:
                    v = rf(pgen(gen("SUM", (ikey, k), (i, [Poly({k: Fr(1)})] + list(din), lo, hi), "sum[%s / %s of %s]" % (P.pshow(Poly({k: Fr(1)}))[:80], [P.pshow(f) for f in din], i.val[0]))))
                res.append(rmul(rmul(rf(Poly(d)), v), out))
        return res

    # ---- powers
    def _factors(self, r):
        """c, [(poly, exponent)] with r = c*prod"""
        c, fs = factor(r.num)
        fs = list(fs)
        for p, e in r.den.items():
            cc, gs = factor(p)
            c /= cc ** e
            fs += [(q, -m * e) for q, m in gs]
        return c, fs

    def _sinsq(self, c, fs):
        """(1-cos)(1+cos) = sin^2 inside a power"""
        cs = {g: GENS[g] for f, m in fs if isinstance(m, int) and len(f.t) == 2 for mm in f.t for g, _ in mm if GENS[g].kind == "C"}
        for G in cs.values():
            C = pgen(G)
            u, v = psub(PONE, C), padd(PONE, C)
            iu = iv = None
            for k, (f, m) in enumerate(fs):
                if isinstance(m, int) and len(f.t) == 2:
                    if f.key() in (u.key(), pneg(u).key()):
                        iu = k
                    elif f.key() in (v.key(), pneg(v).key()):
                        iv = k
            if iu is None or iv is None or fs[iu][1] != fs[iv][1]:
                continue
            a = G.data
            Sg = gen("S", a.key(), a, "sin{%r}" % (a,))
            Sg.extra = psub(PONE, pgen(G, 2))
            m = fs[iu][1]
            if m % 2:
                if fs[iu][0].key() != u.key():
                    c = -c
                if fs[iv][0].key() != v.key():
                    c = -c
            fs = [x for k, x in enumerate(fs) if k not in (iu, iv)] + [(pgen(Sg), 2 * m)]
        return c, fs

    def _pow(self, b, e, t=None):
        if e.is_const():
            ev = e.constval()
            if ev.denominator == 1:
                n = int(ev)
                if n < 0 and b.is_zero():
                    raise Unsupported("division by zero")
                return rpow(b, n)
        if b.is_zero():
            if e.is_const() and e.constval() > 0:
                return RZERO
            raise Unsupported("0**e")
        c, fs = self._factors(b)
        c, fs = self._sinsq(c, fs)
        sg = 1
        if c < 0:
            sg = -1
            c = -c
        res = self._powconst(c, e)
        for f, m in fs:
            if not isinstance(m, int) or m % 2 == 0:
                # even multiplicity: |f|^(m e); fractional multiplicities only occur on non-negative generators
                s = 1 if not isinstance(m, int) else self.sgn(f)
                if s is None:
                    k = rmul(rconst(Fr(m)), e)
                    if k.is_const() and k.constval().denominator == 1:
                        res = rmul(res, rpow(self._abs(rf(f)), int(k.constval())))
                        continue
                    return self._oppow(b, e)
                res = rmul(res, self._pw(f if s >= 0 else pneg(f), rmul(rconst(Fr(m)), e)))
            else:
                s = self.sgn(f)
                if s is None:
                    return self._oppow(b, e)
                if s < 0:
                    sg = -sg
                    f = pneg(f)
                res = rmul(res, self._pw(f, rmul(rconst(m), e)))
        if sg < 0:
            return self._oppow(b, e)
        return res

    def _oppow(self, b, e):
        return rf(pgen(gen("OPW", (b.key(), e.key()), (b, e), "pow[%r ^ %r]" % (b, e))))

    def _powconst(self, c, e):
        if c == 1:
            return RONE
        res = RONE
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, m in _primes(n).items():
                res = rmul(res, self._pw(pconst(p), rmul(rconst(s * m), e)))
        return res

    def _pw(self, f, r):
        """f**r for a positive (non-negative when r is a positive constant) primitive factor f"""
        if f.is_const():
            return RONE if f.constval() == 1 else self._pwbase(f, r)
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if m:
                if len(m) == 1 and c == 1:
                    g, ex = m[0]
                    G = GENS[g]
                    k = G.kind
                    er = r if ex == 1 else rmul(rconst(Fr(ex)), r)
                    if k == "B":
                        f0, bi = G.data
                        return self._pw(f0, rmul(EXPB.items[bi], er))
                    if k == "P":
                        return self._pw(G.data, er)
                    if k == "EXP":
                        return self._exp(rmul(EXPX.items[G.data], er))
                    return self._pwbase(f if ex == 1 else pgen(G), er)
                # general monomial with coefficient
                res = self._powconst(c, r) if c > 0 else None
                if res is None:
                    # -(gen) with gen < 0
                    return self._pwbase(f, r)
                for g, ex in m:
                    res = rmul(res, self._pw(pgen(GENS[g]), rmul(rconst(Fr(ex)), r)))
                return res
        c, q = primitive(f)
        if c > 0 and c != 1:
            return rmul(self._powconst(c, r), self._pwbase(q, r))
        return self._pwbase(f, r)

    def _pwbase(self, f, r):
        res = RONE
        for bi, co in EXPB.coords(r):
            if bi == 0:
                n = math.floor(co)
                fr = co - n
                if n:
                    res = rmul(res, rpow(rf(f), n))
                if fr:
                    g = gen("P", f.key(), f, "root{%s}" % P.pshow(f))
                    res = rmul(res, rf(pgen(g, fr)))
            else:
                if not self.ctx.strictp(f):
                    raise NotStrict()
                g = gen("B", (f.key(), bi), (f, bi), "{%s}^{%r}" % (P.pshow(f), EXPB.items[bi]))
                res = rmul(res, rf(pgen(g, P._nexp(co))))
        return res

    def _abs(self, r):
        s = self.rsgn(r)
        if s is not None:
            return r if s >= 0 else rneg(r)
        c, p = primitive(r.num)
        g = gen("ABS", p.key(), p, "|%s|" % P.pshow(p))
        g.extra = pmul(p, p)
        res = rf(pscale(pgen(g), abs(c)))
        for q, e in r.den.items():
            s = self.sgn(q)
            d = rf(q) if s is not None and s > 0 else rneg(rf(q)) if s is not None else self._abs(rf(q))
            res = rmul(res, rpow(rinv(d), e))
        return res

    # ---- exp / log
    def _log(self, r):
        c, fs = self._factors(r)
        sg = 1
        if c < 0:
            sg, c = -1, -c
        out = []
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, m in _primes(n).items():
                out.append(rmul(rconst(s * m), self._logbase(pconst(p))))
        for f, m in fs:
            s = self.sgn(f)
            if s is None:
                return rf(pgen(gen("UF", ("log", r.key()), ("log", [r], None), "log(%r)" % (r,))))
            if s < 0:
                if isinstance(m, int) and m % 2:
                    sg = -sg
                f = pneg(f)
            out.append(rmul(rconst(Fr(m)), self._logbase(f)))
        if sg < 0:
            raise Unsupported("log of a negative term")
        return self._sum(out) if out else RZERO

    def _logbase(self, f):
        if f.is_const():
            return rf(pgen(gen("L", f.key(), f, "log{%s}" % P.pshow(f))))
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if m and len(m) == 1 and c == 1:
                g, ex = m[0]
                G = GENS[g]
                if G.kind == "B":
                    f0, bi = G.data
                    return rmul(rmul(rconst(Fr(ex)), EXPB.items[bi]), self._logbase(f0))
                if G.kind == "P":
                    return rmul(rconst(Fr(ex)), self._logbase(G.data))
                if G.kind == "EXP":
                    return rmul(rconst(Fr(ex)), EXPX.items[G.data])
                if ex != 1:
                    return rmul(rconst(Fr(ex)), self._logbase(pgen(G)))
            elif m and c > 0 and (len(m) > 1 or c != 1):
                out = self._log(rconst(c)) if c != 1 else RZERO
                for g, ex in m:
                    out = radd(out, rmul(rconst(Fr(ex)), self._logbase(pgen(GENS[g]))))
                return out
        c, q = primitive(f)
        if c > 0 and c != 1:
            return radd(self._log(rconst(c)), self._logbase(q))
        return rf(pgen(gen("L", f.key(), f, "log{%s}" % P.pshow(f))))

    def _exp(self, x):
        if x.is_zero():
            return RONE
        # pull out  coef * log f
        res = RONE
        rest = x
        for g in sorted(x.num.gens()):
            G = GENS[g]
            if G.kind == "L":
                co = PZERO
                ok = True
                for m, c in x.num.t.items():
                    d = dict(m)
                    if g in d:
                        if d[g] != 1:
                            ok = False
                            break
                        del d[g]
                        if any(GENS[k].kind == "L" for k in d):
                            ok = False
                            break
                        co = padd(co, Poly({tuple(sorted(d.items())): c}))
                if ok:
                    cr = P._canc(co, dict(x.den))
                    rest = rsub(rest, rmul(cr, rf(pgen(G))))
                    res = rmul(res, self._pw(G.data, cr))
        if rest.is_zero():
            return res
        for bi, co in EXPX.coords(rest):
            g = gen("EXP", bi, bi, "exp{%r}" % (EXPX.items[bi],))
            res = rmul(res, rf(pgen(g, P._nexp(co))))
        return res

    # ---- trigonometry
    def _angle(self, x):
        """-> (rational multiple of pi, [(coef Fraction, ATgen)], [(coef, key, RF base)])"""
        pim = Fr(0)
        ats, oth = [], []
        for x in self._split(x):
            for m, c in x.num.t.items():
                if m == ((PIG.gid, 1),) and not x.den:
                    pim += c
                    continue
                if len(m) == 1 and m[0][1] == 1 and GENS[m[0][0]].kind == "AT" and not x.den:
                    ats.append((c, GENS[m[0][0]]))
                    continue
                base = RF(Poly({m: Fr(1)}), dict(x.den))
                oth.append((c, base.key(), base))
        return pim, ats, oth

    def _split(self, x):
        """quotient and remainder of an angle by its denominator"""
        if len(x.den) != 1:
            return [x]
        (p, e), = x.den.items()
        if e != 1:
            return [x]
        vs = [m[0][0] for m in p.t if len(m) == 1 and m[0][1] == 1 and GENS[m[0][0]].kind == "V"]
        vs = [v for v in vs if sum(any(g == v for g, _ in m) for m in p.t) == 1]
        if not vs:
            return [x]
        v = max(vs)
        cv = p.t[((v, 1),)]
        A, B = {}, {}
        for m, c in x.num.t.items():
            d = dict(m).get(v, 0)
            if d == 0:
                B[m] = c
            elif d == 1:
                A[tuple(g for g in m if g[0] != v)] = c / cv
            else:
                return [x]
        if not A:
            return [x]
        rest = Poly({m: c for m, c in p.t.items() if m != ((v, 1),)})
        return [rf(Poly(A)), P._canc(psub(Poly(B), pmul(Poly(A), rest)), {p: 1})]

    def _sincos(self, x):
        pim, ats, oth = self._angle(x)
        s, c = RZERO, RONE  # sin 0, cos 0

        def comb(s, c, s2, c2):
            return radd(rmul(s, c2), rmul(c, s2)), rsub(rmul(c, c2), rmul(s, s2))

        pim = pim % 2
        if pim:
            s, c = self._sincospi(pim)
        for co, G in ats:
            kind, a = G.data
            if kind == "atan":
                d = self._pow(radd(RONE, rmul(a, a)), rconst(Fr(-1, 2)))
                s1, c1 = rmul(a, d), d
            elif kind == "asin":
                s1, c1 = a, self._pow(rsub(RONE, rmul(a, a)), rconst(Fr(1, 2)))
            elif kind == "atan2":
                y, xx = a
                d = self._pow(radd(rmul(y, y), rmul(xx, xx)), rconst(Fr(-1, 2)))
                s1, c1 = rmul(y, d), rmul(xx, d)
            if co.denominator != 1:
                s1, c1 = self._multi(co, ("AT", G.gid), rf(pgen(G)))
            else:
                s1, c1 = self._mult(s1, c1, int(co))
            s, c = comb(s, c, s1, c1)
        for co, key, base in oth:
            s1, c1 = self._multi(co, key, base)
            s, c = comb(s, c, s1, c1)
        return s, c

    def _multi(self, co, key, base):
        u = UNIT.get(key)
        if u is None:
            u = abs(co)
            UNIT[key] = u
        q = co / u
        if q.denominator != 1:
            UNIT[key] = Fr(math.gcd(co.numerator * u.denominator, u.numerator * co.denominator), co.denominator * u.denominator)
            raise UnitChanged()
        a = rmul(rconst(u), base)
        Cg = gen("C", a.key(), a, "cos{%r}" % (a,))
        Sg = gen("S", a.key(), a, "sin{%r}" % (a,))
        Sg.extra = psub(PONE, pgen(Cg, 2))
        return self._mult(rf(pgen(Sg)), rf(pgen(Cg)), int(q))

    def _mult(self, s, c, n):
        if n < 0:
            a, b = self._mult(s, c, -n)
            return rneg(a), b
        S, C = RZERO, RONE
        for _ in range(n):
            S, C = radd(rmul(S, c), rmul(C, s)), rsub(rmul(C, c), rmul(S, s))
        return S, C

    def _sincospi(self, q):
        tab = {Fr(0): (0, 1), Fr(1, 2): (1, 0), Fr(1): (0, -1), Fr(3, 2): (-1, 0)}
        if q in tab:
            a, b = tab[q]
            return rconst(a), rconst(b)
        h = Fr(1, 2)
        r2 = self._pow(rconst(2), rconst(h))
        r3 = self._pow(rconst(3), rconst(h))
        for k in range(4):
            d = q - Fr(k, 2)
            base = {Fr(1, 6): (rconst(h), rmul(rconst(h), r3)), Fr(1, 4): (rmul(rconst(h), r2),) * 2,
                    Fr(1, 3): (rmul(rconst(h), r3), rconst(h))}.get(d)
            if base:
                s, c = base
                for _ in range(k):
                    s, c = c, rneg(s)
                return s, c
        return self._multi(q, rf(pgen(PIG)).key(), rf(pgen(PIG)))

    def _atan(self, a):
        if a.is_zero():
            return RZERO
        # odd
        if a.num.t[P.leading(a.num)] < 0:
            return rneg(self._atan(rneg(a)))
        if a.is_const() and a.constval() == 1:
            return rf(pscale(pgen(PIG), Fr(1, 4)))
        # atan(tan x) with x in range
        r = self._untan(a)
        if r is not None:
            return r
        g = gen("AT", ("atan", a.key()), ("atan", a), "atan{%r}" % (a,))
        return rf(pgen(g))

    def _untan(self, a):
        gs = [GENS[g] for g in a.gens() if GENS[g].kind in ("S", "C")]
        for ang in {g.key: g for g in gs}.values():
            base = ang.data
            for k in (1, 2, 3):
                x = rmul(rconst(k), base)
                try:
                    s, c = self._sincos(x)
                except UnitChanged:
                    raise
                if rsub(rmul(a, c), s).is_zero():
                    if self.ctx.rf_between(x, Fr(-1, 2), Fr(1, 2)):
                        return x
                    if self.ctx.rf_between(x, Fr(1, 2), Fr(3, 2)):
                        return rsub(x, rf(pgen(PIG)))
        return None

    def _unsin(self, a):
        """angle in [-pi/2, pi/2] whose sine is a"""
        gs = [GENS[g] for g in a.gens() if GENS[g].kind in ("S", "C")]
        hp = rf(pscale(pgen(PIG), Fr(1, 2)))
        for ang in {g.key: g for g in gs}.values():
            base = ang.data
            u = UNIT.get(base.key(), 1)
            for k in (1, 2, 3):
                for x in {rmul(rconst(k), base).key(): rmul(rconst(k), base), rmul(rconst(k * u), base).key(): rmul(rconst(k * u), base)}.values():
                    s, c = self._sincos(x)
                    if rsub(a, s).is_zero() and self.ctx.rf_between(x, Fr(-1, 2), Fr(1, 2), False):
                        return x
                    if rsub(a, c).is_zero() and self.ctx.rf_between(x, Fr(0), Fr(1), False):
                        return rsub(hp, x)
        return None

    def _fn(self, name, a, t):
        if name == "abs":
            return self._abs(a[0])
        if name == "log":
            return self._log(a[0])
        if name == "exp":
            return self._exp(a[0])
        if name == "sin":
            return self._sincos(a[0])[0]
        if name == "cos":
            return self._sincos(a[0])[1]
        if name == "tan":
            s, c = self._sincos(a[0])
            if c.is_zero():
                raise Unsupported("tan of pi/2")
            return rdiv(s, c)
        if name == "atan":
            return self._atan(a[0])
        if name == "asin":
            x = a[0]
            if x.is_zero():
                return RZERO
            if x.is_const() and x.constval() in (1, -1, Fr(1, 2), Fr(-1, 2)):
                v = {1: Fr(1, 2), -1: Fr(-1, 2), Fr(1, 2): Fr(1, 6), Fr(-1, 2): Fr(-1, 6)}[x.constval()]
                return rf(pscale(pgen(PIG), v))
            r = self._unsin(x)
            if r is not None:
                return r
            d = rsub(RONE, rmul(x, x))
            if self.rsgn(d) == 1 and self.ctx.strict(d):
                return self._atan(rdiv(x, self._pow(d, rconst(Fr(1, 2)))))
            if x.num.t[P.leading(x.num)] < 0:
                return rneg(self._fn(name, [rneg(x)], None))
            return rf(pgen(gen("AT", ("asin", x.key()), ("asin", x), "asin{%r}" % (x,))))
        if name == "acos":
            return rsub(rf(pscale(pgen(PIG), Fr(1, 2))), self._fn("asin", a, None))
        if name == "atan2":
            y, x = a
            sx = self.rsgn(x) if not x.is_zero() else None
            if sx == 1 and self.ctx.strict(x):
                return self._atan(rdiv(y, x))
            sy = self.rsgn(y) if not y.is_zero() else None
            if sy == 1 and self.ctx.strict(y):
                return rsub(rf(pscale(pgen(PIG), Fr(1, 2))), self._atan(rdiv(x, y)))
            if sy == -1 and self.ctx.strict(rneg(y)):
                return rneg(radd(rf(pscale(pgen(PIG), Fr(1, 2))), self._atan(rdiv(x, y))))
            return rf(pgen(gen("AT", ("atan2", y.key(), x.key()), ("atan2", (y, x)), "atan2{%r,%r}" % (y, x))))
        return rf(pgen(gen("UF", (name, tuple(x.key() for x in a)), (name, a, t), "%s(%r)" % (name, a))))


_PR = {}


def _primes(n):
    r = _PR.get(n)
    if r is None:
        r = {}
        m = n
        p = 2
        while p * p <= m and p < 100000:
            while m % p == 0:
                r[p] = r.get(p, 0) + 1
                m //= p
            p += 1
        if m > 1:
            r[m] = r.get(m, 0) + 1
        _PR[n] = r
    return r
