"""Sparse multivariate polynomials over Q with (possibly fractional) exponents on positive generators,
and rational functions with factored denominators.

Generators are global objects (class Gen).  Reduction rules attached to generators are applied by mono
multiplication:  P_f^e (0<e<1, P_f = f)  ;  S^2 -> 1-C^2 ;  ABS^2 -> f^2.
"""
from fractions import Fraction as Fr
import functools

GENS = []
_GKEY = {}


class Gen:
    __slots__ = ("gid", "kind", "key", "data", "name", "extra")

    def __repr__(self):
        return self.name


def gen(kind, key, data=None, name=None):
    k = (kind, key)
    g = _GKEY.get(k)
    if g is None:
        g = Gen()
        g.gid = len(GENS)
        g.kind, g.key, g.data = kind, key, data
        g.name = name or "%s%d" % (kind, g.gid)
        g.extra = None
        GENS.append(g)
        _GKEY[k] = g
    return g


def _nexp(e):
    return int(e) if isinstance(e, Fr) and e.denominator == 1 else e


class Poly:
    __slots__ = ("t", "_key", "_hash")

    def __init__(self, t):
        self.t = t
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items(), key=lambda kv: _mkey(kv[0])))
        return self._key

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), Fr(0))

    def gens(self):
        s = set()
        for m in self.t:
            for g, _ in m:
                s.add(g)
        return s

    def __repr__(self):
        return pshow(self)


def _mkey(m):
    return tuple((g, Fr(e)) for g, e in m)


PZERO = Poly({})
PONE = Poly({(): Fr(1)})


def pconst(c):
    c = Fr(c)
    return Poly({(): c}) if c else PZERO


def pgen(g, e=1):
    return Poly({((g.gid, e),): Fr(1)})


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m)
        if s is None:
            t[m] = c
        else:
            s = s + c
            if s:
                t[m] = s
            else:
                del t[m]
    return Poly(t)


def pscale(a, c):
    if c == 0:
        return PZERO
    if c == 1:
        return a
    return Poly({m: v * c for m, v in a.t.items()})


def pneg(a):
    return pscale(a, Fr(-1))


def psub(a, b):
    return padd(a, pneg(b))


@functools.lru_cache(maxsize=400000)
def mmul(m1, m2):
    """product of monomials; returns (mono, extra Poly or None)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    extra = None
    for g, e in m2:
        if g in d:
            s = d[g] + e
            if s == 0:
                del d[g]
                continue
            G = GENS[g]
            k = G.kind
            if k == "P":
                if s >= 1:
                    s = s - 1
                    f = G.data
                    extra = f if extra is None else pmul(extra, f)
            elif k == "S":
                while s >= 2:
                    s = s - 2
                    f = G.extra  # 1 - C^2
                    extra = f if extra is None else pmul(extra, f)
            elif k == "NP":
                s %= 2    # (-1)^n
            elif k == "IV":
                s = 1     # indicator
            elif k == "ABS":
                while s >= 2:
                    s -= 2
                    f = G.extra  # f^2
                    extra = f if extra is None else pmul(extra, f)
            if s == 0:
                del d[g]
            else:
                d[g] = _nexp(s)
        else:
            d[g] = e
    return tuple(sorted(d.items(), key=lambda kv: kv[0])), extra


class TooBig(Exception):
    pass


LIMIT = [200000]


def pmul(a, b):
    if not a.t or not b.t:
        return PZERO
    if len(a.t) * len(b.t) > LIMIT[0]:
        raise TooBig("polynomial product %d x %d" % (len(a.t), len(b.t)))
    if a.is_const():
        return pscale(b, a.constval())
    if b.is_const():
        return pscale(a, b.constval())
    t = {}
    pend = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, x = mmul(m1, m2)
            c = c1 * c2
            if x is None:
                s = t.get(m)
                t[m] = c if s is None else s + c
            else:
                pend.append((m, c, x))
    r = Poly({m: c for m, c in t.items() if c})
    for m, c, x in pend:
        r = padd(r, pmul(Poly({m: c}), x))
    return r


def ppow(a, n):
    r = PONE
    b = a
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def leading(p):
    """leading monomial in a lex order on (gid)"""
    return max(p.t, key=_lexkey)


def _lexkey(m):
    # lex order with larger gid = larger variable: compare exponents from the largest gid down
    return tuple(sorted(((g, Fr(e)) for g, e in m), reverse=True))


def _mdiv(m1, m2):
    d = dict(m1)
    for g, e in m2:
        x = d.get(g, 0) - e
        k = GENS[g].kind
        if x < 0 and k not in UNITKINDS:
            return None
        if x == 0:
            d.pop(g, None)
        else:
            d[g] = _nexp(x)
    return tuple(sorted(d.items(), key=lambda kv: kv[0]))


UNITKINDS = {"B", "EXP"}


def pdivexact(a, b, limit=4000):
    """exact quotient a/b or None.  Only used as a simplification, the result is checked by multiplication."""
    if a.is_zero():
        return a
    if b.is_const():
        return pscale(a, 1 / b.constval())
    if len(b.t) == 1:
        (mb, cb), = b.t.items()
        t = {}
        for m, c in a.t.items():
            q = _mdiv(m, mb)
            if q is None:
                return None
            t[q] = c / cb
        return Poly(t)
    if len(a.t) * len(b.t) > 40000:
        return None
    for g in b.gens():
        if GENS[g].kind in ("S", "P", "ABS"):
            return None
    if not b.gens() <= a.gens():
        return None
    lb = leading(b)
    cb = b.t[lb]
    q = {}
    r = a
    n = 0
    while r.t:
        n += 1
        if n > limit:
            return None
        lr = leading(r)
        m = _mdiv(lr, lb)
        if m is None:
            return None
        c = r.t[lr] / cb
        if m in q:
            return None
        q[m] = c
        r = psub(r, pmul(Poly({m: c}), b))
    qq = Poly(q)
    if pmul(qq, b) == a:
        return qq
    return None


def primitive(p):
    """(content c, primitive poly) with leading coefficient positive 1-normalised"""
    if p.is_zero():
        return Fr(0), PONE
    c = p.t[leading(p)]
    return c, pscale(p, 1 / c)


# ---------------------------------------------------------------- rational functions


class RF:
    """num / prod(den[p]**e);   den: dict Poly -> int, polys monic and non constant"""

    __slots__ = ("num", "den", "_k")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.num.key(), tuple(sorted(((p.key(), e) for p, e in self.den.items()), key=repr)))
        return self._k

    def denpoly(self):
        r = PONE
        for p, e in self.den.items():
            r = pmul(r, ppow(p, e))
        return r

    def is_zero(self):
        return self.num.is_zero()

    def is_const(self):
        return not self.den and self.num.is_const()

    def constval(self):
        return self.num.constval()

    def gens(self):
        s = set(self.num.gens())
        for p in self.den:
            s |= p.gens()
        return s

    def __repr__(self):
        if not self.den:
            return pshow(self.num)
        return "(%s)/(%s)" % (pshow(self.num), " * ".join("(%s)^%s" % (pshow(p), e) for p, e in self.den.items()))


def rf(p):
    return RF(p, {})


RZERO, RONE = RF(PZERO), RF(PONE)


def rconst(c):
    return RF(pconst(c))


def radd(a, b):
    if a.num.is_zero():
        return b
    if b.num.is_zero():
        return a
    if a.den == b.den:
        return _canc(padd(a.num, b.num), dict(a.den))
    den = dict(a.den)
    for p, e in b.den.items():
        den[p] = max(den.get(p, 0), e)
    fa, fb = a.num, b.num
    for p, e in den.items():
        ka = e - a.den.get(p, 0)
        kb = e - b.den.get(p, 0)
        if ka:
            fa = pmul(fa, ppow(p, ka))
        if kb:
            fb = pmul(fb, ppow(p, kb))
    return _canc(padd(fa, fb), den)


def rneg(a):
    return RF(pneg(a.num), a.den)


def rsub(a, b):
    return radd(a, rneg(b))


def _canc(num, den):
    if num.is_zero():
        return RZERO
    out = {}
    for p, e in den.items():
        while e > 0:
            q = pdivexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out[p] = e
    return RF(num, out)


def rmul(a, b):
    if a.num.is_zero() or b.num.is_zero():
        return RZERO
    den = dict(a.den)
    for p, e in b.den.items():
        den[p] = den.get(p, 0) + e
    # cross-cancel before multiplying
    na, nb = a.num, b.num
    out = {}
    for p, e in den.items():
        while e > 0:
            q = pdivexact(na, p)
            if q is not None:
                na = q
                e -= 1
                continue
            q = pdivexact(nb, p)
            if q is not None:
                nb = q
                e -= 1
                continue
            break
        if e:
            out[p] = e
    return RF(pmul(na, nb), out)


def rinv(a):
    """1/a, a not the zero polynomial"""
    num = a.denpoly()
    c, p = primitive(a.num)
    num = pscale(num, 1 / c)
    if p.is_const():
        return RF(num, {})
    if len(p.t) == 1:
        den = {}
        (m, _), = p.t.items()
        unit = []
        for g, e in m:
            G = GENS[g]
            if G.kind in UNITKINDS:
                unit.append((g, _nexp(-e)))
            elif G.kind == "P":
                # 1/f^e = f^(1-e)/f
                num = pmul(num, pgen(G, _nexp(1 - e)))
                cc, pf = primitive(G.data)
                if pf.is_const():
                    num = pscale(num, 1 / cc)
                else:
                    num = pscale(num, 1 / cc)
                    den[pf] = den.get(pf, 0) + 1
            elif isinstance(e, int):
                pp = pgen(G)
                den[pp] = den.get(pp, 0) + e
            else:
                import math
                up = math.ceil(e)
                num = pmul(num, pgen(G, _nexp(up - e)))
                pp = pgen(G)
                den[pp] = den.get(pp, 0) + up
        if unit:
            num = pmul(num, Poly({tuple(unit): Fr(1)}))
        return _canc(num, den)
    # extract monomial content
    d = None
    for m in p.t:
        dm = dict(m)
        if d is None:
            d = dm
        else:
            d = {g: min(e, dm[g]) for g, e in d.items() if g in dm}
    if d:
        mono = tuple(sorted(d.items(), key=lambda kv: kv[0]))
        q = pdivexact(p, Poly({mono: Fr(1)}))
        if q is not None:
            r1 = rinv(RF(Poly({mono: Fr(1)})))
            c2, q = primitive(q)
            r2 = _canc(pscale(num, 1 / c2), {q: 1})
            return rmul(r1, r2)
    return _canc(num, {p: 1})


def rdiv(a, b):
    return rmul(a, rinv(b))


def rpow(a, n):
    if n < 0:
        return rpow(rinv(a), -n)
    if n == 0:
        return RONE
    if len(a.num.t) == 1 or n <= 1:
        return RF(ppow(a.num, n), {p: e * n for p, e in a.den.items()})
    return RF(ppow(a.num, n), {p: e * n for p, e in a.den.items()})


def pshow(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: _lexkey(kv[0]), reverse=True)[:30]:
        s = "*".join(GENS[g].name + ("" if e == 1 else "^%s" % (e,)) for g, e in m)
        if not s:
            s = str(c)
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    if len(p.t) > 30:
        out.append("...(%d terms)" % len(p.t))
    return " + ".join(out)


# ---------------------------------------------------------------- factorisation through sympy (checked)

_FACT = {}


def factor(p):
    """(content, [(irreducible primitive poly, multiplicity)]) ; product re-multiplied and compared"""
    k = p.key()
    r = _FACT.get(k)
    if r is not None:
        return r
    c, q = primitive(p)
    fs = []
    # monomial content
    d = None
    for m in q.t:
        dm = dict(m)
        d = dm if d is None else {g: min(e, dm[g]) for g, e in d.items() if g in dm}
    if d:
        mono = tuple(sorted(d.items(), key=lambda kv: kv[0]))
        qq = pdivexact(q, Poly({mono: Fr(1)}))
        if qq is not None:
            for g, e in mono:
                fs.append((pgen(GENS[g]), e))
            q = qq
    if not q.is_const():
        fs += _sympy_factor(q)
    else:
        c *= q.constval()
    r = (c, fs)
    # check
    chk = pconst(c)
    ok = True
    try:
        for f, e in fs:
            if len(f.t) == 1 and (not isinstance(e, int) or e < 0):
                (m, cc), = f.t.items()
                chk = pmul(chk, Poly({tuple((g, _nexp(x * e)) for g, x in m): Fr(1)}))
            else:
                chk = pmul(chk, ppow(f, e))
    except TooBig:
        ok = False
    if not ok or chk != p:
        c, q = primitive(p)
        r = (c, [(q, 1)])
    _FACT[k] = r
    return r


def _sympy_factor(q):
    import sympy

    gens = sorted(q.gens())
    if len(q.t) > 400:
        return [(q, 1)]
    D = {}
    for m in q.t:
        for g, e in m:
            if isinstance(e, Fr):
                import math
                D[g] = math.lcm(D.get(g, 1), e.denominator)
    syms = {g: sympy.Symbol("x%d" % g) for g in gens}
    # negative exponents (unit generators): shift
    shift = {}
    for m in q.t:
        for g, e in m:
            if e < 0:
                shift[g] = min(shift.get(g, 0), e)
    expr = 0
    terms = {}
    for m, c in q.t.items():
        ex = [0] * len(gens)
        dm = dict(m)
        for i, g in enumerate(gens):
            e = dm.get(g, 0) - shift.get(g, 0)
            e = e * D.get(g, 1)
            ex[i] = int(e)
        terms[tuple(ex)] = sympy.Rational(c.numerator, c.denominator)
    P = sympy.Poly(terms, *[syms[g] for g in gens], domain="QQ")
    cc, facs = P.factor_list()
    out = []
    inv = {syms[g]: g for g in gens}
    tot = Fr(int(cc.p), int(cc.q))
    for f, mult in facs:
        t = {}
        for ex, c in f.terms():
            m = []
            for i, g in enumerate(gens):
                if ex[i]:
                    m.append((g, _nexp(Fr(ex[i], D.get(g, 1)))))
            t[tuple(m)] = Fr(int(c.p), int(c.q))
        fp = Poly(t)
        c0, fp = primitive(fp)
        tot *= c0 ** mult
        if not fp.is_const():
            out.append((fp, mult))
    for g, e in shift.items():
        out.append((pgen(GENS[g]), _nexp(e)))
    if tot != 1:
        # primitive() normalises the leading coefficient to 1 on both sides; tot must be 1
        return [(q, 1)]
    return out
