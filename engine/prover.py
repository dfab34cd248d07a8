"""Discharging obligations: case splitting, normalisation to rational functions, z3 on the residue."""
import time
from fractions import Fraction as Fr
import z3

from . import terms as T
from . import poly as P
from . import norm as N
from .poly import (Poly, RF, GENS, pgen, pconst, padd, pmul, pscale, pneg, psub, PONE, PZERO, rf, radd, rsub, rneg,
                   rmul, rinv, rdiv, rconst, RZERO, RONE)

STATS = {"z3_calls": 0, "z3_time": 0.0, "norm_time": 0.0}
OPTS = {"sign_timeout": 1500, "goal_timeout": 10000, "maxsplit": 14}


Z3CACHE = {}


class FTree:
    __slots__ = ("op", "args", "gens")

    def __init__(self, op, args):
        self.op, self.args = op, args
        if op in ("gt", "ge", "eq", "ne"):
            self.gens = frozenset(args.gens())
        elif op == "const":
            self.gens = frozenset()
        else:
            s = frozenset()
            for a in args:
                s |= a.gens
            self.gens = s

    def __repr__(self):
        if self.op in ("gt", "ge", "eq", "ne"):
            return "%s %s 0" % (P.pshow(self.args), self.op)
        return "%s%r" % (self.op, self.args)


FALSEF = FTree("const", False)
TRUEF = FTree("const", True)


def closure_gens(gens):
    """all generators reachable through the definitions of the generators"""
    todo = list(gens)
    seen = set(todo)
    while todo:
        g = todo.pop()
        for p in gen_polys(GENS[g]):
            for h in p.gens():
                if h not in seen:
                    seen.add(h)
                    todo.append(h)
    return seen


def _rfp(r):
    return [r.num] + list(r.den)


def gen_polys(G):
    k = G.kind
    if k == "NP":
        return [a.num for a in G.data]
    if k == "P" or k == "L" or k == "ABS":
        return [G.data]
    if k == "B":
        return [G.data[0]] + _rfp(N.EXPB.items[G.data[1]])
    if k == "EXP":
        return _rfp(N.EXPX.items[G.data])
    if k in ("S", "C"):
        return _rfp(G.data)
    if k == "AT":
        a = G.data[1]
        if isinstance(a, tuple):
            return _rfp(a[0]) + _rfp(a[1])
        return _rfp(a)
    if k == "OPW":
        return _rfp(G.data[0]) + _rfp(G.data[1])
    if k == "UF":
        out = []
        for a in G.data[1]:
            out += _rfp(a)
        return out
    return []


class Z3Env:
    """translation of polynomials over generators to z3"""

    def __init__(self, ctx, gens):
        self.ctx = ctx
        self.D = {}
        self.v = {}
        self.ax = []
        self.hasint = False
        self.relax = False
        self.rvars = {}
        self.all = closure_gens(gens)

    def scan(self, p):
        for m in p.t:
            for g, e in m:
                if isinstance(e, Fr):
                    import math
                    self.D[g] = math.lcm(self.D.get(g, 1), e.denominator)

    def zvar(self, g):
        v = self.v.get(g)
        if v is None:
            G = GENS[g]
            if G.kind == "V" and G.data.val[1] == "I":
                self.hasint = True
                v = z3.Real("x%d" % g) if self.relax else z3.Int("i%d" % g)
            else:
                v = z3.Real("x%d" % g)
            self.v[g] = v
        return v

    def poly(self, p):
        terms = []
        for m, c in p.t.items():
            fs = []
            for g, e in m:
                D = self.D.get(g, 1)
                n = int(e * D)
                v = self.zvar(g)
                if z3.is_int(v):
                    v = z3.ToReal(v)
                if n < 0:
                    # unit generator: 1/v
                    iv = self.inv(g)
                    fs += [iv] * (-n)
                else:
                    fs += [v] * n
            c = z3.Q(c.numerator, c.denominator)
            if not fs:
                terms.append(c)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(c * t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def inv(self, g):
        k = ("inv", g)
        if k not in self.rvars:
            v = z3.Real("inv%d" % g)
            self.rvars[k] = v
            self.ax.append(v * self.zvar(g) == 1)
            self.ax.append(v > 0)
        return self.rvars[k]

    def rfz(self, r):
        """(num, den) z3 expressions; value var"""
        if not r.den:
            return self.poly(r.num)
        k = r.key()
        v = self.rvars.get(k)
        if v is None:
            v = z3.Real("r%d" % len(self.rvars))
            self.rvars[k] = v
            d = self.poly(r.denpoly())
            self.ax.append(v * d == self.poly(r.num))
        return v

    def build(self):
        gs = sorted(self.all)
        for g in gs:
            for p in gen_polys(GENS[g]):
                self.scan(p)
        byb = {}
        samef = {}
        logs = []
        ats = {}
        pi = None
        scs = {}
        exps = []
        for g in gs:
            G = GENS[g]
            k = G.kind
            D = self.D.get(g, 1)
            z = self.zvar(g)
            base = z ** D if D > 1 else z
            if D > 1:
                b = z
                for _ in range(D - 1):
                    b = b * z
                base = b
                self.ax.append(z >= 0)
            if k == "V":
                if G is N.PIG:
                    self.ax.append(z > z3.Q(31415926535, 10**10))
                    self.ax.append(z < z3.Q(31415926536, 10**10))
            elif k == "P":
                self.ax.append(z >= 0)
                F = self.poly(G.data)
                self.ax.append(base == F)
                if self.ctx.qsign(G.data) == 2:
                    self.ax.append(z > 0)
            elif k == "ABS":
                self.ax.append(z >= 0)
                F = self.poly(G.data)
                self.ax.append(z3.Or(z == F, z == -F))
            elif k == "NP":
                self.ax.append(z3.Or(z == 1, z == -1))
                m = G.key
                if len(m) == 1 and m[0][1] == 1:
                    v = self.zvar(m[0][0])
                    if self.relax:
                        self.ax.append(z3.Implies(v == 0, z == 1))
                    else:
                        self.ax.append(z == z3.If(v % 2 == 0, z3.RealVal(1), z3.RealVal(-1)))
            elif k == "IV":
                self.ax.append(z3.Or(z == 0, z == 1))
            elif k == "B":
                self.ax.append(z > 0)
                f, bi = G.data
                r = N.EXPB.items[bi]
                F = self.poly(f)
                sr = self.ctx.qsignrf(r)
                sf = self.ctx.qsign(psub(f, PONE))
                if sr in (2, -2):
                    pos = sr == 2
                    if sf in (2, -2):
                        self.ax.append(z > 1 if (sf == 2) == pos else z < 1)
                    elif sf in (1, -1):
                        self.ax.append(z >= 1 if (sf == 1) == pos else z <= 1)
                    else:
                        self.ax.append((F > 1) == (z > 1 if pos else z < 1))
                        self.ax.append((F == 1) == (z == 1))
                else:
                    R = self.rfz(r)
                    self.ax.append(z3.Implies(z3.And(F > 1, R > 0), z > 1))
                    self.ax.append(z3.Implies(z3.And(F < 1, R > 0), z < 1))
                    self.ax.append(z3.Implies(z3.And(F > 1, R < 0), z < 1))
                    self.ax.append(z3.Implies(z3.And(F < 1, R < 0), z > 1))
                    self.ax.append(z3.Implies(z3.Or(F == 1, R == 0), z == 1))
                byb.setdefault(bi, []).append((z, F, sr, D))
                if D == 1 or True:
                    # f**r against f (sign of r-1) and Bernoulli's inequality
                    r1 = self.ctx.qsignrf(rsub(r, RONE))
                    R = self.rfz(r)
                    if r1 in (2, -2):
                        if sr == 2 or r1 == 2:
                            self.ax += [(F > 1) == ((base > F) if r1 == 2 else (base < F)), (F == 1) == (base == F)]
                        if r1 == 2 or sr == -2:
                            self.ax.append(base >= 1 + R * (F - 1))
                        elif sr == 2:
                            self.ax.append(base <= 1 + R * (F - 1))
                samef.setdefault(f.key(), []).append((base, F, r))
            elif k == "L":
                F = self.poly(G.data)
                self.ax += [(F > 1) == (z > 0), (F == 1) == (z == 0), z <= F - 1, F * z >= F - 1]
                logs.append((z, F))
            elif k == "EXP":
                X = self.rfz(N.EXPX.items[G.data])
                self.ax += [z > 0, (X > 0) == (z > 1), (X == 0) == (z == 1)]
                exps.append((z, X))
            elif k in ("S", "C"):
                scs.setdefault(G.key, {})[k] = (z, G)
            elif k == "AT":
                kind, a = G.data
                pi = self.zvar(N.PIG.gid)
                self.all.add(N.PIG.gid)
                if kind == "atan":
                    X = self.rfz(a)
                    self.ax += [2 * z < pi, 2 * z > -pi, (X > 0) == (z > 0), (X == 0) == (z == 0),
                                z3.Implies(X > 0, z < X), (X > 1) == (4 * z > pi)]
                    ats.setdefault(kind, []).append((z, X))
                elif kind == "asin":
                    X = self.rfz(a)
                    self.ax += [2 * z <= pi, 2 * z >= -pi, (X > 0) == (z > 0), (X == 0) == (z == 0), z3.Implies(X >= 0, z >= X)]
                    ats.setdefault(kind, []).append((z, X))
                else:
                    Y, X = self.rfz(a[0]), self.rfz(a[1])
                    self.ax += [z <= pi, z > -pi, z3.Implies(Y > 0, z > 0), z3.Implies(Y < 0, z < 0),
                                z3.Implies(X > 0, z3.And(2 * z < pi, 2 * z > -pi)), z3.Implies(z3.And(X < 0, Y > 0), 2 * z > pi)]
            elif k == "UF" and G.data[0] in ("floor", "trunc"):
                X = self.rfz(G.data[1][0])
                if G.data[0] == "floor":
                    self.ax += [z <= X, X < z + 1]
                else:
                    self.ax += [z3.Implies(X >= 0, z3.And(z <= X, X < z + 1, z >= 0)), z3.Implies(X < 0, z3.And(z >= X, X > z - 1, z <= 0))]
        for key, d in scs.items():
            G = list(d.values())[0][1]
            a = G.data
            sz = d["S"][0] if "S" in d else z3.Real("sh%d" % G.gid)
            cz = d["C"][0] if "C" in d else z3.Real("ch%d" % G.gid)
            self.ax.append(sz * sz + cz * cz == 1)
            self.ax += [sz <= 1, sz >= -1, cz <= 1, cz >= -1]
            for lo, hi, facts in ((0, 1, [sz > 0]), (0, Fr(1, 2), [sz > 0, cz > 0]), (Fr(-1, 2), Fr(1, 2), [cz > 0]), (Fr(1, 2), Fr(3, 2), [cz < 0]), (-1, 0, [sz < 0])):
                if self.ctx.rf_between(a, lo, hi):
                    self.ax += facts
            if a is not None:
                for lo, hi, facts in ((0, 1, [sz >= 0]), (Fr(-1, 2), Fr(1, 2), [cz >= 0])):
                    if self.ctx.rf_between(a, lo, hi, strict=False):
                        self.ax += facts
        for bi, l in byb.items():
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    z1, F1, sr, D1 = l[i]
                    z2, F2, _, D2 = l[j]
                    b1, b2 = z1, z2
                    if D1 != D2:
                        b1, b2 = z1 ** D1, z2 ** D2
                    if sr == 2:
                        self.ax += [(F1 > F2) == (b1 > b2), (F1 == F2) == (b1 == b2)]
                    elif sr == -2:
                        self.ax += [(F1 > F2) == (b1 < b2), (F1 == F2) == (b1 == b2)]
        for l in samef.values():
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    d = self.ctx.qsignrf(rsub(l[i][2], l[j][2]))
                    if d in (2, -2):
                        F = l[i][1]
                        a, b = (l[i][0], l[j][0]) if d == 2 else (l[j][0], l[i][0])
                        self.ax += [z3.Implies(F > 1, a > b), z3.Implies(F < 1, a < b)]
        for l in (logs, exps, ats.get("atan", []), ats.get("asin", [])):
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    self.ax += [(l[i][1] > l[j][1]) == (l[i][0] > l[j][0]), (l[i][1] == l[j][1]) == (l[i][0] == l[j][0])]
        return self.ax

    def f(self, t):
        if t.op == "const":
            return z3.BoolVal(t.args)
        if t.op in ("gt", "ge", "eq", "ne"):
            e = self.poly(t.args)
            return {"gt": e > 0, "ge": e >= 0, "eq": e == 0, "ne": e != 0}[t.op]
        a = [self.f(x) for x in t.args]
        return z3.And(*a) if t.op == "and" else z3.Or(*a)


class Ctx:
    def __init__(self, hyps=()):
        self.hyps = []
        self.trees = []
        self.signs = {}
        self.qs = {}
        self.lb = {}   # gid -> (Fr, strict)
        self.ub = {}
        self.norm = N.Norm(self)
        self.pending = []
        self.inconsistent = False
        self.between = {}
        self.dec = {}
        self.bools = {}
        self.lineqs = []
        self.last_model = None
        simple, rest = [], []
        for h in hyps:
            for c in (h.args if h.op == "and" else (h,)):
                (rest if _complex(c) else simple).append(c)
        for h in simple + rest:
            self.add(h)

    def add(self, h):
        if h is T.TRUE:
            return
        if h.op == "and":
            for a in h.args:
                self.add(a)
            return
        if h in self.hyps:
            return
        if h.op == "or":
            left = [a for a in h.args if self.bools.get(a) is not False]
            if any(self.bools.get(a) is True for a in left):
                return
            if len(left) < len(h.args):
                return self.add(T.or_(*left))
        self.hyps.append(h)
        if h is T.FALSE:
            self.inconsistent = True
            return
        self.bools[h] = True
        self.bools[T.not_(h)] = False
        try:
            t = self.tree(h)
        except (N.Unsupported, P.TooBig, N.NotStrict):
            return
        if t is None or t is TRUEF:
            return
        if t is FALSEF:
            self.inconsistent = True
            return
        self.addtree(t)

    def addtree(self, t):
        if t.op == "and":
            for a in t.args:
                self.addtree(a)
            return
        self.trees.append(t)
        if t.op in ("gt", "ge", "eq"):
            self._bound(t)
        self.signs = {k: v for k, v in self.signs.items() if v is not None}
        self.qs = {k: v for k, v in self.qs.items() if v in (2, -2)}
        self.between = {k: v for k, v in self.between.items() if v}
        self.dec = {k: v for k, v in self.dec.items() if v is not None}

    def _bound(self, t):
        p = t.args
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            g = ms[0][0][0]
            c = p.t[ms[0]]
            b = -p.constval() / c
            st = t.op == "gt"
            if c > 0 or t.op == "eq":
                o = self.lb.get(g)
                if o is None or b > o[0] or (b == o[0] and st):
                    self.lb[g] = (b, st)
            if c < 0 or t.op == "eq":
                o = self.ub.get(g)
                if o is None or b < o[0] or (b == o[0] and st):
                    self.ub[g] = (b, st)

    # ---- boolean terms -> FTree
    def tree(self, h):
        if h is T.TRUE:
            return TRUEF
        if h is T.FALSE:
            return FALSEF
        if h.op == "and" or h.op == "or":
            out = []
            for a in h.args:
                try:
                    x = self.tree(a)
                except (N.Unsupported, P.TooBig, N.NotStrict):
                    if h.op == "and":
                        continue
                    raise
                if x is (FALSEF if h.op == "and" else TRUEF):
                    return x
                if x is (TRUEF if h.op == "and" else FALSEF):
                    continue
                out.append(x)
            if not out:
                return TRUEF if h.op == "and" else FALSEF
            return out[0] if len(out) == 1 else FTree(h.op, out)
        if h.op in ("lt", "le", "eq"):
            return self.atom(h.op, h.args[0], h.args[1])
        if h.op == "not":
            x = h.args[0]
            if x.op == "eq":
                a, b = x.args
                fi = find_ite(a) or find_ite(b)
                if fi is not None:
                    c = fi.args[0]
                    d = self.decide(c)
                    f = [T.not_(T.mk("eq", (T.subst(a, {fi: fi.args[i]}), T.subst(b, {fi: fi.args[i]})))) for i in (1, 2)]
                    if d is None:
                        return self.tree(T.or_(T.and_(c, f[0]), T.and_(T.not_(c), f[1])))
                    return self.tree(f[0 if d else 1])
                t = self.atom("eq", a, b)
                if t.op == "const":
                    return FALSEF if t.args else TRUEF
                if t.op != "eq":
                    raise N.Unsupported("negated equality")
                return FTree("ne", t.args)
            if x.op in ("bvar", "ubool"):
                p = self.boolgen(x)
                return FTree("eq", p)
            raise N.Unsupported("not " + x.op)
        if h.op in ("bvar", "ubool"):
            return FTree("eq", psub(self.boolgen(h), PONE))
        raise N.Unsupported(h.op)

    def boolgen(self, x):
        return pgen(P.gen("BV", x.id, x, "b%d" % x.id))

    def atom(self, op, a, b):
        fi = find_ite(a) or find_ite(b)
        if fi is not None:
            c = fi.args[0]
            d = self.decide(c)
            if d is None:
                ma, mb = {fi: fi.args[1]}, {fi: fi.args[2]}
                f1 = T.mk(op, (T.subst(a, ma), T.subst(b, ma)))
                f2 = T.mk(op, (T.subst(a, mb), T.subst(b, mb)))
                return self.tree(T.or_(T.and_(c, f1), T.and_(T.not_(c), f2)))
            m = {fi: fi.args[1] if d else fi.args[2]}
            return self.atom(op, T.subst(a, m), T.subst(b, m))
        r = rsub(self.norm.rf(b), self.norm.rf(a))  # b - a  op' 0
        return self.ratom(op, r)

    def ratom(self, op, r):
        if r.is_const():
            c = r.constval()
            v = {"lt": c > 0, "le": c >= 0, "eq": c == 0}[op]
            return TRUEF if v else FALSEF
        num = r.num
        if op == "eq":
            return FTree("eq", num)
        for p, e in r.den.items():
            if e % 2 == 0:
                continue
            s = self.sign(p)
            if s is None:
                num = pmul(num, p)
            elif s < 0:
                num = pneg(num)
        return FTree("gt" if op == "lt" else "ge", num)

    # ---- quick sign: 2 >0, 1 >=0, -1, -2, None
    def qsign(self, p):
        k = p.key()
        if k in self.qs:
            return self.qs[k]
        r = self._qsign(p)
        self.qs[k] = r
        return r

    def _qsign(self, p):
        if p.is_const():
            c = p.constval()
            return 2 if c > 0 else -2 if c < 0 else 1
        if len(p.t) == 1:
            (m, c), = p.t.items()
            s = 2
            for g, e in m:
                x = self._gsign(g)
                if isinstance(e, int) and e % 2 == 0:
                    x = 2 if x in (2, -2) or e < 0 else 1
                elif isinstance(e, Fr):
                    x = x if x in (1, 2) else 1
                if x is None:
                    return None
                if x < 0:
                    s = -s
                if abs(x) == 1:
                    s = 1 if s > 0 else -1
            return s if c > 0 else -s
        # exact match with a hypothesis
        for t in self.trees:
            if t.op in ("gt", "ge") and len(t.args.t) == len(p.t):
                c1, q1 = P.primitive(t.args)
                c2, q2 = P.primitive(p)
                if q1 == q2:
                    s = 2 if t.op == "gt" else 1
                    return s if (c1 > 0) == (c2 > 0) else -s
        if len(p.t) > 60:
            return None
        # shift by known bounds and look at coefficients
        q = p
        for g in p.gens():
            G = GENS[g]
            if any(isinstance(e, Fr) or e < 0 for m in p.t for gg, e in m if gg == g):
                continue
            b = self.lb.get(g)
            if b is None and G.kind == "B":
                pass
            if b is not None and b[0] != 0:
                q = psubst(q, g, padd(pgen(G), pconst(b[0])))
                shifted = True
            elif b is None and g in self.ub:
                q = psubst(q, g, psub(pconst(self.ub[g][0]), pgen(G)))
        # after the shift every bounded generator is >=0 (strictly when the bound is strict)
        sg = None
        strict = False
        for m, c in q.t.items():
            st = True
            for g, e in m:
                if g in self.lb:
                    if not self.lb[g][1]:
                        st = False
                elif g in self.ub:
                    if not self.ub[g][1]:
                        st = False
                else:
                    x = self._gsign(g)
                    if isinstance(e, int) and e % 2 == 0:
                        x = 2 if x in (2, -2) else 1
                    if x not in (1, 2):
                        return None
                    if x == 1:
                        st = False
            s = 1 if c > 0 else -1
            if sg is None:
                sg = s
            elif sg != s:
                return None
            if st:
                strict = True
        return (2 if strict else 1) * sg

    def _gsign(self, g):
        G = GENS[g]
        k = G.kind
        if g in self.lb:
            b, st = self.lb[g]
            if b > 0 or (b == 0 and st):
                return 2
            if b == 0:
                return 1
        if g in self.ub:
            b, st = self.ub[g]
            if b < 0 or (b == 0 and st):
                return -2
            if b == 0:
                return -1
        if k in ("B", "EXP"):
            return 2
        if G is N.PIG:
            return 2
        if k == "P":
            return 2 if self.qsign(G.data) == 2 else 1
        if k == "ABS":
            return 1
        return None

    def qsignrf(self, r):
        s = self.qsign(r.num)
        if s is None:
            return None
        for p, e in r.den.items():
            if e % 2:
                x = self.qsign(p)
                if x is None:
                    return None
                if x < 0:
                    s = -s
        return s

    # ---- sign with z3.  +1: >=0 proved, -1: <=0 proved
    def sign(self, p, *a):
        q = self.qsign(p)
        if q is not None:
            return 1 if q > 0 else -1
        k = p.key()
        if k in self.signs:
            return self.signs[k]
        self.signs[k] = None
        r = None
        if self.z3neg(FTree("gt", pneg(p)), OPTS["sign_timeout"]):
            r = 1
        elif self.z3neg(FTree("gt", p), OPTS["sign_timeout"]):
            r = -1
        self.signs[k] = r
        return r

    def strictp(self, p):
        q = self.qsign(p)
        if q in (2, -2):
            return True
        k = ("s", p.key())
        if k in self.signs:
            return self.signs[k]
        r = self.z3neg(FTree("eq", p), OPTS["sign_timeout"])
        self.signs[k] = r
        return r

    def strict(self, r):
        return self.strictp(r.num)

    def rf_between(self, x, lo, hi, strict=True):
        """lo*pi < x < hi*pi"""
        k = (x.key(), lo, hi, strict)
        r = self.between.get(k)
        if r is not None:
            return r
        self.between[k] = False
        r = True
        for d in (rsub(x, rconst(Fr(lo))) if lo == 0 else rsub(x, rf(pscale(pgen(N.PIG), Fr(lo)))), rsub(rf(pscale(pgen(N.PIG), Fr(hi))), x)):
            num = d.num
            for p, e in d.den.items():
                if e % 2:
                    s = self.qsign(p)
                    if s is None:
                        num = pmul(num, p)
                    elif s < 0:
                        num = pneg(num)
            q = self.qsign(num)
            if q == 2 or (q == 1 and not strict):
                continue
            if q is not None and q < 0:
                r = False
                break
            if not self.z3neg(FTree("ge" if strict else "gt", pneg(num)), OPTS["sign_timeout"], noax=True):
                r = False
                break
        self.between[k] = r
        return r

    def decide(self, c):
        """truth value of a boolean term if entailed"""
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if c in self.bools:
            return self.bools[c]
        if c.id in self.dec:
            return self.dec[c.id]
        self.dec[c.id] = None
        r = None
        try:
            t = self.tree(c)
            if t.op == "const":
                r = t.args
            else:
                if t.op in ("gt", "ge"):
                    q = self.qsign(t.args)
                    if q is not None:
                        if q == 2 or (q == 1 and t.op == "ge"):
                            r = True
                        elif q == -2 or (q == -1 and t.op == "gt"):
                            r = False
                if r is None:
                    if self.z3neg(t, OPTS["sign_timeout"]):
                        r = False
                    elif self.z3neg(negtree(t), OPTS["sign_timeout"]):
                        r = True
        except (N.Unsupported, P.TooBig, N.NotStrict):
            r = None
        self.dec[c.id] = r
        return r

    def satisfiable(self, timeout=3000):
        """None unknown, True/False"""
        if self.inconsistent:
            return False
        r = self._z3([], None, timeout)
        return {"sat": True, "unsat": False}.get(r)

    def z3neg(self, t, timeout, noax=False):
        """True if hypotheses /\\ t is unsatisfiable"""
        if t.op == "const":
            return not t.args
        if self.inconsistent:
            return True
        return self._z3([t], t.gens, timeout, noax) == "unsat"

    def relevant(self, gens):
        gens = closure_gens(gens)
        used = []
        left = list(self.trees)
        ch = True
        while ch:
            ch = False
            nl = []
            for t in left:
                cg = closure_gens(t.gens)
                if cg & gens:
                    gens |= cg
                    used.append(t)
                    ch = True
                else:
                    nl.append(t)
            left = nl
        return used, gens

    def _z3(self, extra, gens, timeout, noax=False):
        t0 = time.time()
        if gens is None:
            used = list(self.trees)
            gens = set()
            for t in used:
                gens |= t.gens
        else:
            if noax:
                # only hypotheses over the same generators (linear reasoning on angles)
                g0 = set(gens) | {N.PIG.gid}
                used, _ = self._relevant_direct(g0)
            else:
                used, gens = self.relevant(gens - {N.PIG.gid} if len(gens) > 1 else gens)
        allg = set()
        for t in used + extra:
            allg |= t.gens
        if not noax and any(GENS[g].kind == "V" and GENS[g].data.val[1] == "I" for g in closure_gens(allg)) and any(GENS[g].kind in ("P", "B") for g in closure_gens(allg)):
            # integers as reals first: weaker hypotheses, but a complete procedure for the polynomial part
            env = Z3Env(self, allg)
            env.relax = True
            for t in used + extra:
                for p in tree_polys(t):
                    env.scan(p)
            rx = env.build()
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", int(min(timeout, 3000)))
            for f in [env.f(t) for t in used + extra] + list(env.ax):
                s.add(f)
            t1 = time.time()
            try:
                r = s.check()
            except z3.Z3Exception:
                r = None
            STATS["z3_calls"] += 1
            STATS["z3_time"] += time.time() - t1
            if r == z3.unsat:
                return "unsat"
        env = Z3Env(self, allg)
        for t in used + extra:
            for p in tree_polys(t):
                env.scan(p)
        if noax:
            ax = []
            for g in allg:
                if GENS[g] is N.PIG:
                    z = env.zvar(g)
                    ax += [z > z3.Q(31415926535, 10**10), z < z3.Q(31415926536, 10**10)]
                elif GENS[g].kind in ("B", "EXP"):
                    ax.append(env.zvar(g) > 0)
                elif GENS[g].kind in ("P", "ABS") or env.D.get(g, 1) > 1:
                    ax.append(env.zvar(g) >= 0)
                elif GENS[g].kind == "AT":
                    pi = env.zvar(N.PIG.gid)
                    ax += [pi > z3.Q(31415926535, 10**10), pi < z3.Q(31415926536, 10**10)]
                    z = env.zvar(g)
                    if GENS[g].data[0] == "atan":
                        ax += [2 * z < pi, 2 * z > -pi]
                        s = self.qsignrf(GENS[g].data[1])
                        if s is not None:
                            ax += [z > 0] if s == 2 else [z < 0] if s == -2 else [z >= 0] if s == 1 else [z <= 0]
                    elif GENS[g].data[0] == "asin":
                        ax += [2 * z <= pi, 2 * z >= -pi]
                        s = self.qsignrf(GENS[g].data[1])
                        if s is not None:
                            ax += [z > 0] if s == 2 else [z < 0] if s == -2 else [z >= 0] if s == 1 else [z <= 0]
                    else:
                        ax += [z <= pi, z > -pi]
        else:
            ax = env.build()
        fs = [env.f(t) for t in used + extra]
        ax = list(env.ax) if not noax else ax + env.ax
        STATS["norm_time"] += time.time() - t0
        res = "unknown"
        self.last_model = None
        # identical questions are asked again for every obligation of a path
        key = frozenset(f.get_id() for f in fs + ax)
        old = Z3CACHE.get(key)
        if old is not None and (old[0] != "unknown" or old[2] >= timeout):
            self.last_model = old[1]
            return old[0]
        if env.hasint:
            solvers = [lambda: z3.Solver()]
        else:
            solvers = [lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.Solver()]
        for k, mk in enumerate(solvers):
            s = mk()
            s.set("timeout", int(timeout if k == 0 else timeout // 2))
            for f in fs:
                s.add(f)
            for f in ax:
                s.add(f)
            t1 = time.time()
            try:
                r = str(s.check())
            except z3.Z3Exception:
                r = "unknown"
            STATS["z3_calls"] += 1
            STATS["z3_time"] += time.time() - t1
            if r != "unknown":
                res = r
                if r == "sat":
                    m = s.model()
                    mod = {}
                    for g, v in env.v.items():
                        G = GENS[g]
                        if G.kind == "V" and G is not N.PIG:
                            x = m.eval(v, model_completion=True)
                            D = env.D.get(g, 1)
                            mod[G.data.val[0]] = _num(x) ** D
                    self.last_model = mod
                break
        Z3CACHE[key] = (res, self.last_model, timeout, fs, ax)
        return res

    def _relevant_direct(self, gens):
        used = [t for t in self.trees if t.gens <= gens]
        # one round of transitive linear facts
        more = set(gens)
        for t in self.trees:
            if t.gens & gens - {N.PIG.gid}:
                more |= t.gens
        used = [t for t in self.trees if t.gens <= more]
        return used, more


def _num(x):
    try:
        if z3.is_int_value(x):
            return float(x.as_long())
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        if z3.is_algebraic_value(x):
            return float(x.approx(15).as_fraction())
    except Exception:
        pass
    return 0.0


def tree_polys(t):
    if t.op in ("gt", "ge", "eq", "ne"):
        yield t.args
    elif t.op != "const":
        for a in t.args:
            yield from tree_polys(a)


def negtree(t):
    o = t.op
    if o == "const":
        return FALSEF if t.args else TRUEF
    if o == "gt":
        return FTree("ge", pneg(t.args))
    if o == "ge":
        return FTree("gt", pneg(t.args))
    if o == "eq":
        return FTree("ne", t.args)
    if o == "ne":
        return FTree("eq", t.args)
    return FTree("or" if o == "and" else "and", [negtree(a) for a in t.args])


def psubst(p, g, q):
    """substitute polynomial q for generator g (non-negative integer exponents)"""
    r = PZERO
    pw = {0: PONE}
    acc = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(g, 0)
        acc.setdefault(e, {})[tuple(sorted(d.items()))] = c
    for e, t in acc.items():
        r = padd(r, pmul(Poly(t), P.ppow(q, e)) if e else Poly(t))
    return r


_CPLX = {}


def _complex(h):
    r = _CPLX.get(h.id)
    if r is None:
        r = False
        for t in T.subterms(h):
            if t.op in ("fn", "ite", "uf", "sum", "or") or (t.op == "pow" and not (t.args[1].op == "const" and t.args[1].val.denominator == 1)):
                r = True
                break
        _CPLX[h.id] = r
    return r


_FI = {}


def find_ite(e):
    """an ite subterm whose condition is ite-free and does not depend on the index of a sum around it"""
    r = _FI.get(e.id, 0)
    if r != 0:
        return r
    r = None
    if e.op == "ite":
        r = find_ite(e.args[0]) or e
    elif e.op == "sum":
        r = find_ite(e.args[1]) or find_ite(e.args[2]) or _ite_free(e.args[3], frozenset([e.args[0]]), set())
    else:
        for a in e.args:
            r = find_ite(a)
            if r is not None:
                break
    _FI[e.id] = r
    return r


def _ite_free(e, bound, seen):
    if e.id in seen:
        return None
    seen.add(e.id)
    if e.op == "ite":
        r = _ite_free(e.args[0], bound, seen)
        if r is not None:
            return r
        if not T.free_vars(e.args[0]) & bound:
            return e
    if e.op == "sum":
        for a in e.args[1:3]:
            r = _ite_free(a, bound, seen)
            if r is not None:
                return r
        return _ite_free(e.args[3], bound | {e.args[0]}, set())
    for a in e.args:
        r = _ite_free(a, bound, seen)
        if r is not None:
            return r
    return None


class Result:
    def __init__(self, ok, reason="", model=None, backend="", tm=0.0):
        self.ok, self.reason, self.model, self.backend, self.time = ok, reason, model, backend, tm

    def __repr__(self):
        return "Result(%s,%s,%s)" % (self.ok, self.backend, self.reason)


def solve_hyps(hyps, goal):
    """use equations  v == t  (v a variable not in t) as substitutions"""
    hyps = flatten(hyps)
    changed = True
    done = []
    while changed:
        changed = False
        for h in hyps:
            if h.op == "eq":
                for a, b in ((h.args[0], h.args[1]), (h.args[1], h.args[0])):
                    if a.op == "var" and a is not T.PI and a not in T.free_vars(b) and not (b.op == "const" and False):
                        m = {a: b}
                        nh = []
                        for k in hyps:
                            if k is not h:
                                nh.append(T.subst(k, m))
                        # definedness of b is a consequence of the equation
                        hyps = flatten(nh + [defn(b)])
                        goal = T.subst(goal, m)
                        done = [(v, T.subst(t, m)) for v, t in done] + [(a, b)]
                        changed = True
                        break
            if changed:
                break
    return hyps, goal, done


def flatten(hyps):
    out = []
    for h in hyps:
        if h.op == "and":
            out += flatten(h.args)
        elif h is not T.TRUE and h not in out:
            out.append(h)
    return out


_DEF = {}


def defn(e):
    """condition under which the term is defined (ite aware)"""
    r = _DEF.get(e.id)
    if r is not None:
        return r
    op = e.op
    if op in ("const", "var", "bvar", "true", "false"):
        r = T.TRUE
    elif op == "ite":
        c, a, b = e.args
        r = T.and_(defn(c), T.or_(T.not_(c), defn(a)), T.or_(c, defn(b)))
    elif op == "and":
        out = []
        pre = []
        for a in e.args:
            d = defn(a)
            if d is not T.TRUE:
                out.append(T.or_(*([T.not_(x) for x in pre] + [d])))
            pre.append(a)
        r = T.and_(*out)
    elif op == "or":
        out = []
        pre = []
        for a in e.args:
            d = defn(a)
            if d is not T.TRUE:
                out.append(T.or_(*(pre + [d])))
            pre.append(a)
        r = T.and_(*out)
    elif op == "sum":
        r = T.TRUE  # checked on the body by the array layer
    else:
        ds = [defn(a) for a in e.args]
        if op == "pow":
            b, x = e.args
            if x.op == "const":
                if x.val.denominator == 1:
                    if x.val < 0:
                        ds.append(T.not_(T.eq(b, T.ZERO)))
                else:
                    ds.append(T.le(T.ZERO, b) if x.val > 0 else T.lt(T.ZERO, b))
            elif T.is_int(x):
                ds.append(T.or_(T.not_(T.eq(b, T.ZERO)), T.lt(T.ZERO, x)))
            else:
                ds.append(T.or_(T.lt(T.ZERO, b), T.and_(T.eq(b, T.ZERO), T.lt(T.ZERO, x))))
        elif op == "fn":
            if e.val == "log":
                ds.append(T.lt(T.ZERO, e.args[0]))
            elif e.val in ("asin", "acos"):
                ds.append(T.and_(T.le(T.const(-1), e.args[0]), T.le(e.args[0], T.ONE)))
            elif e.val == "tan":
                ds.append(T.not_(T.eq(T.fn("cos", e.args[0]), T.ZERO)))
            elif e.val in ("idiv", "imod"):
                ds.append(T.not_(T.eq(e.args[1], T.ZERO)))
        r = T.and_(*ds)
    _DEF[e.id] = r
    return r


def prove(hyps, goal, timeout=None, depth=0):
    t0 = time.time()
    for _ in range(6):
        try:
            hy, g, _d = solve_hyps(hyps, goal)
            ctx = Ctx(hy)
            r = _prove(ctx, g, timeout or OPTS["goal_timeout"], 0)
            r.time = time.time() - t0
            if not r.ok and r.model is not None and _d:
                for v, t in reversed(_d):
                    try:
                        r.model[v.val[0]] = T.evalf(t, r.model)
                    except Exception:
                        pass
            return r
        except N.UnitChanged:
            continue
        except (P.TooBig, RecursionError) as e:
            return Result(False, "prover resource limit: %r" % (e,), None, "", time.time() - t0)
        except N.Unsupported as e:
            return Result(False, "prover: unsupported %s" % e, None, "", time.time() - t0)
    return Result(False, "angle units did not stabilise", None)


def _sub(ctx, extra):
    return Ctx(flatten(solve_light(ctx.hyps + [extra])))


def solve_light(h):
    return h


def _prove(ctx, goal, timeout, depth):
    if goal is T.TRUE or ctx.inconsistent:
        return Result(True, backend="trivial")
    if goal is T.FALSE:
        s = ctx.satisfiable()
        if s is False:
            return Result(True, backend="z3")
        return Result(False, "hypotheses are satisfiable", ctx.last_model)
    if goal.op == "and":
        bk = set()
        for a in goal.args:
            r = _prove(ctx, a, timeout, depth)
            if not r.ok:
                return r
            bk.add(r.backend)
        return Result(True, backend="+".join(sorted(bk)))
    if goal.op == "or":
        ds = list(goal.args)
        for d in ds:
            if d in ctx.hyps or (d.op == "le" and T.lt(*d.args) in ctx.hyps):
                return Result(True, backend="trivial")
        # keep a positive comparison as the goal, the rest (negated) become hypotheses
        ds.sort(key=lambda d: (0 if d.op == "eq" else 1 if d.op == "and" else 2 if d.op == "lt" else 3, 0 if _complex(d) else 1))
        last = None
        for k, g in enumerate(ds[:3]):
            hy = ctx.hyps + [T.not_(d) for j, d in enumerate(ds) if j != k]
            hy, g2, _d = solve_hyps(hy, g)
            c2 = Ctx(hy)
            r = _prove(c2, g2, timeout, depth + 1)
            if r.ok:
                return r
            if last is None or last.model is None:
                last = r
        return last
    fi = find_ite(goal)
    if fi is not None:
        c = fi.args[0]
        d = ctx.decide(c)
        if d is not None:
            return _prove(ctx, T.subst(goal, {fi: fi.args[1] if d else fi.args[2]}), timeout, depth)
        if depth > OPTS["maxsplit"]:
            return Result(False, "too many case splits")
        bk = set()
        for cc, v in ((c, fi.args[1]), (T.not_(c), fi.args[2])):
            hy, g2, _d = solve_hyps(ctx.hyps + [cc], T.subst(goal, {fi: v}))
            r = _prove(Ctx(hy), g2, timeout, depth + 1)
            if not r.ok:
                return r
            bk.add(r.backend)
        return Result(True, backend="+".join(sorted(bk)))
    # hypotheses with decided ites are handled in Ctx.  Atomic goal
    if goal.op in ("lt", "le", "eq"):
        a, b = goal.args
        r = rsub(ctx.norm.rf(b), ctx.norm.rf(a))
        if goal.op == "eq":
            if r.is_zero():
                return Result(True, backend="normaliser")
            r2 = linsolve(ctx, r)
            if r2 is not None and r2.is_zero():
                return Result(True, backend="normaliser+equations")
            ok, why = inject(ctx, r)
            if ok:
                return Result(True, backend="normaliser+injectivity")
            t = FTree("ne", r.num)
        else:
            tr = ctx.ratom(goal.op, r)
            if tr.op == "const":
                if tr.args:
                    return Result(True, backend="normaliser")
                if ctx.satisfiable() is False:
                    return Result(True, backend="z3")
                return Result(False, "constant comparison is false", ctx.last_model)
            q = ctx.qsign(tr.args)
            if q == 2 or (q == 1 and tr.op == "ge"):
                return Result(True, backend="normaliser")
            t = negtree(tr)
    elif goal.op == "not" and goal.args[0].op == "eq":
        a, b = goal.args[0].args
        r = rsub(ctx.norm.rf(b), ctx.norm.rf(a))
        if r.is_zero():
            if ctx.satisfiable() is False:
                return Result(True, backend="z3")
            return Result(False, "terms are equal", ctx.last_model)
        if r.is_const() or ctx.qsign(r.num) in (2, -2):
            return Result(True, backend="normaliser")
        t = FTree("eq", r.num)
    elif goal.op in ("bvar", "ubool") or (goal.op == "not" and goal.args[0].op in ("bvar", "ubool")):
        d = ctx.decide(goal)
        if d:
            return Result(True, backend="z3")
        t = negtree(ctx.tree(goal))
    else:
        return Result(False, "unsupported goal %s" % goal.op)
    # factored goal: a product of factors of known sign
    if t.op in ("ge", "gt"):
        r3 = by_factors(ctx, pneg(t.args), "gt" if t.op == "ge" else "ge")
        if r3:
            return Result(True, backend="factors")
    v = ctx._z3([t], t.gens, timeout)
    if v == "unsat":
        return Result(True, backend="z3")
    model = ctx.last_model
    # a model of the relevant slice: complete it with the remaining hypotheses
    if v == "sat":
        v2 = ctx._z3([t], None, timeout)
        if v2 == "unsat":
            return Result(True, backend="z3")
        if v2 == "sat":
            model = ctx.last_model
    return Result(False, "z3: %s; residual goal %s" % (v, repr(t)[:800]), model)


def by_factors(ctx, p, op):
    """p > 0 (op gt) or p >= 0 through the signs of its factors"""
    try:
        c, fs = P.factor(p)
    except Exception:
        return False
    if len(fs) == 1 and fs[0][1] == 1:
        return False
    s = 1 if c > 0 else -1
    for f, m in fs:
        if isinstance(m, int) and m % 2 == 0:
            if op == "gt" and not ctx.strictp(f):
                return False
            continue
        x = ctx.sign(f)
        if x is None:
            return False
        if op == "gt" and not ctx.strictp(f):
            return False
        if isinstance(m, int) and m % 2:
            s *= x
    return s > 0


def linsolve(ctx, r):
    """use polynomial equations among the hypotheses, each linear in a generator, to reduce r"""
    num = r.num
    used = set()
    for _ in range(4):
        hit = False
        for i, t in enumerate(ctx.trees):
            if t.op != "eq" or i in used:
                continue
            h = t.args
            cand = None
            for g in h.gens() & num.gens():
                G = GENS[g]
                if any(isinstance(e, Fr) or e not in (1,) for m in h.t for gg, e in m if gg == g):
                    continue
                if any(isinstance(e, Fr) or e < 0 for m in num.t for gg, e in m if gg == g):
                    continue
                if any(g in closure_gens({x}) - {x} for x in (h.gens() | num.gens()) - {g}):
                    continue
                A, B = {}, {}
                for m, c in h.t.items():
                    d = dict(m)
                    if g in d:
                        del d[g]
                        A[tuple(sorted(d.items()))] = c
                    else:
                        B[m] = c
                A, B = Poly(A), Poly(B)
                if A.is_const() or ctx.strictp(A):
                    cand = (g, A, B)
                    break
            if cand:
                g, A, B = cand
                deg = max(dict(m).get(g, 0) for m in num.t)
                # num(g := -B/A) * A^deg
                out = PZERO
                for m, c in num.t.items():
                    d = dict(m)
                    e = d.pop(g, 0)
                    x = pmul(Poly({tuple(sorted(d.items())): c}), pmul(P.ppow(pneg(B), e), P.ppow(A, deg - e)))
                    out = padd(out, x)
                num = out
                used.add(i)
                hit = True
                if num.is_zero():
                    return RZERO
        if not hit:
            break
    return rf(num) if used else None


def inject(ctx, r):
    """r == 0 where r is a combination of angles: sin r = 0 and |r| < pi  (or cos r and range)"""
    if r.den:
        return False, ""
    gs = [GENS[g] for g in r.gens()]
    if not any(G.kind == "AT" for G in gs):
        return False, ""
    # scale so that the arctangent coefficients are integers: r*k with k common denominator / pi content
    x = r
    # degrees: coefficients carry 1/pi -> not den-free; caller multiplies by den already
    co = [c for m, c in x.num.t.items()]
    pi_deg = min(dict(m).get(N.PIG.gid, 0) for m in x.num.t)
    if pi_deg > 0:
        x = RF(Poly({tuple((g, e - pi_deg if g == N.PIG.gid else e) for g, e in m if not (g == N.PIG.gid and e == pi_deg)): c for m, c in x.num.t.items()}))
    ats = [abs(c) for m, c in x.num.t.items() if len(m) == 1 and GENS[m[0][0]].kind == "AT"]
    if not ats:
        return False, ""
    k = min(ats)
    x = rmul(x, rconst(1 / k))
    try:
        s, c = ctx.norm._sincos(x)
    except N.UnitChanged:
        raise
    except Exception as e:
        return False, str(e)
    if not s.is_zero():
        l = linsolve(ctx, s)
        if not (l is not None and l.is_zero()):
            # last resort: z3 for sin == 0
            if ctx._z3([FTree("ne", s.num)], s.num.gens(), OPTS["goal_timeout"]) != "unsat":
                return False, "sine not zero"
    # range: |x| < pi
    if ctx.rf_between(x, -1, 1):
        return True, ""
    # with the full axioms
    pi = pgen(N.PIG)
    for d in (padd(x.num, pi), psub(pi, x.num)):
        if ctx._z3([FTree("ge", pneg(d))], d.gens(), OPTS["sign_timeout"] * 2) != "unsat":
            return False, "range"
    return True, ""
