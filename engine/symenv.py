"""symbolic environment of the scenarios (units)"""
import contextlib
import os
import sys
import time
import types
from fractions import Fraction as Fr

from . import terms as T
from . import prover
from .explore import Explorer, Path, PathEnd, Unsupported, cur, CUR, instantiate
from .values import Sym, SymB, CX, term, term_bool, scalar_ok, kind, is_sym
from . import larr as L
from . import calculus
from .strs import SStr, SymDict, sterm, lift, containers
from .loader import World
from .shims import F as UF1, FB as UF2
from specs import lib


class Hook:
    bernoulli = staticmethod(calculus.bernoulli)
    monotone = staticmethod(calculus.monotone)
    lemma = staticmethod(calculus.lemma)
    assume = staticmethod(calculus.assume)
    congruent = staticmethod(calculus.congruent)

    @staticmethod
    def is_sym(x):
        return is_sym(x)

    @staticmethod
    def fn(name, *a):
        f = UF1.get(name) or UF2.get(name)
        return Sym(f(*[term(x) for x in a]))

    @staticmethod
    def pi():
        return Sym(T.PI)

    @staticmethod
    def power(a, b):
        return Sym(T.power(term(a), term(b)))

    @staticmethod
    def cmp(op, a, b):
        if isinstance(a, (CX, complex)) or isinstance(b, (CX, complex)):
            a, b = CX.of(a), CX.of(b)
            return SymB(T.and_(T.eq(a.re, b.re), T.eq(a.im, b.im)))
        if isinstance(a, SStr) and isinstance(b, (SStr, str)) or isinstance(b, SStr) and isinstance(a, str):
            return SymB(T.eq(sterm(a), sterm(b)))
        if isinstance(a, (SymB, bool)) and isinstance(b, (SymB, bool)):
            a, b = term_bool(a), term_bool(b)
            return SymB(T.or_(T.and_(a, b), T.and_(T.not_(a), T.not_(b))))
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return SymB(T.TRUE if a == b else T.FALSE)
        if not (scalar_ok(a) and scalar_ok(b)):
            raise TypeError("comparison of %s and %s (a scalar was expected)" % (type(a).__name__, type(b).__name__))
        return SymB({"eq": T.eq, "le": T.le, "lt": T.lt}[op](term(a), term(b)))

    @staticmethod
    def land(xs):
        return SymB(T.and_(*[term_bool(x) for x in xs]))

    @staticmethod
    def lor(xs):
        return SymB(T.or_(*[term_bool(x) for x in xs]))

    @staticmethod
    def lnot(x):
        return SymB(T.not_(term_bool(x)))

    @staticmethod
    def implies(a, b):
        return SymB(T.implies(term_bool(a), term_bool(b)))

    @staticmethod
    def ite(c, a, b):
        c = term_bool(c)
        if c is T.TRUE:
            return a
        if c is T.FALSE:
            return b
        if isinstance(a, (SymB, bool)) and isinstance(b, (SymB, bool)):
            return SymB(T.ite(c, term_bool(a), term_bool(b)))
        return Sym(T.ite(c, term(a), term(b)), "I" if kind(a) == "I" and kind(b) == "I" else "R")


def b2t(x):
    if isinstance(x, lib.NB):
        return T.TRUE if x else T.FALSE
    return term_bool(x)


Hook.b2t = staticmethod(b2t)
Hook.is_opaque = staticmethod(lambda name: name in OPAQUE)
Hook.uf = staticmethod(lambda name, *args: Sym(T.uf(name, *[term(x) for x in args])))


OPAQUE = set()  # of the unit being verified (one unit at a time per process)


class OpqFact:
    arity = "uf"

    def __init__(self, name, facts):
        self.name, self.facts = "opq:" + name, facts

    def instances(self, exprs):
        seen, out = set(), []
        for e in exprs:
            for u in T.ufs(e):
                if u.val == self.name and u.id not in seen and not any(v.op == "var" and v.val[0].startswith("\u03ba") for v in T.free_vars(u)):
                    seen.add(u.id)
                    out.append(T.and_(*[b2t(q) for q in self.facts(Sym(u), *[Sym(a) for a in u.args])]))
        return out


class SymEnv:
    numeric = False
    symbolic = True

    def __init__(self, path, registry, root="/repo", target=None, inline=(), pyfloat=True, opaque=()):
        self.p = path
        self.world = World(root, registry)
        self.registry = registry
        self.frame0 = None
        self.arrays = []
        path.state["pyfloat"] = pyfloat
        path.state["target"] = target
        path.state["inline"] = set(inline)
        path.state["env"] = self
        path.state["named"] = {}
        OPAQUE.clear()
        OPAQUE.update(opaque)
        for o in opaque:
            if lib.OPQ[o][1] is not None:
                path.assume_forall(OpqFact(o, lib.OPQ[o][1]))

    # ---- inputs
    def _facts(self, dom, v):
        return T.and_(*[b2t(f) for f in dom.facts(v)])

    def real(self, name, dom=None, **kw):
        dom = dom or lib.Dom(**kw)
        v = Sym(T.var(name, dom.kind), dom.kind)
        self.p.assume(self._facts(dom, v))
        self.named(name, v)
        return v

    def named(self, name, v):
        self.p.state["named"][name] = v

    def int(self, name, lo=None, hi=None, s=None):
        v = Sym(T.var(name, "I"), "I")
        if lo is not None:
            self.p.assume(T.le(term(lo), v.e))
        if hi is not None:
            self.p.assume(T.le(v.e, term(hi)))
        return v

    def size(self, name="n", lo=1):
        return self.int(name, lo)

    def arr(self, name, shape, dom=None, dt="f", **kw):
        dom = dom or lib.Dom(**kw)
        if not isinstance(shape, tuple):
            shape = (shape,)
        a = L.mkvar(name, shape, dt)
        sh = a._shape
        a.domain_elem = None
        get = a.snapshot().get

        def fact(idx):
            e = get(tuple(idx))
            if dt == "c" or dt == "b":
                return T.TRUE
            inr = T.and_(*[T.and_(T.le(T.ZERO, i), T.lt(i, d)) for i, d in zip(idx, sh)])
            f = self._facts(dom, Sym(e, "I" if dt == "i" else "R"))
            return T.implies(inr, f)

        fact.arity = len(sh)
        if dom.lo is not None or dom.hi is not None:
            if sh:
                self.p.assume_forall(fact)
            else:
                self.p.assume(fact(()))
        self.arrays.append((name, a, a.buf.ver))
        self.named(name, a)
        return a

    def func(self, name, arity=1, out="R"):
        """an arbitrary total real function (uninterpreted)"""
        def f(*xs):
            if any(isinstance(x, L.LArr) for x in xs):
                return L.ew(lambda *es: T.uf(name, *es), xs, "f", "f")
            return Sym(T.uf(name, *[term(x) for x in xs]))
        return f

    # ---- strings and dictionaries of strings
    def string(self, name, pool=()):
        v = SStr(T.var(name, "I"))
        return v

    def arbitrary_dicts(self, obj, history=None):
        return lift(obj, True)

    def lift_dicts(self, obj):
        return lift(obj, False)

    def separate(self, label, obj, module):
        """ownership: no mutable container is shared by the object and the rest of the module"""
        own = containers(obj)
        rest = {}
        for k, v in vars(module).items():
            if not k.startswith("__") and v is not obj:
                containers(v, rest)
        for k in set(own) & set(rest):
            self.p.oblige("%s: shared %s" % (label, type(own[k]).__name__), T.FALSE, "frame")
        self.p.oblige(label, T.TRUE, "frame")

    # ---- logic
    def assume(self, c):
        self.p.assume(b2t(c))
        if self.p.decide(T.FALSE) is True:
            raise PathEnd()

    def check(self, label, c, tol=None):
        self.p.oblige(label, b2t(c), "post")

    def check_defined(self, label, x):
        if isinstance(x, (Sym,)):
            self.p.oblige(label, prover.defn(x.e), "definedness")
        elif isinstance(x, CX):
            self.p.oblige(label, T.and_(prover.defn(x.re), prover.defn(x.im)), "definedness")

    def lemma(self, label, c):
        """prove, then use"""
        g = b2t(c)
        self.p.oblige(label, g, "lemma")
        self.p.assume(g)

    def congruence(self, f, *pairs):
        """x = y => f(x) = f(y)"""
        x, y = pairs[:len(pairs) // 2], pairs[len(pairs) // 2:]
        self.p.assume(T.implies(T.and_(*[T.eq(term(a), term(b)) for a, b in zip(x, y)]), T.eq(term(f(*x)), term(f(*y)))))

    def deriv(self, f, x):
        return Sym(T.diff(f(x).e, x.e))

    def assume_all(self, shape, cond, trigger=None):
        from specs.contract import env_assume_all
        env_assume_all(self, shape, cond, trigger)

    def choose(self, label, options):
        options = list(options)
        k = self.p.choose(len(options), label)
        self.p.state.setdefault("choices", []).append((label, k))
        return options[k]

    def fail(self, label):
        self.p.oblige(label, T.FALSE, "post")

    def decide(self, c):
        """python bool, forking the path"""
        return self.p.branch(b2t(c))

    def split(self, *vals):
        """the values on the current path, one path for each region of definition"""
        from .prover import find_ite
        out = []
        for v in vals:
            e = v.e if isinstance(v, Sym) else term(v)
            while True:
                f = find_ite(e)
                if f is None:
                    break
                c = f.args[0]
                b = all(self.p.branch(x) for x in (c.args if c.op == "and" else (c,)))
                e = T.subst(e, {f: f.args[1] if b else f.args[2]})
            out.append(Sym(e, v.k if isinstance(v, Sym) else "R"))
        return out

    # ---- code
    def mod(self, name):
        return self.world.load(name)

    def fn(self, key):
        m, q = key.split(":")
        o = self.world.load(m)
        for a in q.split("."):
            o = getattr(o, a)
        return o

    def raw_fn(self, key):
        f = self.fn(key)
        return getattr(f, "__vobj__", f)

    # ---- arrays
    def idx(self, *shape):
        """generic index tuple of the shape (yields once)"""
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        ix = []
        for d in shape:
            d = term(d) if not isinstance(d, T.E) else d
            v = T.var(T.fresh_name("i"), "I")
            self.p.assume(T.le(T.ZERO, v))
            self.p.assume(T.lt(v, d))
            ix.append(Sym(v, "I"))
        for h in instantiate(self.p.foralls, [T.eq(i.e, T.ZERO) for i in ix]):
            self.p.assume(h)
        yield tuple(ix)

    def at(self, a, ix):
        if isinstance(a, L.LArr):
            if len(a._shape) != len(ix):
                raise TypeError("array of dimension %d where %d was expected" % (len(a._shape), len(ix)))
            return a.at(*[i.e if isinstance(i, Sym) else term(i) for i in ix])
        raise TypeError("not an array: %s" % type(a).__name__)

    def at_b(self, a, ix):
        """element with scalar broadcasting"""
        return self.at(a, ix) if isinstance(a, L.LArr) else a

    def is_array(self, a):
        return isinstance(a, L.LArr)

    def check_shape(self, label, a, shape):
        if not isinstance(shape, tuple):
            shape = (shape,)
        if not isinstance(a, L.LArr) or len(a._shape) != len(shape):
            self.p.oblige(label, T.FALSE, "post")
            return False
        g = T.and_(*[T.eq(d, term(s)) for d, s in zip(a._shape, shape)])
        self.p.oblige(label, g, "post")
        return True

    def dims(self, a):
        return tuple(L.pydim(d) for d in a._shape)

    def items(self, *xs):
        from .loader import SymList
        return xs

    def asarray(self, xs):
        return L.asarray(list(xs))

    # ---- frame
    def frame(self):
        """snapshot of everything the code could mutate"""
        self.arrays = [(n, a, a.buf.ver) for n, a, _ in self.arrays]
        self.frame0 = {m: _snap_mod(mod) for m, mod in self.world.modules.items() if hasattr(mod, "__dict__")}

    def check_frame(self, label="frame"):
        for n, a, v in self.arrays:
            if a.buf.ver != v:
                self.p.oblige("%s: input array %s is not modified" % (label, n), T.FALSE, "frame")
        if self.frame0 is not None:
            for m, s0 in self.frame0.items():
                s1 = _snap_mod(self.world.modules[m])
                for k in set(s0) | set(s1):
                    if k in s0 and s0.get(k) != s1.get(k):
                        self.p.oblige("%s: module state %s.%s is not modified" % (label, m, k), T.FALSE, "frame")
                    if k not in s0 and not k.startswith("__") and not isinstance(vars(self.world.modules[m]).get(k), types.ModuleType):
                        self.p.oblige("%s: module state %s.%s is not created" % (label, m, k), T.FALSE, "frame")
        if True:
            self.p.oblige(label, T.TRUE, "frame")

    def generalize(self, obj):
        """forget how the fields of a library object were computed: every field that is not an input becomes an arbitrary
        value (equal terms stay equal); the class invariant has to be assumed afterwards (and is proved in its own unit)"""
        m = {}

        def sub(v, depth=0):
            if isinstance(v, Sym):
                if v.e.op in ("var", "const"):
                    return v if not (v.e.op == "var" and v.e.val[0].startswith("root")) else m.setdefault(v.e, Sym(T.var(T.fresh_name("field")), v.k))
                return m.setdefault(v.e, Sym(T.var(T.fresh_name("field")), v.k))
            if isinstance(v, L.LArr):
                raise Unsupported("generalize: array field")
            if isinstance(v, (list, tuple)):
                for k in range(len(v)) if isinstance(v, list) else ():
                    v[k] = sub(v[k], depth + 1)
                return v if isinstance(v, list) else tuple(sub(x, depth + 1) for x in v)
            if type(v).__module__.startswith("aerokit") and hasattr(v, "__dict__") and depth < 6:
                for k in list(v.__dict__):
                    v.__dict__[k] = sub(v.__dict__[k], depth + 1)
            return v

        sub(obj)
        self._cleanpc()

    def forget(self, *vals):
        """arbitrary values in place of the given ones; facts about them have to be assumed again (after being checked)"""
        self._cleanpc()
        return tuple(Sym(T.var(T.fresh_name("val")), v.k) for v in vals)

    def fresh(self, *vals):
        return tuple(Sym(T.var(T.fresh_name("val")), v.k) for v in vals)

    @contextlib.contextmanager
    def aside(self):
        """facts assumed inside are dropped at the end"""
        p = self.p
        pc, ctx, fa = p.pc, p.ctx, p.foralls
        p.pc, p.ctx, p.foralls = list(pc), prover.Ctx(pc), list(fa)
        try:
            yield
        finally:
            p.pc, p.ctx, p.foralls = pc, ctx, fa

    def _cleanpc(self):
        keep = {v.e for v in self.p.state["named"].values() if isinstance(v, Sym)}
        # facts about the forgotten computation are dropped
        self.p.pc = [h for h in self.p.pc if all(v in keep or v.op == "const" for v in T.free_vars(h)) and sum(1 for _ in T.subterms(h)) < 40]
        self.p.ctx = prover.Ctx(self.p.pc)

    def printed(self):
        return [e[1] for e in self.p.events if e[0] == "print"]

    def printed_numbers(self):
        """values printed so far, with the rounding of their format"""
        import re
        from .values import SHOWN
        r = []
        for a in self.printed():
            for x in a:
                for t in re.findall(r"<value#(\d+)>|(?<![\w.])(-?\d+\.?\d*(?:[eE][-+]?\d+)?)", x):
                    r.append((SHOWN[int(t[0])], 0) if t[0] else (T.Fr(t[1]), 0))
        return r


def _snapv(v, depth=0):
    if isinstance(v, (Sym, SymB)):
        return ("s", v.e.id)
    if isinstance(v, CX):
        return ("c", v.re.id, v.im.id)
    if isinstance(v, SStr):
        return ("t", v.e.id)
    if isinstance(v, SymDict):
        return ("D", id(v), v.ver)
    if isinstance(v, (int, float, str, bool, type(None), Fr)):
        return ("v", repr(v))
    if isinstance(v, L.LArr):
        return ("a", id(v.buf), v.buf.ver)
    if depth < 5:
        if isinstance(v, dict):
            return ("d", tuple((_snapv(k, depth + 1), _snapv(x, depth + 1)) for k, x in v.items()))
        if isinstance(v, (list, tuple)):
            return ("l", tuple(_snapv(x, depth + 1) for x in v))
        if isinstance(v, (set, frozenset)):
            return ("S", len(v))
    if type(v).__module__.startswith("aerokit") and hasattr(v, "__dict__") and depth < 4:
        return ("o", id(v), tuple((k, _snapv(x, depth + 1)) for k, x in v.__dict__.items()))
    if callable(v) and hasattr(v, "__dict__") and depth == 0:
        # function attributes / lru caches
        ci = getattr(v, "cache_info", None) or getattr(getattr(v, "__vobj__", None), "cache_info", None)
        if ci is not None:
            try:
                return ("f", id(v), repr(ci()))
            except Exception:
                pass
        f = getattr(v, "__vobj__", v)
        dd = getattr(f, "__dict__", {})
        dflt = getattr(f, "__defaults__", None)
        clo = getattr(f, "__closure__", None)
        return ("f", id(v), tuple((k, _snapv(x, depth + 1)) for k, x in dd.items() if not k.startswith("__")),
                _snapv(list(dflt), 1) if dflt else None,
                tuple(_snapc(c, depth + 1) for c in clo) if clo else None)
    return ("x", id(v))


def _snapc(c, d):
    try:
        v = c.cell_contents
    except ValueError:
        return None
    return _snapv(v, d) if isinstance(v, (dict, list, int, float, Sym, tuple)) else ("x", id(v))


def _snap_mod(m):
    return {k: _snapv(v) for k, v in list(vars(m).items()) if not (k.startswith("__") and k.endswith("__"))}
