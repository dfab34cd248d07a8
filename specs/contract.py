"""Function contracts: preconditions, postconditions, frame; how a body is verified against its contract
and how a call site uses it."""
import inspect
from fractions import Fraction as Fr

from . import lib
from .lib import eq, land, lt, le

REG = {}


class P:
    """parameter: domain, optional default value (checked), array-able or not"""

    def __init__(self, name, dom, default=None, arr=True):
        self.name, self.dom, self.default, self.arr = name, dom, default, arr


class Contract:
    """
    key      module:qualname
    params   list of P
    spec     result as a function of the parameters (functional contract), or
    ensures  (result, *params) -> [(label, condition)] (relational contract)
    requires (*params) -> [conditions] beyond the domains
    modes    which shapes of arguments the body is verified for
    """

    def __init__(self, key, params, spec=None, ensures=None, requires=None, modes=None, tol=None, atol=None, newton=None,
                 extra=None, scalar_only=False, alias=(), lemmas=None, loops=None, inline=(), prep=None, note="", branchy=False, body=None, steps=None, **opts):
        self.key, self.params, self.spec, self.ensures, self.requires = key, params, spec, ensures, requires
        self.modes, self.tol, self.atol, self.newton = modes, tol, atol, newton
        self.extra = extra
        self.scalar_only = scalar_only
        self.lemmas = lemmas
        self.steps = steps
        self.inline = inline
        self.prep = prep
        self.note = note
        self.branchy = branchy
        self.body = body  # names of the scenarios that verify the body (instead of the generated units)
        self.opts = opts
        if newton is not None:
            opts["newton"] = newton
        if inline:
            opts["inline"] = inline
        if loops is not None:
            opts["loops"] = loops
        assert key not in REG, key
        REG[key] = self
        for a in alias:
            pass

    # ---------------------------------------------------------------- conditions
    def pre(self, args):
        out = []
        for p, a in zip(self.params, args):
            for f in p.dom.facts(a):
                out.append(("%s in its domain" % p.name, f))
        if self.requires is not None:
            for k, c in enumerate(self.requires(*args)):
                out.append(("requires %d" % k, c))
        return out

    def post(self, r, args):
        out = []
        if self.spec is not None:
            out.append(("result equals its specification", eq(r, self.spec(*args), tol=self.tol, atol=self.atol)))
        if self.ensures is not None:
            out += list(self.ensures(r, *args))
        return out

    # ---------------------------------------------------------------- verification of the body (both worlds)
    def mode_list(self):
        if self.body is not None:
            return []
        if self.modes is not None:
            return list(self.modes)
        m = ["scalar", "int"]
        if any(p.default is not None for p in self.params):
            m.append("defaults")
        if not self.scalar_only:
            m += ["array", "intarray", "array2", "0d"]
            ap = [p for p in self.params if p.arr]
            nog = [p for p in ap if not p.name.startswith("gam") and p.name != "r"]
            if len(ap) > len(nog):
                m.append("allarray")
            if len(nog) > 1:
                m += ["first", "last"]
        return m

    def scenario(self, mode):
        def run(env):
            self.body_scenario(env, mode)

        run.__name__ = "%s[%s]" % (self.key, mode)
        return run

    def body_scenario(self, env, mode):
        f = env.fn(self.key)
        args = []
        shape = ()
        ps = self.params
        nog = [p for p in ps if p.arr and not p.name.startswith("gam") and p.name != "r"]
        given = []
        if mode in ("array", "intarray", "allarray", "first", "last"):
            shape = (env.size("n"),)
        elif mode == "array2":
            shape = (env.size("n"), env.size("m"))
        kw = {}
        for k, p in enumerate(ps):
            arrq = False
            if mode in ("array", "array2", "0d"):
                arrq = p in nog
            elif mode == "intarray":
                arrq = p in nog
            elif mode == "allarray":
                arrq = p.arr
            elif mode == "first":
                arrq = bool(nog) and p is nog[0]
            elif mode == "last":
                arrq = bool(nog) and p is nog[-1]
            if mode == "defaults" and p.default is not None:
                args.append(p.default if env.numeric else lib_const(p.default))
                if not env.numeric:
                    env.named(p.name, args[-1])
                given.append(False)
                continue
            given.append(True)
            if mode == "int" and (p in nog) and p.dom.kind == "R":
                args.append(env.real(p.name, lib.Dom(p.dom.lo, p.dom.hi, p.dom.lo_eq, p.dom.hi_eq, p.dom.s, p.dom.special, "I")))
            elif arrq:
                args.append(env.arr(p.name, shape if mode != "0d" else (), p.dom, "i" if mode == "intarray" else "f"))
            else:
                args.append(env.real(p.name, p.dom))
        names = [p.name for p in ps]
        isarr = [env.is_array(a) for a in args]

        def elems(ix):
            return [env.at(a, ix) if q else a for a, q in zip(args, isarr)]

        if mode == "0d":
            ixs0 = [()]
        # preconditions beyond the domains
        if self.requires is not None:
            if any(isarr) and mode != "0d":
                env_assume_all(env, shape, lambda ix: land(*self.requires(*elems(ix))))
            else:
                # the elements, also for 0-d arrays
                for c in self.requires(*[env.at(a, ()) if q else a for a, q in zip(args, isarr)]):
                    env.assume(c)
        # signature: parameters are reachable by name, in this order
        env.frame()
        usekw = env.choose("call style", ["positional", "keyword"]) if mode in ("scalar", "array") else "positional"
        if self.prep:
            self.prep(env)
        if usekw == "keyword":
            # the first parameter positionally, the rest by keyword (as the library itself calls it)
            k0 = 1
            r = f(*args[:k0], **{n: a for n, a, g in list(zip(names, args, given))[k0:] if g})
        else:
            pos = []
            kws = {}
            skip = False
            for n, a, g in zip(names, args, given):
                if not g:
                    skip = True
                elif skip:
                    kws[n] = a
                else:
                    pos.append(a)
            r = f(*pos, **kws)
        env.check_frame()
        if any(isarr) and mode != "0d":
            env.check_shape("result has the shape of the argument", r, shape)
            ixs = env.idx(shape)
        else:
            ixs = [()]
        for ix in ixs:
            e = elems(ix)
            if env.is_array(r):
                v = env.at(r, ix) if not (mode == "0d" or not any(isarr)) else env.at(r, tuple(0 for _ in env.dims(r)))
                if not any(isarr) and mode != "0d" and not self.extra == "arrayresult":
                    env.fail("result of a scalar call is a scalar")
            else:
                v = r
            env.check_defined("result is defined", v)
            if self.lemmas is not None and env.symbolic:
                for lab, c in self.lemmas(v, *e):
                    env.lemma("lemma " + lab, c)
            if self.steps is not None and env.symbolic:
                self.steps(env, v, *e)
            for lab, c in self.post(v, e):
                env.check(lab, c)

    # ---------------------------------------------------------------- use at a call site (symbolic only)
    def apply(self, p, obj, a, k):
        from engine import symuse

        return symuse.apply(self, p, obj, a, k)


def lib_const(x):
    from engine.values import Sym
    from engine import terms as T
    return Sym(T.const(x))


def env_assume_all(env, shape, cond, trigger=None):
    """assume cond(ix) for every index"""
    if env.numeric:
        for ix in env.idx(shape):
            env.assume(cond(ix))
        return
    from engine import symuse

    symuse.assume_all(env, shape, cond, trigger)


class Secant:
    """contract of the secant solver, see engine.roots.secant_apply; its body is verified by the units `body`"""
    opts = {}
    spec = None
    params = ()

    def __init__(self, key, body):
        self.key, self.body = key, body
        REG[key] = self

    def mode_list(self):
        return []

    def apply(self, p, obj, a, k):
        from engine import roots

        return roots.secant_apply(p, obj, a, k)
