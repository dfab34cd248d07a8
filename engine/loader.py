"""Loads the real source text of /repo/aerokit into the symbolic interpreter.

Every run re-reads the files.  The text is executed by CPython after a mechanical AST rewriting:
  * float / complex literals become exact rationals (the decimal that is written),
  * `/` and `**` become calls that keep integer operands exact,
  * `while`/`for` statements get a hook at the loop head (loop invariants, or plain unrolling),
  * every module level function and method is wrapped by the contract dispatcher.
Nothing else is dropped or added; imports of numpy/scipy/math resolve to the trusted shims.
"""
import ast
import builtins
import functools
import importlib
import inspect
import os
import types
from fractions import Fraction as Fr

from . import terms as T
from .explore import Unsupported, cur, CUR
from .values import Sym, SymB, CX, term, scalar_ok, kind
from . import larr as L

REAL_OK = {"typing", "functools", "copy", "itertools", "operator", "warnings", "collections", "enum", "dataclasses", "abc",
           "types", "string", "re", "os", "sys", "contextlib", "__future__", "doctest", "numbers", "fractions", "time", "logging", "textwrap", "collections.abc"}

_CODE = {}
LITS = {}


def lit(s):
    v = LITS.get(s)
    if v is None:
        v = LITS[s] = Sym(T.const(Fr(s)))
    return v


def clit(s):
    return CX(T.ZERO, T.const(Fr(s)))


def _isint(x):
    return type(x) is int or type(x) is bool


def div(a, b):
    if _isint(a) and _isint(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Sym(T.const(Fr(int(a), int(b))))
    return a / b


def pow_(a, b):
    if _isint(a) and _isint(b):
        if b >= 0:
            return a ** b
        if a == 0:
            raise ZeroDivisionError("0 cannot be raised to a negative power")
        return Sym(T.const(Fr(a) ** b))
    return a ** b


def idiv(a, b):
    if isinstance(a, L.LArr):
        return a.__itruediv__(b)
    return div(a, b)


def ipow(a, b):
    if isinstance(a, L.LArr):
        return a.__ipow__(b)
    return pow_(a, b)


def _stored(body):
    """names assigned / mutated by a loop body: (rebound, mutated, attribute stores?)"""
    reb, mut, attr = [], [], []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in reb:
                reb.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, ast.Subscript):
            base(t.value)
        elif isinstance(t, ast.Attribute):
            attr.append(ast.unparse(t))

    def base(v):
        while isinstance(v, ast.Subscript):
            v = v.value
        if isinstance(v, ast.Name):
            if v.id not in mut:
                mut.append(v.id)
        else:
            attr.append(ast.unparse(v))

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "add", "sort", "reverse", "fill", "setdefault"):
                base(n.func.value)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            if n.name not in reb:
                reb.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    for s in body:
        V().visit(s)
    return reb, mut, attr


def local_names(f):
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]}
    no = set()
    todo = list(f.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            no.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return out - no


class Rewriter(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []
        self.nloop = [0]
        self.cnt = 0
        self.infunc = 0
        self.locals = set()

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, f, *args):
        return ast.Call(func=self._name(f), args=list(args), keywords=[])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            if n.value in (float("inf"),) or n.value != n.value:
                return n
            return ast.copy_location(self._call("__lit__", ast.Constant(repr(n.value))), n)
        if isinstance(n.value, complex):
            return ast.copy_location(self._call("__clit__", ast.Constant(repr(n.value.imag))), n)
        return n

    def visit_JoinedStr(self, n):
        # only the interpolated expressions matter
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(self._call("__div__", n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(self._call("__pow__", n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)) and isinstance(n.target, (ast.Name, ast.Attribute)):
            f = "__idiv__" if isinstance(n.op, ast.Div) else "__ipow__"
            import copy
            ld = copy.deepcopy(n.target)
            ld.ctx = ast.Load()
            return ast.copy_location(ast.Assign(targets=[n.target], value=self._call(f, ld, n.value)), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        old, self.nloop = self.nloop, [0] if self.infunc == 0 else self.nloop
        self.infunc += 1
        n.returns = None
        oldl, self.locals = self.locals, local_names(n)
        n.args = self.visit(n.args)
        n.body = self._body(n.body)
        self.locals = oldl
        self.infunc -= 1
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        if self.infunc == 0:
            q = self.mod + ":" + ".".join(self.stack)
            n.decorator_list.insert(0, ast.copy_location(self._call("__contract__", ast.Constant(q)), n))
        self.stack.pop()
        self.nloop = old
        return n

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        o, self.infunc = self.infunc, 0
        self.generic_visit(n)
        self.infunc = o
        self.stack.pop()
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def _loop(self, n, isfor):
        if not self.infunc or n.orelse:
            self.generic_visit(n)
            return n
        lid = "%s:%s#%d" % (self.mod, ".".join(self.stack), self.nloop[0])
        self.nloop[0] += 1
        self.cnt += 1
        lc = "__lc%d" % self.cnt
        reb, mut, attr = _stored(n.body)
        if isfor:
            r2, m2, a2 = _stored([ast.Assign(targets=[n.target], value=ast.Constant(None))])
            reb = reb + [x for x in r2 if x not in reb]
            mut += m2
            attr += a2
        reb = [x for x in reb if not x.startswith("__lc")]
        iter_ = self.visit(n.iter) if isfor else ast.Constant(None)
        test = None if isfor else self.visit(n.test)
        body = self._body(n.body)
        src = "%s = __loop__(%r, %r, %r, %r, None, %r)\n" % (lc, lid, reb, mut, attr, isfor)
        src += "while True:\n    %s.head(locals())\n" % lc
        for v in reb + [x for x in mut if x in self.locals and x not in reb]:
            src += "    if %s.has(%r): %s = %s.get(%r)\n" % (lc, v, v, lc, v)
        if isfor:
            src += "    if not %s.more(): break\n" % lc
            src += "    __TARGET__ = %s.next()\n" % lc
        else:
            src += "    if not __TEST__: break\n"
        t = ast.parse(src).body
        t[0].value.args[4] = iter_
        w = t[1]
        if isfor:
            w.body[-1].targets = [n.target]
        else:
            w.body[-1].test = ast.UnaryOp(op=ast.Not(), operand=test)
        w.body += body
        for s in t:
            ast.copy_location(s, n)
        return t

    def visit_While(self, n):
        return self._loop(n, False)

    def visit_For(self, n):
        return self._loop(n, True)


def code_of(path, modname):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(k)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewriter(modname).visit(tree)
        ast.fix_missing_locations(tree)
        c = _CODE[k] = compile(tree, path, "exec")
    return c


class Dummy:
    """stand-in for plotting libraries"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()


class World:
    """one fresh execution of the package's modules"""

    def __init__(self, root="/repo", registry=None):
        self.root = root
        self.modules = {}
        self.registry = registry
        from . import shims

        self.shims = shims.make(self)
        self.builtins = shims.make_builtins(self)
        self.read = []

    # -- import system
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
            pkg = True
        else:
            path = base + ".py"
            pkg = False
        if not os.path.exists(path):
            if pkg:
                path = None
            else:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
        if name.startswith("aerokit.aero.plot"):
            m = Dummy()
            self.modules[name] = m
            return m
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [base]
        self.modules[name] = m
        d = m.__dict__
        d["__builtins__"] = self.builtins
        d["__lit__"], d["__clit__"], d["__div__"], d["__pow__"] = lit, clit, div, pow_
        d["__idiv__"], d["__ipow__"] = idiv, ipow
        d["__loop__"] = Loop
        d["__contract__"] = self.contract
        m.__pristine__ = None
        try:
            if path:
                exec(code_of(path, name), d)
        except BaseException:
            del self.modules[name]
            raise
        self.read.append(path)
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"]
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            name = pk + "." + name if name else pk
        top = name.split(".")[0]
        if top == "aerokit":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError as e:
                            if e.name != name + "." + f:
                                raise
                return m
            return self.modules[top]
        if name in self.shims:
            m = self.shims[name]
            return m if fromlist else self.shims[top]
        if top in ("matplotlib", "IPython", "seaborn"):
            return Dummy()
        if top in REAL_OK:
            m = importlib.import_module(name)
            if name == "functools":
                m = self.shims["functools"] if "functools" in self.shims else m
            return m if fromlist else importlib.import_module(top)
        if top in self.shims or top in ("numpy", "scipy"):
            raise Unsupported("module %s has no trusted contract" % name)
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    # -- contract dispatcher
    def contract(self, key):
        w = self

        def deco(obj):
            if isinstance(obj, property):
                return property(deco(obj.fget), obj.fset, obj.fdel, obj.__doc__)
            if isinstance(obj, (staticmethod, classmethod)) or isinstance(obj, type) or not callable(obj):
                return obj

            def wrapper(*a, **k):
                return w.call(key, obj, a, k)

            try:
                functools.update_wrapper(wrapper, obj)
            except Exception:
                pass
            wrapper.__vkey__ = key
            wrapper.__vobj__ = obj
            return wrapper

        return deco

    def call(self, key, obj, a, k):
        p = CUR[0]
        if p is None:
            return obj(*a, **k)
        c = self.registry.get(key) if self.registry is not None else None
        if c is not None and p.state.get("target") == key and not p.state.get("in_target"):
            p.state["in_target"] = True
            c = None
            tgt = True
        else:
            tgt = False
        if c is not None and key not in p.state.get("inline", ()):
            p.state.setdefault("used", set()).add(key)
            return c.apply(p, obj, a, k)
        p.state.setdefault("inlined", set()).add(key)
        p.callstack.append(key)
        try:
            if len(p.callstack) > 60:
                raise Unsupported("recursion without contract: %s" % key)
            return obj(*a, **k)
        finally:
            p.callstack.pop()
            if tgt:
                p.state["in_target"] = False


class Naming:
    """loop controller of an exhaustively unrolled loop: the values of the variables at each loop head get a name, so that
    the terms do not grow from one iteration to the next.  defs: name -> value (not assumed, used by the specification)"""
    naming = True

    def __init__(self, limit=400):
        self.limit = limit
        self.defs = {}
        self.kept = set()

    def name(self, p, loop, vals):
        if loop.n > self.limit:
            raise Unsupported("loop %s unrolled more than %d times" % (loop.lid, self.limit))
        out = {}
        done = {}
        if loop.n == 1:
            self.kept = {x.e.id for x in vals.values() if isinstance(x, Sym)}
            return out
        for v, x in vals.items():
            if isinstance(x, Sym) and x.k != "I" and x.e.id not in self.kept and x.e.op not in ("var", "const"):
                w = done.get(x.e.id)
                if w is None:
                    w = done[x.e.id] = T.var(T.fresh_name("at"))
                    self.defs[w.id] = (w, x.e)
                out[v] = Sym(w)
        return out

    def expand(self, e, depth=1):
        """the term with the names replaced by their definitions, depth times"""
        for _ in range(depth):
            e = T.subst(e, {w: t for w, t in self.defs.values()})
        return e


class SymList:
    """list of unknown length built by a loop: the known facts are about its first and last elements"""

    def __init__(self, first, last, observer, tag):
        self.first, self.last, self.observer, self.tag = first, last, observer, tag
        self.new = []   # elements appended since the loop head

    def append(self, v):
        if self.observer is not None:
            self.observer(self, v)
        self.last = v
        self.new.append(v)

    def __getitem__(self, i):
        if isinstance(i, Sym):
            i = i.__index__()
        if i == -1:
            return self.last
        if i == 0:
            return self.first
        raise Unsupported("element of a list of unknown length")

    def __len__(self):
        raise Unsupported("length of a list of unknown length")


UNB = object()


class Loop:
    """loop controller: invariant based when the unit gives a loop contract, plain unrolling otherwise"""

    def __init__(self, lid, rebound, mutated, attrs, it, isfor):
        self.lid, self.rebound, self.mutated, self.attrs, self.isfor = lid, rebound, mutated, attrs, isfor
        self.iter0 = it
        p = CUR[0]
        lcs = p.state.get("loops") if p is not None else None
        self.contract = None
        if lcs is not None:
            self.contract = lcs(lid, self) if callable(lcs) else lcs.get(lid)
        self.n = 0
        self.hav = None
        self.it = None
        self.bound = None
        self.k = None
        if isfor:
            if self.contract is not None and isinstance(it, (range, SymRange)):
                if isinstance(it, range):
                    if it.step != 1:
                        raise Unsupported("loop contract over a stepped range")
                    it = SymRange(it.start, it.stop)
                self.bound = it
                self.k = it.lo
            else:
                if isinstance(it, SymRange):
                    it = it.concrete()
                self.contract = None
                self.it = iter(it)
                self.nxt = UNB

    def head(self, loc):
        self.n += 1
        if self.contract is None:
            if not self.isfor and self.n > 400:
                raise Unsupported("loop %s unrolled more than 400 times without an invariant" % self.lid)
            self.hav = None
            return
        p = cur()
        if getattr(self.contract, "naming", False):
            self.hav = self.contract.name(p, self, {v: loc[v] for v in self.rebound if v in loc})
            return
        if self.attrs:
            raise Unsupported("loop invariant with attribute stores")
        vals = {v: loc[v] for v in self.rebound + self.mutated if v in loc}
        if self.k is not None:
            vals["#k"] = self.k if not isinstance(self.k, int) else Sym(T.const(self.k), "I")
        if self.n == 1:
            self.hav = self.contract.enter(p, self, vals)
            if self.k is not None:
                self.k = self.hav["#k"]
        else:
            self.contract.back(p, self, vals)
            from .explore import PathEnd

            raise PathEnd()

    def has(self, v):
        return self.hav is not None and v in self.hav and (self.n == 1 or getattr(self.contract, "naming", False))

    def get(self, v):
        return self.hav[v]

    def more(self):
        if self.bound is not None:
            return bool(self.k < self.bound.hi)
        try:
            self.nxt = next(self.it)
            return True
        except StopIteration:
            return False

    def next(self):
        if self.bound is not None:
            k = self.k
            self.k = k + 1
            return k
        return self.nxt


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def concrete(self):
        return range(_idx(self.lo), _idx(self.hi))

    def __iter__(self):
        return iter(self.concrete())

    def __len__(self):
        return len(self.concrete())


def _idx(x):
    return x if isinstance(x, int) else x.__index__()
