"""Path exploration (symbolic execution by re-execution with decision prefixes) and obligations."""
import contextlib
import time
import traceback

from . import terms as T
from . import prover


class Unsupported(Exception):
    """a construct outside of the verifier's reach was met (never a proof)"""


class PathEnd(BaseException):
    """the path ends here without further obligations (loop back edge, infeasible path)"""


class Obligation:
    __slots__ = ("name", "hyps", "goal", "kind", "path", "foralls", "result", "env")

    def __init__(self, name, hyps, goal, kind, path, foralls, env=None):
        self.name, self.hyps, self.goal, self.kind, self.path, self.foralls = name, hyps, goal, kind, path, foralls
        self.result = None
        self.env = env


CUR = [None]


def cur():
    if CUR[0] is None:
        raise Unsupported("symbolic value used outside of a verification unit")
    return CUR[0]


class Path:
    """one execution path"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.foralls = []
        self.ctx = prover.Ctx()
        self.obls = []
        self.events = []
        self.callstack = []
        self.state = {}
        self.depth = 0

    # -- facts
    def assume(self, c):
        from .values import term_bool

        c = term_bool(c)
        for a in prover.flatten([c]):
            if a not in self.pc:
                self.pc.append(a)
                if not self.state.get("lazy"):
                    self.ctx.add(a)

    @contextlib.contextmanager
    def scoped(self, cond):
        """facts and obligations under the extra hypothesis cond (e.g. the range of a generic index)"""
        pc, ctx = self.pc, self.ctx
        self.pc, self.ctx = list(pc), prover.Ctx(pc)
        try:
            self.assume(cond)
            for h in instantiate(self.foralls, [cond], [cond]):
                self.assume(h)
            yield
        finally:
            self.pc, self.ctx = pc, ctx

    def assume_forall(self, fact):
        """fact: callable(index terms tuple) -> E (may return TRUE); with arity"""
        self.foralls.append(fact)

    def oblige(self, name, goal, kind="post"):
        from .values import term_bool

        goal = term_bool(goal)
        if goal is T.TRUE:
            self.obls.append(Obligation(name, (), goal, kind, tuple(self.decisions), ()))
            return
        self.obls.append(Obligation(name, tuple(self.pc), goal, kind, tuple(self.decisions), tuple(self.foralls)))

    def decide1(self, c):
        if self.state.get("lazy"):
            # fewer hypotheses, more paths
            fv = T.free_vars(c)
            return prover.Ctx([h for h in self.pc if T.free_vars(h) <= fv]).decide(c)
        return self.ctx.decide(c)

    def decide(self, c):
        key = None
        if not self.foralls:
            key = (tuple(h.id for h in self.pc), c.id)
            if key in self.ex.memo:
                return self.ex.memo[key]
        d = self.decide1(c)
        if key is not None:
            self.ex.memo[key] = d
        if d is None and self.foralls:
            # instantiate quantified facts at the integer variables of c
            for h in instantiate(self.foralls, [c] + self.pc, [c]):
                self.ctx.add(h)
            d = self.ctx.decide(c)
        return d

    def branch(self, c):
        """c: boolean term -> Python bool (forking)"""
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        df = prover.defn(c)
        if df is not T.TRUE and self.decide1(df) is not True:
            self.oblige("branch condition is defined: %s" % T.show(c, 5)[:120], df, "definedness")
            self.assume(df)
        d = self.decide(c)
        if d is not None:
            return d
        k = len(self.decisions)
        if k < len(self.prefix):
            b = self.prefix[k]
        else:
            if k >= self.ex.maxdepth:
                raise Unsupported("more than %d symbolic decisions on one path (loop without invariant?)" % self.ex.maxdepth)
            b = True
            self.ex.push(self.decisions + [False])
        self.decisions.append(b)
        self.assume(c if b else T.not_(c))
        return b

    def choose(self, n, label=""):
        """non-deterministic choice 0..n-1 (all explored)"""
        for i in range(n - 1):
            k = len(self.decisions)
            if k < len(self.prefix):
                b = self.prefix[k]
            else:
                b = True
                self.ex.push(self.decisions + [False])
            self.decisions.append(b)
            if b:
                return i
        return n - 1


def _ivars(exprs):
    c = set()
    for e in exprs:
        for v in T.free_vars(e):
            if v.op == "var" and v.val[1] == "I":
                c.add(v)
    return c


def instantiate(foralls, exprs, focus=None):
    """instances of the quantified facts at the integer variables of exprs and at the compound indices of focus
    (facts about pairs: only at the indices of focus)"""
    cands = _ivars(exprs)
    fc = cands
    if focus is not None:
        cmp_ = set()
        for e in focus:
            cmp_ |= T.int_args(e)
        cmp_ = {c for c in cmp_ if not any(v.val[0].startswith("\u03ba") for v in T.free_vars(c))}
        cands |= cmp_
        fc = _ivars(focus) | cmp_ or cands
    out = []
    import itertools

    key = lambda v: v.id
    for f in foralls:
        ar = getattr(f, "arity", 1)
        if ar == "uf":
            out += f.instances(exprs + out if isinstance(exprs, list) else list(exprs) + out)
            continue
        tr = getattr(f, "trigger", None)
        if tr is not None and not any(tr in T.ufs(e) for e in (focus if focus is not None else exprs)):
            continue
        cs = sorted(cands if ar == 1 else fc, key=key) + list(getattr(f, "extra", ()))
        if len(cs) ** ar > 200:
            cs = cs[:200 if ar == 1 else 14]
        for idx in itertools.product(cs, repeat=ar):
            h = f(idx)
            if h is not None and h is not T.TRUE:
                out.append(h)
    return out


class Explorer:
    def __init__(self, maxpaths=400, maxdepth=60, tlimit=400):
        self.memo = {}
        self.maxpaths, self.maxdepth, self.tlimit = maxpaths, maxdepth, tlimit
        self.todo = []
        self.paths = []
        self.errors = []

    def push(self, prefix):
        self.todo.append(prefix)

    def run(self, fn):
        """fn(path) executed for every path; returns the list of obligations"""
        self.todo = [[]]
        obls = []
        n = 0
        t0 = time.time()
        reach = 0
        while self.todo:
            prefix = self.todo.pop()
            n += 1
            if n > self.maxpaths or time.time() - t0 > self.tlimit:
                self.errors.append(("unsupported", "path limit reached (%d paths)" % n, ""))
                break
            p = Path(self, prefix)
            T.reset_fresh()
            CUR[0] = p
            try:
                fn(p)
                reach += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self._err("unsupported", str(e), p)
            except prover.N.Unsupported as e:
                self._err("unsupported", "normaliser: %s" % e, p)
            except prover.P.TooBig as e:
                self._err("unsupported", "normaliser: %s" % e, p)
            except RecursionError as e:
                self._err("unsupported", "recursion limit", p)
            except Exception as e:
                # an exception of the code under verification on a feasible path
                self._err("exception", "%s: %s" % (type(e).__name__, e), p, traceback.format_exc(limit=-12))
            finally:
                CUR[0] = None
            obls += p.obls
            self.paths.append(p)
        self.reached = reach
        return obls

    def _err(self, kind, msg, p, tb=""):
        # the path may be infeasible
        feas = None
        try:
            feas = p.ctx.satisfiable(2000)
        except Exception:
            pass
        if feas is False:
            return
        model = getattr(p.ctx, "last_model", None)
        self.errors.append((kind, msg, tb, model, tuple(p.pc)))
