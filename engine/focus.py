"""Preparation of the hypotheses of an obligation: conditions on integers are decided with a linear integer solver, instances that become trivial are dropped.
Every step keeps the hypotheses equivalent or drops some of them, which is sound."""
import z3
from . import terms as T


class IntCtx:
    def __init__(self, lits, budget=1500):
        self.s = z3.Solver()
        self.s.set("timeout", 200)
        self.v = {}
        self.memo = {}
        self.n = 0
        self.budget = budget
        for l in lits:
            e = self.lit(l)
            if e is not None:
                self.s.add(e)

    def term(self, e):
        if e.op == "const":
            return z3.IntVal(int(e.val)) if e.val.denominator == 1 else None
        if e.op == "var":
            if not T.is_int(e):
                return None
            r = self.v.get(e.id)
            if r is None:
                r = self.v[e.id] = z3.Int("i%d" % e.id)
            return r
        if e.op == "add":
            xs = [self.term(a) for a in e.args]
            return None if any(x is None for x in xs) else z3.Sum(xs)
        if e.op == "mul":
            c, o = 1, None
            for a in e.args:
                if a.op == "const":
                    if a.val.denominator != 1:
                        return None
                    c *= int(a.val)
                elif o is None:
                    o = self.term(a)
                    if o is None:
                        return None
                else:
                    return None
            return z3.IntVal(c) if o is None else c * o
        return None

    def lit(self, l):
        if l.op == "not":
            e = self.lit(l.args[0])
            return None if e is None else z3.Not(e)
        if l.op in ("and", "or"):
            xs = [self.lit(a) for a in l.args]
            return None if any(x is None for x in xs) else (z3.And if l.op == "and" else z3.Or)(xs)
        if l.op in ("lt", "le", "eq"):
            a, b = self.term(l.args[0]), self.term(l.args[1])
            if a is None or b is None:
                return None
            return a < b if l.op == "lt" else a <= b if l.op == "le" else a == b
        return None

    def decide(self, l):
        r = self.memo.get(l.id, 0)
        if r != 0:
            return r
        r = None
        e = self.lit(l)
        if e is not None and self.n < self.budget:
            self.n += 2
            if self.s.check(z3.Not(e)) == z3.unsat:
                r = True
            elif self.s.check(e) == z3.unsat:
                r = False
        self.memo[l.id] = r
        return r

    def simp(self, e, memo):
        """e with the integer conditions inside decided"""
        r = memo.get(e.id)
        if r is not None:
            return r
        r = e
        if e.op in ("lt", "le", "eq"):
            d = self.decide(e)
            if d is not None:
                r = T.TRUE if d else T.FALSE
        if r is e and e.args:
            if e.op == "ite":
                c = self.simp(e.args[0], memo)
                if c is T.TRUE:
                    r = self.simp(e.args[1], memo)
                elif c is T.FALSE:
                    r = self.simp(e.args[2], memo)
                else:
                    r = T.ite(c, self.simp(e.args[1], memo), self.simp(e.args[2], memo))
            else:
                args = tuple(self.simp(a, memo) for a in e.args)
                if any(a is not b for a, b in zip(args, e.args)):
                    if e.op == "and":
                        r = T.and_(*args)
                    elif e.op == "or":
                        r = T.or_(*args)
                    elif e.op == "not":
                        r = T.not_(args[0])
                    else:
                        r = T.rebuild(e, args)
        memo[e.id] = r
        return r


def flat(hs):
    out, seen = [], set()
    todo = list(hs)[::-1]
    while todo:
        h = todo.pop()
        if h.op == "and":
            todo += list(h.args)[::-1]
        elif h is not T.TRUE and h.id not in seen:
            seen.add(h.id)
            out.append(h)
    return out


def unint(e):
    """integer index arguments of uninterpreted functions in sum normal form are left as they are"""
    return e


def prepare(hyps, inst, goal):
    """(hypotheses, goal) with the integer conditions decided; inst: instances of quantified facts"""
    ctx = [h for h in flat(hyps)]
    neg = [T.not_(d) for d in (goal.args if goal.op == "or" else ())]
    lits = [h for h in ctx + flat(neg) if h.op in ("lt", "le", "eq", "not", "or")]
    ic = IntCtx(lits)
    if not ic.v:
        return hyps + inst, goal
    memo = {}
    out = []
    seen = set(h.id for h in ctx)
    for h in flat(inst):
        h = ic.simp(h, memo)
        for x in flat([h]):
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    return hyps + out, goal
