"""concrete environment of the scenarios: the real package under the real interpreter"""
import importlib
import io
import contextlib
import math
import random

import numpy as np

from . import lib


class Reject(Exception):
    pass


class Failure(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class NumEnv:
    numeric = True
    symbolic = False

    def __init__(self, rng, preset=None, pool=None, lits=(), choices=None):
        self.rng = rng
        self.preset = dict(preset or {})
        self.pool = pool if pool is not None else {}
        self.lits = lits
        self.values = {}
        self.log = []
        self.arrays = []
        self.choices = dict(choices or {})
        self.out = io.StringIO()
        self.nchecks = 0

    # ---- inputs
    def _sample(self, name, dom):
        r = self.rng
        lo, hi = dom.lo, dom.hi
        s = dom.s or (lo if lo is not None else -5.0, hi if hi is not None else 5.0)
        for _ in range(60):
            u = r.random()
            if u < 0.18 and dom.special:
                x = r.choice(dom.special)
            elif u < 0.30 and self.pool.get(name):
                x = r.choice(self.pool[name])
            elif u < 0.36 and self.lits:
                x = r.choice(self.lits)
                if r.random() < 0.4:
                    x = x * (1 + r.choice((-1, 1)) * 10 ** r.uniform(-8, -1))
            elif u < 0.42:
                # close to the ends of the domain
                e = lo if (lo is not None and r.random() < 0.6) or hi is None else hi
                if e is None:
                    x = r.uniform(*s)
                else:
                    d = 10 ** r.uniform(-4, 0) * (s[1] - s[0]) * 0.1
                    x = e + d if e is lo else e - d
            elif u < 0.50:
                x = float(round(r.uniform(*s)))
            elif u < 0.58:
                x = round(r.uniform(*s), r.choice((1, 2)))
            elif u < 0.68 and s[0] > 0:
                x = math.exp(r.uniform(math.log(s[0]), math.log(s[1])))
            elif u < 0.72 and s[0] > 0:
                x = math.exp(r.uniform(math.log(s[0]) - 1.5, math.log(s[1]) + 1.5)) if hi is None else r.uniform(*s)
            else:
                x = r.uniform(*s)
            x = float(x)
            if dom.kind == "I":
                x = int(round(x))
            if dom.contains(x) and s[0] - (0.03 * (s[1] - s[0]) if not (s[0] > 0 and lo == 0) else 0.78 * s[0]) <= x <= (s[1] + 0.03 * (s[1] - s[0]) if hi is not None else max(s[1] * 4.6, s[1])):
                return x
        raise Reject()

    def real(self, name, dom=None, **kw):
        dom = dom or lib.Dom(**kw)
        if name in self.preset:
            x = self.preset[name]
            x = int(round(x)) if dom.kind == "I" else float(x)
            if not dom.contains(x):
                raise Reject()
        else:
            x = self._sample(name, dom)
        self.values[name] = x
        p = self.pool.setdefault(name, [])
        if len(p) < 40:
            p.append(x)
        else:
            p[self.rng.randrange(40)] = x
        return x

    def int(self, name, lo=None, hi=None, s=None):
        if name in self.preset:
            x = int(round(self.preset[name]))
            if (lo is not None and x < lo) or (hi is not None and x > hi) or abs(x) > 60:
                raise Reject()
        else:
            a = lo if lo is not None else 0
            b = hi if hi is not None else a + 8
            if s:
                a, b = max(a, s[0]), min(b, s[1])
            x = self.rng.randint(int(a), int(b))
        self.values[name] = x
        return x

    def size(self, name="n", lo=1):
        return self.int(name, lo, lo + 5)

    def arr(self, name, shape, dom=None, dt="f", **kw):
        dom = dom or lib.Dom(**kw)
        if not isinstance(shape, tuple):
            shape = (shape,)
        if name in self.preset:
            a = np.array(self.preset[name])
            if a.shape != tuple(shape):
                raise Reject()
        else:
            n = int(np.prod(shape)) if shape else 1
            v = [self._sample(name + "[]", dom) for _ in range(n)]
            if dt == "i":
                v = [int(round(x)) for x in v]
                v = [x if dom.contains(x) else None for x in v]
                if any(x is None for x in v):
                    raise Reject()
            if dt == "c":
                v = [complex(x, self._sample(name + "[]", dom)) for x in v]
            if dt == "b":
                v = [x > 0 for x in v]
            a = np.array(v, dtype={"f": float, "i": int, "c": complex, "b": bool}[dt]).reshape(shape)
        self.values[name] = a.tolist() if dt != "c" else [str(z) for z in a.ravel()]
        self.arrays.append((name, a, a.copy()))
        return a

    def func(self, name, arity=1, out="R"):
        c = [self.rng.uniform(-1, 1) for _ in range(6)]
        self.values[name] = "c0+c1*x+... coefficients %r" % (c,)

        def f(*xs):
            r = c[0]
            for k, x in enumerate(xs):
                r = r + c[1 + k] * x + c[3 + k] * 0.3 * np.sin(x + c[5])
            return r

        return f

    # ---- strings and dictionaries of strings
    def string(self, name, pool=()):
        x = self.preset[name] if name in self.preset else self.rng.choice(list(pool) + ["zz_" + name, "other"])
        self.values[name] = x
        return x

    def arbitrary_dicts(self, obj, history=None):
        seed = self.preset["history seed"] if "history seed" in self.preset else self.rng.randrange(10 ** 9)
        self.values["history seed"] = seed
        history(random.Random(seed))

    def lift_dicts(self, obj):
        pass

    def separate(self, label, obj, module):
        pass

    # ---- logic
    def assume(self, c):
        if not bool(c):
            raise Reject()

    def check(self, label, c, tol=None):
        self.nchecks += 1
        ok = bool(c)
        if not ok:
            raise Failure(label, repr(c))

    lemma = check

    def check_defined(self, label, x):
        self.nchecks += 1
        try:
            v = complex(x)
        except TypeError:
            raise Failure(label, "not a scalar: %r" % (x,))
        if math.isnan(v.real) or math.isnan(v.imag) or math.isinf(v.real) or math.isinf(v.imag):
            raise Failure(label, "not a finite number: %r" % (x,))

    def deriv(self, f, x):
        h = 1e-4 * max(abs(x), 1e-2)
        try:
            a = (f(x + h) - f(x - h)) / (2 * h)
            b = (f(x + 2 * h) - f(x - 2 * h)) / (4 * h)
        except Exception:
            raise Reject()
        d = (4 * a - b) / 3
        if not abs(d) < 1e300 or abs(a - b) > 1e-5 * (abs(a) + 1e-3):
            raise Reject()
        return d

    def assume_all(self, shape, cond):
        for ix in self.idx(shape):
            self.assume(cond(ix))

    def choose(self, label, options):
        options = list(options)
        if label in self.choices:
            k = self.choices[label]
        else:
            k = self.rng.randrange(len(options))
        self.values["choice:" + label] = str(options[k])
        self.log.append((label, k))
        return options[k]

    def fail(self, label):
        raise Failure(label, "")

    def decide(self, c):
        return bool(c)

    def split(self, *vals):
        return list(vals)

    # ---- code
    def mod(self, name):
        return importlib.import_module(name)

    def fn(self, key):
        m, q = key.split(":")
        o = self.mod(m)
        for a in q.split("."):
            o = getattr(o, a)
        return o

    raw_fn = fn

    # ---- arrays
    def idx(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        for ix in np.ndindex(*[int(d) for d in shape]):
            yield ix

    def at(self, a, ix):
        if np.ndim(a) != len(ix):
            raise Failure("shape", "array of dimension %d where %d was expected" % (np.ndim(a), len(ix)))
        x = a[tuple(ix)]
        return x.item() if hasattr(x, "item") else x

    def at_b(self, a, ix):
        return self.at(a, ix) if isinstance(a, np.ndarray) and a.ndim else (a.item() if isinstance(a, np.ndarray) else a)

    def is_array(self, a):
        return isinstance(a, np.ndarray)

    def check_shape(self, label, a, shape):
        if not isinstance(shape, tuple):
            shape = (shape,)
        self.nchecks += 1
        if not isinstance(a, np.ndarray) or a.shape != tuple(int(x) for x in shape):
            raise Failure(label, "shape %r, expected %r" % (getattr(a, "shape", type(a)), shape))
        return True

    def dims(self, a):
        return a.shape

    def asarray(self, xs):
        return np.array(list(xs))

    def frame(self):
        self.arrays = [(n, a, a.copy()) for n, a, _ in self.arrays]

    def check_frame(self, label="frame"):
        for n, a, a0 in self.arrays:
            self.nchecks += 1
            if a.shape != a0.shape or not np.array_equal(a, a0):
                raise Failure("%s: input array %s is not modified" % (label, n), "%r -> %r" % (a0.tolist(), a.tolist()))

    def printed(self):
        return [l for l in self.out.getvalue().splitlines() if l.strip()]

    def printed_numbers(self):
        import re
        r = []
        for m in re.findall(r"(?<![\w.])(-?\d+\.?\d*(?:[eE][-+]?\d+)?)", "\n".join(self.printed())):
            d = m.lower().split("e")[0]
            n = len(d.split(".")[1]) if "." in d else 0
            e = int(m.lower().split("e")[1]) if "e" in m.lower() else 0
            r.append((float(m), 0.5001 * 10.0 ** (e - n)))
        return r
