"""Arbitrary strings and dictionaries with arbitrary contents (keys and values are strings).

A string is an integer code (different literals have different codes; nothing else is known about them), so a property proved
for arbitrary strings holds for every string.  A dictionary is a pair of uninterpreted functions (presence, value) followed by
a finite list of updates."""
from . import terms as T
from .explore import cur, Unsupported
from .values import SymB, Sym

CODES = {}


def code(s):
    if s not in CODES:
        CODES[s] = len(CODES) + 1000
    return T.const(CODES[s])


def sterm(x):
    if isinstance(x, SStr):
        return x.e
    if isinstance(x, str):
        return code(x)
    raise TypeError("not a string: %s" % type(x).__name__)


class SStr:
    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, (SStr, str)):
            return SymB(T.eq(self.e, sterm(o)))
        return False

    def __ne__(self, o):
        if isinstance(o, (SStr, str)):
            return SymB(T.not_(T.eq(self.e, sterm(o))))
        return True

    def __hash__(self):
        raise Unsupported("arbitrary string used as a key of an ordinary dictionary")

    def _m(self, name, *a):
        return SStr(T.uf("str:" + name, self.e, *[sterm(x) for x in a]))

    def lower(self):
        return self._m("lower")

    def upper(self):
        return self._m("upper")

    def strip(self):
        return self._m("strip")

    def __add__(self, o):
        return self._m("cat", o)

    def __radd__(self, o):
        return SStr(T.uf("str:cat", sterm(o), self.e))

    def __str__(self):
        return "<arbitrary string>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<arbitrary string>"

    def __bool__(self):
        return bool(SymB(T.not_(T.eq(self.e, code("")))))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymDict:
    """dictionary of strings: arbitrary base (or empty), then updates"""

    def __init__(self, name=None, items=(), ups=None):
        self.name = name
        self.ups = list(ups) if ups is not None else [(k, v) for k, v in items]
        self.ver = 0

    def snapshot(self):
        return SymDict(self.name, ups=self.ups)

    def _has(self, k):
        k = sterm(k)
        h = T.FALSE if self.name is None else T.eq(T.uf("dict:has:" + self.name, k), T.ONE)
        for q, v in self.ups:
            p = T.FALSE if v is None else T.TRUE
            c = T.eq(k, sterm(q))
            h = T.or_(T.and_(c, p), T.and_(T.not_(c), h))
        return h

    def __contains__(self, k):
        if not isinstance(k, (str, SStr)):
            return False
        return cur().branch(self._has(k))

    def _value(self, k):
        """value at a key that is present; forks on the updates"""
        for q, v in reversed(self.ups):
            if cur().branch(T.eq(sterm(k), sterm(q))):
                return v
        if self.name is None:
            raise Unsupported("value of an absent key")
        return SStr(T.uf("dict:val:" + self.name, sterm(k)))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self._value(k)

    def get(self, k, default=None):
        return self._value(k) if k in self else default

    def __setitem__(self, k, v):
        if not isinstance(k, (str, SStr)):
            raise TypeError("key %s" % type(k).__name__)
        self.ups.append((k, v))
        self.ver += 1

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self.ups.append((k, None))
        self.ver += 1

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._value(k)
        del self[k]
        return v

    def setdefault(self, k, d=None):
        if k in self:
            return self._value(k)
        self[k] = d
        return d

    def update(self, o=(), **kw):
        for k, v in list(o.items() if hasattr(o, "items") else o) + list(kw.items()):
            self[k] = v

    def clear(self):
        self.name, self.ups = None, []
        self.ver += 1

    def copy(self):
        return SymDict(self.name, ups=self.ups)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def keys(self):
        return SymKeys(self)

    def __iter__(self):
        """one generic element (or none): the effects of one iteration have to be none, see SymEnv.unchanged"""
        p = cur()
        if p.choose(2, "element of an arbitrary dictionary") == 0:
            k = SStr(T.var(T.fresh_name("key"), "I"))
            p.assume(self._has(k))
            p.state["generic_iteration"] = True
            yield k

    def items(self):
        for k in self:
            yield k, self._value(k)

    def values(self):
        for k in self:
            yield self._value(k)

    def __len__(self):
        raise Unsupported("size of an arbitrary dictionary")

    def __bool__(self):
        raise Unsupported("emptiness of an arbitrary dictionary")

    def __eq__(self, o):
        return self is o

    __hash__ = None


class SymKeys:
    def __init__(self, d):
        self.d = d

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)


def lift(obj, arbitrary, seen=None, depth=0):
    """the dictionaries of strings of a library object become arbitrary (or keep their contents)"""
    n = 0
    for k, v in list(vars(obj).items()):
        if isinstance(v, (dict, SymDict)):
            if isinstance(v, dict) and not all(isinstance(a, str) and isinstance(b, str) for a, b in v.items()):
                raise Unsupported("dictionary of other things than strings")
            if arbitrary:
                setattr(obj, k, SymDict(T.fresh_name("d")))
            elif isinstance(v, dict):
                setattr(obj, k, SymDict(None, v.items()))
            n += 1
    return n


def containers(o, seen=None, depth=0):
    """mutable containers and library objects reachable from o"""
    seen = {} if seen is None else seen
    if id(o) in seen or depth > 8:
        return seen
    if isinstance(o, (dict, list, set, SymDict)):
        seen[id(o)] = o
        it = list(o.values()) if isinstance(o, dict) else [] if isinstance(o, SymDict) else list(o)
        for x in it:
            containers(x, seen, depth + 1)
    elif isinstance(o, tuple):
        for x in o:
            containers(x, seen, depth + 1)
    elif type(o).__module__.startswith("aerokit") and hasattr(o, "__dict__") and not isinstance(o, type):
        seen[id(o)] = o
        for x in vars(o).values():
            containers(x, seen, depth + 1)
    return seen
