"""Registry of the properties and of their verification units."""
import importlib
import os

from . import contract

SCEN = {}     # name -> Scenario
PROPS = {}    # id -> Prop
FINDINGS = {} # id -> scenario name


class Scenario:
    def __init__(self, name, fn, modes=(None,), **opts):
        self.name, self.fn, self.modes, self.opts = name, fn, list(modes), opts

    def run(self, env, mode):
        return self.fn(env) if mode is None else self.fn(env, mode)


class Prop:
    def __init__(self, pid, contracts, scenarios, note="", bounded=(), closure=True, level="proof"):
        self.pid, self.contracts, self.scenarios, self.note, self.bounded, self.closure, self.level = pid, list(contracts), list(scenarios), note, bounded, closure, level


def scenario(name=None, modes=(None,), **opts):
    """opts: inline (keys verified by their body here), newton (branch policy), oracle, loops, bounded (numeric only), pyfloat,
    nfac (factor on the number of concrete runs)"""
    def deco(f):
        n = name or f.__name__
        assert n not in SCEN, n
        SCEN[n] = Scenario(n, f, modes, **opts)
        return f
    return deco


def prop(pid, contracts=(), scenarios=(), **k):
    assert pid not in PROPS, pid
    PROPS[pid] = Prop(pid, contracts, scenarios, **k)


def load_all():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith("s_") and f.endswith(".py"):
            importlib.import_module("specs." + f[:-3])


def contract_units(key):
    c = contract.REG[key]
    if getattr(c, "body", None) is not None:
        return [u for s in c.body for u in scenario_units(s)]
    return ["contract|%s|%s" % (key, m) for m in c.mode_list()]


def scenario_units(name):
    s = SCEN[name]
    return ["scenario|%s|%s" % (name, "" if m is None else m) for m in s.modes]


def units_of(pid):
    P = PROPS[pid]
    out = []
    for k in P.contracts:
        out += contract_units(k)
    for s in P.scenarios:
        out += scenario_units(s)
    return out


def run_unit(uid, env):
    kind, name, mode = uid.split("|")
    if kind == "contract":
        c = contract.REG[name]
        c.scenario(mode)(env)
    else:
        s = SCEN[name]
        m = None
        for x in s.modes:
            if (x is None and mode == "") or str(x) == mode:
                m = x
        s.run(env, m)


def opts_of(uid):
    kind, name, mode = uid.split("|")
    if kind == "contract":
        return contract.REG[name].opts
    return SCEN[name].opts
