from fractions import Fraction as Fr
from .lib import *
from .units import scenario, prop

K = "aerokit.common.dicovar"
KNOWN = {"CharlesX": ["IC3", "ic3", "CharlesX", "cx", "charlesx", "CX"], "OpenFOAM": ["OpenFOAM", "of", "openfoam", "ofoam"]}
POOL = ["P", "p", "rho", "V", "Vx", "u_avg", "u_rms", "tauw_avg", "U_avg", "new", "T", "RHO"]
SOFT = [n for v in KNOWN.values() for n in v]
READ = ["get", "call", "getitem"]


def read(d, how, k):
    """(present, name)"""
    try:
        return True, (d.get(k) if how == "get" else d(k) if how == "call" else d[k])
    except ValueError:
        return False, None


def history(m):
    def run(rng):
        d = m.dicoVar
        for _ in range(rng.randrange(9)):
            op = rng.choice(["soft", "add", "add", "set", "set", "set", "get", "keys", "bad"])
            k = rng.choice(POOL)
            try:
                if op == "soft":
                    m.setDicoVar(rng.choice(SOFT))
                elif op == "add":
                    d.addVar(k, "A%d" % rng.randrange(99))
                elif op == "set":
                    d.setVar(k, "S%d" % rng.randrange(99))
                elif op == "get":
                    d[k]
                elif op == "bad":
                    m.setDicoVar("hybrid")
                else:
                    d.keys()
            except ValueError:
                pass
    return run


def pristine(env, m, name):
    """names of a software, read from a database that nothing has changed"""
    d = m._DicoVar(name)
    return {k: d.get(k) for k in list(d.keys())}


def before(env):
    m = env.mod(K)
    tabs = {s: pristine(env, m, names[0]) for s, names in KNOWN.items()}
    d = m.dicoVar
    env.separate("the current names are not those of the pristine database", d, m)
    env.arbitrary_dicts(d, history(m))
    return m, d, tabs


def expect(env, label, d, how, q, want):
    """the name read at q is the expected one (present, name)"""
    got = read(d, how, q)
    env.check(label + ": known name", eq(got[0], want[0]))
    if got[0] and want[0]:
        env.check(label + ": last name set", eq(got[1], want[1]))
    env.check("keys are the known names", eq(q in d.keys(), want[0]))


@scenario("naming database: one operation from any state", modes=["read", "add", "set", "print", "unknown software", "new object"])
def step(env, mode):
    m, d, tabs = before(env)
    k, v, q = env.string("k", POOL), env.string("v", ["X1", "X2"]), env.string("q", POOL)
    pk, nk = read(d, "get", k)
    w = read(d, "get", q)
    env.frame() if env.symbolic else None
    how = env.choose("read", READ) if mode != "new object" else "get"
    kwd = env.choose("keywords", [False, True]) if mode in ("add", "set") else False
    same = bool(env.decide(eq(k, q)))
    if mode == "read":
        got = read(d, how, k)
        env.check("each way to read gives the same answer", eq(got[0], pk))
        if got[0] and pk:
            env.check("each way to read gives the same name", eq(got[1], nk))
    elif mode in ("add", "set"):
        f = d.addVar if mode == "add" else d.setVar
        try:
            f(var=k, sVar=v) if kwd else f(k, v)
            done = True
        except ValueError:
            done = False
        env.check("invalid changes raise an error, valid ones do not", eq(done, (not pk) if mode == "add" else pk))
        if done and same:
            w = (True, v)
    elif mode == "print":
        m.printDicoVar()
        d.printDatabase()
    elif mode == "unknown software":
        s = env.string("software", ["hybrid", "c", "x", "I", "o", "open", "IC3 "])
        for n in SOFT:
            env.assume(lnot(eq(s, n)))
            env.assume(lnot(eq(s.lower(), n.lower())))
            env.assume(lnot(eq(s.lower(), n)))
        try:
            m.setDicoVar(s)
            env.fail("an unknown software raises an error")
        except ValueError:
            pass
    else:
        o = m._DicoVar(env.choose("other", ["cx", "ofoam"]))
        env.separate("a new object does not share the current names", o, m)
        env.lift_dicts(o)
        try:
            o.addVar(k, v)
        except ValueError:
            o.setVar(k, v)
    expect(env, "after", d, how, q, w)
    if env.symbolic and mode not in ("add", "set"):
        env.check_frame()
    env.separate("the current names are not those of the pristine database", d, m)


def table(t, q, env):
    for k in t:
        if env.decide(eq(q, k)):
            return True, t[k]
    return False, None


@scenario("naming database: selecting a software starts from its pristine names", modes=list(KNOWN))
def select(env, mode):
    m, d, tabs = before(env)
    s = env.choose("software", KNOWN[mode])
    m.setDicoVar(s)
    env.check("the same current object", eq(m.dicoVar is d, True))
    env.separate("the current names are not those of the pristine database", d, m)
    env.lift_dicts(d)
    q, k, v = env.string("q", POOL), env.string("k", POOL), env.string("v", ["X1"])
    expect(env, "selected", d, env.choose("read", READ), q, table(tabs[mode], q, env))


@scenario("naming database: selection, change, selection", modes=list(KNOWN))
def again(env, mode):
    m = env.mod(K)
    tabs = {s: pristine(env, m, names[0]) for s, names in KNOWN.items()}
    m.setDicoVar(KNOWN[mode][0])
    d = m.dicoVar
    env.lift_dicts(d)
    k, v = env.string("k", POOL), env.string("v", ["X1", "X2"])
    try:
        d.addVar(k, v)
    except ValueError:
        d.setVar(k, v)
    other = env.choose("second", list(KNOWN))
    m.setDicoVar(KNOWN[other][-1])
    env.lift_dicts(d)
    q = env.string("q", POOL)
    expect(env, "selected again", d, "get", q, table(tabs[other], q, env))


def value(t, env, names):
    """value of an expression of the vtk calculator"""
    import ast
    fns = dict(sqrt=sqrt, ln=log, atan=atan, acos=acos)
    rec = lambda n: value(n, env, names)
    if isinstance(t, str):
        return rec(ast.parse(t.replace("^", "**"), mode="eval").body)
    if isinstance(t, ast.Constant):
        return Fr(str(t.value)) if env.symbolic else t.value
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.USub):
        v = rec(t.operand)
        return -1 * v
    if isinstance(t, ast.Name):
        return names[t.id]
    if isinstance(t, ast.BinOp):
        a, b = rec(t.left), rec(t.right)
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: power(a, b)}[type(t.op)]()
    if isinstance(t, ast.Call):
        if t.func.id == "mag":
            return names["mag:" + t.args[0].id]
        return fns[t.func.id](rec(t.args[0]))
    raise ValueError("expression %s" % type(t).__name__)


@scenario("naming database: expressions of derived variables use the current names", modes=["initial names", "changed names"])
def derived(env, mode):
    m = env.mod(K)
    m.setDicoVar("cx")
    d = m.dicoVar
    if mode == "changed names":
        for k in ("P", "rho", "V", "Vx", "Vy", "u_rms"):
            d.setVar(k, "Q" + k)
        d.addVar("Q", "QQ")
    w = {k: d[k] for k in d.keys()}
    p, rho, v, ux, uy = [env.real(n, POS) for n in ("p", "rho", "v", "ux", "uy")]
    names = {w["P"]: p, w["rho"]: rho, w["Vx"]: ux, w["Vy"]: uy, "mag:" + w["V"]: v}
    e = env.fn("aerokit.common.extendvar:expressions_from_rhopv")()
    g = Q(7, 5)
    a = sqrt(g * p / rho)
    want = dict(Pt=p * power(1 + (g - 1) / 2 * (v / a) ** 2, g / (g - 1)), T=p / rho / Q(2871, 10), S=log(p / power(rho, g)), V=v, a=a, Mach=v / a, Mx=ux / a,
                alpha=atan(uy / ux) * 180 / pi())
    env.check("variables of the expressions", eq(sorted(e) == sorted(set(w) | set(want)), True))
    for k in w:
        if k not in want:
            env.check("the other variables have their current name", eq(e[k], w[k]))
    for k in want:
        env.check("expression of %s" % k, eq(value(e[k], env, names), want[k]))
    env.check("current names unchanged", eq({k: d[k] for k in d.keys()} == w, True))


prop("C26", scenarios=["naming database: one operation from any state", "naming database: selecting a software starts from its pristine names", "naming database: selection, change, selection",
                       "naming database: expressions of derived variables use the current names"])
