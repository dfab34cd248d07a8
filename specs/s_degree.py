from .lib import *
from .contract import Contract, P
from .units import scenario, prop

D = "aerokit.aero.degree:"
ANG = Dom(None, None, s=(-400, 400), special=(0.0, 30.0, 45.0, 60.0, 180.0, -90.0))
ONE = Dom(-1, 1, True, True, s=(-1, 1), special=(0.0, 0.5, 1.0, -1.0))
X = Dom(None, None, s=(-20, 20), special=(0.0, 1.0, -1.0))

Contract(D + "cos", [P("a", ANG)], spec=cosd)
Contract(D + "sin", [P("a", ANG)], spec=sind)
Contract(D + "tan", [P("a", ANG)], spec=tand, requires=lambda a: [lnot(eq(cosd(a), 0, atol=1e-3))])
Contract(D + "acos", [P("a", ONE)], spec=lambda a: deg(acos(a)))
Contract(D + "asin", [P("a", ONE)], spec=lambda a: deg(asin(a)))
Contract(D + "atan", [P("a", X)], spec=lambda a: deg(atan(a)))
Contract(D + "atan2", [P("a", X), P("b", X)], spec=lambda a, b: deg(atan2(a, b)), requires=lambda a, b: [lor(lnot(eq(a, 0)), lnot(eq(b, 0)))])


@scenario("degree: inverse of the sine")
def isin(env):
    x = env.real("x", ONE)
    a = env.fn(D + "asin")(x)
    env.check("angle of the sine", eq(env.fn(D + "sin")(a), x, atol=1e-8))
    env.check("principal range", land(le(-90, a), le(a, 90)))
    t = env.real("t", Dom(-90, 90, True, True, s=(-89, 89), special=(0.0, 30.0, -45.0)))
    env.check("sine of the angle", eq(env.fn(D + "asin")(env.fn(D + "sin")(t)), t, atol=1e-6))


@scenario("degree: inverse of the cosine")
def icos(env):
    x = env.real("x", ONE)
    a = env.fn(D + "acos")(x)
    env.check("angle of the cosine", eq(env.fn(D + "cos")(a), x, atol=1e-8))
    env.check("principal range", land(le(0, a), le(a, 180)))
    t = env.real("t", Dom(0, 180, True, True, s=(1, 179), special=(90.0, 30.0, 135.0)))
    env.check("cosine of the angle", eq(env.fn(D + "acos")(env.fn(D + "cos")(t)), t, atol=1e-6))


@scenario("degree: inverse of the tangent")
def itan(env):
    x = env.real("x", X)
    a = env.fn(D + "atan")(x)
    env.check("principal range", land(lt(-90, a), lt(a, 90)))
    env.check("angle of the tangent", eq(env.fn(D + "tan")(a), x, atol=1e-8))
    t = env.real("t", Dom(-90, 90, s=(-89, 89), special=(0.0, 30.0, -45.0)))
    hint("cosine", lt(0, cosd(t)))
    env.check("tangent of the angle", eq(env.fn(D + "atan")(env.fn(D + "tan")(t)), t, atol=1e-6))


@scenario("degree: two-argument arctangent", modes=["east", "west", "north", "south"])
def at2(env, mode):
    y, x = env.real("y", X), env.real("x", X)
    if mode in ("east", "west"):
        env.assume(sqlt(0, x) if mode == "east" else sqlt(x, 0))
    else:
        env.assume(eq(x, 0))
        env.assume(sqlt(0, y) if mode == "north" else sqlt(y, 0))
    a = env.fn(D + "atan2")(y, x)
    c, s = env.fn(D + "cos")(a), env.fn(D + "sin")(a)
    r = sqrt(x * x + y * y)
    env.check("range", land(lt(-180, a), le(a, 180)))
    env.check("right quadrant", land(eq(r * c, x, atol=1e-8), eq(r * s, y, atol=1e-8)))


@scenario("degree: exact conversion")
def conv(env):
    a = env.real("a", ANG)
    c, s = env.fn(D + "cos"), env.fn(D + "sin")
    env.check("full turn", land(eq(c(a + 360), c(a), atol=1e-8), eq(s(a + 360), s(a), atol=1e-8)))
    env.check("quarter turn", land(eq(s(a + 90), c(a), atol=1e-8), eq(c(a + 90), -s(a), atol=1e-8)))
    env.check("unit circle", eq(c(a) * c(a) + s(a) * s(a), 1))


prop("C17", [D + f for f in ("cos", "sin", "tan", "acos", "asin", "atan", "atan2")],
     ["degree: inverse of the sine", "degree: inverse of the cosine", "degree: inverse of the tangent", "degree: two-argument arctangent", "degree: exact conversion"])
