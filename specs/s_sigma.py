from .lib import *
from .contract import Contract, P
from .units import scenario, prop
from .s_isentropic import fT, fP
from .s_shock import S, G, ps, rho, mdown, mnp
from .s_oblique import defl, oblique_m2, SIGMA

DEV = Dom(0, 90, lo_eq=True, s=(0, 40), special=(0.0, 5.0, 10.0, 20.0))
MO = Dom(1, None, s=(1.05, 10), special=(2.0, 3.0, 5.0, 1.5))


def cubic(M, t, g):
    """x = cot(sigma) of a shock of deflection atan(t): x^3 + a x^2 + b x + c = 0"""
    return (1 + (g + 1) / 2 * M * M) * t, 1 - M * M, (1 + (g - 1) / 2 * M * M) * t


def depressed(a, b, c):
    d = (a * a / 3 - b) / 3
    e = 2 * a * a * a / 27 - a * b / 3 + c
    return d, e


def value(x, a, b, c):
    return x * x * x + a * x * x + b * x + c


def cot_facts(x, M, d, g):
    """x is the cotangent of the angle of a shock of deflection d (degrees), admissible"""
    a, b, c = cubic(M, tand(d), g)
    return [lt(1, M), lt(1, g), le(0, d), lt(d, 90), lt(0, x), eq(value(x, a, b, c), 0)]


def angle(x):
    return deg(atan(1 / x))


def L1_steps(x, M, d, g):
    t = tand(d)
    hint("tangent", le(0, t))
    hint("cotangent is at most that of the Mach wave", le(x * x, M * M - 1))
    th = rad(angle(x)) - rad(d)
    mn2 = M * M / (1 + x * x)
    r = (g + 1) * mn2 / (2 + (g - 1) * mn2)
    hint("density ratio", eq(rho(M * sind(angle(x)), g), r))
    hint("downstream angle, algebra", eq((1 - t * x) * x * r, x + t))
    hint("sine of the downstream angle", lt(0, sin(th)))
    hint("tangent of the downstream angle", eq(sin(th) * r * x, cos(th)))
    hint("cosine of the downstream angle", lt(0, cos(th)))
    hint("angle of its tangent", eq(atan(sin(th) / cos(th)), th))
    congruent(atan, sin(th) / cos(th), 1 / (x * r))
    hint("downstream angle", eq(atan(1 / (x * r)), th))


L1 = Lemma(cot_facts, lambda x, M, d, g: land(eq(defl(M, angle(x), g), d), le(x * x, M * M - 1)), L1_steps)


@scenario("shock angle: positive roots of the cubic are shock angles of this deflection", nonum="proof of a lemma")
def lemma1(env):
    x, M, d, g = env.real("x", POS), env.real("M", MO), env.real("d", DEV), env.real("gamma", GAM)
    L1.prove(env, x, M, d, g)


def troots(a, b, c):
    """weak, strong and negative roots of the cubic"""
    d, e = depressed(a, b, c)
    ph = acos(-1 * e / 2 / sqrt(d * d * d))
    return [2 * sqrt(d) * cos(ph / 3 + k * pi() / 3) - a / 3 for k in (0, 4, 2)]


L5 = Lemma(lambda w, v: [eq(v, 3 * w)], lambda w, v: eq(4 * cos(w) * cos(w) * cos(w) - 3 * cos(w), cos(v)))


def L6_steps(w):
    monotone("cosine", cos, w, pi() / 3, -1)
    hint("sine", le(0, sin(w)))


L6 = Lemma(lambda w: [le(0, w), le(w, pi() / 3)], lambda w: land(le(Q(1, 2), cos(w)), le(0, sin(w))), L6_steps)


@scenario("shock angle: cosine of a third", modes=["triple angle", "range"], nonum="proof of a lemma")
def lemma56(env, mode):
    if mode == "range":
        L6.prove(env, env.real("w", REAL))
    else:
        L5.prove(env, env.real("w", REAL), env.real("v", REAL))


def L2_facts(a, b, c):
    d, e = depressed(a, b, c)
    return [le(0, a), lt(b, 0), le(0, c), le(e * e, 4 * d * d * d)]


def L2_steps(a, b, c):
    d, e = depressed(a, b, c)
    hint("positive", lt(0, d))
    u = -1 * e / 2 / sqrt(d * d * d)
    hint("cosine in its range", le(u * u, 1))
    hint("cosine in its range, sides", land(le(-1, u), le(u, 1)))
    ph = acos(u)
    hint("angle", land(le(0, ph), le(ph, pi())))
    hint("cosine of the angle", eq(cos(ph), u))
    L5.use("third of the angle", ph / 3, ph)
    L6.use("range of the third", ph / 3)
    c0, c4, c2 = [cos(ph / 3 + k * pi() / 3) for k in (0, 4, 2)]
    for k in (c0, c4, c2):
        hint("triple angle", eq(4 * k * k * k - 3 * k, u))
    hint("sum", eq(c0 + c2 + c4, 0))
    hint("pairs", eq(c0 * c2 + c0 * c4 + c2 * c4, Q(-3, 4)))
    hint("product", eq(4 * c0 * c2 * c4, u))
    s = sin(ph / 3)
    hint("sine", land(le(0, s), eq(s * s, 1 - c0 * c0), le(s * s, Q(3, 4))))
    hint("order", land(le(c2, c4), le(c4, c0)))


def L2_goal(a, b, c):
    w, s, n = troots(a, b, c)
    return land(eq(w + s + n, -1 * a), eq(w * s + w * n + s * n, b), eq(w * s * n, -1 * c), le(n, s), le(s, w))


L2 = Lemma(L2_facts, L2_goal, L2_steps)


@scenario("shock angle: trigonometric roots of the cubic", nonum="proof of a lemma")
def lemma2(env):
    a, b, c = [env.real(n, REAL) for n in "abc"]
    L2.prove(env, a, b, c)


def L3_facts(w, s, n, a, b, c):
    return [le(0, a), lt(b, 0), le(0, c), eq(w + s + n, -1 * a), eq(w * s + w * n + s * n, b), eq(w * s * n, -1 * c), le(n, s), le(s, w)]


L3 = Lemma(L3_facts, lambda w, s, n, a, b, c: land(lt(0, w), le(0, s), implies(lt(0, c), lt(0, s)), implies(eq(a, 0), implies(eq(c, 0), eq(s, 0))), eq(value(w, a, b, c), 0), eq(value(s, a, b, c), 0)))


@scenario("shock angle: signs of the roots of the cubic", nonum="proof of a lemma")
def lemma3(env):
    L3.prove(env, *[env.real(n, REAL) for n in ("w", "s", "n", "a", "b", "c")])


def L4_facts(x, a, b, c):
    return [le(0, a), lt(b, 0), lt(0, c), lt(0, x), eq(value(x, a, b, c), 0)]


def L4_goal(x, a, b, c):
    d, e = depressed(a, b, c)
    return le(e * e, 4 * d * d * d)


def L4_steps(x, a, b, c):
    d, e = depressed(a, b, c)
    y = x + a / 3
    hint("reduced cubic", eq(e, 3 * d * y - y * y * y))
    hint("other roots", eq(12 * d - 3 * y * y, (a + x) * (a + x) + 4 * c / x))
    hint("sign", le(0, 4 * d - y * y))
    hint("discriminant", eq(4 * d * d * d - e * e, (4 * d - y * y) * (d - y * y) * (d - y * y)))


L4 = Lemma(L4_facts, L4_goal, L4_steps)


@scenario("shock angle: a positive root makes the three roots real", nonum="proof of a lemma")
def lemma4(env):
    L4.prove(env, *[env.real(n, REAL) for n in ("x", "a", "b", "c")])


def conditions(M, t, g):
    a, b, c = cubic(M, t, g)
    d, e = depressed(a, b, c)
    return a, b, c, d, e


def split_attached(env, M, dv, g):
    """attached or detached, by the discriminant; concrete runs stay away from the limit"""
    a, b, c, d, e = conditions(M, tand(dv), g)
    D = e * e - 4 * d * d * d
    if env.numeric and abs(D) < 1e-7 * d ** 3:
        env.assume(False)
    return not env.decide(lt(0, D))


def root_of(env, k, M, dv, g):
    """(symbolic) the root of the cubic, its facts"""
    a, b, c, d, e = conditions(M, tand(dv), g)
    env.lemma("lemma tangent", le(0, tand(dv)))
    w, s, n = troots(a, b, c)
    L2.use("roots", a, b, c)
    L3.use("signs", w, s, n, a, b, c)
    return (w, s, n)[k], a, b, c


def L7_steps(x, M):
    q = sqrt(M * M - 1)
    hint("Mach angle", eq(asin(1 / M), atan(1 / q)))
    hint("cotangents", le(x, q))
    monotone("arctangent", atan, 1 / q, 1 / x)


L7 = Lemma(lambda x, M: [lt(1, M), lt(0, x), le(x * x, M * M - 1)], lambda x, M: land(le(deg(asin(1 / M)), angle(x)), le(angle(x), 90)), L7_steps)


def full_angle(x):
    return deg(atan2(1, x))


L8 = Lemma(lambda s, w: [lt(0, s), le(s, w)], lambda s, w: le(angle(w), angle(s)), lambda s, w: monotone("arctangent", atan, 1 / w, 1 / s))
L9 = Lemma(lambda x: [lt(0, x)], lambda x: eq(full_angle(x), angle(x)))
L10 = Lemma(lambda x: [eq(x, 0)], lambda x: eq(full_angle(x), 90))
L11 = Lemma(lambda x: [lt(0, x)], lambda x: land(lt(0, angle(x)), lt(angle(x), 90)))


@scenario("shock angle: cotangents and angles", modes=["Mach angle", "order", "quadrant", "right angle", "range"], nonum="proof of a lemma")
def lemma7(env, mode):
    x, y = env.real("x", REAL), env.real("y", REAL)
    L, v = {"Mach angle": (L7, (x, y)), "order": (L8, (x, y)), "quadrant": (L9, (x,)), "right angle": (L10, (x,)), "range": (L11, (x,))}[mode]
    L.prove(env, *v)


def angle_of(env, r, k, M, dv, g):
    """the returned angle r is the angle of the root k of the cubic: (root, right angle?)"""
    x, a, b, c = root_of(env, k, M, dv, g)
    if k == 0:
        env.lemma("lemma angle", eq(r, angle(x)))
        return x, False
    env.lemma("lemma full angle", eq(r, full_angle(x)))
    if not env.decide(lt(0, dv)):
        congruent(tand, dv, 0 * dv)
        env.lemma("lemma no deflection", eq(tand(dv), 0))
        env.lemma("lemma no cotangent", eq(x, 0))
        L10.use("right angle", x)
        return x, True
    env.lemma("lemma tangent", lt(0, tand(dv)))
    env.lemma("lemma c", lt(0, c))
    env.lemma("lemma positive root", lt(0, x))
    L9.use("quadrant", x)
    return x, False


@scenario("shock angle from the deflection, closed form", modes=["weak", "strong"])
def closed(env, mode):
    M, dv, g = env.real("Mach", MO), env.real("deflection", DEV), env.real("gamma", GAM)
    att = split_attached(env, M, dv, g)
    k = 0 if mode == "weak" else 1
    r = env.fn(S + mode + "sigma_Mach_deflection")(M, dv, g)
    if not att:
        env.check("detached shock", eq(r, deg(asin(1 / M)) if mode == "weak" else 90))
        env.check("a message is printed", lt(0, len(env.printed())))
        return
    env.check("no message", eq(len(env.printed()), 0))
    if env.numeric:
        if mode == "strong" and dv == 0:
            env.check("normal shock without deflection", eq(r, 90))
            return
        env.check("deflection of the shock angle", eq(defl(M, r, g), dv, tol=1e-5, atol=1e-5))
        env.check("not below the Mach angle", le(deg(asin(1 / M)), r, atol=1e-6))
        env.check("at most 90 degrees", le(r, 90, atol=1e-6))
        return
    x, right = angle_of(env, r, k, M, dv, g)
    if right:
        env.check("normal shock without deflection", eq(r, 90))
        return
    L1.use("shock", x, M, dv, g)
    congruent(lambda s: defl(M, s, g), r, angle(x))
    L7.use("Mach angle", x, M)
    env.check("deflection of the shock angle", eq(defl(M, r, g), dv))
    env.check("not below the Mach angle", le(deg(asin(1 / M)), r))
    env.check("at most 90 degrees", le(r, 90))


@scenario("shock angle from the deflection: weak below strong", modes=[None])
def weakstrong(env):
    M, dv, g = env.real("Mach", MO), env.real("deflection", DEV), env.real("gamma", GAM)
    if not split_attached(env, M, dv, g):
        return
    rw = env.fn(S + "weaksigma_Mach_deflection")(M, dv, g)
    rs = env.fn(S + "strongsigma_Mach_deflection")(M, dv, g)
    if env.symbolic:
        xw, _ = angle_of(env, rw, 0, M, dv, g)
        xs, right = angle_of(env, rs, 1, M, dv, g)
        if right:
            L11.use("angle", xw)
        else:
            L8.use("order", xs, xw)
    env.check("weak below strong", le(rw, rs, atol=1e-6))


@scenario("shock angle from the deflection: no shock when it is refused")
def detached(env):
    """an admissible shock angle of deflection `deflection` makes the discriminant of the closed form admissible"""
    M, g = env.real("Mach", MO), env.real("gamma", GAM)
    sg = env.real("sigma", SIGMA)
    env.assume(sqle(1, M * sind(sg)))
    env.assume(lt(slack(1e-3), M * sind(sg) - 1))
    dv = defl(M, sg, g)
    if env.numeric:
        from specs.numenv import Reject
        a, b, c, d, e = conditions(M, tand(dv), g)
        if abs(e * e - 4 * d ** 3) < 1e-7 * d ** 3:
            env.assume(False)
    else:
        t = tand(dv)
        x = cosd(sg) / sind(sg)
        a, b, c = cubic(M, t, g)
        env.lemma("lemma cotangent", lt(0, x))
        env.lemma("lemma tangent of the deflection", eq(t, x * (M * M - 1 - x * x) / ((1 + (g + 1) / 2 * M * M) * x * x + 1 + (g - 1) / 2 * M * M)))
        env.lemma("lemma deflected", lt(0, t))
        env.lemma("lemma root", eq(value(x, a, b, c), 0))
        L4.use("real roots", x, a, b, c)
    r = env.fn(S + env.choose("which", ["weak", "strong"]) + "sigma_Mach_deflection")(M, dv, g)
    env.check("not refused", eq(len(env.printed()), 0))


# ---------------------------------------------------------------- extremal angles
def tdefl(x, M, g):
    """tangent of the deflection of the shock of cotangent x"""
    a, c = 1 + (g + 1) / 2 * M * M, 1 + (g - 1) / 2 * M * M
    return x * (M * M - 1 - x * x) / (a * x * x + c)


def M1_facts(x, M, g):
    return [lt(1, M), lt(1, g), lt(0, x), le(x * x, M * M - 1)]


def M1_steps(x, M, g):
    mn2 = M * M / (1 + x * x)
    r = (g + 1) * mn2 / (2 + (g - 1) * mn2)
    hint("density ratio", eq(rho(M * sind(angle(x)), g), r))
    hint("compression", le(1, r))
    hint("tangent of the shock angle", eq(tand(angle(x)), 1 / x))
    monotone("arctangent", atan, 1 / (x * r), 1 / x)
    th = atan(1 / x) - atan(1 / (x * r))
    hint("range", land(le(0, th), lt(th, pi() / 2)))
    hint("tangent of the deflection", eq(sin(th) * (x * x * r + 1), cos(th) * x * (r - 1)))
    hint("cosine", lt(0, cos(th)))
    hint("algebra", eq(x * (r - 1) / (x * x * r + 1), tdefl(x, M, g)))
    hint("quotient", eq(sin(th) / cos(th), tdefl(x, M, g)))
    hint("angle of its tangent", eq(atan(sin(th) / cos(th)), th))
    congruent(atan, sin(th) / cos(th), tdefl(x, M, g))
    congruent(atan, tand(angle(x)) / rho(M * sind(angle(x)), g), 1 / (x * r))


M1L = Lemma(M1_facts, lambda x, M, g: eq(defl(M, angle(x), g), deg(atan(tdefl(x, M, g)))), M1_steps)


def stationary(X2, m, a, c):
    """derivative of the tangent of the deflection with respect to the cotangent, X2 its square"""
    return (m - 3 * X2) * (a * X2 + c), 2 * a * X2 * (m - X2)


def M2_facts(x, X, M, g):
    m, a, c = M * M - 1, 1 + (g + 1) / 2 * M * M, 1 + (g - 1) / 2 * M * M
    p, q = stationary(X * X, m, a, c)
    return [lt(1, M), lt(1, g), lt(0, x), le(x * x, m), lt(0, X), le(X * X, m), eq(p, q)]


def M2_steps(x, X, M, g):
    m, a, c = M * M - 1, 1 + (g + 1) / 2 * M * M, 1 + (g - 1) / 2 * M * M
    B = c * (m - X * X) / (X * (a * X * X + c))
    hint("other root", le(0, B))
    hint("factors", eq((a * X * X + c) * x * (m - x * x) - (a * x * x + c) * X * (m - X * X), -1 * (a * X * X + c) * (x - X) * (x - X) * (x + B)))
    hint("sign", le((a * X * X + c) * x * (m - x * x), (a * x * x + c) * X * (m - X * X)))


M2L = Lemma(M2_facts, lambda x, X, M, g: le(tdefl(x, M, g), tdefl(X, M, g)), M2_steps)
M3L = Lemma(lambda x, y: [le(x, y)], lambda x, y: le(deg(atan(x)), deg(atan(y))), lambda x, y: monotone("arctangent", atan, x, y))


def M4_facts(x, s):
    return [lt(0, s), lt(s, 90), eq(x, cosd(s) / sind(s))]


def M4_steps(x, s):
    hint("sine", lt(0, sind(s)))
    hint("cosine", lt(0, cosd(s)))
    congruent(atan, 1 / x, tand(s))
    hint("angle of its tangent", eq(atan(tand(s)), rad(s)))


def MR_steps(x, M, g):
    m, a, c, q = M * M - 1, 1 + (g + 1) / 2 * M * M, 1 + (g - 1) / 2 * M * M, sqrt(M * M - 1)
    hint("product", le(M * M - 1, a * c))
    hint("mean", le(4 * a * c * x * x, (a * x * x + c) * (a * x * x + c)))
    hint("root", eq(q * q, m))
    hint("mean of the root", le(2 * q * x, a * x * x + c))
    hint("algebra", lt(x * (m - x * x), q * (a * x * x + c)))


MR = Lemma(M1_facts, lambda x, M, g: lt(tdefl(x, M, g), sqrt(M * M - 1)), MR_steps)
M3S = Lemma(lambda x, y: [lt(x, y)], lambda x, y: lt(deg(atan(x)), deg(atan(y))), lambda x, y: monotone("arctangent", atan, x, y, strict=True))
LG = Lemma(lambda y: [lt(0, y), lt(y, 90)], lambda y: lt(0, cosd(y)))
M4L = Lemma(M4_facts, lambda x, s: land(lt(0, x), eq(angle(x), s), eq((1 + x * x) * sind(s) * sind(s), 1)), M4_steps)


@scenario("shock angle: largest deflection, lemmas", modes=["deflection of a cotangent", "maximum", "arctangent", "cotangent", "room", "arctangent, strict", "cosine", "angle of a sine"], nonum="proof of a lemma")
def lemmasM(env, mode):
    x, y, M, g = env.real("x", REAL), env.real("y", REAL), env.real("M", REAL), env.real("gamma", REAL)
    L, v = {"deflection of a cotangent": (M1L, (x, M, g)), "maximum": (M2L, (x, y, M, g)), "arctangent": (M3L, (x, y)), "cotangent": (M4L, (x, y)), "room": (MR, (x, M, g)), "arctangent, strict": (M3S, (x, y)), "cosine": (LG, (x,)), "angle of a sine": (AS, (x, y))}[mode]
    L.prove(env, *v)


MA = P("Mach", MO)


def devmax_ensures(r, M, g):
    s = sind(r) * sind(r)
    m, a, c = M * M - 1, 1 + (g + 1) / 2 * M * M, 1 + (g - 1) / 2 * M * M
    C = cosd(r) * cosd(r)
    return [("between 0 and 90 degrees", land(lt(0, r), lt(r, 90))),
            ("above the Mach angle", lt(1, M * M * s)),
            ("the deflection is stationary", eq((m * s - 3 * C) * (a * C + c * s), 2 * a * C * (m * s - C), tol=1e-5))]


def sonic_ensures(r, M, g):
    return [("between 0 and 90 degrees", land(lt(0, r), lt(r, 90))),
            ("above the Mach angle", lt(1, M * M * sind(r) * sind(r))),
            ("sonic downstream flow", eq(*sonic_balance(M * M * sind(r) * sind(r), M, g)))]


def sonic_balance(n, M, g):
    """square of the downstream velocity and of the sound velocity, n the square of the normal Mach number (both times (g+1)^2 n)"""
    k = 2 + (g - 1) * n
    return (M * M - n) * (g + 1) * (g + 1) * n + k * k, (2 * g * n - (g - 1)) * k


def devmax_facts(s, M, g):
    m2 = M * M
    f = 4 / (g + 1)
    B, D = m2 - f, m2 * m2 + 2 * (g - 1) * f * m2 + 4 * f
    u = 4 * g * m2 * s / (g + 1) - B
    return [eq(u * u, D), le(0, u)]


def sonic_facts(s, M, g):
    m2 = M * M
    A = g - 3 + m2 * (g + 1)
    u = 4 * g * m2 * s - A
    return [eq(u * u, (g + 1) * ((m2 - 3) * (m2 - 3) + g * (m2 + 1) * (m2 + 1))), le(0, u)]


def angle_cut(env, v, M, g, facts, ensures, sx):
    """from the quadratic equation of sin^2 (sx its root) to the postconditions"""
    cut(env, "square of the sine", [sx], lambda s: facts(s, M, g), lambda s: land(lt(1, M * M * s), lt(s, 1)), keep=True)
    hint("square of the sine", eq(sind(v) * sind(v), sx))
    AS.use("angle", v, sqrt(sx))
    cut(env, "angle", [v, sx], lambda r, s: facts(s, M, g) + [eq(sind(r) * sind(r), s), lt(1, M * M * s), lt(0, r), lt(r, 90)],
        lambda r, s: land(*[c for _, c in ensures(r, M, g)]), steps=lambda r, s: angle_steps(r, M, g), keep=True)


AS = Lemma(lambda v, w: [lt(0, w), lt(w, 1), eq(v, deg(asin(w)))], lambda v, w: land(lt(0, v), lt(v, 90)))


def angle_steps(r, M, g):
    hint("sine", lt(0, sind(r)))
    hint("cosine", lt(0, cosd(r)))


def devmax_sine(M, g):
    m2 = M * M
    f = 4 / (g + 1)
    return (g + 1) / (4 * g * m2) * (m2 - f + sqrt(m2 * m2 + 2 * (g - 1) * f * m2 + 4 * f))


def sonic_sine(M, g):
    m2 = M * M
    return (g - 3 + m2 * (g + 1) + sqrt((g + 1) * ((m2 - 3) * (m2 - 3) + g * (m2 + 1) * (m2 + 1)))) / (4 * g * m2)


Contract(S + "sigma_DevMax", [MA, G], ensures=devmax_ensures, modes=["scalar", "int", "defaults", "array"], steps=lambda env, v, M, g: angle_cut(env, v, M, g, devmax_facts, devmax_ensures, devmax_sine(M, g)))
Contract(S + "sigma_Sonic", [MA, G], ensures=sonic_ensures, modes=["scalar", "int", "defaults", "array"], steps=lambda env, v, M, g: angle_cut(env, v, M, g, sonic_facts, sonic_ensures, sonic_sine(M, g)))


@scenario("largest deflection of an attached shock", modes=["shock angle", "deflection"])
def largest(env, mode):
    M, g = env.real("Mach", MO), env.real("gamma", GAM)
    sg = env.real("sigma", SIGMA)
    env.assume(sqle(1, M * sind(sg)))
    r = env.fn(S + "sigma_DevMax")(M, gamma=g)
    top = defl(M, r, g) if mode == "shock angle" else env.fn(S + "dev_Max")(M, gamma=g)
    if env.symbolic:
        x, X = cosd(sg) / sind(sg), cosd(r) / sind(r)
        for y, s in ((x, sg), (X, r)):
            M4L.use("cotangent", y, s)
            env.lemma("lemma below the Mach wave", le(y * y, M * M - 1))
            M1L.use("deflection", y, M, g)
            congruent(lambda t: defl(M, t, g), angle(y), s)
        M2L.use("maximum", x, X, M, g)
        M3L.use("arctangent", tdefl(x, M, g), tdefl(X, M, g))
    env.check("no larger deflection", le(defl(M, sg, g), top))


@scenario("sonic shock angle: downstream Mach number is 1", modes=["angle", "deflection"])
def sonic(env, mode):
    M, g = env.real("Mach", MO), env.real("gamma", GAM)
    r = env.fn(S + "sigma_Sonic")(M, gamma=g)
    if mode == "deflection":
        env.check("deflection of the sonic angle", eq(env.fn(S + "dev_Sonic")(M, gamma=g), defl(M, r, g)))
        return
    mn = M * sind(r)
    p = env.fn(S + "Ps_ratio")(mn, g)
    env.lemma("lemma normal Mach number", eq(mnp(p, g), mn))
    env.lemma("lemma oblique", lt(mn, M))
    if env.symbolic:
        cut(env, "sonic", [mn], lambda w: [lt(1, w), lt(w, M), eq(*sonic_balance(w * w, M, g))], lambda w: eq(oblique_m2(M, w, g), 1), keep=True)
    env.check("downstream Mach number", eq(env.fn(S + "downstreamMach_Mach_ShockPsratio")(M, p, g), 1))


@scenario("shock angle: an attached deflection is smaller than the complement of the Mach angle")
def room(env):
    M, g = env.real("Mach", MO), env.real("gamma", GAM)
    sg = env.real("sigma", SIGMA)
    env.assume(sqle(1, M * sind(sg)))
    if env.symbolic:
        x, q = cosd(sg) / sind(sg), sqrt(M * M - 1)
        M4L.use("cotangent", x, sg)
        hint("below the Mach wave", le(x * x, M * M - 1))
        M1L.use("deflection", x, M, g)
        congruent(lambda t: defl(M, t, g), angle(x), sg)
        MR.use("tangent", x, M, g)
        M3S.use("arctangent", tdefl(x, M, g), q)
        hint("Mach angle", eq(atan(q), pi() / 2 - asin(1 / M)))
    env.check("room for the guess", lt(defl(M, sg, g) + deg(asin(1 / M)), 90))


ITW = "the secant iteration for the shock angle converges to an angle in ]0,90["


def pol_sigma(f0, x0, root, arg):
    hint("guess is an acute angle", land(lt(0, x0), lt(x0, 90)))
    LG.use("guess", x0)
    return [("guess is an acute angle", land(lt(0, x0), lt(x0, 90)))], land(lt(0, root), lt(root, 90)), ITW


def pol_init(f0, x0, root, arg):
    return [("the given guess is used", eq(x0, arg("init")))], land(lt(0, root), lt(root, 90)), ITW


@scenario("shock angle from the deflection, iterative solver", modes=["scalar", "default gamma", "array"], newton=pol_sigma)
def iterative(env, mode):
    iter_body(env, mode)


@scenario("shock angle from the deflection, iterative solver with a guess", modes=["scalar", "array"], newton=pol_init)
def iterative2(env, mode):
    iter_body(env, mode, True)


def iter_body(env, mode, init=False):
    g = Q(7, 5) if mode == "default gamma" else env.real("gamma", GAM)
    D, MD = Dom(-90, 90, s=(-35, 35), special=(0.0, 5.0, 10.0, -10.0)), Dom(1, None, s=(1.3, 8), special=(2.0, 3.0, 5.0))
    ID = Dom(0, 90, s=(15, 85), special=(45.0,))
    arr = mode == "array"
    n = env.size("n") if arr else None
    d = env.arr("deflection", (n,), D) if arr else env.real("deflection", D)
    M = env.real("Mach", MD)
    a = (M, d)
    k = {} if mode == "default gamma" else {"gamma": g}
    el = lambda v, ix: env.at(v, ix) if env.is_array(v) else v
    if init:
        ini = env.arr("init", (n,), ID) if arr else env.real("init", ID)
        k["init"] = ini
    ixs = env.idx((n,)) if arr else [()]
    room = lambda ix: lt(deg(asin(1 / el(M, ix))) + absv(el(d, ix)), 90)
    if arr:
        env.assume_all((n,), room)
    else:
        env.assume(room(()))
    if env.numeric:
        for ix in ixs:
            m, dd = el(M, ix), el(d, ix)
            top, st = max((defl(m, s, g), s) for s in [90 * q / 200.0 for q in range(1, 200)] if m * sind(s) > 1)
            env.assume(abs(dd) < 0.85 * top)
            if init:
                # a guess close to the weak solution
                lo, hi = deg(asin(1 / m)), st
                for _ in range(60):
                    mid = (lo + hi) / 2
                    lo, hi = (mid, hi) if defl(m, mid, g) < abs(dd) else (lo, mid)
                w = lo + (el(ini, ix) - 45) * (st - lo) / 300
                if arr:
                    ini[ix] = w
                else:
                    k["init"] = ini = w
    r = env.fn(S + "sigma_Mach_deflection")(*a, **k)
    if arr:
        env.check_shape("one angle per element", r, (n,))
    for ix in ixs:
        v, m, dd = el(r, ix), el(M, ix), el(d, ix)
        neg = sqlt(dd, 0)
        up = ite(neg, -1 * v, v)
        env.check("an acute angle of the sign of the deflection", land(le(0, up), le(up, 90)))
        env.check("deflection of the angle", eq(defl(m, up, g), absv(dd), tol=1e-4, atol=1e-3))


prop("C06", [S + "sigma_DevMax", S + "sigma_Sonic"],
     ["shock angle: positive roots of the cubic are shock angles of this deflection", "shock angle: cosine of a third", "shock angle: trigonometric roots of the cubic",
      "shock angle: signs of the roots of the cubic", "shock angle: a positive root makes the three roots real", "shock angle: cotangents and angles",
      "shock angle from the deflection, closed form", "shock angle from the deflection: weak below strong", "shock angle from the deflection: no shock when it is refused",
      "shock angle: largest deflection, lemmas", "shock angle: an attached deflection is smaller than the complement of the Mach angle", "largest deflection of an attached shock", "sonic shock angle: downstream Mach number is 1",
      "shock angle from the deflection, iterative solver", "shock angle from the deflection, iterative solver with a guess"])
