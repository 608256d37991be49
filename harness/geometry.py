"""C21-C29: plane geometry over the reals.

Inputs are put in coordinates that follow the construction (a length and a direction, a
point and its parameters): every input of the function is covered, and the expressions of
the code reduce to short normal forms."""
import math
from itertools import islice

from .common import harness

INF = float("inf")


def vec(ctx, x, y):
    return ctx.m.geometry.Vector(x, y)


def point(ctx, name, lo=None, hi=None):
    return ctx.real(name + "x", lo, hi), ctx.real(name + "y", lo, hi)


def unchanged(ctx, *pairs):
    """pairs of (Vector, (x, y) it was made from)"""
    for v, (x, y) in pairs:
        ctx.check("arguments are not changed", ctx.all(ctx.same(v.x, x), ctx.same(v.y, y)))


def near(ctx, p, x, y, tol=1e-6):
    return ctx.all(ctx.close(p.x, x, tol), ctx.close(p.y, y, tol))


def sq(x):
    return x * x


# ------------------------------------------------------------------ C21
@harness(theory="real", witnesses=("none", "one", "two"))
def circles_sound(ctx):
    """any two circles: what is returned lies on both"""
    g = ctx.m.geometry
    ax, ay = point(ctx, "p")
    d = ctx.real("d", 0, 100)
    c, s = ctx.unit("dir")
    r1, r2 = ctx.real("r1", 0, 100), ctx.real("r2", 0, 100)
    p1, p2 = vec(ctx, ax, ay), vec(ctx, ax + d * c, ay + d * s)
    got = g.cc_int(p1, r1, p2, r2)
    ctx.check("at most two points", len(got) <= 2)
    ctx.reach(("none", "one", "two")[len(got)])
    unchanged(ctx, (p1, (ax, ay)), (p2, (ax + d * c, ay + d * s)))
    for q in got:
        # relative to the first centre, along and across the line of centres
        x, y = q.x - ax, q.y - ay
        e1 = x * x + y * y - r1 * r1
        e2 = sq(x - d * c) + sq(y - d * s) - r2 * r2
        lim = 1e-6 + 2.1e-5 * (r1 * r1 + r2 * r2 + d * d)
        ctx.check("on the first circle", ctx.all(ctx.le(e1, lim), ctx.ge(e1, -lim)))
        ctx.check("on the second circle", ctx.all(ctx.le(e2, lim), ctx.ge(e2, -lim)))
    ctx.observe(len(got))


def meeting(ctx, big=100):
    """any two circles that meet, from a common point: its position along (u) and across (h)
    the line of centres"""
    ax, ay = point(ctx, "p")
    d = ctx.real("d", 1e-3, big)
    c, s = ctx.unit("dir")
    u, h = ctx.real("u", -big, big), ctx.real("h", 0, big)
    m = ctx.m
    r1, r2 = ctx.sqrt(u * u + h * h), ctx.sqrt(sq(d - u) + h * h)
    return ax, ay, d, c, s, u, h, r1, r2


@harness(theory="real", witnesses=("one", "two"))
def circles_complete(ctx):
    """any two circles that meet: both common points are returned, in either order of the circles"""
    g = ctx.m.geometry
    ax, ay, d, c, s, u, h, r1, r2 = meeting(ctx)
    p1, p2 = vec(ctx, ax, ay), vec(ctx, ax + d * c, ay + d * s)
    swapped = ctx.flag("swapped")
    got = g.cc_int(p2, r2, p1, r1) if swapped else g.cc_int(p1, r1, p2, r2)
    ctx.observe(len(got))
    ctx.check("at most two points", len(got) <= 2)
    ctx.check("circles that meet have a common point", len(got) >= 1)
    if not got:
        return
    ctx.reach(("none", "one", "two")[len(got)])
    ctx.hint(ctx.ge(r1, h))
    ctx.hint(ctx.ge(r1, u))
    ctx.hint(ctx.ge(r1, -u))
    ctx.hint(ctx.any(ctx.le(r1, h + u), ctx.le(r1, h - u)))
    ctx.hint(ctx.all(ctx.le(c, 1), ctx.ge(c, -1)))
    ctx.hint(ctx.all(ctx.le(s, 1), ctx.ge(s, -1)))
    for k in (1, -1):
        x, y = ax + u * c - k * h * s, ay + u * s + k * h * c
        ctx.check("each common point is returned", ctx.any(*[near(ctx, q, x, y, 2e-5) for q in got]))
    if len(got) == 1:
        ctx.check("one point only when they touch", ctx.le(h, 1e-5))
    else:
        p, q = got
        ctx.check("two different points", ctx.gt(sq(p.x - q.x) + sq(p.y - q.y), 0))


@harness(theory="real", witnesses=("nearly touching",))
def circles_nearly_touch(ctx):
    """circles that touch but for the rounding of their radii, from outside or inside: found"""
    g = ctx.m.geometry
    ax, ay = point(ctx, "p")
    c, s = ctx.unit("dir")
    r1, r2 = ctx.real("r1", 1e-1, 10), ctx.real("r2", 1e-1, 10)
    e = ctx.real("e", -1e-10, 1e-10)
    how = ctx.pick("touching", ("outside", "first inside", "second inside"))
    d = {"outside": r1 + r2, "first inside": r2 - r1, "second inside": r1 - r2}[how]
    u = -r1 if how == "first inside" else r1
    ctx.assume(ctx.ge(d, 1e-1))
    p1, p2 = vec(ctx, ax, ay), vec(ctx, ax + (d + e) * c, ay + (d + e) * s)
    got = g.cc_int(p1, r1, p2, r2)
    ctx.reach("nearly touching")
    ctx.check("circles that touch within rounding have a point", 1 <= len(got) <= 2)
    # along the line of centres
    for q in got:
        x = (q.x - ax) * c + (q.y - ay) * s
        ctx.check("near the touching point", ctx.close(x, u, 1e-4))
    ctx.observe(u)


@harness(theory="real", witnesses=("touching",))
def circles_touch(ctx):
    """touching circles, from outside or inside: one point"""
    g = ctx.m.geometry
    ax, ay = point(ctx, "p")
    d = ctx.real("d", 1e-2, 100)
    c, s = ctx.unit("dir")
    u = ctx.real("u", -100, 100)
    # radii |u| and |d - u|
    r1, r2 = abs(u), abs(d - u)
    swapped = ctx.flag("swapped")
    p1, p2 = vec(ctx, ax, ay), vec(ctx, ax + d * c, ay + d * s)
    got = g.cc_int(p2, r2, p1, r1) if swapped else g.cc_int(p1, r1, p2, r2)
    ctx.observe(len(got))
    big = ctx.any(ctx.gt(u, 1e-3), ctx.lt(u, -1e-3))
    far = ctx.any(ctx.gt(d - u, 1e-3), ctx.lt(d - u, -1e-3))
    ctx.assume(ctx.all(big, far))
    ctx.reach("touching")
    ctx.check("touching circles have one point", len(got) == 1)
    for q in got:
        ctx.check("the touching point", near(ctx, q, ax + u * c, ay + u * s, 1e-5))


@harness(theory="real", witnesses=("concentric",))
def circles_concentric(ctx):
    g = ctx.m.geometry
    ax, ay = point(ctx, "p")
    r1, r2 = ctx.real("r1", 0), ctx.real("r2", 0)
    same = ctx.flag("equal radii")
    c, s = ctx.unit("dir")
    off = ctx.real("off", 0, 1e-9)
    got = g.cc_int(vec(ctx, ax, ay), r1, vec(ctx, ax + off * c, ay + off * s), r1 if same else r2)
    ctx.reach("concentric")
    ctx.check("concentric circles have no points", len(got) == 0)
    ctx.observe(len(got))


# ------------------------------------------------------------------ C22
def line_through(ctx):
    """any line and circle: direction (length L, cosine c, sine s), circle centre relative to
    which the line is at distance h, start at parameter a"""
    ax, ay = point(ctx, "p")
    L = ctx.real("L", 1e-3, 100)
    c, s = ctx.unit("dir")
    h, a = ctx.real("h", -100, 100), ctx.real("a", -100, 100)
    return ax, ay, L, c, s, h, a


def on_line(ax, ay, c, s, h, t):
    return ax + t * c - h * s, ay + t * s + h * c


@harness(theory="real", witnesses=("none", "one", "two"))
def line_sound(ctx):
    """any circle and line: what is returned lies on both, and is at most two points"""
    g = ctx.m.geometry
    ax, ay, L, c, s, h, a = line_through(ctx)
    r = ctx.real("r", 0, 100)
    sx, sy = on_line(ax, ay, c, s, h, a)
    p1, p2, v = vec(ctx, ax, ay), vec(ctx, sx, sy), vec(ctx, L * c, L * s)
    got = g.cl_int(p1, r, p2, v)
    ctx.check("at most two points", len(got) <= 2)
    ctx.reach(("none", "one", "two")[len(got)])
    unchanged(ctx, (p1, (ax, ay)), (p2, (sx, sy)), (v, (L * c, L * s)))
    for q in got:
        x, y = q.x - ax, q.y - ay
        across = y * c - x * s - h
        ctx.check("on the line", ctx.all(ctx.le(across, 1e-6), ctx.ge(across, -1e-6)))
        e = x * x + y * y - r * r
        lim = 2e-2 + 1e-6 * r * r
        ctx.check("on the circle", ctx.all(ctx.le(e * L * L, lim * 1e-6 + 2e-5 * r * r * L * L),
                                           ctx.ge(e * L * L, -lim * 1e-6 - 2e-5 * r * r * L * L)))
    if len(got) == 0:
        ctx.check("nothing only when the line misses", ctx.le(L * L * (r * r - h * h), 1.0001e-8))
    ctx.observe(len(got))


@harness(theory="real", witnesses=("one", "two"))
def line_complete(ctx):
    """any line meeting a circle: both points are returned; for a ray exactly those ahead"""
    g = ctx.m.geometry
    ax, ay, L, c, s, h, a = line_through(ctx)
    t = ctx.real("t", 0, 100)          # half chord
    r = ctx.sqrt(t * t + h * h)
    sx, sy = on_line(ax, ay, c, s, h, a)
    args = (vec(ctx, ax, ay), r, vec(ctx, sx, sy), vec(ctx, L * c, L * s))
    got = g.cl_int(*args)
    ctx.check("a line that meets the circle has a common point", 1 <= len(got) <= 2)
    ctx.reach("one" if len(got) == 1 else "two")
    for k in (1, -1):
        x, y = on_line(ax, ay, c, s, h, k * t)
        tol = 1e-6 if len(got) == 2 else 0.11
        ctx.check("each common point is returned", ctx.any(*[near(ctx, q, x, y, tol) for q in got]))
    if len(got) == 1:
        ctx.check("one point only when it touches", ctx.le(L * t, 1.001e-4))
    elif len(got) == 2:
        ctx.check("two points only when it crosses", ctx.gt(t, 0))
    ctx.observe(len(got))


@harness(theory="real", witnesses=("all ahead", "some ahead", "none ahead"))
def ray(ctx):
    """any circle and ray: exactly the line's points at or ahead of the start"""
    g = ctx.m.geometry
    ax, ay, L, c, s, h, a = line_through(ctx)
    t = ctx.real("t", 0, 100)
    r = ctx.sqrt(t * t + h * h)
    sx, sy = on_line(ax, ay, c, s, h, a)
    p1, p2, v = vec(ctx, ax, ay), vec(ctx, sx, sy), vec(ctx, L * c, L * s)
    got = g.cr_int(p1, r, p2, v)
    unchanged(ctx, (p1, (ax, ay)), (p2, (sx, sy)), (v, (L * c, L * s)))
    ctx.check("at most two points", len(got) <= 2)
    ctx.observe(len(got))
    tol = 0.11
    crossing = ctx.gt(t * L, 2e-4)
    for k in (1, -1):
        x, y = on_line(ax, ay, c, s, h, k * t)
        ahead = (k * t - a) * L
        has = ctx.any(*[near(ctx, q, x, y, 1e-6) for q in got])
        ctx.check("points at or ahead of the start are returned", ctx.implies(
            ctx.all(crossing, ctx.ge(ahead, 0)), has))
        ctx.check("points behind the start are not", ctx.implies(
            ctx.all(crossing, ctx.lt(ahead, -2e-4)), ctx.neg(has)))
    ctx.reach(("none ahead", "some ahead", "all ahead")[len(got)])
    for q in got:
        dot = (q.x - sx) * L * c + (q.y - sy) * L * s
        ctx.check("at or ahead of the start", ctx.ge(dot, -1.0001e-8))


@harness(theory="real", witnesses=("touching",))
def line_touch(ctx):
    """a tangent: one point, for a ray when it is not behind the start"""
    g = ctx.m.geometry
    ax, ay, L, c, s, h, a = line_through(ctx)
    sx, sy = on_line(ax, ay, c, s, h, a)
    args = (vec(ctx, ax, ay), abs(h), vec(ctx, sx, sy), vec(ctx, L * c, L * s))
    x, y = on_line(ax, ay, c, s, h, 0.0)
    ctx.reach("touching")
    got = g.cl_int(*args)
    ctx.check("a tangent has one point", len(got) == 1)
    for q in got:
        ctx.check("the touching point", near(ctx, q, x, y, 1e-5))
    got2 = g.cr_int(*args)
    ctx.check("a ray keeps the touching point exactly when it is at or ahead of the start",
              ctx.iff(len(got2) == 1, ctx.le(a * L, 1e-8)))
    ctx.observe(len(got))


@harness(theory="real", witnesses=("nearly touching",))
def line_nearly_touches(ctx):
    """a tangent but for the rounding of the radius: a point, for a ray when ahead of the start"""
    g = ctx.m.geometry
    ax, ay = point(ctx, "p")
    L, h, a = ctx.real("L", 1e-3, 1), ctx.real("h", -10, 10), ctx.real("a", -100, 100)
    c, s = ctx.unit("dir")
    sx, sy = on_line(ax, ay, c, s, h, a)
    r = abs(h) + ctx.real("e", -1e-10, 1e-10)
    ctx.assume(ctx.ge(r, 0))
    args = (vec(ctx, ax, ay), r, vec(ctx, sx, sy), vec(ctx, L * c, L * s))
    x, y = on_line(ax, ay, c, s, h, 0.0)
    got = g.cl_int(*args)
    ctx.reach("nearly touching")
    ctx.check("a line that touches within rounding has a point", 1 <= len(got) <= 2)
    for q in got:
        ctx.check("near the touching point", near(ctx, q, x, y, 0.11))
    ctx.check("so does a ray that starts before", ctx.implies(ctx.le(a, -1), len(g.cr_int(*args)) == len(got)))
    ctx.observe(h)


@harness(theory="real", witnesses=("no direction",))
def no_direction(ctx):
    g = ctx.m.geometry
    ax, ay = point(ctx, "p")
    bx, by = point(ctx, "q")
    r = ctx.real("r", 0)
    f = ctx.pick("function", (g.cl_int, g.cr_int))
    got = f(vec(ctx, ax, ay), r, vec(ctx, bx, by), vec(ctx, 0.0, 0.0))
    ctx.reach("no direction")
    ctx.check("no direction, no points", len(got) == 0)
    ctx.observe(len(got))


# ------------------------------------------------------------------ C23
def two_lines(ctx):
    """any two lines that meet: the meeting point, both directions and both parameters"""
    px, py = point(ctx, "m")
    ux, uy = point(ctx, "u")
    wx, wy = point(ctx, "w")
    a, b = ctx.real("a"), ctx.real("b")
    v1, v2 = vec(ctx, ux, uy), vec(ctx, wx, wy)
    p1, p2 = vec(ctx, px - a * ux, py - a * uy), vec(ctx, px - b * wx, py - b * wy)
    return px, py, ux, uy, wx, wy, a, b, p1, v1, p2, v2


@harness(theory="real", witnesses=("meet", "parallel", "ahead", "behind"))
def lines(ctx):
    """any two lines, line and ray, two rays"""
    g = ctx.m.geometry
    px, py, ux, uy, wx, wy, a, b, p1, v1, p2, v2 = two_lines(ctx)
    which = ctx.pick("function", ("ll_int", "lr_int", "rr_int"))
    swapped = ctx.flag("swapped")
    args = (p2, v2, p1, v1) if swapped else (p1, v1, p2, v2)
    got = getattr(g, which)(*args)
    unchanged(ctx, (p1, (px - a * ux, py - a * uy)), (p2, (px - b * wx, py - b * wy)),
              (v1, (ux, uy)), (v2, (wx, wy)))
    ctx.check("at most one point", len(got) <= 1)
    cross = ux * wy - uy * wx
    parallel = ctx.all(ctx.le(cross, 1e-8), ctx.ge(cross, -1e-8))
    ahead1, ahead2 = a * (ux * ux + uy * uy), b * (wx * wx + wy * wy)
    if swapped:
        ahead1, ahead2 = ahead2, ahead1
    ok = ctx.neg(parallel)
    if which != "ll_int":
        ok = ctx.all(ok, ctx.ge(ahead2, -1e-8))
    if which == "rr_int":
        ok = ctx.all(ok, ctx.ge(ahead1, -1e-8))
    ctx.check("a point exactly when they meet, ahead of each ray's start", ctx.iff(len(got) == 1, ok))
    for q in got:
        ctx.check("the meeting point", near(ctx, q, px, py))
        ctx.reach("meet")
        if which != "ll_int":
            ctx.reach("ahead")
    if not got:
        ctx.reach("parallel" if which == "ll_int" else "behind")
    ctx.observe(len(got))


@harness(theory="real", witnesses=("parallel",))
def parallels(ctx):
    """any two parallel lines or rays, coincident ones included, lines without direction too"""
    g = ctx.m.geometry
    p1, p2 = vec(ctx, *point(ctx, "p")), vec(ctx, *point(ctx, "q"))
    c, s = ctx.unit("dir")
    l1, l2 = ctx.real("l1"), ctx.real("l2")
    which = ctx.pick("function", ("ll_int", "lr_int", "rr_int"))
    got = getattr(g, which)(p1, vec(ctx, l1 * c, l1 * s), p2, vec(ctx, l2 * c, l2 * s))
    ctx.reach("parallel")
    ctx.check("parallel lines have no point", len(got) == 0)
    ctx.observe(len(got))


@harness(theory="real", witnesses=("meet",))
def axis_lines(ctx):
    """axis-parallel lines, given by any points"""
    g = ctx.m.geometry
    p1, p2 = point(ctx, "p"), point(ctx, "q")
    a, b = ctx.real("a"), ctx.real("b")
    ctx.assume(ctx.any(ctx.gt(a, 1e-3), ctx.lt(a, -1e-3)))
    ctx.assume(ctx.any(ctx.gt(b, 1e-3), ctx.lt(b, -1e-3)))
    first = (vec(ctx, *p1), vec(ctx, a, 0.0))
    second = (vec(ctx, *p2), vec(ctx, 0.0, b))
    got = g.ll_int(*(second + first)) if ctx.flag("vertical first") else g.ll_int(*(first + second))
    ctx.check("one point", len(got) == 1)
    for q in got:
        ctx.reach("meet")
        ctx.check("the meeting point", near(ctx, q, p2[0], p1[1]))
    ctx.observe(len(got))


# ------------------------------------------------------------------ C24
@harness(theory="real", witnesses=("clockwise", "counter-clockwise", "flat"))
def orientation(ctx):
    """any triple, moved, rotated in order, swapped and mirrored"""
    g = ctx.m.geometry
    P = [point(ctx, str(i)) for i in range(3)]
    (a, b), (c, d), (e, f) = P

    def all3(*pts):
        v = [vec(ctx, *p) for p in pts]
        r = [bool(h(*v)) for h in (g.is_clockwise, g.is_counterclockwise, g.is_flat)]
        unchanged(ctx, *zip(v, pts))
        return r
    cw, ccw, fl = all3(*P)
    ctx.check("exactly one", cw + ccw + fl == 1)
    A = (c - a) * (f - b) - (d - b) * (e - a)
    ctx.check("clockwise by signed area", ctx.iff(cw, ctx.lt(A, -1e-8)))
    ctx.check("counter-clockwise by signed area", ctx.iff(ccw, ctx.gt(A, 1e-8)))
    ctx.reach("clockwise" if cw else "counter-clockwise" if ccw else "flat")
    for q in ((P[1], P[2], P[0]), (P[2], P[0], P[1])):
        ctx.check("unchanged by rotating the order", all3(*q) == [cw, ccw, fl])
    for q in ((P[1], P[0], P[2]), (P[0], P[2], P[1]), (P[2], P[1], P[0])):
        ctx.check("flipped by swapping two", all3(*q) == [ccw, cw, fl])
    sx, sy = point(ctx, "shift")
    ctx.check("unchanged by shifting", all3(*[(x + sx, y + sy) for x, y in P]) == [cw, ccw, fl])
    ctx.check("flipped by mirroring", all3(*[(-x, y) for x, y in P]) == [ccw, cw, fl])
    ctx.check("flipped by mirroring", all3(*[(y, x) for x, y in P]) == [ccw, cw, fl])
    ctx.observe(cw, ccw, fl)


@harness(theory="real", witnesses=("done",))
def orientation_turned(ctx):
    """turning the plane keeps the orientation"""
    g = ctx.m.geometry
    P = [point(ctx, str(i)) for i in range(3)]
    c, s = ctx.unit("turn")
    T = [(x * c - y * s, x * s + y * c) for x, y in P]
    for h in (g.is_clockwise, g.is_counterclockwise, g.is_flat):
        ctx.check("unchanged by turning", bool(h(*[vec(ctx, *p) for p in P])) == bool(h(*[vec(ctx, *p) for p in T])))
    ctx.reach("done")


# ------------------------------------------------------------------ C25
def arms(ctx):
    l1, l2 = ctx.real("l1", 0), ctx.real("l2", 0)
    c, s = ctx.unit("dir")
    k, t = ctx.unit("turn")
    x, y = point(ctx, "p")
    return (l1, l2, k, t,
            [(x + l1 * c, y + l1 * s), (x, y), (x + l2 * (c * k - s * t), y + l2 * (s * k + c * t))])


@harness(theory="real", rounding=True, witnesses=("ahead", "behind"))
def aligned(ctx):
    """three points on a line, with the rounding of every division: the angle is 0 or half a turn, whatever the rounding"""
    g = ctx.m.geometry
    l1, l2 = ctx.real("l1", 1e-2, 100), ctx.real("l2", 1e-2, 100)
    c, s = ctx.unit("dir")
    x, y = point(ctx, "p", -100, 100)
    behind = ctx.flag("behind")
    k = -l2 if behind else l2
    for i in ctx.nearby(500):
        # the same in other directions (only when a counterexample is tried on doubles)
        u, v = (c, s) if not i else (c * math.cos(i) - s * math.sin(i), c * math.sin(i) + s * math.cos(i))
        P = [vec(ctx, x + l1 * u, y + l1 * v), vec(ctx, x, y), vec(ctx, x + k * u, y + k * v)]
        ang = g.angle_3p(*P)
        ctx.check("defined", ang is not None)
        ctx.check("acute exactly when ahead, obtuse when behind", bool(g.is_acute(*P)) != behind and bool(g.is_obtuse(*P)) == behind)
        if ang is not None:
            ctx.check("no turn or half a turn", ctx.close(ctx.cossin(ang)[0], -1.0 if behind else 1.0, 1e-9))
    ctx.reach("behind" if behind else "ahead")


@harness(theory="real", witnesses=("undefined", "negative", "positive"))
def angle(ctx):
    """the signed angle of any three points"""
    g = ctx.m.geometry
    l1, l2, k, t, P = arms(ctx)
    v = [vec(ctx, *p) for p in P]
    ang = g.angle_3p(*v)
    unchanged(ctx, *zip(v, P))
    short = ctx.any(ctx.le(l1, 1e-8), ctx.le(l2, 1e-8))
    ctx.check("undefined exactly when an arm has no length", ctx.iff(ang is None, short))
    ctx.observe(ang)
    if ang is None:
        ctx.reach("undefined")
        return
    ctx.check("within half a turn", ctx.all(ctx.le(ang, math.pi, 1e-9), ctx.ge(ang, -math.pi, 1e-9)))
    ca, sa = ctx.cossin(ang)
    ctx.check("the magnitude of the angle between the arms", ctx.close(ca, k))
    # counter-clockwise for the given order of points: the turn from the third arm to the first
    A = -l1 * l2 * t
    ctx.check("negative exactly for counter-clockwise triples", ctx.iff(ctx.lt(ang, 0), ctx.gt(A, 1e-8)))
    neg = ctx.decided(ctx.lt(ang, 0))
    ctx.reach("negative" if neg else "positive")
    back = g.angle_3p(v[2], v[1], v[0])
    flat = ctx.all(ctx.le(A, 1e-8), ctx.ge(A, -1e-8))
    ctx.check("defined for swapped points", back is not None)
    if back is not None:
        ctx.check("changes sign when the outer points are swapped", ctx.any(flat, ctx.close(ang + back, 0, 1e-9)))
        ctx.check("flat triples keep it", ctx.implies(flat, ctx.close(ang, back, 1e-9)))


@harness(theory="real", witnesses=("acute", "obtuse", "right", "undefined"))
def acute_obtuse(ctx):
    g = ctx.m.geometry
    l1, l2, k, t, P = arms(ctx)
    v = [vec(ctx, *p) for p in P]
    ac, ob = bool(g.is_acute(*v)), bool(g.is_obtuse(*v))
    ang = g.angle_3p(*v)
    ctx.check("never both", not (ac and ob))
    ctx.reach("undefined" if ang is None else "acute" if ac else "obtuse" if ob else "right")
    ctx.observe(ac, ob)
    if ang is None:
        ctx.check("neither for undefined angles", not ac and not ob)
        return
    mag = abs(ang)
    right = ctx.num(math.pi / 2)
    tol = ctx.num(1e-8) + ctx.num(1e-5) * right
    ctx.check("acute exactly below a right angle", ctx.iff(ac, ctx.lt(mag, right - tol)))
    ctx.check("obtuse exactly above a right angle", ctx.iff(ob, ctx.gt(mag, right + tol)))
    ctx.check("acute by the cosine", ctx.implies(ctx.gt(k, 1e-4), ac))
    ctx.check("acute by the cosine", ctx.implies(ac, ctx.gt(k, 0)))
    ctx.check("obtuse by the cosine", ctx.implies(ctx.lt(k, -1e-4), ob))
    ctx.check("obtuse by the cosine", ctx.implies(ob, ctx.lt(k, 0)))


# ------------------------------------------------------------------ C26
OPS = {"plus": lambda a, b: a + b, "minus": lambda a, b: a - b,
       "times": lambda a, b: a * b, "over": lambda a, b: a / b}


def is_vec(ctx, v, x, y):
    return ctx.all(isinstance(v, ctx.m.geometry.Vector), ctx.same(v.x, x), ctx.same(v.y, y),
                   ctx.same(v[0], x), ctx.same(v[1], y))


def spoil(v, ctx):
    """change a vector in every way it offers"""
    v.x = v.x + 1000.0
    v.y = v.y - 1000.0
    v.elements[0][0] = 77.0


@harness(theory="real", witnesses=("vector", "number", "same"))
def arithmetic(ctx):
    """every operation with vectors, real and plain numbers, on any components"""
    x, y = point(ctx, "v")
    v = vec(ctx, x, y)
    op = ctx.pick("operation", sorted(OPS))
    kind = ctx.pick("operand", ("vector", "number", "integer", "same"))
    if kind == "vector":
        ox, oy = point(ctx, "w")
        w = vec(ctx, ox, oy)
    elif kind == "same":
        ox, oy, w = x, y, v
    elif kind == "number":
        ox = oy = w = ctx.real("k")
    else:
        ox = oy = w = ctx.pick("k", (2, -3, 0))
    if op == "over":
        for o in (ox, oy):
            if isinstance(o, int):
                ctx.assume(o != 0)
            else:
                ctx.assume(ctx.any(ctx.gt(o, 1e-3), ctx.lt(o, -1e-3)))
    in_place = ctx.flag("augmented")
    r = v
    if not in_place:
        r = OPS[op](v, w)
    elif op == "plus":
        r += w
    elif op == "minus":
        r -= w
    elif op == "times":
        r *= w
    else:
        r /= w
    ctx.reach("number" if kind == "integer" else kind)
    ctx.check("componentwise", is_vec(ctx, r, OPS[op](x, ox), OPS[op](y, oy)))
    unchanged(ctx, (v, (x, y)))
    if kind == "vector":
        unchanged(ctx, (w, (ox, oy)))
    ctx.check("a new vector", r is not v and r is not w)
    spoil(r, ctx)
    unchanged(ctx, (v, (x, y)))
    if kind == "vector":
        unchanged(ctx, (w, (ox, oy)))
    ctx.observe(x, y)


@harness(theory="real", witnesses=("done",))
def unary(ctx):
    """negation, dot product, length, access, slices, origin"""
    g = ctx.m.geometry
    x, y = point(ctx, "v")
    ox, oy = point(ctx, "w")
    v, w = vec(ctx, x, y), vec(ctx, ox, oy)
    n = -v
    ctx.check("negation", is_vec(ctx, n, -x, -y))
    ctx.check("a new vector", n is not v)
    ctx.check("dot product", ctx.same(v.dot(w), x * ox + y * oy))
    ctx.check("dot product with itself", ctx.same(v.dot(v), x * x + y * y))
    ctx.check("slice", ctx.same(v[:], [x, y]))
    ctx.check("slice", ctx.same(v[0:1], [x]))
    ctx.check("slice", ctx.same(v[1:], [y]))
    ctx.check("slice", ctx.same(v[::-1], [y, x]))
    ctx.check("last element", ctx.same(v[-1], y))
    ctx.check("first element", ctx.same(v[-2], x))
    for k in (2, 3, -3, 100):
        ctx.check("two elements", isinstance(ctx.raises(lambda: v[k]), IndexError))
    ctx.check("listed", ctx.same(list(islice(iter(v), 5)), [x, y]))
    for turn in (0, 0.0, 360, -90.0):
        r = v.rotate(turn)
        ctx.check("a new vector", r is not v)
        spoil(r, ctx)
        unchanged(ctx, (v, (x, y)))
    o = g.Vector.origin()
    ctx.check("origin", o.x == 0 and o.y == 0)
    spoil(o, ctx)
    o = g.Vector.origin()
    ctx.check("origins are not shared", o.x == 0 and o.y == 0)
    unchanged(ctx, (v, (x, y)), (w, (ox, oy)))
    spoil(n, ctx)
    unchanged(ctx, (v, (x, y)))
    ctx.check("distance", ctx.same(g.distance_2p(v, w) * g.distance_2p(v, w), (x - ox) ** 2 + (y - oy) ** 2))
    ctx.check("distance is symmetric", ctx.same(g.distance_2p(v, w), g.distance_2p(w, v)))
    ctx.check("length", ctx.same(v.length * v.length, x * x + y * y))
    ctx.reach("done")
    ctx.observe(v.length)


@harness(theory="real", witnesses=("true", "false"))
def comparisons(ctx):
    """every comparison and sign test on any components"""
    x, y = point(ctx, "v")
    v = vec(ctx, x, y)
    kind = ctx.pick("other", ("any", "same", "equal x", "equal y", "equal"))
    ox, oy = point(ctx, "w")
    if kind in ("equal x", "equal"):
        ox = x
    if kind in ("equal y", "equal"):
        oy = y
    w = v if kind == "same" else vec(ctx, ox, oy)
    if kind == "same":
        ox, oy = x, y
    op = ctx.pick("comparison", ("lt", "le", "gt", "ge", "eq", "ne", "positive", "negative"))
    if op in ("positive", "negative"):
        got = bool(v.is_positive() if op == "positive" else v.is_negative())
        want = ctx.all(ctx.exact(x, ">=", 0), ctx.exact(y, ">=", 0))
        want = want if op == "positive" else ctx.neg(want)
    elif op == "ne":
        got = bool(v != w)
        want = ctx.neg(ctx.all(ctx.exact(x, "==", ox), ctx.exact(y, "==", oy)))
    else:
        got = bool({"lt": lambda: v < w, "le": lambda: v <= w, "gt": lambda: v > w, "ge": lambda: v >= w,
                    "eq": lambda: v == w}[op]())
        rel = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=="}[op]
        want = ctx.all(ctx.exact(x, rel, ox), ctx.exact(y, rel, oy))
    ctx.check("exactly when both components compare", ctx.iff(got, want))
    ctx.reach("true" if got else "false")
    unchanged(ctx, (v, (x, y)))
    ctx.observe(got)


@harness(theory="real", witnesses=("assigned",))
def assigned(ctx):
    """coordinates assigned later are what everything follows from then on"""
    g = ctx.m.geometry
    x, y = point(ctx, "v")
    nx, ny = point(ctx, "w")
    v, w = vec(ctx, x, y), vec(ctx, 3.0, 4.0)
    k = ctx.pick("assigned", ("x", "y", "both", "elements"))
    before = v.length, v.dot(w), v[0], bool(v == w), (v + w).x, v.azimuth
    if k in ("x", "both"):
        v.x = nx
    if k in ("y", "both"):
        v.y = ny
    if k == "elements":
        v.elements = [[nx], [ny]]
    x, y = nx if k != "y" else x, ny if k != "x" else y
    ctx.check("the coordinates", is_vec(ctx, v, x, y))
    ctx.check("access", ctx.same([v[0], v[1]] + v[:], [x, y, x, y]))
    ctx.check("length", ctx.same(v.length * v.length, x * x + y * y))
    ctx.check("dot product", ctx.same(v.dot(w), x * 3 + y * 4))
    ctx.check("dot product", ctx.same(w.dot(v), x * 3 + y * 4))
    ctx.check("sum", is_vec(ctx, v + w, x + 3, y + 4))
    ctx.check("negation", is_vec(ctx, -v, -x, -y))
    ctx.check("copy", is_vec(ctx, g.Vector(v), x, y))
    ctx.check("comparison", ctx.iff(bool(v == w), ctx.all(ctx.exact(x, "==", 3.0), ctx.exact(y, "==", 4.0))))
    ctx.check("distance", ctx.same(g.distance_2p(v, w) * g.distance_2p(v, w), (x - 3) ** 2 + (y - 4) ** 2))
    ctx.reach("assigned")


@harness(theory="real", witnesses=("equal", "not equal"))
def tolerant(ctx):
    """tolerant comparisons of vectors against those of their components"""
    S = ctx.m.geometry.Scalar
    x, y = point(ctx, "v")
    ox, oy = point(ctx, "w")
    v, w = vec(ctx, x, y), vec(ctx, ox, oy)
    args = ()
    if ctx.flag("tolerances given"):
        args = (ctx.real("rel", 0), ctx.real("abs", 0))
    eq = bool(v.tol_eq(w, *args))
    ex, ey = bool(S.tol_eq(x, ox, *args)), bool(S.tol_eq(y, oy, *args))
    ctx.check("equal exactly when both components are", eq == (ex and ey))
    ctx.reach("equal" if eq else "not equal")
    f = ctx.pick("function", ("gt", "lt"))
    strict = bool(getattr(v, "tol_" + f)(w, *args))
    wide = bool(getattr(v, "tol_" + {"gt": "ge", "lt": "le"}[f])(w, *args))
    sx, sy = [bool(getattr(S, "tol_" + f)(a, b, *args)) for a, b in ((x, ox), (y, oy))]
    ctx.check("strictly exactly when both components are", strict == (sx and sy))
    ctx.check("widely exactly when both components are", wide == ((sx or ex) and (sy or ey)))
    ctx.observe(eq, strict, wide)


@harness(theory="real", witnesses=("vector", "matrix", "refused"))
def copies(ctx):
    """copies, and vectors made from matrices, are independent both ways"""
    g = ctx.m.geometry
    x, y = point(ctx, "v")
    kind = ctx.pick("source", ("vector", "matrix", "product", "row", "wide", "long", "short"))
    if kind == "vector":
        src = vec(ctx, x, y)
    elif kind == "matrix":
        src = g.Matrix([[x], [y]])
    elif kind == "product":
        src = g.Matrix([[1.0, 0.0], [0.0, 1.0]]) * vec(ctx, x, y)
    else:
        bad = {"row": [[x, y]], "wide": [[x, x], [y, y]], "long": [[x], [y], [1.0]], "short": [[x]]}[kind]
        try:
            g.Vector(g.Matrix(bad))
            ctx.check("only 2-by-1 matrices are vectors", False)
        except Exception:
            ctx.check("refused", True)
        ctx.reach("refused")
        return
    v = g.Vector(src)
    ctx.reach("vector" if kind == "vector" else "matrix")
    ctx.check("same coordinates", is_vec(ctx, v, x, y))
    ctx.check("source unchanged", ctx.same(src.elements, [[x], [y]]))
    if ctx.flag("change the copy"):
        spoil(v, ctx)
        ctx.check("the source keeps its values", ctx.same(src.elements, [[x], [y]]))
    else:
        src.elements[0][0] = 5.0
        src.elements[1][0] = 6.0
        ctx.check("the copy keeps its values", is_vec(ctx, v, x, y))
    ctx.observe(x)


# ------------------------------------------------------------------ C27
@harness(theory="real", witnesses=("done",))
def rotation(ctx):
    """any vectors, any angles"""
    P, Q = point(ctx, "v"), point(ctx, "w")
    v, w = vec(ctx, *P), vec(ctx, *Q)
    a, b = ctx.angle("a"), ctx.angle("b")
    A, B = ctx.degrees(a), ctx.degrees(b)
    ca, sa = ctx.cossin(a)
    va, wa = v.rotate(A), w.rotate(A)
    unchanged(ctx, (v, P), (w, Q))
    ctx.check("turned", near(ctx, va, P[0] * ca - P[1] * sa, P[0] * sa + P[1] * ca, 1e-9))
    ctx.check("keeps the length", ctx.close(va.length, v.length, 1e-9))
    ctx.check("keeps dot products", ctx.close(va.dot(wa), v.dot(w), 1e-9))
    vab, v_ab = va.rotate(B), v.rotate(A + B)
    ctx.check("composes", near(ctx, vab, v_ab.x, v_ab.y, 1e-9))
    back = va.rotate(-A)
    ctx.check("turning back", near(ctx, back, *P, tol=1e-9))
    full = v.rotate(A + 360)
    ctx.check("a full turn changes nothing", near(ctx, full, va.x, va.y, 1e-6))
    unchanged(ctx, (v, P), (w, Q))
    ctx.check("a new vector", va is not v)
    spoil(va, ctx)
    unchanged(ctx, (v, P))
    ctx.reach("done")
    ctx.observe(vab.x, vab.y)


@harness(theory="real", witnesses=("done",))
def quarter_turns(ctx):
    P = point(ctx, "v", -1000, 1000)
    v = vec(ctx, *P)
    k = ctx.pick("quarters", tuple(range(-5, 6)))
    n = ctx.pick("number", (int, float))
    r = v.rotate(n(90 * k))
    x, y = P
    want = [(x, y), (-y, x), (-x, -y), (y, -x)][k % 4]
    ctx.check("quarter turn", near(ctx, r, want[0], want[1], 1e-9))
    unchanged(ctx, (v, P))
    r = v.rotate(45).rotate(45)
    ctx.check("two eighths", near(ctx, r, -y, x, 1e-6))
    ctx.reach("done")


PLAIN = (0.5, 29.75, 30, 45.0, 89.999, 120, 135.5, 200.25, 359, 359.5, 360.5, 400.25, 540, 765.125, 1000.25, 1e5 + 0.5)


@harness(theory="real", witnesses=("done",))
def plain_angles(ctx):
    """any vector turned by angles given as plain numbers"""
    P = point(ctx, "v", -1000, 1000)
    v = vec(ctx, *P)
    a = ctx.pick("angle", PLAIN) * ctx.pick("sign", (1, -1))
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    r = v.rotate(a)
    ctx.check("turned", near(ctx, r, P[0] * c - P[1] * s, P[0] * s + P[1] * c, 1e-6))
    ctx.check("turning back", near(ctx, r.rotate(-a), *P, tol=1e-6))
    ctx.check("in two steps", near(ctx, v.rotate(a / 2).rotate(a / 2), r.x, r.y, 1e-6))
    ctx.check("a full turn more", near(ctx, v.rotate(a + 360), r.x, r.y, 1e-6))
    unchanged(ctx, (v, P))
    ctx.reach("done")


@harness(theory="real", witnesses=("negative", "positive"))
def polar(ctx):
    """any vector is its length turned by its azimuth"""
    l = ctx.real("l", 1e-6)
    c, s = ctx.unit("dir")
    v = vec(ctx, l * c, l * s)
    az, ln = v.azimuth, v.length
    unchanged(ctx, (v, (l * c, l * s)))
    ctx.check("length", ctx.close(ln, l, 1e-9))
    ctx.check("length is not negative", ctx.ge(ln, 0))
    ctx.check("azimuth within half a turn", ctx.all(ctx.ge(az, -180.000001), ctx.le(az, 180.000001)))
    ca, sa = ctx.cossin(ctx.radians(az))
    ctx.check("azimuth is the direction", ctx.all(ctx.close(ca, c, 1e-9), ctx.close(sa, s, 1e-9)))
    r = ctx.m.geometry.Vector(ln, 0).rotate(az)
    ctx.check("polar coordinates", near(ctx, r, l * c, l * s, 1e-9))
    neg = ctx.decided(ctx.lt(az, 0))
    ctx.reach("negative" if neg else "positive")
    ctx.observe(az, ln)


# ------------------------------------------------------------------ C28
def entries(ctx, name, n, m):
    return [[ctx.real("%s%d%d" % (name, i, j)) for j in range(m)] for i in range(n)]


def matrix(ctx, rows):
    return ctx.m.geometry.Matrix([list(r) for r in rows])


def rows_of(M):
    return [list(r) for r in M.elements]


def times(A, B):
    out = []
    for r in A:
        out.append([])
        for j in range(len(B[0])):
            t = 0
            for k in range(len(B)):
                t = t + r[k] * B[k][j]
            out[-1].append(t)
    return out


def alike(ctx, A, B, tol=None):
    if len(A) != len(B) or any(len(r) != len(q) for r, q in zip(A, B)):
        return False
    return ctx.all(*[ctx.same(a, b) if tol is None else ctx.close(a, b, tol)
                     for r, q in zip(A, B) for a, b in zip(r, q)])


@harness(theory="real", witnesses=("product", "refused"))
def product(ctx):
    """any two matrices of every size"""
    if "shapes" in ctx.params:
        a, b, c, d = ctx.pick("shapes", ctx.params["shapes"])
    else:
        S = tuple(range(1, ctx.params["n"] + 1))
        a, b, c, d = [ctx.pick(k, S) for k in ("rows", "columns", "other rows", "other columns")]
    A, B = entries(ctx, "a", a, b), entries(ctx, "b", c, d)
    MA, MB = matrix(ctx, A), matrix(ctx, B)
    ctx.check("sizes", (MA.num_rows, MA.num_cols, MA.num_elements) == (a, b, a * b))
    try:
        P = MA * MB
    except Exception:
        P = None
    ctx.check("refused exactly when the sizes do not fit", (P is None) == (b != c))
    ctx.reach("refused" if P is None else "product")
    ctx.check("operands unchanged", ctx.all(alike(ctx, rows_of(MA), A), alike(ctx, rows_of(MB), B)))
    if P is not None and b == c:
        ctx.check("a matrix", isinstance(P, ctx.m.geometry.Matrix))
        ctx.check("each entry is row times column", alike(ctx, rows_of(P), times(A, B)))
        P.elements[0][0] = 99.0
        ctx.check("operands unchanged", ctx.all(alike(ctx, rows_of(MA), A), alike(ctx, rows_of(MB), B)))
        # an element changed afterwards counts from then on
        A = [list(r) for r in A]
        MA.elements[-1][-1] = A[-1][-1] = ctx.real("later")
        ctx.check("later elements", alike(ctx, rows_of(MA * MB), times(A, B)))
        ctx.check("later elements", alike(ctx, rows_of(MA.transpose()), [list(r) for r in zip(*A)]))
    ctx.observe(b == c)


@harness(theory="real", witnesses=("done",))
def transposed(ctx):
    if "shapes" in ctx.params:
        a, b = ctx.pick("shapes", ctx.params["shapes"])
    else:
        S = tuple(range(1, ctx.params["n"] + 1))
        a, b = ctx.pick("rows", S), ctx.pick("columns", S)
    A = entries(ctx, "a", a, b)
    M = matrix(ctx, A)
    T = M.transpose()
    ctx.check("rows and columns swapped", alike(ctx, rows_of(T), [[A[i][j] for i in range(a)] for j in range(b)]))
    ctx.check("twice is the original", alike(ctx, rows_of(T.transpose()), A))
    ctx.check("operand unchanged", alike(ctx, rows_of(M), A))
    T.elements[0][0] = 99.0
    ctx.check("operand unchanged", alike(ctx, rows_of(M), A))
    g = ctx.m.geometry
    I, J = g.Matrix.identity(a), g.Matrix.identity(b)
    ctx.check("identity", alike(ctx, rows_of(I), [[1.0 if i == j else 0.0 for i in range(a)] for j in range(a)]))
    ctx.check("identity is neutral", alike(ctx, rows_of(I * M), A))
    ctx.check("identity is neutral", alike(ctx, rows_of(M * J), A))
    I.elements[0][0] = 7.0
    I.elements[a - 1][0] = 7.0
    ctx.check("identities are not shared", alike(
        ctx, rows_of(g.Matrix.identity(a)), [[1.0 if i == j else 0.0 for i in range(a)] for j in range(a)]))
    ctx.reach("done")


@harness(theory="real", witnesses=("done",))
def big(ctx):
    """sizes beyond the small integers Python shares"""
    g = ctx.m.geometry
    sizes = (1, 2, 255, 256, 257, 258, 300, 1000)
    n, m = ctx.pick("columns", sizes), ctx.pick("rows", sizes)
    x, y = ctx.real("x"), ctx.real("y")
    A = g.Matrix([[x] + [1.0] * (n - 1), [2.0] * n])
    B = g.Matrix([[y]] + [[3.0] for _ in range(m - 1)])
    try:
        P = A * B
    except Exception:
        P = None
    ctx.check("refused exactly when the sizes do not fit", (P is None) == (n != m))
    if P is not None:
        ctx.check("each entry is row times column",
                  alike(ctx, rows_of(P), [[x * y + 3.0 * (n - 1)], [2.0 * y + 6.0 * (n - 1)]]))
    ctx.check("sizes", (A.num_rows, A.num_cols, B.num_rows, B.num_cols) == (2, n, m, 1))
    T = B.transpose()
    ctx.check("rows and columns swapped", (T.num_rows, T.num_cols) == (1, m))
    ctx.reach("done")


@harness(theory="real", witnesses=("done",))
def big_inverse(ctx):
    """large square matrices are inverted, others refused"""
    g = ctx.m.geometry
    n = ctx.pick("size", (3, 256, 257, 300))
    wide = ctx.flag("not square")
    k = ctx.pick("scale", (2.0, -0.5))
    M = g.Matrix([[k if i == j else 0.0 for j in range(n + (1 if wide else 0))] for i in range(n)])
    try:
        I = M.inverse()
    except Exception:
        I = None
    ctx.check("inverted exactly when square", (I is None) == wide)
    if I is not None:
        E = rows_of(I)
        ctx.check("sizes", len(E) == n and all(len(r) == n for r in E))
        ctx.check("the inverse", all(abs(E[i][j] - (1 / k if i == j else 0)) < 1e-9
                                     for i in range(n) for j in range(n)))
    ctx.reach("done")


@harness(theory="real", witnesses=("inverse", "singular", "refused"))
def inverse(ctx):
    n = ctx.params["n"]
    m = ctx.pick("columns", tuple(range(1, 4))) if ctx.flag("not square") else n
    A = entries(ctx, "a", n, m)
    M = matrix(ctx, A)
    try:
        I = M.inverse()
    except Exception:
        I = None
    ctx.check("operand unchanged", alike(ctx, rows_of(M), A))
    if n != m:
        ctx.check("refused when not square", I is None)
        ctx.reach("refused")
        return
    if I is None:
        ctx.check("refused only when not invertible", ctx.rel(det(A), "==", 0))
        ctx.reach("singular")
        return
    ctx.reach("inverse")
    E = [[1.0 if i == j else 0.0 for i in range(n)] for j in range(n)]
    ctx.check("times the inverse is the identity", alike(ctx, times(A, rows_of(I)), E, 1e-6))
    ctx.check("the inverse times is the identity", alike(ctx, times(rows_of(I), A), E, 1e-6))
    I.elements[0][0] = 99.0
    ctx.check("operand unchanged", alike(ctx, rows_of(M), A))
    if n > 2:
        return
    # an element changed afterwards counts from then on
    M.elements[0][0] = A[0][0] = ctx.real("later")
    try:
        I = M.inverse()
    except Exception:
        I = None
    if I is None:
        ctx.check("refused only when not invertible", ctx.rel(det(A), "==", 0))
    else:
        ctx.check("later elements", alike(ctx, times(A, rows_of(I)), E, 1e-6))


def det(A):
    if len(A) == 1:
        return A[0][0]
    t = 0
    for j in range(len(A)):
        t = t + (-1) ** j * A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]])
    return t


@harness(theory="real", witnesses=("solution",))
def solution(ctx):
    n = ctx.params["n"]
    A = entries(ctx, "a", n, n)
    M = matrix(ctx, A)
    if n == 2 and ctx.flag("vector"):
        x, y = point(ctx, "b")
        B, R = [[x], [y]], vec(ctx, x, y)
    else:
        B = entries(ctx, "b", n, ctx.pick("right hand sides", (1, 2)))
        R = matrix(ctx, B)
    try:
        X = M.solve(R)
    except Exception:
        X = None
    ctx.check("operands unchanged", ctx.all(alike(ctx, rows_of(M), A), alike(ctx, rows_of(R), B)))
    if X is None:
        ctx.check("refused only when not invertible", ctx.rel(det(A), "==", 0))
        return
    ctx.reach("solution")
    ctx.check("satisfies the equations", alike(ctx, times(A, rows_of(X)), B, 1e-6))
    if n > 2:
        return
    # elements changed afterwards count from then on
    R.elements[0][0] = B[0][0] = ctx.real("later right")
    if ctx.flag("both"):
        M.elements[0][0] = A[0][0] = ctx.real("later")
    try:
        X = M.solve(R)
    except Exception:
        X = None
    if X is None:
        ctx.check("refused only when not invertible", ctx.rel(det(A), "==", 0))
    else:
        ctx.check("later elements", alike(ctx, times(A, rows_of(X)), B, 1e-6))


@harness(theory="real", witnesses=("done",))
def mixed_numbers(ctx):
    """integers, floats and any numbers side by side"""
    def fill(name, rows, columns, values):
        kind = ctx.pick("kinds " + name, ("integers", "integer first", "integer last", "integer first, others any"))
        out = []
        for k in range(rows * columns):
            whole = {"integers": True, "integer last": k == rows * columns - 1}.get(kind, k == 0)
            out.append(int(values[k]) if whole else ctx.real("%s%d" % (name, k), -100, 100) if "any" in kind else values[k] + 0.5)
        return [out[i * columns:(i + 1) * columns] for i in range(rows)]
    A, B = fill("a", 2, 2, (3, 1, -1, 4)), fill("b", 2, ctx.pick("columns", (1, 2)), (1, 2, -2, 0))
    ctx.assume(ctx.any(ctx.gt(det(A), 1e-2), ctx.lt(det(A), -1e-2)))
    M, R = matrix(ctx, A), matrix(ctx, B)
    ctx.check("product", alike(ctx, rows_of(M * R), times(A, B), 1e-6))
    ctx.check("transpose", alike(ctx, rows_of(M.transpose()), [list(r) for r in zip(*A)]))
    try:
        X, I = M.solve(R), M.inverse()
    except Exception:
        ctx.check("refused only when not invertible", ctx.rel(det(A), "==", 0))
    else:
        ctx.check("satisfies the equations", alike(ctx, times(A, rows_of(X)), B, 1e-6))
        ctx.check("the inverse", alike(ctx, times(A, rows_of(I)), [[1.0, 0.0], [0.0, 1.0]], 1e-6))
    ctx.check("operands unchanged", ctx.all(alike(ctx, rows_of(M), A), alike(ctx, rows_of(R), B)))
    ctx.reach("done")


@harness(theory="real", witnesses=("done",))
def columns(ctx):
    """vectors as 2-by-1 matrices"""
    g = ctx.m.geometry
    x, y = point(ctx, "v")
    v = vec(ctx, x, y)
    ctx.check("sizes", (v.num_rows, v.num_cols, v.num_elements) == (2, 1, 2))
    ctx.check("transpose", alike(ctx, rows_of(v.transpose()), [[x, y]]))
    A = entries(ctx, "a", 2, 2)
    M = matrix(ctx, A)
    P = M * v
    ctx.check("matrix times vector", alike(ctx, rows_of(P), times(A, [[x], [y]])))
    Q = v.transpose() * M
    ctx.check("row times matrix", alike(ctx, rows_of(Q), times([[x, y]], A)))
    ctx.check("back to a vector", is_vec(ctx, g.Vector(P), *[r[0] for r in times(A, [[x], [y]])]))
    ctx.check("operands unchanged", ctx.all(alike(ctx, rows_of(M), A), alike(ctx, rows_of(v), [[x], [y]])))
    ctx.check("dot product", alike(ctx, rows_of(v.transpose() * v), [[x * x + y * y]]))
    ctx.reach("done")


# ------------------------------------------------------------------ C36
@harness(theory="real", witnesses=("up", "down", "kept"))
def rounded(ctx):
    """rounding a matrix or a vector to any number of decimals"""
    g = ctx.m.geometry
    a, b = ctx.pick("shape", ctx.params["shapes"])
    p = ctx.pick("decimals", (None, 4, 3, 2, 0, -1))
    unit = 10.0 ** -(4 if p is None else p)
    A = [[ctx.real("a%d%d" % (i, j), -1e3, 1e3) for j in range(b)] for i in range(a)]
    kind = ctx.pick("kind", ("matrix", "vector", "derived") if (a, b) == (2, 1) else ("matrix", "derived"))

    class Own(g.Matrix):
        pass
    if kind == "vector":
        M = g.Vector(A[0][0], A[1][0])
        other = g.Vector(M)
    else:
        M = (g.Matrix if kind == "matrix" else Own)([list(r) for r in A])
        other = g.Matrix([list(r) for r in A])
    ask = (lambda x: x.round()) if p is None else (lambda x: x.round(p)) if ctx.flag("positional") else (lambda x: x.round(precision=p))
    ask(M)
    R = rows_of(M)
    ctx.check("size kept", len(R) == a and all(len(r) == b for r in R))
    for i in range(a):
        for j in range(b):
            r, x = R[i][j], A[i][j]
            ctx.check("nearest", ctx.close(r, x, unit * 0.5000001))
            whole = r / unit
            ctx.check("a multiple of the unit", ctx.close(math.floor(whole + 0.5), whole, 1e-6))
    first = (R[0][0], A[0][0])
    ctx.reach("kept" if ctx.decided(ctx.rel(first[0] - first[1], "==", 0)) else "up" if ctx.decided(ctx.rel(first[0] - first[1], ">=", 0)) else "down")
    if kind == "vector":
        ctx.check("coordinates", ctx.all(ctx.same(M.x, R[0][0]), ctx.same(M.y, R[1][0])))
    ctx.check("others unchanged", alike(ctx, rows_of(other), A))
    # an element changed afterwards is rounded the next time; the others stay
    y = ctx.real("y", -1e3, 1e3)
    M.elements[a - 1][b - 1] = y
    ask(M)
    Q = rows_of(M)
    for i in range(a):
        for j in range(b):
            if (i, j) == (a - 1, b - 1):
                ctx.check("again nearest", ctx.close(Q[i][j], y, unit * 0.5000001))
            else:
                ctx.check("again unchanged", ctx.close(Q[i][j], R[i][j], 1e-9))


# ------------------------------------------------------------------ C29
@harness(theory="real", witnesses=("frame", "none"))
def frame(ctx):
    """any two points; the frame on them"""
    g = ctx.m.geometry
    ax, ay = point(ctx, "a")
    d = ctx.real("d", 0)
    c, s = ctx.unit("dir")
    a, b = vec(ctx, ax, ay), vec(ctx, ax + d * c, ay + d * s)
    how = ctx.pick("scaled", ("no", "scaled", "keyword"))
    F = g.make_hcs(a, b) if how == "no" else g.make_hcs_scaled(a, b) if how == "scaled" else g.make_hcs(a, b, scale=True)
    unchanged(ctx, (a, (ax, ay)), (b, (ax + d * c, ay + d * s)))
    ctx.check("none exactly when the points coincide", ctx.iff(F is None, ctx.le(d, ctx.num(1e-8))))
    ctx.observe(F is None)
    if F is None:
        ctx.reach("none")
        return
    ctx.reach("frame")
    k = 1.0 if how == "no" else d
    ctx.check("origin and axes", alike(ctx, rows_of(F), [[k * c, -k * s, ax], [k * s, k * c, ay], [0.0, 0.0, 1.0]]))
    F.elements[0][2] = 1e3
    F.elements[0][0] = 1e3
    unchanged(ctx, (a, (ax, ay)), (b, (ax + d * c, ay + d * s)))


@harness(theory="real", witnesses=("done",))
def frame_change(ctx):
    """from any frame to any other: origins and axes go to origins and axes"""
    g = ctx.m.geometry
    F = []
    for name in ("from", "to"):
        o = point(ctx, name)
        d = ctx.real(name + "d", 1e-3)
        c, s = ctx.unit(name + "dir")
        make = g.make_hcs_scaled if ctx.flag(name + " scaled") else g.make_hcs
        F.append(make(vec(ctx, *o), vec(ctx, o[0] + d * c, o[1] + d * s)))
    before = [rows_of(f) for f in F]
    T = g.cs_transform_matrix(*F)
    ctx.check("frames unchanged", ctx.all(*[alike(ctx, rows_of(f), r) for f, r in zip(F, before)]))
    ctx.check("the frame goes to the frame", alike(ctx, times(rows_of(T), before[0]), before[1], 1e-6))
    ctx.check("affine", alike(ctx, [rows_of(T)[2]], [[0.0, 0.0, 1.0]], 1e-9))
    U = g.cs_transform_matrix(F[1], F[0])
    E = [[1.0 if i == j else 0.0 for i in range(3)] for j in range(3)]
    ctx.check("back and forth", alike(ctx, times(rows_of(U), rows_of(T)), E, 1e-6))
    N = g.cs_transform_matrix(F[0], F[0])
    ctx.check("to itself", alike(ctx, rows_of(N), E, 1e-6))
    ctx.reach("done")
