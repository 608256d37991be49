"""C30-C34: configurations of named points."""
from collections import OrderedDict
from itertools import combinations, permutations

from .common import harness
from .geometry import vec, point, alike, times, rows_of, near, is_vec

TOL = 1e-6


class Points(dict):
    """a user's own kind of dictionary, which makes up what is missing"""

    def __missing__(self, k):
        self[k] = None

    def copy(self):
        return Points(self)


def names(ctx, n, order=True):
    """n different names, hashed so that sets list them in every order"""
    ctx.hashing("hash", ctx.params.get("hashes", (0, 2)))
    a = ctx.atoms("n", n, True)
    if order and n > 1:
        perms = list(permutations(range(n))) if n <= ctx.params.get("orders", 3) else \
            [tuple(range(n)), tuple(reversed(range(n)))]
        p = ctx.pick("order", perms)
        a = [a[i] for i in p]
    return a


def config(ctx, ns, pts, backwards=False):
    items = list(zip(ns, pts))
    if backwards:
        items.reverse()
    m = {}
    for n, p in items:
        m[n] = vec(ctx, *p)
    return ctx.m.configuration.Configuration(m)


def intact(ctx, c, ns, pts, label="operands are not changed"):
    """c holds exactly these names and points"""
    ctx.check(label, len(list(c.vars())) == len(ns) and all(any(n == v for v in c.vars()) for n in ns))
    for n, p in zip(ns, pts):
        ctx.check(label, is_vec(ctx, c.get(n), *p))


def moved(p, motion):
    k, t, mx, my = motion
    return p[0] * k - p[1] * t + mx, p[0] * t + p[1] * k + my


def motion(ctx, name="move"):
    k, t = ctx.unit(name)
    mx, my = point(ctx, name, -1000, 1000)
    return k, t, mx, my


def placed(base, dirn, e, f):
    """the point at e along and f across a direction"""
    return base[0] + e * dirn[0] - f * dirn[1], base[1] + e * dirn[1] + f * dirn[0]


def coordinates(ctx, name, n, big=100, lo=0):
    """any n points, at least lo apart: the first, the second at a distance in a direction, the
    others in the frame of these two; -> points, the distance, the frame coordinates of the
    others"""
    base = point(ctx, name, -big, big)
    dirn = ctx.unit(name + "dir")
    d = ctx.real(name + "d", lo, big)
    pts, rest = [base, placed(base, dirn, d, 0.0)], []
    for i in range(2, n):
        e, f = ctx.real("%se%d" % (name, i), -big, big), ctx.real("%sf%d" % (name, i), -big, big)
        if lo:
            lim = ctx.num(lo) * ctx.num(lo)
            for u, v in [(0.0, 0.0), (d, 0.0)] + rest:
                ctx.assume(ctx.ge((e - u) * (e - u) + (f - v) * (f - v), lim))
        rest.append((e, f))
        pts.append(placed(base, dirn, e, f))
    return pts[:n], d, rest


def places(ctx, name, n, kind, big=100, lo=0):
    """n points: any, or some of them exactly at one place"""
    if kind == "any":
        return coordinates(ctx, name, n, big, lo)[0]
    if kind.isupper():
        # the same letter, the same place
        at = coordinates(ctx, name, len(set(kind)), big, lo)[0]
        return [at[ord(k) - ord("A")] for k in kind][:n]
    p, q = coordinates(ctx, name, 2, big, lo)[0]
    return {"first two": [p, p] + [q] * (n - 2), "last two": [p] * (n - 2) + [q, q],
            "outer two": [p] + [q] * (n - 2) + [p], "all": [p] * n}[kind]


def dist2(p, q):
    return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2


def area(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def xy(v):
    return v.x, v.y


# ------------------------------------------------------------------ C30
def affine(ctx, name):
    """any invertible affine map, with any homogeneous weight"""
    k = ctx.pick(name, ("any", "rotation", "translation", "scaling", "weighted"))
    z, one = 0.0, 1.0
    if k == "rotation":
        c, s = ctx.unit(name + "dir")
        return [[c, -s, z], [s, c, z], [z, z, one]]
    if k == "translation":
        x, y = point(ctx, name)
        return [[one, z, x], [z, one, y], [z, z, one]]
    if k == "scaling":
        a, b = point(ctx, name)
        return [[a, z, z], [z, b, z], [z, z, one]]
    R = [[ctx.real("%s%d%d" % (name, i, j)) for j in range(3)] for i in range(2)]
    w = one
    if k == "weighted":
        w = ctx.real(name + "w", 1e-2, 100)
        if ctx.flag(name + " negative"):
            w = -w
    return R + [[z, z, w]]


def image(R, p):
    return ((R[0][0] * p[0] + R[0][1] * p[1] + R[0][2]) / R[2][2],
            (R[1][0] * p[0] + R[1][1] * p[1] + R[1][2]) / R[2][2])


@harness(theory="real", witnesses=("transformed",))
def transform(ctx):
    """any points, any affine map"""
    n = ctx.pick("points", tuple(range(ctx.params["n"] + 1)))
    ns = names(ctx, n, False)
    P = [point(ctx, "p%d" % i) for i in range(n)]
    c = config(ctx, ns, P)
    R = affine(ctx, "t")
    M = ctx.m.geometry.Matrix([list(r) for r in R])
    T = c.transform(M)
    ctx.reach("transformed")
    ctx.check("a configuration", isinstance(T, ctx.m.configuration.Configuration))
    ctx.check("a new one", T is not c)
    ctx.check("the same names", sorted(map(id, T.vars())) == sorted(map(id, ns)))
    for a, p in zip(ns, P):
        x, y = image(R, p)
        ctx.check("the image of each point", near(ctx, T.get(a), x, y, 1e-6))
    intact(ctx, c, ns, P)
    ctx.check("the matrix is not changed", alike(ctx, rows_of(M), R))
    ctx.observe(*[T.get(a).x for a in ns])


@harness(theory="real", witnesses=("transformed",))
def projected(ctx):
    """any points, any matrix that gives each of them a weight of its own"""
    n = ctx.params["n"]
    ns = names(ctx, n, False)
    P = [point(ctx, "p%d" % i) for i in range(n)]
    c = config(ctx, ns, P)
    R = [[ctx.real("t%d%d" % (i, j)) for j in range(3)] for i in range(3)]
    W = []
    for i, p in enumerate(P):
        w = R[2][0] * p[0] + R[2][1] * p[1] + R[2][2]
        ctx.assume(ctx.ge(w, 0.01) if not ctx.flag("negative%d" % i) else ctx.le(w, -0.01))
        W.append(w)
    T = c.transform(ctx.m.geometry.Matrix([list(r) for r in R]))
    ctx.reach("transformed")
    for a, p, w in zip(ns, P, W):
        q = T.get(a)
        for k, v in ((0, q.x), (1, q.y)):
            ctx.check("the image of each point", ctx.close(v * w, R[k][0] * p[0] + R[k][1] * p[1] + R[k][2], 1e-6))
    intact(ctx, c, ns, P)


@harness(theory="real", witnesses=("again",))
def reuse(ctx):
    """transforming again, with the same matrix or one changed in between, the same points or moved ones"""
    ns = names(ctx, 2, False)
    P = [point(ctx, "p%d" % i) for i in range(2)]
    c = config(ctx, ns, P)
    R, S = affine(ctx, "t"), affine(ctx, "u")
    M = ctx.m.geometry.Matrix([list(r) for r in R])
    how = ctx.pick("changed", ("nothing", "elements", "rows", "another matrix", "another configuration"))
    first = c.transform(M)
    if how == "elements":
        for i in range(3):
            for j in range(3):
                M.elements[i][j] = S[i][j]
        R = S
    elif how == "rows":
        M.elements = [list(r) for r in S]
        R = S
    elif how == "another matrix":
        M = ctx.m.geometry.Matrix([list(r) for r in S])
        R = S
    elif how == "another configuration":
        P = P[::-1]
        c = config(ctx, ns, P)
    again = c.transform(M)
    ctx.reach("again")
    ctx.check("a new one", again is not first)
    for a, p in zip(ns, P):
        x, y = image(R, p)
        ctx.check("the image of each point", near(ctx, again.get(a), x, y, 1e-6))
    intact(ctx, c, ns, P)


@harness(theory="real", witnesses=("done",))
def transform_laws(ctx):
    """identity, composition"""
    ns = names(ctx, 2, False)
    P = [point(ctx, "p%d" % i) for i in range(2)]
    c = config(ctx, ns, P)
    g = ctx.m.geometry
    I = c.transform(g.Matrix.identity(3))
    intact(ctx, I, ns, P, "the identity changes nothing")
    R, Q = affine(ctx, "r"), affine(ctx, "q")
    r, q = [g.Matrix([list(x) for x in m]) for m in (R, Q)]
    twice, once = c.transform(r).transform(q), c.transform(q * r)
    for a in ns:
        ctx.check("twice is the product", near(ctx, twice.get(a), once.get(a).x, once.get(a).y, 1e-6))
    ctx.check("the matrices are not changed", ctx.all(alike(ctx, rows_of(r), R), alike(ctx, rows_of(q), Q)))
    intact(ctx, c, ns, P)
    ctx.reach("done")


@harness(theory="real", witnesses=("done",))
def rigid_motion(ctx):
    """rotations and shifts keep distances and handedness"""
    ns = names(ctx, 3, False)
    P = [point(ctx, "p%d" % i) for i in range(3)]
    c = config(ctx, ns, P)
    k, t, mx, my = motion(ctx)
    T = c.transform(ctx.m.geometry.Matrix([[k, -t, mx], [t, k, my], [0.0, 0.0, 1.0]]))
    Q = [xy(T.get(a)) for a in ns]
    for i, j in combinations(range(3), 2):
        ctx.check("distances", ctx.close(dist2(Q[i], Q[j]), dist2(P[i], P[j])))
    ctx.check("handedness", ctx.close(area(*Q), area(*P)))
    ctx.reach("done")


# ------------------------------------------------------------------ C31
@harness(theory="real", witnesses=("merged",))
def merge(ctx):
    """two configurations whose common points have the same shape; any points besides"""
    nc, na, nb = ctx.params["common"], ctx.pick("only first", ctx.params.get("first", (0, 1))), ctx.params["second"]
    ns = names(ctx, nc + na + nb)
    com, first, second = ns[:nc], ns[nc:nc + na], ns[nc + na:]
    back = ctx.flag("backwards")
    P = places(ctx, "p", nc, ctx.pick("coinciding", ctx.params.get("coinciding", ("any",))), lo=1e-3)
    mo = motion(ctx)
    A1 = [point(ctx, "a%d" % i, -100, 100) for i in range(na)]
    # the points of the second configuration, before they were moved
    B0 = [point(ctx, "b%d" % i, -100, 100) for i in range(nb)]
    Bc = [moved(p, mo) for p in P]
    Bo = [moved(p, mo) for p in B0]
    a = config(ctx, com + first, P + A1, back)
    b = config(ctx, com + second, Bc + Bo)
    T, mark = a.transformation_matrix(b)
    M, mark2 = a.merge(b)
    ctx.reach("merged")
    intact(ctx, a, com + first, P + A1)
    intact(ctx, b, com + second, Bc + Bo)
    ctx.check("the names of both", sorted(map(id, M.vars())) == sorted(map(id, ns)))
    for n, p in zip(com + first, P + A1):
        ctx.check("the first keeps its points", is_vec(ctx, M.get(n), *p))
    # where the move takes the common points
    for p, q in zip(P, Bc):
        r = times(rows_of(T), [[q[0]], [q[1]], [1.0]])
        ctx.check("common points overlap", ctx.all(ctx.close(r[0][0], p[0], TOL), ctx.close(r[1][0], p[1], TOL),
                                                   ctx.close(r[2][0], 1.0, 1e-9)))
    N = [xy(M.get(n)) for n in second]
    # relative to the first common point, which is moved exactly
    o, oc = P[0], Bc[0]
    for (x, y), (u, v) in zip(N, Bo):
        ctx.check("distances to the common points", ctx.close(dist2((x, y), o), dist2((u, v), oc), 1e-4))
    for i, j in combinations(range(nb), 2):
        ctx.check("distances among the moved points", ctx.close(dist2(N[i], N[j]), dist2(Bo[i], Bo[j]), 1e-4))
        ctx.check("handedness", ctx.close(area(o, N[i], N[j]), area(oc, Bo[i], Bo[j]), 1e-4))
    if nc >= 2:
        apart = ctx.any(*[ctx.gt(dist2(p, q), 1e-12) for p, q in combinations(P, 2)])
        for (x, y), (u, v) in zip(N, B0):
            ctx.check("moved to the one place", ctx.implies(apart, ctx.all(
                ctx.close(x, u, 1e-5), ctx.close(y, v, 1e-5))))
    ctx.observe(bool(mark), *[n[0] for n in N])


@harness(theory="real", witnesses=("merged",))
def merge_any(ctx):
    """any two configurations: the move is a rotation and shift, whatever the shapes"""
    nc, nb = ctx.params["common"], 2
    ns = names(ctx, nc + 1 + nb)
    com, first, second = ns[:nc], ns[nc:nc + 1], ns[nc + 1:]
    P, _, _ = coordinates(ctx, "p", nc)
    Q, _, _ = coordinates(ctx, "q", nc)
    A1 = [point(ctx, "a", -100, 100)]
    Bo = [point(ctx, "b%d" % i, -100, 100) for i in range(nb)]
    a, b = config(ctx, com + first, P + A1), config(ctx, com + second, Q + Bo)
    M, _ = a.merge(b)
    ctx.reach("merged")
    intact(ctx, a, com + first, P + A1)
    intact(ctx, b, com + second, Q + Bo)
    ctx.check("the names of both", sorted(map(id, M.vars())) == sorted(map(id, ns)))
    for n, p in zip(com + first, P + A1):
        ctx.check("the first keeps its points", is_vec(ctx, M.get(n), *p))
    N = [xy(M.get(n)) for n in second]
    ctx.check("distances among the moved points", ctx.close(dist2(*N), dist2(*Bo), 1e-4))
    T, _ = a.transformation_matrix(b)
    T = rows_of(T)
    (k, l, _), (m, n, _) = T[0], T[1]
    ctx.check("a rotation and shift", ctx.all(ctx.close(k * k + m * m, 1, 1e-6), ctx.close(k, n, 1e-6),
                                              ctx.close(l, -m, 1e-6), alike(ctx, [T[2]], [[0.0, 0.0, 1.0]], 1e-9)))
    for n_, p in zip(second, Bo):
        r = times(T, [[p[0]], [p[1]], [1.0]])
        ctx.check("the points only in the second are moved", near(ctx, M.get(n_), r[0][0], r[1][0], 1e-6))
    ctx.observe(*[n_[0] for n_ in N])


# ------------------------------------------------------------------ C32
@harness(theory="real", witnesses=("marked", "not marked"))
def mark(ctx):
    """any common and other points, anywhere, marked or not before"""
    nc = ctx.params["common"]
    na, nb = ctx.pick("others", ctx.params["others"])
    ctx.params.setdefault("orders", 3)
    ns = names(ctx, nc + na + nb, ctx.params.get("order", False))
    com, first, second = ns[:nc], ns[nc:nc + na], ns[nc + na:]
    P, Q = [coordinates(ctx, n, nc)[0] if nc else [] for n in ("p", "q")]
    for pts, n in ((P, "first"), (Q, "second")):
        if nc >= 2:
            # all at one place, or the first two, or the last two, exactly
            k = ctx.pick(n + " coinciding", ctx.params.get("coinciding", ("any", "first two", "all")))
            if k.isupper():
                pts[:] = [pts[ord(c) - ord("A")] for c in k]
            elif k == "first two":
                pts[1] = pts[0]
            elif k == "all":
                pts[:] = [pts[0]] * nc
    rest = [(1.0 * i, 2.0) for i in range(4)]
    a = config(ctx, com + first, P + rest[:na])
    b = config(ctx, com + second, Q + rest[:nb])
    ma, mb = ctx.flag("first marked"), ctx.flag("second marked")
    a.underconstrained, b.underconstrained = ma, mb
    M, m = a.merge(b)
    T, m2 = a.transformation_matrix(b)
    m, m2 = bool(m), bool(m2)
    want = ma or mb or nc == 0 or (nc == 1 and na + nc > 1 and nb + nc > 1)
    if nc >= 2 and not want:
        lim = ctx.num(1e-8) * ctx.num(1e-8)
        want = ctx.neg(ctx.any(*[ctx.all(ctx.gt(dist2(P[i], P[j]), lim), ctx.gt(dist2(Q[i], Q[j]), lim))
                                 for i, j in combinations(range(nc), 2)]))
    ctx.check("underconstrained exactly when not unique", ctx.iff(m, want))
    ctx.reach("marked" if m else "not marked")
    ctx.check("the transformation reports the same", m2 == m)
    ctx.check("the merged configuration carries the mark", bool(M.underconstrained) == m)
    ctx.check("the inputs keep their marks", bool(a.underconstrained) == ma and bool(b.underconstrained) == mb)
    ctx.check("a copy carries the mark", bool(M.copy().underconstrained) == m)
    ctx.observe(m)


@harness(theory="real", witnesses=("marked", "not marked"))
def mark_many(ctx):
    """many common points, some of them at one place in either configuration, in some orders"""
    pats = ctx.params["patterns"]
    one, two = ctx.pick("first coinciding", pats), ctx.pick("second coinciding", pats)
    n, na, nb = len(one), ctx.pick("only first", (0, 2)), ctx.pick("only second", (0, 1))
    ns = names(ctx, n + na + nb)
    P, Q = places(ctx, "p", n, one, lo=1e-3), places(ctx, "q", n, two, lo=1e-3)
    rest = [(1.0 * i, 2.0) for i in range(4)]
    a = config(ctx, ns[:n] + ns[n:n + na], P + rest[:na])
    b = config(ctx, ns[:n] + ns[n + na:], Q + rest[:nb])
    a.underconstrained = ctx.flag("first marked")
    want = bool(a.underconstrained) or not any(one[i] != one[j] and two[i] != two[j] for i, j in combinations(range(n), 2))
    M, m = a.merge(b)
    ctx.check("underconstrained exactly when not unique", bool(m) == want)
    ctx.check("the merged configuration carries the mark", bool(M.underconstrained) == want)
    M, m = b.merge(a)
    ctx.check("underconstrained exactly when not unique", bool(m) == want)
    ctx.check("the merged configuration carries the mark", bool(M.underconstrained) == want)
    ctx.check("the first keeps its mark", not b.underconstrained)
    ctx.reach("marked" if want else "not marked")
    ctx.observe(bool(m))


@harness(theory="real", witnesses=("marked", "not marked"))
def chain(ctx):
    """merges of merges and copies keep reporting"""
    ns = names(ctx, 6, False)
    apart1, apart2 = ctx.flag("first apart"), ctx.flag("second apart")
    d1, d2 = [ctx.real(n, 1e-3, 100) if f else 0.0 for n, f in (("d1", apart1), ("d2", apart2))]
    c, s = ctx.unit("dir")
    x, y = point(ctx, "p", -100, 100)
    A = [(x, y), (x + d1 * c, y + d1 * s)]
    B = [(0.0, 0.0), (d2, 0.0)]
    k = ctx.pick("common", (0, 1, 2))
    n2 = ns[2 - k:4 - k]
    a, b = config(ctx, ns[:2], A), config(ctx, n2, B)
    m, u = a.merge(b)
    u = bool(u)
    ctx.check("underconstrained exactly when not unique", u == (k < 2 or not apart1 or not apart2))
    # a third configuration that shares two points that are apart with the merged one
    if ctx.flag("copied"):
        m = m.copy()
    two = ns[:2]
    if not apart1:
        ctx.assume(apart2 and k < 2)
        two = n2
    p, q = m.get(two[0]), m.get(two[1])
    third = config(ctx, two + [ns[5]], [xy(p), xy(q), (5.0, 5.0)])
    if ctx.flag("third first"):
        r, w = third.merge(m)
    else:
        r, w = m.merge(third)
    ctx.check("later merges still report it", bool(w) == u and bool(r.underconstrained) == u)
    rr, w2 = r.merge(config(ctx, two, [xy(p), xy(q)]))
    ctx.check("and the ones after", bool(w2) == u and bool(rr.underconstrained) == u)
    ctx.check("unmarked configurations stay so", not third.underconstrained and not a.underconstrained
              and not b.underconstrained)
    ctx.reach("marked" if u else "not marked")
    ctx.observe(u)


# ------------------------------------------------------------------ C33
def shapes(ctx, n):
    """n points given by frame coordinates, as in `coordinates`, but apart"""
    return coordinates(ctx, "p", n)


@harness(theory="real", witnesses=("equal",))
def equal_moved(ctx):
    """a configuration and itself rotated and shifted, coinciding points or not"""
    n = ctx.params["n"]
    ns = names(ctx, n)
    # different places are clearly apart
    P = places(ctx, "p", n, ctx.pick("coinciding", ctx.params.get("coinciding", ("any",))), lo=1e-3)
    mo = motion(ctx)
    Q = [moved(p, mo) for p in P]
    a, b = config(ctx, ns, P, ctx.flag("backwards")), config(ctx, ns, Q)
    a.underconstrained = ctx.flag("marked")
    ctx.check("equal when moved", bool(a == b))
    ctx.check("equal when moved", not bool(a != b))
    ctx.check("symmetric", bool(b == a))
    ctx.check("reflexive", bool(a == a) and bool(a == a.copy()) and not bool(a != a))
    ctx.check("equal hashes", hash(a) == hash(b))
    intact(ctx, a, ns, P)
    intact(ctx, b, ns, Q)
    ctx.check("marks are kept", not b.underconstrained)
    ctx.reach("equal")


@harness(theory="real", witnesses=("compared",))
def several(ctx):
    """one configuration compared and merged with several others of the same names, one after the other"""
    ns = names(ctx, 4)
    P = coordinates(ctx, "p", 2, lo=1e-3)[0]
    E = point(ctx, "e", -100, 100)                  # only in the others
    m1, m2 = motion(ctx, "m"), motion(ctx, "l")
    com, far = ns[:2], ns[2:3]
    a = config(ctx, com, P)
    others = [config(ctx, com + far, [moved(p, m) for p in P + [E]]) for m in (m1, m2)]
    big = config(ctx, com, [moved((x * 2, y * 2), m1) for x, y in P])
    flip = config(ctx, com, [moved(p, m2) for p in P])
    for k, b in enumerate(others + others):
        M, mark = a.merge(b)
        x, y = M.get(far[0]).x, M.get(far[0]).y
        ctx.check("moved to the one place", ctx.all(ctx.close(x, E[0], 1e-5), ctx.close(y, E[1], 1e-5)))
        ctx.check("not marked", not mark)
        ctx.check("other names are unequal", not bool(a == b))
        ctx.check("a moved copy is equal", bool(a == flip) and bool(flip == a))
        ctx.check("a scaled one is not", not bool(a == big) and not bool(big == a))
        T = b.transform(ctx.m.geometry.Matrix([[1.0, 0.0, 5.0 + k], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]))
        q = moved(P[0], (m1, m2)[k % 2])
        ctx.check("transformed", near(ctx, T.get(com[0]), q[0] + 5.0 + k, q[1], 1e-6))
    others[1].underconstrained = True
    M, mark = a.merge(others[1])
    ctx.check("a mark set later counts", bool(mark) and bool(M.underconstrained))
    M, mark = a.merge(others[0])
    ctx.check("not marked", not mark and not M.underconstrained)
    intact(ctx, a, com, P)
    ctx.reach("compared")


@harness(theory="real", witnesses=("equal", "unequal"))
def equal_pair(ctx):
    """any two pairs of points"""
    ns = names(ctx, 2)
    P, d, _ = coordinates(ctx, "p", 2, lo=1e-3)
    Q, e, _ = coordinates(ctx, "q", 2, lo=1e-3)
    k = ctx.pick("coinciding", ("none", "first", "second", "both"))
    if k in ("first", "both"):
        P[1], d = P[0], 0.0
    if k in ("second", "both"):
        Q[1], e = Q[0], 0.0
    a, b = config(ctx, ns, P), config(ctx, ns, Q, ctx.flag("backwards"))
    eq, qe = bool(a == b), bool(b == a)
    diff = ctx.any(ctx.gt(d - e, 1e-6), ctx.lt(d - e, -1e-6))
    ctx.check("unequal distances differ", ctx.implies(diff, not eq and not qe))
    ctx.check("equal distances are equal", ctx.implies(ctx.all(ctx.le(d - e, 1e-9), ctx.ge(d - e, -1e-9)), eq and qe))
    ctx.check("unequal is the opposite", bool(a != b) == (not eq))
    ctx.reach("equal" if eq else "unequal")
    ctx.observe(eq)


def three(ctx, name):
    """three points, the first two clearly apart"""
    base = point(ctx, name, -100, 100)
    dirn = ctx.unit(name + "dir")
    d = ctx.real(name + "d", 1e-2, 100)
    e, f = ctx.real(name + "e", -100, 100), ctx.real(name + "f", -100, 100)
    return [base, placed(base, dirn, d, 0.0), placed(base, dirn, e, f)], d, e, f


def polar3(ctx, name):
    """three points: the first and the two others at distances in directions from it"""
    base = point(ctx, name, -100, 100)
    dirn, (c, s) = ctx.unit(name + "dir"), ctx.unit(name + "third")
    d, l = ctx.real(name + "d", 1e-2, 100), ctx.real(name + "l", 1e-2, 100)
    return [base, placed(base, dirn, d, 0.0), placed(base, dirn, l * c, l * s)], d, l, c, s


@harness(theory="real", witnesses=("equal", "unequal"))
def equal_triple(ctx):
    """any two triangles"""
    ns = names(ctx, 3)
    # the corner the others are given from is the first one listed (else beyond reach)
    ctx.assume(ns[0] is list(set(ns))[0])
    P, d, l, c, s = polar3(ctx, "p")
    Q, d2, l2, c2, s2 = polar3(ctx, "q")
    a, b = config(ctx, ns, P), config(ctx, ns, Q)
    eq = bool(a == b)
    ctx.reach("equal" if eq else "unequal")
    if eq:
        # turning one onto the direction of the first or the second of the others
        ctx.check("equal only when a motion takes one to the other", ctx.any(
            ctx.all(ctx.le((d - d2) * (d - d2), 1e-12), ctx.le(dist2((l * c, l * s), (l2 * c2, l2 * s2)), 1e-12)),
            ctx.all(ctx.le((l - l2) * (l - l2), 1e-12), ctx.le(dist2((d * c, d * s), (d2 * c2, d2 * s2)), 1e-12))))
    ctx.observe(eq)


@harness(theory="real", witnesses=("unequal",))
def mirrored(ctx):
    """a mirror image is not equal"""
    more = ctx.params.get("more", 0)
    ns = names(ctx, 3 + more)
    if more:
        # the two points the others are given from are listed first (else beyond reach)
        listed = list(set(ns))
        ctx.assume(ns[0] is listed[0] and ns[1] is listed[1])
    P, d, e, f = three(ctx, "p")
    ctx.assume(ctx.any(ctx.gt(f, 1e-3), ctx.lt(f, -1e-3)))
    P = P + [point(ctx, "m%d" % i, -100, 100) for i in range(more)]
    mo = motion(ctx)
    k = ctx.pick("mirror", ("x", "y"))
    Q = [moved((-x, y) if k == "x" else (x, -y), mo) for x, y in P]
    a, b = config(ctx, ns, P), config(ctx, ns, Q)
    ctx.check("a mirror image is unequal", not bool(a == b) and not bool(b == a) and bool(a != b))
    ctx.reach("unequal")


@harness(theory="real", witnesses=("unequal",))
def scaled(ctx):
    """a scaled copy is not equal"""
    n = ctx.params["n"]
    ns = names(ctx, n)
    base = point(ctx, "p", -100, 100)
    dirn = ctx.unit("pdir")
    d, l = ctx.real("d", 1e-2, 100), ctx.real("l", 1e-2, 100)
    c, s = ctx.unit("third")
    P = [base, placed(base, dirn, d, 0.0), placed(base, dirn, l * c, l * s)][:n]
    k = ctx.pick("scale", ("smaller", "larger", "nothing"))
    k = 0.0 if k == "nothing" else ctx.real("k", 1e-2, 0.99) if k == "smaller" else ctx.real("k", 1.01, 100)
    mo = motion(ctx)
    Q = [moved((x * k, y * k), mo) for x, y in P]
    a, b = config(ctx, ns, P), config(ctx, ns, Q)
    ctx.check("a scaled copy is unequal", not bool(a == b) and not bool(b == a))
    ctx.reach("unequal")


@harness(theory="real", witnesses=("unequal",))
def one_moved(ctx):
    """one point further from another, or turned about it: not equal"""
    more = ctx.params.get("more", 0)
    ns = names(ctx, 3 + more)
    # the point it is further from, or turned about, is not the last one listed (beyond reach)
    listed = list(set(ns))
    ctx.assume(ns[0] is not listed[2] if not more else ns[0] is listed[0])
    base = point(ctx, "p", -100, 100)
    dirn = ctx.unit("pdir")
    d, l = ctx.real("d", 1e-2, 100), ctx.real("l", 1e-2, 100)
    c, s = ctx.unit("third")
    how = ctx.params["how"]
    l2, c2, s2 = l, c, s
    if how == "further":
        g = ctx.real("g", 1e-2, 100)
        l2 = l + g
    else:
        k, t = ctx.unit("turn")
        ctx.assume(ctx.le(k, 0.999))
        c2, s2 = c * k - s * t, c * t + s * k
    P = [base, placed(base, dirn, d, 0.0), placed(base, dirn, l * c, l * s)]
    Q = [P[0], P[1], placed(base, dirn, l2 * c2, l2 * s2)]
    # further points, clearly apart from these and each other, in the frame of the first two
    M, at = [], [(0.0, 0.0), (d, 0.0), (l * c, l * s), (l2 * c2, l2 * s2)]
    for i in range(more):
        u, v = ctx.real("mu%d" % i, -100, 100), ctx.real("mv%d" % i, -100, 100)
        for x, y in at:
            ctx.assume(ctx.ge((u - x) * (u - x) + (v - y) * (v - y), 1e-6))
        at.append((u, v))
        M.append(placed(base, dirn, u, v))
    # the two that move are apart from each other, too
    ctx.assume(ctx.ge((l * c - d) * (l * c - d) + l * s * l * s, 1e-6)) if more else None
    ctx.assume(ctx.ge((l2 * c2 - d) * (l2 * c2 - d) + l2 * s2 * l2 * s2, 1e-6)) if more else None
    # where it was put into the mappings, in either
    at = [[o for o in range(3 + more) if o != 2] for _ in "ab"]
    for o in at:
        o.insert(ctx.pick("listed", tuple(range(3 + more)) if more else (2, 0)), 2)
        if not more:
            break
    a, b = [config(ctx, [ns[i] for i in o], [V[i] for i in o]) for V, o in ((P + M, at[0]), (Q + M, at[1]))]
    ctx.check("unequal when a point is elsewhere", not bool(a == b))
    ctx.check("unequal when a point is elsewhere", not bool(b == a))
    ctx.reach("unequal")


@harness(theory="real", witnesses=("equal",))
def nearly(ctx):
    """a configuration moved, with one point off by much less than the tolerance: still equal"""
    ns = names(ctx, 3)
    P, d, l, c, s = polar3(ctx, "p")
    mo = motion(ctx)
    Q = [moved(p, mo) for p in P]
    # further along its direction from the first, which is listed first; both are far from it
    ctx.assume(ns[0] is list(set(ns))[0])
    ctx.assume(ctx.all(ctx.ge(d, 1), ctx.ge(l, 1)))
    g = ctx.real("off", -1e-9, 1e-9)
    base = P[0]
    dx, dy = (P[2][0] - base[0]) / l, (P[2][1] - base[1]) / l
    Q[2] = moved((P[2][0] + g * dx, P[2][1] + g * dy), mo)
    a, b = config(ctx, ns, P), config(ctx, ns, Q)
    ctx.check("equal within tolerance", bool(a == b) and bool(b == a) and not bool(a != b))
    ctx.reach("equal")


@harness(theory="real", witnesses=("equal", "unequal"))
def threshold(ctx):
    """points in a row, one further along it: equal well within the tolerance, unequal beyond twice of it"""
    n = ctx.params["n"]
    ns = names(ctx, n)
    base = point(ctx, "p", -100, 100)
    dirn = ctx.unit("pdir")
    d = ctx.real("d", 1e-2, 100)
    P = [placed(base, dirn, d * k, 0.0) for k in (0, 1, 3, 4, 6)[:n]]
    out = ctx.flag("beyond")
    g = ctx.real("g", 2e-8, 1e-3) if out else ctx.real("g", 0, 5e-9)
    j = ctx.choice("which", n)
    Q = list(P)
    Q[j] = placed(base, dirn, d * (0, 1, 3, 4, 6)[j] + g, 0.0)
    a, b = config(ctx, ns, P), config(ctx, ns, Q)
    for x, y in ((a, b), (b, a)):
        ctx.check("equal exactly within tolerance", bool(x == y) == (not out))
    ctx.reach("unequal" if out else "equal")


class Stranger(object):
    mapping = {}
    hashvalue = 0
    underconstrained = False


@harness(theory="real", witnesses=("same names", "other names"))
def named(ctx):
    """names decide: any two lists of up to three names, points at the same places"""
    ctx.hashing("hash", (0, 2, 4))    # 4: zero and opposite hashes
    n, m = ctx.pick("first", (0, 1, 2, 3)), ctx.pick("second", (0, 1, 2, 3))
    A = ctx.atoms("a", n, True)
    B = ctx.atoms("b", m)
    for p, q in combinations(B, 2):
        ctx.assume(not (p == q))
    P = [point(ctx, "p%d" % i) for i in range(3)]
    same = n == m and all(any(p == q for q in B) for p in A)
    ids = [next((i for i, p in enumerate(A) if p == q), None) for q in B]
    a = config(ctx, A, P[:n])
    b = config(ctx, B, [P[i] if i is not None else P[0] for i in ids])
    ctx.reach("same names" if same else "other names")
    ctx.check("equal exactly with the same names", bool(a == b) == same and bool(b == a) == same)
    ctx.check("equal hashes", not same or hash(a) == hash(b))
    for x in (None, 0, "x", Stranger(), a.mapping, A, tuple(A), ctx.m.configuration.Configuration, hash(a)):
        ctx.check("unequal to anything else", not (a == x) and a != x and not (x == a))
    ctx.observe(same)


# ------------------------------------------------------------------ C34
@harness(theory="real", witnesses=("added", "selected", "copied", "read"))
def derived(ctx):
    """reading, adding, selecting and copying, on any overlap of names"""
    ctx.hashing("hash", (0, 2))
    n, m = ctx.params["n"], ctx.params["m"]
    A = ctx.atoms("a", n, True)
    B = ctx.atoms("b", m)
    for p, q in combinations(B, 2):
        ctx.assume(not (p == q))
    P = [point(ctx, "p%d" % i) for i in range(n)]
    Q = [point(ctx, "q%d" % i) for i in range(m)]
    ma, mb = dict(zip(A, [vec(ctx, *p) for p in P])), dict(zip(B, [vec(ctx, *q) for q in Q]))
    objs = dict(ma), dict(mb)
    C = ctx.m.configuration.Configuration
    kind = ctx.pick("mapping", (dict, OrderedDict, Points))
    ma, mb = kind(ma), kind(mb)
    a, b = C(ma), C(mb)
    marked = a.underconstrained = ctx.flag("marked")
    h = hash(a), hash(b)
    op = ctx.pick("operation", ("read", "add", "select", "copy"))
    if op == "read":
        ctx.reach("read")
        r, ns, pts = a, A, P
        for k in A:
            ctx.check("the point it was created with", a.get(k) is objs[0][k])
    elif op == "add":
        ctx.reach("added")
        r = a.add(b)
        new = [i for i in range(m) if not any(B[i] == k for k in A)]
        ns, pts = A + [B[i] for i in new], P + [Q[i] for i in new]
    elif op == "select":
        ctx.reach("selected")
        chosen = [i for i in range(n) if ctx.flag("take %d" % i)]
        ns, pts = [A[i] for i in chosen], [P[i] for i in chosen]
        how = ctx.pick("given as", (list, tuple, set, iter, lambda s: s + s, lambda s: list(reversed(s))))
        r = a.select(how(ns))
    else:
        ctx.reach("copied")
        r, ns, pts = a.copy(), A, P
        ctx.check("the mark is kept", bool(r.underconstrained) == bool(a.underconstrained))
    ctx.check("a configuration", isinstance(r, C))
    ctx.check("exactly the chosen names", len(list(r.vars())) == len(ns))
    intact(ctx, r, ns, pts, "exactly the chosen points")
    ctx.check("a new configuration", op == "read" or (r is not a and r is not b))
    nobody = object()
    ctx.check("a name it does not have is refused", isinstance(ctx.raises(r.get, nobody), KeyError))
    unspoiled(ctx, a, b, A, B, P, Q, h)
    ctx.check("exactly the chosen names", len(list(r.vars())) == len(ns))
    ctx.check("the mapping it was created from is not changed", same_dict(ma, objs[0]) and same_dict(mb, objs[1]))
    # later changes to mappings
    extra = ctx.atom("extra")
    w = vec(ctx, 1.0, 2.0)
    which = ctx.pick("change", ("replace", "add", "remove", "clear"))
    for d in (ma, mb):
        if which == "replace":
            for k in list(d):
                d[k] = w
        elif which == "add":
            d[extra] = w
        elif which == "remove":
            d.pop(next(iter(d)), None)
        else:
            d.clear()
    unspoiled(ctx, a, b, A, B, P, Q, h)
    intact(ctx, r, ns, pts, "later changes to the mapping do not reach it")
    if op != "read" and which == "clear":
        r.mapping.clear()
        unspoiled(ctx, a, b, A, B, P, Q, h)
    ctx.check("the mark is kept", bool(a.underconstrained) == marked)


def same_dict(a, b):
    return len(a) == len(b) and all(k in b and a[k] is b[k] for k in a)


def unspoiled(ctx, a, b, A, B, P, Q, h):
    intact(ctx, a, A, P)
    intact(ctx, b, B, Q)
    ctx.check("hashes stay", (hash(a), hash(b)) == h)


@harness(theory="real", witnesses=("done",))
def independent(ctx):
    """merging, transforming and comparing change nothing they are given"""
    ns = names(ctx, 4)
    nc = ctx.pick("common", (0, 1, 2))
    P = [(0.0, 0.0), point(ctx, "p", 1, 100), (3.0, 4.0)]
    Q = [point(ctx, "q", 1, 100), (-2.0, 1.0)]
    A, B = ns[:3], (ns[:nc] + ns[3:] + ns[3:])[:nc + 1][:2]
    B = B[:2]
    a, b = config(ctx, A, P), config(ctx, B, Q[:len(B)])
    h = hash(a), hash(b)
    op = ctx.pick("operation", ("merge", "transform", "equal", "matrix"))
    if op == "merge":
        r, _ = a.merge(b)
        unspoiled(ctx, a, b, A, B, P, Q[:len(B)], h)
        r.mapping.clear()
    elif op == "transform":
        r = a.transform(ctx.m.geometry.Matrix.identity(3))
        r.mapping.clear()
    elif op == "equal":
        a == b
        b == a
    else:
        t, _ = a.transformation_matrix(b)
        t.elements[0][0] = 9.0
    unspoiled(ctx, a, b, A, B, P, Q[:len(B)], h)
    ctx.check("marks stay", not a.underconstrained and not b.underconstrained)
    ctx.reach("done")


@harness(theory="real", witnesses=("done",))
def many_points(ctx):
    """configurations of many points in given places, moved in any way"""
    n = ctx.params["n"]
    ctx.hashing("hash", (0, 2))
    ns = ctx.atoms("n", n, True)
    P = [(float((k * k * 7) % 31) / 4, float((k * 11) % 41) / 2 - 8.0) for k in range(n)]
    mo = motion(ctx)
    ask = ctx.params["ask"]
    ctx.reach("done")
    if ask == "equal":
        Q = [moved(p, mo) for p in P]
        a, b = config(ctx, ns, P), config(ctx, ns, Q, ctx.flag("backwards"))
        ctx.check("equal when moved", bool(a == b) and bool(b == a) and not bool(a != b) and hash(a) == hash(b))
        k = ctx.pick("changed", (n // 3, n - 3, n - 1))
        e = ctx.real("by", 1e-3, 100)
        Q[k] = moved((P[k][0] + e, P[k][1] - e), mo)
        c = config(ctx, ns, Q)
        ctx.check("one point elsewhere", not bool(a == c) and not bool(c == a))
        rest = [(x, p) for i, (x, p) in enumerate(zip(ns, P)) if i != k]
        d = config(ctx, [x for x, _ in rest], [p for _, p in rest])
        ctx.check("a name missing", not bool(a == d) and not bool(d == a))
        return
    if ask == "merge":
        first, second = n * 2 // 3, n // 3          # names 0..first-1 and second..n-1
        if ctx.flag("nearly all at one place"):
            first, second = n - 2, 2
            apart = ctx.pick("apart", (second, n // 2, first - 1))
            P = [P[k] if k < second or k >= first or k == apart else (3.25, -1.5) for k in range(n)]
            if P[apart] == (3.25, -1.5):
                P[apart] = (4.0, 7.0)
        a = config(ctx, ns[:first], P[:first])
        b = config(ctx, ns[second:], [moved(p, mo) for p in P[second:]], ctx.flag("backwards"))
        M, mark = a.merge(b)
        ctx.check("not marked", not mark and not M.underconstrained)
        ctx.check("names of both", len(list(M.vars())) == n)
        for k in range(n):
            if k < first:
                ctx.check("own points are kept", is_vec(ctx, M.get(ns[k]), *P[k]))
            else:
                ctx.check("the others in place", near(ctx, M.get(ns[k]), P[k][0], P[k][1], 1e-5))
        return
    if ask == "transform":
        T = ctx.m.geometry.Matrix([[mo[0], -mo[1], mo[2]], [mo[1], mo[0], mo[3]], [0.0, 0.0, 1.0]])
        a = config(ctx, ns, P)
        b = a.transform(T)
        ctx.check("names kept", len(list(b.vars())) == n)
        for k in range(n):
            x, y = moved(P[k], mo)
            ctx.check("each point's image", near(ctx, b.get(ns[k]), x, y, 1e-6))
        intact(ctx, a, ns, P)
        return
    a, b = config(ctx, ns[:n * 2 // 3], P[:n * 2 // 3]), config(ctx, ns[n // 3:], [moved(p, mo) for p in P[n // 3:]])
    s = a.add(b)
    intact(ctx, s, ns, P[:n * 2 // 3] + [moved(p, mo) for p in P[n * 2 // 3:]], "added")
    keep = ctx.pick("selected", (ns[::2], ns[1:], ns[:-1], ns))
    intact(ctx, s.select(keep), keep, [xy(s.get(v)) for v in keep], "selected")
    intact(ctx, s.copy(), ns, [xy(s.get(v)) for v in ns], "copied")
    intact(ctx, a, ns[:n * 2 // 3], P[:n * 2 // 3])
    intact(ctx, b, ns[n // 3:], [moved(p, mo) for p in P[n // 3:]])
