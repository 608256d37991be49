"""What harnesses may call on either kind of context (symbolic or concrete)."""


# how names print, along with the way they hash: all alike, in order, in reverse order, in any order
TEXTS = ("<name>",
         lambda k: "n%05d" % k,
         lambda k: "%05d" % (99999 - k),
         lambda k: "%d" % (k * 7 % 16 + 16 * k),
         lambda k: "n" * (1 + k * 7 % 5) + str(k))


def name_text(variant, k, label):
    """with colliding hashes, equal names may print differently (as 1 and 1.0 do)"""
    f = TEXTS[variant]
    t = f if isinstance(f, str) else f(k)
    return "%s/%s" % (t, label) if variant == 2 else t


class Shared(object):
    # ---- conditions built from the primitive rel / all / any / neg
    def le(self, a, b, tol=0.0):
        return self.rel(a, "<=", b + tol if tol else b)

    def lt(self, a, b):
        return self.rel(a, "<", b)

    def ge(self, a, b, tol=0.0):
        return self.rel(a, ">=", b - tol if tol else b)

    def gt(self, a, b):
        return self.rel(a, ">", b)

    def implies(self, a, b):
        return self.any(self.neg(a), b)

    def close(self, a, b, tol=1e-6):
        d = a - b
        return self.all(self.rel(d, "<=", tol), self.rel(d, ">=", -tol))

    def close_point(self, p, q, tol=1e-6):
        return self.all(self.close(p.x, q.x, tol), self.close(p.y, q.y, tol))

    # ---- assertions
    def check_same(self, label, a, b):
        self.check(label, self.same(a, b))

    def check_close(self, label, a, b, tol=1e-6):
        self.check(label, self.close(a, b, tol))

    def fail(self, label):
        self.check(label, False)

    def raises(self, f, *a, **k):
        """the Exception f raises, or None"""
        try:
            f(*a, **k)
        except Exception as e:
            return e
        return None

    def reach(self, label):
        """reachability witness"""
        self.reached.add(label)

    # ---- collections of plain and symbolic things
    def check_set(self, label, got, want):
        """got lists exactly the members of want, each once (by ==)"""
        got = list(got)
        want = list(want)
        for w in want:
            n = sum(1 for g in got if g == w)
            self.check(label + ": missing or repeated", n == 1)
        self.check(label + ": extra", len(got) == len(want))

    def index_of(self, seq, x):
        for i, y in enumerate(seq):
            if y == x:
                return i
        return -1


# names that are ordinary Python objects (no two of a palette are equal): variants from 10 on
PLAIN = (
    (None, "", 0, ("a", 1), "_b", -1, 2.5, "a", frozenset(("z",)), "A", ("a",), "n10"),
    ("c", "_a", "b", "", "a", "c_", "10", "9", "x y", "B", "None", "a1"),
    (1, 0, -1, -2, 10, 5, 3, 7, 2, -3, 100, 64),
    ((), ("b", "a"), "None", ("a", "b"), None, 0.5, b"a", ("a", ("b",)), "b", 1 << 61, (0,), "__"),
)


def plain_name(variant, k):
    p = PLAIN[variant - 10]
    return p[k] if k < len(p) else ("more", k)


def plain_index(variant, x):
    for k, y in enumerate(PLAIN[variant - 10]):
        if y == x and type(y) is type(x):
            return k
    return x[1]
