"""The concrete twin of the symbolic context: runs a harness on one assignment
against the unmodified code under test.  Needs nothing but the repository's own
Python (no z3)."""
import math

from .shared import Shared, name_text, plain_name


class Abandon(BaseException):
    """the assignment does not decide an assumption (or misses it)"""


class Name(object):
    """a hashable name; equality, hash and truth are given"""
    __slots__ = ("k", "h", "t", "label", "text")

    def __init__(self, k, h, t, label, text):
        self.k, self.h, self.t, self.label, self.text = k, h, t, label, text

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.k == o.k if isinstance(o, Name) else NotImplemented

    def __ne__(self, o):
        return self.k != o.k if isinstance(o, Name) else NotImplemented

    def __bool__(self):
        return self.t

    def __repr__(self):
        return self.text

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


HASHES = (lambda k: k + 1,
          lambda k: 64 - 9 * k,
          lambda k: 7,
          lambda k: (k * 5 + 3) % 16,
          lambda k: (k + 1) // 2 * (5 if k % 2 else -5))

SLACK = 1e-9


def _num(x):
    return isinstance(x, (int, float)) or type(x).__name__.startswith("float")


class Conc(Shared):
    symbolic = False

    def __init__(self, mods, assignment, opts=None):
        self.m = mods
        self.a = assignment
        self.values = assignment.get("inputs", {})
        self.opts = opts or {}
        self.theory = self.opts.get("theory", "int")
        self.hash_variant = assignment.get("hash_variant", 0)
        self.falsy = assignment.get("falsy_class")
        self.fresh = 1000
        self.ufs = {}
        for f, args, r in assignment.get("uf", []):
            self.ufs[(f, tuple(int(x) for x in args))] = int(r)
        self.failures = []
        self.unclear = []
        self.observed = []
        self.reached = set()

    # inputs
    def choice(self, name, n):
        v = self.values.get(name)
        k = int(v[1]) if v else 0
        return k if k < n else 0

    def flag(self, name):
        return bool(self.choice(name, 2))

    def flag_term(self, name):
        return self.flag(name)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def hashing(self, name, variants=(0, 1, 2)):
        if self.hash_variant < 10:
            self.hash_variant = variants[self.choice(name, len(variants))]

    def plain_kind(self):
        kinds = self.params.get("plain")
        if kinds:
            self.hash_variant = kinds[self.choice("name kind", len(kinds))]

    def atom(self, name):
        v = self.values.get(name)
        k = int(v[1]) if v else -1
        if k < 0:
            k = self.fresh
            self.fresh += 1
        if self.hash_variant >= 10:
            return plain_name(self.hash_variant, k)
        return Name(k, HASHES[self.hash_variant](k), self.falsy != k, name, name_text(self.hash_variant, k, name))

    def atoms(self, prefix, n, distinct=False):
        return [self.atom("%s%d" % (prefix, i)) for i in range(n)]

    def int(self, name):
        v = self.values.get(name)
        return int(v[1]) if v else 0

    def uf(self, fname, *args):
        if any(a is None for a in args):
            # no value: a function of the others, one for each pattern
            fname += "_" + "".join("n" if a is None else "v" for a in args)
            args = [a for a in args if a is not None]
        k = (fname, tuple(int(a) for a in args))
        r = self.ufs.get(k)
        if r is None:
            h = 1469598103
            for x in repr(k):
                h = (h * 16777619 ^ ord(x)) % 1000000007
            r = self.ufs[k] = h % 100003
        return r

    def pred(self, fname, *args):
        return self.uf("p_" + fname, *args) > 0

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        x = float(v[1]) if v else 0.0
        if lo is not None and x < lo - 1e-12 or hi is not None and x > hi + 1e-12:
            raise Abandon("input out of range")
        return x

    def nearby(self, n):
        return range(n)

    def num(self, x):
        return float(x)

    def angle(self, name):
        v = self.values.get(name)
        return float(v[1]) if v else 0.0

    def degrees(self, x):
        return math.degrees(x)

    def radians(self, x):
        return math.radians(x)

    def cossin(self, x):
        return math.cos(x), math.sin(x)

    def sqrt(self, x):
        return math.sqrt(max(0.0, x))

    def unit(self, name):
        # quarter turns are exact
        return tuple(0.0 if abs(x) < 1e-15 else x for x in self.cossin(self.angle(name)))

    def double(self, name):
        v = self.values.get(name)
        return float.fromhex(v[1]) if v else 0.0

    # conditions: True, False or None (too close to call)
    def rel(self, a, op, b=0):
        if isinstance(a, int) and isinstance(b, int):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if self.theory == "fp":
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        d = float(a) - float(b)
        s = SLACK * (1.0 + abs(float(a)) + abs(float(b)))
        if math.isnan(d):
            return False
        if op in ("<", "<="):
            return True if d < -s else False if d > s else (True if op == "<=" and a == 0 == b else None)
        if op in (">", ">="):
            return True if d > s else False if d < -s else (True if op == ">=" and a == 0 == b else None)
        if op == "==":
            return True if abs(d) <= s else False
        return False if abs(d) <= s else True

    def close(self, a, b, tol=1e-6):
        d = abs(float(a) - float(b))
        if math.isnan(d):
            return False
        if d <= tol:
            return True
        return False if d > 1.5 * tol + SLACK * (1.0 + abs(float(a)) + abs(float(b))) else None

    def all(self, *cs):
        if any(c is False for c in cs):
            return False
        return None if any(c is None for c in cs) else True

    def any(self, *cs):
        if any(c is True for c in cs):
            return True
        return None if any(c is None for c in cs) else False

    def neg(self, c):
        return None if c is None else not c

    def eq(self, a, b):
        return a == b

    def iff(self, a, b):
        return None if a is None or b is None else a == b

    def exact(self, a, op, b):
        """comparison of values the code does not compute"""
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def ite(self, c, a, b):
        return a if c else b

    def forall_names(self, label, k, universe, pred):
        import itertools
        names = list(universe) + [Name(-7, 7, True, "other", "<name>")]
        for qs in itertools.product(names, repeat=k):
            self.check(label, pred(*qs))

    def same(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all(*[self.same(x, y) for x, y in zip(a, b)])
        if _num(a) and _num(b):
            if isinstance(a, int) and isinstance(b, int) or self.theory != "real":
                return a == b
            return self.rel(a, "==", b)
        return bool(a == b)

    def assume(self, cond):
        if cond is not True:
            raise Abandon("assumption")

    def hint(self, cond):
        pass

    def decided(self, cond):
        if cond is None:
            raise Abandon("undecided condition")
        return cond

    def check(self, label, cond):
        if cond is False:
            self.failures.append(label)
        elif cond is None:
            self.unclear.append(label)

    def observe(self, *vals):
        self.observed.append(list(vals))

    def note_native(self, x):
        return x


class RealModules(object):
    """the code under test, imported in the ordinary way"""

    def __init__(self, repo):
        import sys
        import logging
        import warnings
        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        if repo not in sys.path:
            sys.path.insert(0, repo)
        for n in [k for k in sys.modules if k == "solver" or k.startswith("solver.")]:
            del sys.modules[n]

    def __getattr__(self, n):
        import importlib
        path = {"graph": "solver.graph", "method": "solver.method", "geometry": "solver.geometry",
                "constraint": "solver.geometric.constraint", "cluster": "solver.geometric.cluster",
                "relation": "solver.geometric.relation",
                "configuration": "solver.geometric.configuration"}[n]
        return importlib.import_module(path)

    def load(self, name):
        import importlib
        return importlib.import_module(name)
