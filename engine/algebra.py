"""Exact real algebra for symbolic execution.

A value is a rational function  num / prod(base_i ** e_i)  over *symbols*:
  input symbols, and atoms defined by earlier ones -
    sqrt(P)   s >= 0, s*s = P
    abs(P)    a >= 0, a*a = P*P, a = P or a = -P
    cos/sin   of one angle key, c*c + s*s = 1
    acos(t)   see formula.py for its axioms
Polynomials are dicts {monomial: Fraction}; a monomial is a sorted tuple of
(symbol index, exponent).  Products are reduced by the defining equations, so
two expressions that are equal by the field axioms and those equations get the
same normal form in the common cases (no completeness is claimed: whatever is
left is decided by the solver).
"""
from fractions import Fraction

ONE = ()


def const_of(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise OverflowError("non-finite constant")
    return Fraction(repr(x))


class Algebra(object):
    def __init__(self):
        self.kind = []      # 'in' | 'sqrt' | 'abs' | 'cos' | 'sin' | 'acos' | 'floor'
        self.name = []
        self.arg = []       # poly for sqrt/abs, rat for acos, key for cos/sin
        self.partner = {}   # sin index <-> cos index
        self.memo = {}
        self.bases = []     # denominators: list of poly
        self.base_ix = {}
        self.base_nonneg = []
        self._sq = {}       # reducible symbol -> poly of its square
        self.nonneg = set()     # input symbols declared non-negative
        self.sign = None        # poly -> 1, -1 or None: what the path knows of its sign

    # ------------------------------------------------------------ symbols
    def symbol(self, kind, name, arg=None):
        self.kind.append(kind)
        self.name.append(name)
        self.arg.append(arg)
        return len(self.kind) - 1

    def var(self, i):
        return ({((i, 1),): Fraction(1)}, ())

    # -------------------------------------------------------- polynomials
    @staticmethod
    def padd(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            c2 = r.get(m, 0) + k * c
            if c2:
                r[m] = c2
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def pscale(a, k):
        if not k:
            return {}
        return {m: c * k for m, c in a.items()}

    @staticmethod
    def mmul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for i, e in b:
            d[i] = d.get(i, 0) + e
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        out = {}
        sq = self._sq
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                red = None
                for i, e in m:
                    if e > 1 and i in sq:
                        red = (i, e)
                        break
                c = c1 * c2
                if red is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                else:
                    t = self._reduce_mono(m, c)
                    for m3, c3 in t.items():
                        v = out.get(m3, 0) + c3
                        if v:
                            out[m3] = v
                        else:
                            out.pop(m3, None)
        return out

    def _reduce_mono(self, m, c):
        """c*m with every reducible square replaced"""
        rest, factors = [], []
        for i, e in m:
            if e > 1 and i in self._sq:
                if e % 2:
                    rest.append((i, 1))
                factors.extend([self._sq[i]] * (e // 2))
            else:
                rest.append((i, e))
        p = {tuple(rest): c}
        for f in factors:
            p = self.pmul(p, f)
        return p

    def ppow(self, a, n):
        r = {ONE: Fraction(1)}
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    @staticmethod
    def pconst(a):
        """the constant value of a, or None"""
        if not a:
            return Fraction(0)
        if len(a) == 1 and ONE in a:
            return a[ONE]
        return None

    @staticmethod
    def pkey(a):
        return frozenset(a.items())

    def _dense(self, m):
        v = [0] * len(self.kind)
        for i, e in m:
            v[i] = e
        return tuple(v)

    def plead(self, a):
        return max(a, key=self._dense)

    def pdiv(self, a, b):
        """a / b if exact (as plain polynomials), else None"""
        if not a:
            return {}
        lb = self.plead(b)
        lbd = dict(lb)
        cb = b[lb]
        q = {}
        r = dict(a)
        steps = 0
        while r:
            steps += 1
            if steps > 400:
                return None
            lr = self.plead(r)
            d = dict(lr)
            for i, e in lbd.items():
                if d.get(i, 0) < e:
                    return None
                d[i] -= e
            m = tuple(sorted((i, e) for i, e in d.items() if e))
            c = r[lr] / cb
            q[m] = q.get(m, 0) + c
            for mb, c2 in b.items():
                mm = self.mmul(m, mb)
                v = r.get(mm, 0) - c * c2
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        # plain division is only valid if the product needs no reduction
        return q if self.pmul(q, b) == a else None

    def mono_content(self, a):
        """largest monomial dividing every term"""
        it = iter(a)
        d = dict(next(it))
        for m in it:
            if not d:
                break
            md = dict(m)
            d = {i: min(e, md[i]) for i, e in d.items() if i in md}
        return tuple(sorted(d.items()))

    @staticmethod
    def pdivmono(a, mono):
        if not mono:
            return a
        r = {}
        for m, c in a.items():
            d = dict(m)
            for i, e in mono:
                d[i] -= e
            r[tuple(sorted((i, e) for i, e in d.items() if e))] = c
        return r

    # symbols that cannot be negative
    def nonneg_symbol(self, i):
        return self.kind[i] in ("sqrt", "abs", "acos") or i in self.nonneg

    def is_sos(self, a):
        """syntactically non-negative"""
        for m, c in a.items():
            if c < 0:
                return False
            for i, e in m:
                if e % 2 and not self.nonneg_symbol(i):
                    return False
        return True

    # ---------------------------------------------------- rational functions
    def const(self, x):
        c = const_of(x)
        return ({ONE: c} if c else {}, ())

    def base(self, poly):
        """index of the denominator base for poly (leading coefficient 1)"""
        k = self.pkey(poly)
        i = self.base_ix.get(k)
        if i is None:
            i = self.base_ix[k] = len(self.bases)
            self.bases.append(poly)
            self.base_nonneg.append(self.is_sos(poly))
        return i

    def _norm(self, num, den):
        """cancel"""
        if not num:
            return ({}, ())
        out = []
        for b, e in sorted(den.items()):
            p = self.bases[b]
            while e > 0:
                q = self.pdiv(num, p)
                if q is None:
                    break
                num = q
                e -= 1
            if e > 0:
                out.append((b, e))
        return (num, tuple(out))

    def add(self, x, y, k=1):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            if not d1:
                return (self.padd(n1, n2, k), ())
            return self._norm(self.padd(n1, n2, k), dict(d1))
        D1, D2 = dict(d1), dict(d2)
        L = dict(D1)
        for b, e in D2.items():
            L[b] = max(L.get(b, 0), e)
        for b, e in L.items():
            for _ in range(e - D1.get(b, 0)):
                n1 = self.pmul(n1, self.bases[b])
            for _ in range(e - D2.get(b, 0)):
                n2 = self.pmul(n2, self.bases[b])
        return self._norm(self.padd(n1, n2, k), L)

    def neg(self, x):
        return (self.pscale(x[0], -1), x[1])

    def mul(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if not d1 and not d2:
            return (self.pmul(n1, n2), ())
        D = dict(d1)
        for b, e in d2:
            D[b] = D.get(b, 0) + e
        # sqrt(p)/p * sqrt(p)/p = 1/p (cancelling before the terms are multiplied out)
        k = Fraction(1)
        if n1 and n2 and D:
            roots = dict(self.mono_content(n1))
            for i, e in self.mono_content(n2):
                if self.kind[i] != "sqrt" or i not in roots:
                    continue
                c, den, syms = self._factor(self._sq[i])
                if not syms and all(D.get(b, 0) >= f for b, f in den.items()):
                    n1, n2 = [self.pdivmono(n, ((i, 1),)) for n in (n1, n2)]
                    k = k * c
                    for b, f in den.items():
                        D[b] -= f
            D = {b: e for b, e in D.items() if e}
        n = self.pmul(n1, n2)
        return self._norm(n if k == 1 else self.pscale(n, k), D)

    def _factor(self, poly):
        """poly = const * prod(known or new bases) * prod(reducible symbols)
        -> (const, {base: e}, [symbols])"""
        den, syms = {}, []
        mono = self.mono_content(poly)
        rest = self.pdivmono(poly, mono)
        for i, e in mono:
            if self.kind[i] in ("sqrt", "abs"):
                syms.extend([i] * e)
            else:
                b = self.base({((i, 1),): Fraction(1)})
                den[b] = den.get(b, 0) + e
        c = self.pconst(rest)
        if c is None:
            for b, p in enumerate(self.bases):
                if len(p) < 2:
                    continue
                while True:
                    q = self.pdiv(rest, p)
                    if q is None:
                        break
                    rest = q
                    den[b] = den.get(b, 0) + 1
                    if self.pconst(rest) is not None:
                        break
                if self.pconst(rest) is not None:
                    break
            c = self.pconst(rest)
            if c is None:
                c = rest[self.plead(rest)]
                b = self.base(self.pscale(rest, 1 / c))
                den[b] = den.get(b, 0) + 1
        return c, den, syms

    def inv(self, x):
        """1/x; the caller has excluded x == 0"""
        n, d = x
        c, den, syms = self._factor(n)
        num = {ONE: 1 / c}
        for b, e in d:
            for _ in range(e):
                num = self.pmul(num, self.bases[b])
        for s in syms:              # 1/s = s / s^2
            num = self.pmul(num, {((s, 1),): Fraction(1)})
            c2, den2, syms2 = self._factor(self._sq[s])
            num = self.pscale(num, 1 / c2)
            for b, e in den2.items():
                den[b] = den.get(b, 0) + e
            for s2 in syms2:
                r = self.inv(self.var(s2))
                num = self.pmul(num, r[0])
                for b, e in r[1]:
                    den[b] = den.get(b, 0) + e
        return self._norm(num, den)

    def rat_const(self, x):
        return self.pconst(x[0]) if not x[1] else None

    def key(self, x):
        return (self.pkey(x[0]), x[1])

    def den_poly(self, x, odd_only=False):
        p = {ONE: Fraction(1)}
        for b, e in x[1]:
            if odd_only:
                if e % 2 == 0 or self.base_nonneg[b]:
                    continue
                e = 1
            p = self.pmul(p, self.ppow(self.bases[b], e))
        return p

    # --------------------------------------------------------------- atoms
    def sqrt_poly_atom(self, poly):
        k = ("sqrt", self.pkey(poly))
        if k not in self.memo:
            i = self.symbol("sqrt", "sqrt%d" % len(self.kind), poly)
            self._sq[i] = poly
            self.memo[k] = i
        return self.memo[k]

    def abs_poly_atom(self, poly):
        # |p| = |-p|: leading coefficient 1
        k = ("abs", self.pkey(poly))
        if k not in self.memo:
            i = self.symbol("abs", "abs%d" % len(self.kind), poly)
            self._sq[i] = self.pmul(poly, poly)
            self.memo[k] = i
        return self.memo[k]

    def pabs(self, poly):
        """|poly| as a polynomial in atoms"""
        if self.is_sos(poly):
            return poly
        c = self.pconst(poly)
        if c is not None:
            return {ONE: abs(c)}
        mono = self.mono_content(poly)
        rest = self.pdivmono(poly, mono)
        outm = {ONE: Fraction(1)}
        for i, e in mono:
            if self.nonneg_symbol(i) or e % 2 == 0:
                outm = self.pmul(outm, {((i, e),): Fraction(1)})
            else:
                if e > 1:
                    outm = self.pmul(outm, {((i, e - 1),): Fraction(1)})
                outm = self.pmul(outm, self._pabs_atom({((i, 1),): Fraction(1)}))
        c = self.pconst(rest)
        if c is not None:
            return self.pscale(outm, abs(c))
        if self.is_sos(rest):
            return self.pmul(outm, rest)
        c = rest[self.plead(rest)]
        rest = self.pscale(rest, 1 / c)
        return self.pscale(self.pmul(outm, self._pabs_atom(rest)), abs(c))

    def _pabs_atom(self, p):
        k = self.sign(p) if self.sign is not None else None
        if k is not None:
            return self.pscale(p, k)
        return {((self.abs_poly_atom(p), 1),): Fraction(1)}

    def abs(self, x):
        n = self.pabs(x[0])
        # |1/base| = 1/|base|
        r = (n, ())
        for b, e in x[1]:
            if self.base_nonneg[b] or e % 2 == 0:
                r = self.mul(r, self.inv((self.ppow(self.bases[b], e), ())))
            else:
                a = (self.pabs(self.bases[b]), ())
                ia = self.inv(a)
                for _ in range(e):
                    r = self.mul(r, ia)
        return r

    def _poly_square_root(self, p):
        """q with q*q == p, or None"""
        if not p:
            return {}
        lead = self.plead(p)
        c = p[lead]
        if c < 0 or any(e % 2 for _, e in lead):
            return None
        rc = _isqrt_frac(c)
        if rc is None:
            return None
        q = {tuple((i, e // 2) for i, e in lead): rc}
        r = self.padd(p, self.pmul(q, q), -1)
        l0, c0 = next(iter(q.items()))
        l0d = dict(l0)
        for _ in range(60):
            if not r:
                return q
            lr = self.plead(r)
            d = dict(lr)
            ok = True
            for i, e in l0d.items():
                if d.get(i, 0) < e:
                    ok = False
                    break
                d[i] -= e
            if not ok:
                return None
            m = tuple(sorted((i, e) for i, e in d.items() if e))
            if m in q or self._dense(m) >= self._dense(l0):
                return None
            q[m] = r[lr] / (2 * c0)
            r = self.padd(p, self.pmul(q, q), -1)
        return None

    def sqrt(self, x):
        """sqrt(x) for x known non-negative"""
        n, d = x
        if not n:
            return ({}, ())
        # sqrt(n / d) = sqrt(n * d_odd) / |d_...|
        num = n
        outden = ({ONE: Fraction(1)}, ())
        for b, e in d:
            p = self.bases[b]
            if e % 2:
                num = self.pmul(num, p)
                e += 1
            h = (self.ppow(p, e // 2), ())
            outden = self.mul(outden, self.abs(h))
        c = self.pconst(num)
        if c is not None:
            rc = _isqrt_frac(c)
            if rc is not None:
                r = ({ONE: rc}, ())
            else:
                # sqrt of a rational: canonical integer radicand
                m = c.numerator * c.denominator
                k, rad = _square_part(m)
                s = self.sqrt_poly_atom({ONE: Fraction(rad)})
                r = ({((s, 1),): Fraction(k, c.denominator)}, ())
        else:
            r = (self._sqrt_poly(num), ())
        return self.mul(r, self.inv(outden)) if d else r

    def _sqrt_poly(self, num):
        mono = self.mono_content(num)
        even = tuple((i, e - e % 2) for i, e in mono if e > 1)
        rest = self.pdivmono(num, even)
        out = {ONE: Fraction(1)}
        if even:
            out = self.pabs({tuple((i, e // 2) for i, e in even): Fraction(1)})
        q = self._poly_square_root(rest)
        if q is not None:
            return self.pmul(out, self.pabs(q))
        # 1 - cos^2 = sin^2
        for i in list(self._sq):
            if self.kind[i] == "sin":
                t = self.pdiv(rest, self._sq[i])
                if t is not None:
                    return self.pmul(self.pmul(out, self.pabs({((i, 1),): Fraction(1)})), self._sqrt_poly(t))
        # pull out known square factors
        for p in list(self.bases):
            if len(p) < 2:
                continue
            while True:
                t = self.pdiv(rest, p)
                t = self.pdiv(t, p) if t is not None else None
                if t is None:
                    break
                rest = t
                out = self.pmul(out, self.pabs(p))
        c = self.pconst(rest)
        lead = abs(rest[self.plead(rest)]) if c is None else c
        k = _isqrt_frac(lead)
        if k is not None and k != 1:
            rest = self.pscale(rest, 1 / lead)
            out = self.pscale(out, k)
        if self.pconst(rest) == 1:
            return out
        # a product of radicands already known: sqrt(A*B) = sqrt(A)*sqrt(B)
        for i in range(len(self.kind)):
            if self.kind[i] == "sqrt" and len(self.arg[i]) > 1:
                t = self.pdiv(rest, self.arg[i])
                if t is not None and self.is_sos(self.arg[i]) and self.pconst(t) is None:
                    return self.pmul(self.pmul(out, {((i, 1),): Fraction(1)}), self._sqrt_poly(t))
        s = self.sqrt_poly_atom(rest)
        return self.pmul(out, {((s, 1),): Fraction(1)})


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def _isqrt_frac(c):
    if c < 0:
        return None
    a, b = _isqrt(c.numerator), _isqrt(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


def _square_part(m):
    """m = k*k*rad with small square factors pulled out"""
    k = 1
    f = 2
    while f * f <= m and f < 2000:
        while m % (f * f) == 0:
            m //= f * f
            k *= f
        f += 1
    return k, m
