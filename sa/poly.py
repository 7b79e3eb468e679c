"""Exact-enough multivariate polynomials and rational functions: the value domain of the analysis.

Coefficients are fixed-point integers with FRAC fractional bits (absolute error 2^-FRAC per
operation, far below every tolerance used), monomials are packed integers with 16 bits of exponent
per variable, so that multiplying monomials is integer addition.
"""
from fractions import Fraction
import struct

FRAC = 320
ONE = 1 << FRAC


class Vars:
    """Registry of the symbolic inputs of one analysis."""

    def __init__(self):
        self.ids = {}
        self.names = []

    def mono(self, name):
        i = self.ids.get(name)
        if i is None:
            i = len(self.names)
            self.ids[name] = i
            self.names.append(name)
        return 1 << (16 * i)


VARS = Vars()


def reset_vars():
    VARS.ids.clear()
    VARS.names.clear()


def mono_str(m):
    if m == 0:
        return '1'
    out = []
    i = 0
    while m:
        e = m & 65535
        if e:
            out.append(VARS.names[i] + ('' if e == 1 else '^%d' % e))
        m >>= 16
        i += 1
    return '*'.join(out)


def to_fixed(x):
    """Fraction, int or float to fixed point (exact for every double above 2^-FRAC)."""
    if isinstance(x, int):
        return x << FRAC
    f = Fraction(x)
    return (f.numerator << FRAC) // f.denominator


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(x):
        c = to_fixed(x)
        return Poly({0: c} if c else {})

    @staticmethod
    def var(name):
        return Poly({VARS.mono(name): ONE})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and 0 in self.t)

    def const_fixed(self):
        return self.t.get(0, 0)

    def const_value(self):
        return Fraction(self.t.get(0, 0), ONE)

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) - c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return Poly(r)

    def __mul__(self, o):
        a, b = self.t, o.t
        if len(a) > len(b):
            a, b = b, a
        r = {}
        if len(a) == 1:
            (m1, c1), = a.items()
            if c1 == ONE:
                return Poly({m1 + m: c for m, c in b.items()})
            for m2, c2 in b.items():
                s = (c1 * c2) >> FRAC
                if s:
                    r[m1 + m2] = s
            return Poly(r)
        if len(a) * len(b) > 40000000:
            raise OverflowError('polynomial product of %d x %d terms' % (len(a), len(b)))
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = r.get(m, 0) + c1 * c2
        return Poly({m: c >> FRAC for m, c in r.items() if c >> FRAC})

    def scale(self, fx):
        return Poly({m: (c * fx) >> FRAC for m, c in self.t.items() if (c * fx) >> FRAC})

    def key(self):
        return frozenset(self.t.items())

    def maxabs(self):
        return max((abs(c) for c in self.t.values()), default=0)

    def close(self, o, tol):
        """Coefficient-wise comparison; tol is relative to max(1, largest coefficient)."""
        return self.worst(o) <= tol * max(1.0, float(Fraction(max(self.maxabs(), o.maxabs()), ONE)))

    def worst(self, o):
        w = 0
        for m, c in self.t.items():
            w = max(w, abs(c - o.t.get(m, 0)))
        for m, c in o.t.items():
            if m not in self.t:
                w = max(w, abs(c))
        return float(Fraction(w, ONE)) if w < (ONE << 900) else float('inf')

    def diff(self, name):
        m1 = VARS.mono(name)
        sh = m1.bit_length() - 1
        r = {}
        for m, c in self.t.items():
            e = (m >> sh) & 65535
            if e:
                r[m - m1] = r.get(m - m1, 0) + c * e
        return Poly(r)

    def degree(self, name):
        sh = VARS.mono(name).bit_length() - 1
        return max(((m >> sh) & 65535 for m in self.t), default=0)

    def names(self):
        s = 0
        for m in self.t:
            s |= m
        out, i = [], 0
        while s:
            if s & 65535:
                out.append(VARS.names[i])
            s >>= 16
            i += 1
        return out

    def subst(self, name, p):
        """Replace variable name by polynomial p."""
        m1 = VARS.mono(name)
        sh = m1.bit_length() - 1
        groups = {}
        for m, c in self.t.items():
            e = (m >> sh) & 65535
            groups.setdefault(e, {})[m - e * m1] = c
        if list(groups) in ([], [0]):
            return self
        r = Poly()
        pw = Poly.const(1)
        for e in range(0, max(groups) + 1):
            if e in groups:
                r = r + Poly(groups[e]) * pw
            pw = pw * p
        return r

    def eval(self, env):
        """Value at a point: env maps names to Fractions; missing names count as 0."""
        p = self
        for n in self.names():
            p = p.subst(n, Poly.const(env.get(n, 0)))
        return p.const_value()

    def __repr__(self):
        if not self.t:
            return '0'
        items = sorted(self.t.items(), key=lambda mc: (-abs(mc[1]), mc[0]))
        s = ' + '.join('%.17g*%s' % (safe_float(c), mono_str(m)) if m else '%.17g' % safe_float(c)
                       for m, c in items[:8])
        return s + (' + ... (%d terms)' % len(items) if len(items) > 8 else '')


def safe_float(c):
    try:
        return float(Fraction(c, ONE))
    except OverflowError:
        return float('inf') if c > 0 else float('-inf')


class RF:
    """num / den; den is None for polynomials."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den

    @staticmethod
    def const(x):
        return RF(Poly.const(x))

    @staticmethod
    def var(n):
        return RF(Poly.var(n))

    def is_const(self):
        return self.den is None and self.num.is_const()

    def __add__(self, o):
        if self.den is None and o.den is None:
            return RF(self.num + o.num)
        if self.den is not None and o.den is not None and self.den.t == o.den.t:
            return RF(self.num + o.num, self.den)
        d1, d2 = self.den or P1, o.den or P1
        return RF(self.num * d2 + o.num * d1, d1 * d2)

    def __neg__(self):
        return RF(-self.num, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.den is None and o.den is None:
            return RF(self.num * o.num)
        d1, d2 = self.den, o.den
        n = self.num * o.num
        if d1 is None:
            return RF(n, d2)
        if d2 is None:
            return RF(n, d1)
        return RF(n, d1 * d2)

    def recip(self):
        """1/self; None when self is identically zero."""
        if self.num.is_zero():
            return None
        if self.num.is_const():
            c = self.num.const_fixed()
            inv = (ONE * ONE) // c
            return RF((self.den or P1).scale(inv))
        return RF(self.den or P1, self.num)

    def close(self, o, tol):
        if self.den is None and o.den is None:
            return self.num.close(o.num, tol)
        d1, d2 = self.den or P1, o.den or P1
        if d1.close(d2, tol) and self.num.close(o.num, tol):
            return True
        return (self.num * d2).close(o.num * d1, tol)

    def __repr__(self):
        return repr(self.num) if self.den is None else '(%r)/(%r)' % (self.num, self.den)


P1 = Poly.const(1)


def double_from_hex(h):
    return struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
