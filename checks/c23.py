"""C23: cube and simplex extents, lengths and volumes are those of the declared geometry."""
from math import factorial
from sa.core import around, Job, compile_fail_job
from sa.query import *
from sa.wit import *

EXPLANATION = ('Minimum, maximum, length and volume of cubes and simplices are derived by constant propagation for many triples (minimum, maximum, '
               'divisor), including the extremes of int, and 1..6 dimensions, at run time and in constant expressions, and compared with the exact '
               'rationals to a few units in the last place of the requested type. Degenerate extents and divisors must be rejected.')
ASSUMPTIONS = ['the listed triples stand for all (every sign, coprime and common factors, divisors above and below the extents, extremes of int)']
RULE = 'constant propagation through the IR; value within n ulp of the exact rational; compile-fail witnesses'
MIN = 900
I0, I1 = -2**31, 2**31 - 1
EXT = [(-1, 1, 1), (0, 1, 1), (-1, 1, 2), (-3, 5, 7), (2, 9, 3), (-9, -2, 4), (0, 7, 10), (-1, 0, 1), (1, 2, 1000), (-5, 11, 1), (I0, I1, 1), (I0, I0 + 1, 3), (I1 - 1, I1, I1), (-2, I1, I1), (0, 16777217, 1),
       (-12, 6, 3), (5, 6, 1), (-100, 3, 7), (3, 2000, 1234567), (-7, 1000003, 65537), (1, 2001, 2001), (-1999999, 1999999, 1000001)]


def make(real, cls, n, std, bounds, exts):
    src = inc('ncube', 'nsimplex')
    def L(v):
        return '(-2147483647-1)' if v == I0 else str(v)
    fns = ['minCoord', 'maxCoord', 'length', 'volume']
    for k, e in enumerate(exts):
        src += 'using X%d = %s< %s, %d, %s >;\n' % (k, cls, real, n, ', '.join(map(L, e)))
        for f in fns:
            src += 'extern "C" %s %s%d() { return X%d::%s(); }\n' % (real, f, k, k, f)
            src += 'extern "C" %s %s_c%d() { constexpr %s r = X%d::%s(); return r; }\n' % (real, f, k, real, k, f)

    def verify(mod, ctx):
        u = Fraction(1, 2 ** (53 if real == 'double' else 24))
        for k, (lo, hi, dv) in enumerate(exts):
            l = Fraction(hi - lo, dv)
            want = dict(minCoord=(Fraction(lo, dv), 3), maxCoord=(Fraction(hi, dv), 3), length=(l, 4),
                        volume=(l ** n / (1 if cls == 'NCube' else factorial(n)), 6 * n))
            for f in fns:
                for suf, how in (('', 'run time'), ('_c', 'compile time')):
                    for sp, o in outcomes(mod, ctx, '%s%s%d' % (f, suf, k), []):
                        what = '%s< %s, %d, %d, %d, %d >::%s() (%s)' % (cls, real, n, lo, hi, dv, f, how)
                        if not returns(ctx, o, what):
                            continue
                        v = o.value
                        w, m = want[f]
                        ok = isinstance(v, RF) and v.is_const() and abs(v.num.const_value() - w) <= m * u * abs(w)
                        ctx.ob(ok, what, 'is %r, expected %.17g' % (v, w), loc_str(o.loc))
    return Job('%s< %s, %d > c++%s b%d %s' % (cls, real, n, std, bounds, exts[0]), src, verify, std=std, bounds=bounds)


def build(tier):
    jobs = []
    n = 0
    for cls in ('NCube', 'NSimplex'):
        for d in list(range(1, 9)) + around(11, 14, 3):
            for real in ('double', 'float'):
                for std, b in (('17', False), ('20', True), ('23', False)):
                    n += 1
                    if tier == 'quick' and std != ('17', '20', '23')[n // 3 % 3]:
                        continue
                    ex = EXT if real == 'double' else [e for e in EXT if max(map(abs, e)) < 2**24 or d == 1 or tier == 'thorough']
                    if real == 'float' and d > 3 or d > 8:
                        ex = [e for e in ex if max(map(abs, e)) < 2**24 and Fraction(e[1] - e[0], e[2]) ** d / factorial(d) > Fraction(1, 10**30)]   # other volumes leave the range of float
                    jobs.append(make(real, cls, d, std, b, ex))
        cases = []
        for real in ('double', 'float'):
            for f in ('length()', 'volume()', 'minCoord()', 'maxCoord()', 'numVertices()'):
                g = 'auto f() { return %s< %s, 2, -1, 1, 1 >::%s; }' % (cls, real, f)
                for lo, hi, dv in ((1, 1, 1), (2, 1, 1), (0, 0, 3), (-1, 1, 0), (-1, 1, -1), (1, -1, -1)):
                    if tier == 'quick' and (len(cases) % 3 or real == 'float') and f != 'length()':
                        cases.append(None)
                        continue
                    cases.append(('%s< %s, 2, %d, %d, %d >::%s' % (cls, real, lo, hi, dv, f), g, g.replace('-1, 1, 1', '%d, %d, %d' % (lo, hi, dv))))
        cases = [c for c in cases if c]
        for k in range(0, len(cases), 6):
            jobs.append(compile_fail_job('%s extents %d' % (cls, k), inc('ncube', 'nsimplex'), cases[k:k + 6], std='17' if k % 4 else '20'))
    return jobs
