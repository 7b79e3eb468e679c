"""Witness text and independent specifications shared by the checks."""
from fractions import Fraction
from functools import lru_cache
from .poly import Poly, RF

HDR = {
    'basis': 'shiva/functions/bases/LagrangeBasis.hpp', 'spacing': 'shiva/functions/spacing/Spacing.hpp',
    'quad': 'shiva/functions/quadrature/Quadrature.hpp', 'prod': 'shiva/functions/bases/BasisProduct.hpp',
    'pe': 'shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp',
    'ishape': 'shiva/geometry/shapes/InterpolatedShape.hpp', 'ncube': 'shiva/geometry/shapes/NCube.hpp',
    'nsimplex': 'shiva/geometry/shapes/NSimplex.hpp', 'lt': 'shiva/geometry/mapping/LinearTransform.hpp',
    'scal': 'shiva/geometry/mapping/Scaling.hpp', 'uscal': 'shiva/geometry/mapping/UniformScaling.hpp',
    'jt': 'shiva/geometry/mapping/JacobianTransforms.hpp', 'carray': 'shiva/common/CArray.hpp',
    'index': 'shiva/common/IndexTypes.hpp', 'mi': 'shiva/common/MultiIndex.hpp', 'math': 'shiva/common/MathUtilities.hpp',
    'seq': 'shiva/common/SequenceUtilities.hpp', 'nseq': 'shiva/common/NestedSequenceUtilities.hpp',
    'err': 'shiva/common/ShivaErrorHandling.hpp', 'macros': 'shiva/common/ShivaMacros.hpp', 'pmpl': 'shiva/common/pmpl.hpp',
}
NS = ('using namespace shiva; using namespace shiva::functions; using namespace shiva::geometry;\n'
      'using namespace shiva::discretizations::finiteElementMethod;\n')


def inc(*keys):
    ks = list(keys)
    t = ''.join('#include "%s"\n' % HDR[k] for k in ks)
    t += ('namespace shiva{ namespace functions{} namespace geometry{ namespace utilities{} } '
          'namespace discretizations{ namespace finiteElementMethod{} } }\n')
    return t + NS


SPACINGS = {'E': 'EqualSpacing', 'G': 'GaussLegendreSpacing', 'L': 'GaussLobattoSpacing'}
MAXN = {'E': 12, 'G': 4, 'L': 9}
RS = {'double': 8, 'float': 4}


def basis(real, order, sp):
    return 'LagrangeBasis<%s,%d,%s>' % (real, order, SPACINGS[sp])


# ------------------------------------------------------------- independent node and weight tables

def legendre(n):
    """Coefficients (low to high) of P_n as Fractions."""
    p0, p1 = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return p0
    for k in range(1, n):
        nxt = [Fraction(0)] * (k + 2)
        for i, c in enumerate(p1):
            nxt[i + 1] += c * (2 * k + 1) / (k + 1)
        for i, c in enumerate(p0):
            nxt[i] -= c * k / (k + 1)
        p0, p1 = p1, nxt
    return p1


def pder(p):
    return [c * i for i, c in enumerate(p)][1:] or [Fraction(0)]


def peval(p, x):
    r = Fraction(0)
    for c in reversed(p):
        r = r * x + c
    return r


def roots_in(p, lo, hi, want):
    """Simple real roots of p in (lo, hi), to 2^-200, by bisection on a fine grid."""
    grid = 4000
    out = []
    xs = [lo + (hi - lo) * Fraction(i, grid) + Fraction(1, 7919 * grid) for i in range(grid)]
    vs = [peval(p, x) for x in xs]
    for a, b, fa, fb in zip(xs, xs[1:], vs, vs[1:]):
        if (fa < 0) != (fb < 0):
            # Newton-safe bisection with truncated fractions
            for _ in range(210):
                m = (a + b) / 2
                m = Fraction((m.numerator << 230) // m.denominator, 1 << 230)
                fm = peval(p, m)
                if (fm < 0) == (fa < 0):
                    a, fa = m, fm
                else:
                    b = m
            out.append((a + b) / 2)
    assert len(out) == want, (len(out), want)
    return out


@lru_cache(None)
def nodes(sp, n):
    """True nodes."""
    if sp == 'E':
        if n == 1:
            return (Fraction(-1),)
        return tuple(Fraction(2 * i, n - 1) - 1 for i in range(n))
    if n == 1:
        return (Fraction(0),)
    if sp == 'G':
        return tuple(roots_in(legendre(n), Fraction(-1), Fraction(1), n))
    mid = roots_in(pder(legendre(n - 1)), Fraction(-1), Fraction(1), n - 2) if n > 2 else []
    return tuple([Fraction(-1)] + mid + [Fraction(1)])


def lagrange(xs, i, x):
    """Cardinal polynomial i of the nodes xs, in the RF x."""
    r = RF.const(1)
    for j, xj in enumerate(xs):
        if j != i:
            r = r * (x - RF.const(xj)) * RF.const(Fraction(1) / (xs[i] - xj))
    return r


def dpoly(rf, name):
    return RF(rf.num.diff(name))
