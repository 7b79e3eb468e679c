"""A catalogue of the library's queries as small constexpr functions of run-time inputs.

Query.params: [(name, kind, n)], kind 'R' (array of n reals; n=0: one real) or 'I' (an int with domain range(n))."""
import itertools
from fractions import Fraction
from .wit import SPACINGS, basis, inc

INCLUDES = '#include <array>\n#include <tuple>\n#include <type_traits>\n' + inc(
    'basis', 'spacing', 'quad', 'prod', 'pe', 'ishape', 'ncube', 'nsimplex', 'lt', 'scal', 'uscal', 'jt', 'carray', 'index', 'mi', 'math', 'seq', 'nseq')


class Query:
    def __init__(self, group, label, ret, params, body, big=False):
        self.group, self.label, self.ret, self.params, self.body, self.big = group, label, ret, params, body, big


def shape(mix):
    d = len(mix)
    return 'InterpolatedShape< R, NCube< R, %d, -1, 1, 1 >, %s >' % (d, bases(mix))


def bases(mix):
    return ', '.join(basis('R', o, s) for s, o in mix)


def fillv(mix):
    d = len(mix)
    ts = list(itertools.product(*[range(o + 1) for _, o in mix]))
    return ''.join('t.getData()( %s, %d ) = v[%d]; ' % (', '.join(map(str, ix)), i, q * d + i) for q, ix in enumerate(ts) for i in range(d)), len(ts) * d


def catalogue(tier):
    Q = []

    def q(group, label, ret, params, body, big=False):
        Q.append(Query(group, label, ret, params, body, big))
    # spacings and quadrature
    for sp, ns in (('E', (2, 3, 4, 5, 6, 7, 8, 9)), ('G', (2, 3, 4)), ('L', (2, 3, 4, 5, 6, 7, 8, 9))):
        for n in ns:
            T = '%s< R, %d >' % (SPACINGS[sp], n)
            q('nodes', '%s::coordinate( i )' % T, 'R', [('i', 'I', n)], 'return %s::coordinate( i );' % T)
            for i in range(n):
                q('nodes', '%s::coordinate< %d >()' % (T, i), 'R', [], 'return %s::template coordinate< %d >();' % (T, i))
    for cl, ns, top in (('QuadratureGaussLegendre', (2, 3, 4), 4), ('QuadratureGaussLobatto', (2, 3, 4, 5, 6, 7, 8, 9), 5)):
        for n in ns:
            T = '%s< R, %d >' % (cl, n)
            if n <= top:
                q('weights', '%s::weight( i )' % T, 'R', [('i', 'I', n)], 'return %s::weight( i );' % T)
            for i in range(n):
                q('weights', '%s::weight< %d >()' % (T, i), 'R', [], 'return %s::template weight< %d >();' % (T, i))
                if i < 2:
                    q('weights', '%s::coordinate< %d >()' % (T, i), 'R', [], 'return %s::template coordinate< %d >();' % (T, i))
    # bases
    for sp, os in (('E', (0, 1, 2, 3, 4, 5, 6, 7)), ('G', (1, 2, 3)), ('L', (1, 2, 3, 4, 5, 6, 7, 8))):
        for o in os:
            T = basis('R', o, sp)
            for i in range(o + 1):
                q('bases', '%s::value< %d >( x )' % (T, i), 'R', [('x', 'R', 0)], 'return %s::template value< %d >( x );' % (T, i))
                q('bases', '%s::gradient< %d >( x )' % (T, i), 'R', [('x', 'R', 0)], 'return %s::template gradient< %d >( x );' % (T, i))
    # products, shapes, elements
    for mix, ixs in (([('L', 1), ('E', 2), ('G', 1)], [(0, 0, 0), (1, 2, 1), (0, 1, 1), (1, 0, 0)]), ([('L', 3), ('E', 1)], [(3, 0), (1, 1), (2, 0)]), ([('G', 2)], [(1,), (2,)]),
                     ([('L', 1)] * 3, [(1, 0, 1)]), ([('L', 2)] * 3, [(1, 2, 0)])):
        d = len(mix)
        for name, T in (('product', 'BasisProduct< R, %s >' % bases(mix)), ('shape', shape(mix)), ('element', 'ParentElement< R, NCube< R, %d, -1, 1, 1 >, %s >' % (d, bases(mix)))):
            for ix in ixs:
                a = ', '.join(map(str, ix))
                q('products', '%s value< %s > of %s' % (name, a, mix), 'R', [('x', 'R', d)], 'return %s::template value< %s >( x );' % (T, a))
                for c in range(d):
                    q('products', '%s gradient< %s >[%d] of %s' % (name, a, c, mix), 'R', [('x', 'R', d)], 'return %s::template gradient< %s >( x )( %d );' % (T, a, c))
        P = 'ParentElement< R, NCube< R, %d, -1, 1, 1 >, %s >' % (d, bases(mix))
        ext = [o + 1 for _, o in mix]
        n = 1
        for e in ext:
            n *= e
        ts = list(itertools.product(*map(range, ext)))
        fv = 'CArrayNd< R, %s > f{}; ' % ', '.join(map(str, ext)) + ''.join('f( %s ) = v[%d]; ' % (', '.join(map(str, t)), k) for k, t in enumerate(ts))
        q('fields', 'field value on %s' % mix, 'R', [('x', 'R', d), ('v', 'R', n)], fv + 'return %s::value( x, f );' % P)
        for c in range(d):
            q('fields', 'field gradient[%d] on %s' % (c, mix), 'R', [('x', 'R', d), ('v', 'R', n)], fv + 'return %s::gradient( x, f )( %d );' % (P, c))
        q('fields', 'support loop of %s' % mix, 'long', [], 'long r = 0; %s::supportLoop( [&] ( auto const ... a ) constexpr { long k = 0; ( ( k = 10 * k + decltype(a)::value ), ... ); r = ( r * 31 + k ) %% 1000003; } ); return r;' % shape(mix))
    # mappings
    for mix in ([('L', 1)] * 3, [('L', 1), ('E', 2), ('G', 1)], [('L', 2), ('E', 1)]):
        d = len(mix)
        f, n = fillv(mix)
        LT = 'LinearTransform< R, %s >' % shape(mix)
        for i in range(d):
            for j in range(d):
                q('jacobians', 'jacobian(%d,%d) on %s' % (i, j, mix), 'R', [('v', 'R', n), ('x', 'R', d)],
                  'using LT = %s; LT t{}; %stypename LT::JacobianType J{}; utilities::jacobian( t, x, J ); return J( %d, %d );' % (LT, f, i, j))
                if i <= j:
                    q('jacobians', 'jacobian(%d,%d) at a quadrature point on %s' % (i, j, mix), 'R', [('v', 'R', n)],
                      'using LT = %s; LT t{}; %stypename LT::JacobianType J{}; utilities::jacobian< QuadratureGaussLegendre< R, 3 >, %s >( t, J ); return J( %d, %d );' % (LT, f, ', '.join(map(str, [0, 2, 1][:d])), i, j))
        if d == 3:
            q('jacobians', 'returned jacobian(1,2) on %s' % mix, 'R', [('v', 'R', n), ('x', 'R', 3)], 'using LT = %s; LT t{}; %s auto const J = utilities::jacobian( t, x ); return J( 1, 2 );' % (LT, f))
            for k, ret in enumerate(('return det;', 'return J( 0, 0 ) * det;', 'return J( 1, 2 ) * det;', 'return J( 2, 1 ) * det;')):
                q('inverses', 'inverseJacobian (%s) on %s' % (ret, mix), 'R', [('v', 'R', n), ('x', 'R', 3)],
                  'using LT = %s; LT t{}; %stypename LT::JacobianType J{}; R det{}; utilities::inverseJacobian( t, x, J, det ); %s' % (LT, f, ret), True)
            q('inverses', 'returned determinant on %s' % mix, 'R', [('v', 'R', n), ('x', 'R', 3)], 'using LT = %s; LT t{}; %s auto const r = utilities::inverseJacobian( t, x ); using std::get; return get< 0 >( r );' % (LT, f), True)
            m = n // 3
            q('jacobians', 'setData on %s' % mix, 'R', [('v', 'R', n)],
              'using LT = %s; LT t{}; R const l[%d][3] = { %s }; t.setData( l ); return t.getData()( 1, 0, 1, 2 ) + 2 * t.getData()( 0, 1, 0, 1 );' % (
                  LT, m, ', '.join('{ v[%d], v[%d], v[%d] }' % (3 * k, 3 * k + 1, 3 * k + 2) for k in range(m))))
    for i in range(3):
        for j in range(3):
            q('matrix', 'inverse(%d,%d) of a C array' % (i, j), 'R', [('v', 'R', 9)], 'R m[3][3] = { { v[0], v[1], v[2] }, { v[3], v[4], v[5] }, { v[6], v[7], v[8] } }; R det{}; mathUtilities::inverse( m, det ); return m[%d][%d];' % (i, j))
            q('matrix', 'inverse(%d,%d) of an array' % (i, j), 'R', [('v', 'R', 9)], 'CArrayNd< R, 3, 3 > m{ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8] }; R det{}; mathUtilities::inverse( m, det ); return m( %d, %d );' % (i, j))
    q('matrix', 'determinant', 'R', [('v', 'R', 9)], 'R m[3][3] = { { v[0], v[1], v[2] }, { v[3], v[4], v[5] }, { v[6], v[7], v[8] } }; R det{}; mathUtilities::inverse( m, det ); return det;')
    for cls, m in (('Scaling', 3), ('UniformScaling', 1)):
        st = 'R const a[3] = { h[0], h[1], h[2] }; c.setData( a );' if m == 3 else 'c.setData( h[0] );'
        for i in range(m):
            q('scalings', '%s jacobian(%d)' % (cls, i), 'R', [('h', 'R', 3)], '%s< R > c{}; %s typename %s< R >::JacobianType J{}; utilities::jacobian( c, J ); return J( %d );' % (cls, st, cls, i))
            q('scalings', '%s returned jacobian(%d)' % (cls, i), 'R', [('h', 'R', 3)], '%s< R > c{}; %s auto const J = utilities::jacobian( c ); return J( %d );' % (cls, st, i))
            q('scalings', '%s inverse(%d)' % (cls, i), 'R', [('h', 'R', 3)], '%s< R > c{}; %s typename %s< R >::JacobianType J{}; R det{}; utilities::inverseJacobian( c, J, det ); return J( %d );' % (cls, st, cls, i))
        q('scalings', '%s determinant' % cls, 'R', [('h', 'R', 3)], '%s< R > c{}; %s typename %s< R >::JacobianType J{}; R det{}; utilities::inverseJacobian( c, J, det ); return det;' % (cls, st, cls))
        q('scalings', '%s returned determinant' % cls, 'R', [('h', 'R', 3)], '%s< R > c{}; %s auto const r = utilities::inverseJacobian( c ); using std::get; return get< 0 >( r );' % (cls, st))
        q('scalings', '%s default data' % cls, 'R', [], '%s< R > c{}; return %s;' % (cls, 'c.getData()[0] + 2 * c.getData()[1] + 4 * c.getData()[2]' if m == 3 else 'c.getData()'))
    # geometry
    for cls, fn in (('NCube', 'numMCubes'), ('NSimplex', 'numMSimplexes')):
        for n in (1, 2, 3, 4, 7):
            for m in range(0, n + 1):
                q('counts', '%s<%d>::%s<%d>()' % (cls, n, fn, m), 'long', [], 'return %s< R, %d, -1, 1, 1 >::template %s< %d >();' % (cls, n, fn, m))
            for f in ('numVertices', 'numEdges', 'numFaces', 'numCells', 'numHyperFaces', 'numDims'):
                q('counts', '%s<%d>::%s()' % (cls, n, f), 'long', [], 'return %s< R, %d, -1, 1, 1 >::%s();' % (cls, n, f))
            for e in ('-1, 1, 1', '-3, 4, 7'):
                for f in ('minCoord', 'maxCoord', 'length', 'volume'):
                    q('extents', '%s<%d,%s>::%s()' % (cls, n, e, f), 'R', [], 'return %s< R, %d, %s >::%s();' % (cls, n, e, f))
    for e in (0, 1, 3, 7):
        q('helpers', 'pow< R, %d >' % e, 'R', [('x', 'R', 0)], 'return mathUtilities::pow< R, %d >( x );' % e)
        q('helpers', 'pow< int, %d >' % e, 'long', [('i', 'I', 6)], 'return mathUtilities::pow< int, %d >( i );' % e)
    # arrays
    for ext in ((2, 3, 4), (5, 2), (3,), (9,), (2, 9), (9, 2), (2, 1, 3, 2), (2, 2, 1, 2, 3)):
        n = 1
        for e in ext:
            n *= e
        d = len(ext)
        es = ', '.join(map(str, ext))
        idx = [('i%d' % k, 'I', e) for k, e in enumerate(ext)]
        names = ', '.join('i%d' % k for k in range(d))
        br = ''.join('[i%d]' % k for k in range(d))
        mk = 'CArrayNd< R, %s > a{ %s }; ' % (es, ', '.join('v[%d]' % k for k in range(n)))
        for how, ex in (('call', 'a( %s )' % names), ('bracket', 'a' + br)):
            q('arrays', '%s of %s' % (how, es), 'R', [('v', 'R', n)] + idx, mk + 'return %s;' % ex)
            q('arrays', 'const %s of %s' % (how, es), 'R', [('v', 'R', n)] + idx, mk + 'auto const & c = a; return %s;' % ex.replace('a', 'c', 1))
            q('arrays', 'write by %s of %s' % (how, es), 'R', [('v', 'R', n), ('s', 'R', 0)] + idx, mk + '%s = s; R r = 0; for( int k = 0; k < %d; ++k ) r = r + ( k + 1 ) * a.data()[k]; return r;' % (ex, n))
        ct = ', '.join(str(e - 1) for e in ext)
        q('arrays', 'compile-time index of %s' % es, 'R', [('v', 'R', n)], mk + 'return a.template operator()< %s >();' % ct)
        q('arrays', 'view of %s' % es, 'R', [('v', 'R', n)] + idx, 'R b[%d] = { %s }; CArrayViewNd< R, %s > a( b ); return a( %s );' % (n, ', '.join('v[%d]' % k for k in range(n)), es, names))
        q('arrays', 'copy of %s' % es, 'R', [('v', 'R', n)] + idx, mk + 'auto b = a; a( %s ) = R( 7 ); return b( %s );' % (names, names))
        q('arrays', 'partial initialisation of %s' % es, 'R', [('v', 'R', n)] + idx, 'CArrayNd< R, %s > a{ v[0], v[1] }; return a( %s );' % (es, names))
        q('arrays', 'extents of %s' % es, 'long', [], 'using A = CArrayNd< R, %s >; return A::size() + 1000 * A::rank() %s;' % (es, ''.join(' + %d * A::template extent< %d >()' % (10000 * 10 ** k, k) for k in range(d))))
    # index ranges and loops
    for rg in ((2, 3, 4), (5, 2), (3,), (9,), (2, 2, 1, 3), (1, 2, 2, 2, 2)):
        d = len(rg)
        rs = ', '.join(map(str, rg))
        idx = [('i%d' % k, 'I', e) for k, e in enumerate(rg)]
        for bt in ('int', 'long'):
            q('ranges', 'linearIndex of %s %s' % (bt, rs), 'long', idx, 'MultiIndexRange< %s, %s > m{}; %s return linearIndex( m );' % (bt, rs, ' '.join('m.data[%d] = i%d;' % (k, k) for k in range(d))))
            q('ranges', 'forRange over %s %s' % (bt, rs), 'long', idx, 'MultiIndexRange< %s, %s > m{}; %s long r = 1; forRange( m, [&] ( auto const & a ) constexpr { long k = 0; for( int c = 0; c < %d; ++c ) k = 10 * k + a.data[c]; r = ( r * 31 + k ) %% 1000003; } ); return r;' % (
                bt, rs, ' '.join('m.data[%d] = i%d;' % (k, k) for k in range(d)), d))
        q('ranges', 'nested sequence %s' % rs, 'long', [], 'long r = 1; forNestedSequence< %s >( [&] ( auto const ... a ) constexpr { long k = 0; ( ( k = 10 * k + decltype(a)::value ), ... ); r = ( r * 31 + k ) %% 1000003; } ); return r;' % rs)
        q('ranges', 'nested sequence pack %s' % rs, 'long', [], 'long r = 1; forNestedSequence( std::integer_sequence< int, %s >{}, [&] ( auto const ... a ) constexpr { long k = 0; ( ( k = 10 * k + decltype(a)::value ), ... ); r = ( r * 31 + k ) %% 1000003; } ); return r;' % rs)
    for n in (1, 3, 6):
        q('ranges', 'forSequence %d' % n, 'long', [], 'long r = 1; forSequence< %d >( [&] ( auto const a ) constexpr { r = ( r * 31 + decltype(a)::value ) %% 1000003; } ); return r;' % n)
        q('ranges', 'executeSequence %d' % n, 'long', [('i', 'I', 5)], 'return executeSequence< %d >( [&] ( auto e, auto const ... a ) constexpr { long r = e + i; ( ( r = ( r * 31 + decltype(a)::value ) %% 1000003 ), ... ); return r; }, 7 );' % n)
    return Q


def params(q):
    out = []
    for n, k, c in q.params:
        out.append('int const %s' % n if k == 'I' else 'R const %s' % n if c == 0 else 'R const (&%s)[%d]' % (n, c))
    return ', '.join(out)


def define(qs, linkage='constexpr'):
    """Text of the query functions q0, q1, ..."""
    s = ''
    for k, q in enumerate(qs):
        s += '%s %s q%d( %s ) { %s }\n' % (linkage, q.ret, k, params(q), q.body)
    return s


GOOD = [Fraction(3, 8), Fraction(-5, 16), Fraction(7, 8), Fraction(1, 4), Fraction(-3, 4), Fraction(9, 16), Fraction(-1, 8), Fraction(5, 8), Fraction(1), Fraction(-1)]


def sample(q, k):
    """k-th sample of arguments: {name: Fraction list | int}; determinants of the sampled matrices are far from zero."""
    r = {}
    for a, (n, kind, c) in enumerate(q.params):
        if kind == 'I':
            r[n] = (k * (a + 1) + k // c) % c
        elif n == 'h':
            r[n] = [Fraction(2), Fraction(3, 4), Fraction(5, 2)] if k % 2 else [Fraction(1, 2), Fraction(5, 4), Fraction(7)]
        elif n == 'v' and q.group in ('matrix',):
            r[n] = [Fraction((4 if i % 4 == 0 else 0) * 8 + ((i * 5 + 3 * k) % 7) - 3, 8) for i in range(c)]
        elif n == 'x' and k % 9 in (2, 3, 4):
            # the centre and two corners
            r[n] = [Fraction({2: 0, 3: 1, 4: -1}[k % 9])] * max(1, c)
        elif n == 'x' and k % 9 in (5, 6, 7):
            # on one coordinate plane
            r[n] = [Fraction(0) if i == k % 9 - 5 else GOOD[(i * 3 + k) % len(GOOD)] for i in range(max(1, c))]
        else:
            r[n] = [GOOD[(i * 3 + k * 7 + a) % len(GOOD)] + Fraction((i * i) % 5, 4) * (0 if n == 'x' else 1) for i in range(max(1, c))]
    return r


def literal(q, s, real='R'):
    """(declarations, argument list)"""
    decl, args = '', []
    for n, kind, c in q.params:
        if kind == 'I':
            args.append(str(s[n]))
        elif c == 0:
            args.append('R( %r )' % float(s[n][0]))
        else:
            decl += 'constexpr R %s_[%d] = { %s }; ' % (n, c, ', '.join('R( %r )' % float(f) for f in s[n]))
            args.append(n + '_')
    return decl, ', '.join(args)
