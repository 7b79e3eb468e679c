"""C33: types advertise consistent static metadata."""
import itertools
from math import comb
from sa.core import spikes, static_facts_job, GXX
from sa.wit import *
from sa.queries import bases, INCLUDES

EXPLANATION = ('Constant expressions and type traits evaluated by the type checkers of clang and g++: the orders, node counts, dimensions, vertex counts, extents and '
               'ranges advertised by spacings, bases, products, shapes, elements, mappings, arrays and multi-indices for 1..4 dimensions with unequal orders per '
               'direction, the types of coordinates, values, gradients, Jacobians, determinants and data for float and double, and their agreement between levels.')
ASSUMPTIONS = ['clang 18 and g++ 13 evaluate constants and traits as the standard says', 'the listed combinations stand for all']
RULE = 'type-level facts discharged by the type checker'
MIN = 8000

MIXES = [[('L', 1)], [('E', 3)], [('E', 0)], [('L', 1), ('L', 1)], [('E', 2), ('L', 4)], [('G', 3), ('E', 1)], [('L', 1)] * 3, [('L', 2)] * 3, [('L', 1), ('E', 2), ('G', 3)],
         [('E', 4), ('L', 1), ('E', 2)], [('G', 1), ('G', 2), ('L', 3)], [('E', 0), ('L', 1), ('E', 5)], [('L', 1), ('E', 2), ('G', 3), ('L', 2)], [('L', 1)] * 4, [('E', 12)], [('L', 8), ('L', 1)], [('E', 2), ('E', 11)],
         [('L', 1), ('E', 9), ('G', 1)], [('L', 1), ('G', 2), ('L', 8)], [('E', 1)] * 5, [('G', 1), ('E', 2), ('L', 1), ('L', 1), ('E', 1)], [('L', 1)] * 6]
REALS = ('double', 'float')


def same(a, b):
    return 'std::is_same_v< %s, %s >' % (a, b)


def plain(e, t):
    """The expression has type t, reference and const set aside."""
    return 'std::is_same_v< std::remove_cv_t< std::remove_reference_t< decltype( %s ) > >, %s >' % (e, t)


def seq(ns):
    return 'std::integer_sequence< int, %s >' % ', '.join(map(str, ns))


def one_dim(R):
    fs = []
    for sp, ns in (('E', range(1, 13)), ('G', range(2, 5)), ('L', range(2, 10))):
        for n in ns:
            T = '%s< %s, %d >' % (SPACINGS[sp], R, n)
            fs.append((T + '::numPoints', '%s::numPoints == %d' % (T, n)))
            if n > 1:
                fs.append((T + ' coordinate type', plain('%s::coordinate( 0 )' % T, R) + ' && ' + plain('%s::template coordinate< %d >()' % (T, n - 1), R)))
            B = 'LagrangeBasis< %s, %d, %s >' % (R, n - 1, SPACINGS[sp])
            fs += [(B + '::order', '%s::order == %d' % (B, n - 1)), (B + '::numSupportPoints', '%s::numSupportPoints == %d' % (B, n)),
                   (B + ': one support point per node', '%s::numSupportPoints == %s::SpacingType::numPoints && %s::numPoints == %s::numSupportPoints' % (B, B, B, B)),
                   (B + '::SpacingType', same('typename %s::SpacingType' % B, T)), (B + ' is its spacing', 'std::is_base_of_v< %s, %s >' % (T, B))]
            if n > 1:
                for fn in ('value', 'gradient'):
                    fs.append(('%s::%s type' % (B, fn), plain('%s::template %s< 0 >( %s( 0 ) )' % (B, fn, R), R)))
    for cl, ns in (('QuadratureGaussLegendre', range(2, 5)), ('QuadratureGaussLobatto', range(2, 10))):
        for n in ns:
            T = '%s< %s, %d >' % (cl, R, n)
            fs.append((T + '::numPoints', '%s::numPoints == %d' % (T, n)))
            fs.append((T + ' coordinate and weight types', plain('%s::template coordinate< 0 >()' % T, R) + ' && ' + plain('%s::template weight< 0 >()' % T, R)))
            S = 'Gauss%sSpacing< %s, %d >' % (cl[15:], R, n)
            fs.append((T + ' has the points of its spacing', '%s::numPoints == %s::numPoints && std::is_base_of_v< %s, %s >' % (T, S, S, T)))
    return fs


def multi(R, mix):
    d = len(mix)
    ns = [o + 1 for _, o in mix]
    x = 'std::declval< %s const (&)[%d] >()' % (R, d)
    zeros = ', '.join(['0'] * d)
    fs = []
    BP = 'BasisProduct< %s, %s >' % (R, bases(mix).replace('R,', R + ','))
    bs = bases(mix).replace('<R,', '<%s,' % R)
    BP = 'BasisProduct< %s, %s >' % (R, bs)
    geoms = [('NCube< %s, %d, -1, 1, 1 >' % (R, d), 2 ** d), ('NSimplex< %s, %d, 0, 1, 1 >' % (R, d), d + 1)]

    def common(T):
        return [(T + '::RealType', same('typename %s::RealType' % T, R)), (T + '::CoordType', same('typename %s::CoordType' % T, '%s[%d]' % (R, d))), (T + '::numDims', '%s::numDims == %d' % (T, d)),
                (T + '::value type', plain('%s::template value< %s >( %s )' % (T, zeros, x), R)),
                (T + '::gradient type', plain('%s::template gradient< %s >( %s )' % (T, zeros, x), 'CArrayNd< %s, %d >' % (R, d)))]
    fs += common(BP)
    IT = 'typename %s::IndexType' % BP
    fs += [(BP + '::numSupportPoints', same('typename %s::numSupportPoints' % BP, seq(ns))), (IT + '::NUM_INDICES', '%s::NUM_INDICES == %d' % (IT[9:], d)),
           (IT + ' counts with int', same(IT + '::BaseIndexType', 'int'))]
    fs += [('%s::ranges[%d]' % (IT, k), '%s::ranges[%d] == %d' % (IT[9:], k, n)) for k, n in enumerate(ns)]
    for g, nv in geoms:
        S = 'InterpolatedShape< %s, %s, %s >' % (R, g, bs)
        P = 'ParentElement< %s, %s, %s >' % (R, g, bs)
        fs += common(S) + common(P)
        fs += [(S + '::StandardGeom', same('typename %s::StandardGeom' % S, g)), (S + '::BasisCombinationType', same('typename %s::BasisCombinationType' % S, BP)),
               (S + '::numVertices', '%s::numVertices == %d && %s::numVertices == %s::numVertices()' % (S, nv, S, g)),
               (S + '::numSupportPointsSequence', same('typename %s::numSupportPointsSequence' % S, seq(ns))),
               (S + '::basisSupportCounts', plain('%s::basisSupportCounts' % S, seq(ns))),
               (P + '::ShapeType', same('typename %s::ShapeType' % P, g)), (P + '::BASIS_PRODUCT_TYPE', same('typename %s::BASIS_PRODUCT_TYPE' % P, BP))]
        fs += [('%s::numSupportPoints[%d]' % (P, k), '%s::numSupportPoints[%d] == %d' % (P, k, n)) for k, n in enumerate(ns)]
        fs += [(P + ': one count per direction', 'sizeof( %s::numSupportPoints ) == %d * sizeof( int )' % (P, d))]
        f = 'std::declval< CArrayNd< %s, %s > const & >()' % (R, ', '.join(map(str, ns)))
        fs += [(P + ' field value type', plain('%s::value( %s, %s )' % (P, x, f), R)), (P + ' field gradient type', plain('%s::gradient( %s, %s )' % (P, x, f), 'CArrayNd< %s, %d >' % (R, d)))]
        L = 'LinearTransform< %s, %s >' % (R, S)
        tot = 1
        for n in ns:
            tot *= n
        fs += [(L + '::RealType', same('typename %s::RealType' % L, R)), (L + '::InterpolatedShape', same('typename %s::InterpolatedShape' % L, S)),
               (L + '::numDims', '%s::numDims == %d' % (L, d)), (L + '::numVertices', '%s::numVertices == %d' % (L, nv)),
               (L + '::JacobianType', same('typename %s::JacobianType' % L, 'CArrayNd< %s, %d, %d >' % (R, d, d))),
               (L + '::DataType', same('typename %s::DataType' % L, 'CArrayNd< %s, %s, %d >' % (R, ', '.join(map(str, ns)), d))),
               (L + '::SupportIndexType', same('typename %s::SupportIndexType' % L, IT)),
               (L + ' data size', '%s::DataType::size() == %d && sizeof( typename %s::DataType ) == %d * sizeof( %s )' % (L, tot * d, L, tot * d, R)),
               (L + ' Jacobian varies in the cell', '!%s::jacobianIsConstInCell()' % L),
               (L + ' getData', same('decltype( std::declval< %s const & >().getData() )' % L, 'typename %s::DataType const &' % L) + ' && ' + same('decltype( std::declval< %s & >().getData() )' % L, 'typename %s::DataType &' % L))]
        fs += [('%s data extent %d' % (L, k), '%s::DataType::template extent< %d >() == %d' % (L, k, n)) for k, n in enumerate(ns + [d])]
        if d == 3:
            ij = 'utilities::inverseJacobian( std::declval< %s const & >(), %s )' % (L, x)
            fs.append((L + ' returned Jacobian', plain('utilities::jacobian( std::declval< %s const & >(), %s )' % (L, x), 'typename %s::JacobianType' % L)))
            fs.append((L + ' returned inverse', same('std::tuple_element_t< 0, std::remove_cv_t< decltype( %s ) > >' % ij, R) + ' && ' + same('std::tuple_element_t< 1, std::remove_cv_t< decltype( %s ) > >' % ij, 'typename %s::JacobianType' % L)))
    return fs


def rest(R):
    fs = []
    for g, count, ext in (('NCube', lambda n, m: 2 ** (n - m) * comb(n, m), ('-1, 1, 1', '0, 5, 3')), ('NSimplex', lambda n, m: comb(n + 1, m + 1), ('0, 1, 1', '-2, 1, 4'))):
        for n in range(1, 11):
            for e in ext:
                T = '%s< %s, %d, %s >' % (g, R, n, e)
                fs += [(T + '::RealType', same('typename %s::RealType' % T, R)), (T + '::CoordType', same('typename %s::CoordType' % T, '%s[%d]' % (R, n))), (T + '::numDims()', '%s::numDims() == %d' % (T, n)),
                       (T + '::numVertices()', '%s::numVertices() == %d' % (T, count(n, 0)))]
                fs += [('%s::%s type' % (T, f), plain('%s::%s()' % (T, f), R)) for f in ('minCoord', 'maxCoord', 'length', 'volume')]
    fs += [('Square', same('Square< %s >' % R, 'NCube< %s, 2, -1, 1, 1 >' % R)), ('Cube', same('Cube< %s >' % R, 'NCube< %s, 3, -1, 1, 1 >' % R)),
           ('Triangle', same('Triangle< %s >' % R, 'NSimplex< %s, 2, 0, 1, 1 >' % R)), ('Tetrahedron', same('Tetrahedron< %s >' % R, 'NSimplex< %s, 3, 0, 1, 1 >' % R))]
    for T, J, D in (('Scaling< %s >' % R, 'CArrayNd< %s, 3 >' % R, '%s[3]' % R), ('UniformScaling< %s >' % R, 'Scalar< %s >' % R, R)):
        ij = 'utilities::inverseJacobian( std::declval< %s const & >() )' % T
        fs += [(T + '::RealType', same('typename %s::RealType' % T, R)), (T + '::JacobianType', same('typename %s::JacobianType' % T, J)), (T + '::DataType', same('typename %s::DataType' % T, D)),
               (T + ' Jacobian is constant in the cell', '%s::jacobianIsConstInCell()' % T),
               (T + ' getData', same('std::remove_cv_t< std::remove_reference_t< decltype( std::declval< %s const & >().getData() ) > >' % T, 'std::remove_cv_t< std::remove_reference_t< typename %s::DataType const & > >' % T)),
               (T + ' returned Jacobian', plain('utilities::jacobian( std::declval< %s const & >() )' % T, J)),
               (T + ' returned inverse', same('std::tuple_element_t< 0, std::remove_cv_t< decltype( %s ) > >' % ij, R) + ' && ' + same('std::tuple_element_t< 1, std::remove_cv_t< decltype( %s ) > >' % ij, J))]
    for T in (R, 'int', 'short'):
        for sh in ((3,), (1,), (2, 5), (4, 1, 3), (2, 3, 4, 5), (1, 2, 1, 2, 3), *spikes(2, 6, 9)):
            n = 1
            for s in sh:
                n *= s
            for C in ('CArrayNd< %s, %s >', 'CArrayViewNd< %s, %s >', 'CArrayNd< %s const, %s >', 'CArrayViewNd< %s const, %s >'):
                A = C % (T, ', '.join(map(str, sh)))
                E = T + (' const' if 'const' in C else '')
                fs += [(A + '::rank()', '%s::rank() == %d' % (A, len(sh))), (A + '::size()', '%s::size() == %d' % (A, n)),
                       (A + ' element types', same('typename %s::element_type' % A, E) + ' && ' + same('typename %s::value_type' % A, T))]
                fs += [('%s::extent< %d >()' % (A, k), '%s::template extent< %d >() == %d' % (A, k, s)) for k, s in enumerate(sh)]
            fs.append(('CArrayNd< %s, %s > holds its elements and nothing else' % (T, sh), 'sizeof( CArrayNd< %s, %s > ) == %d * sizeof( %s )' % (T, ', '.join(map(str, sh)), n, T)))
            fs.append(('CArrayViewNd< %s, %s > is a pointer' % (T, sh), 'sizeof( CArrayViewNd< %s, %s > ) == sizeof( void * )' % (T, ', '.join(map(str, sh)))))
        fs += [('Scalar< %s >' % T, 'Scalar< %s >::rank() == 1 && Scalar< %s >::size() == 1 && sizeof( Scalar< %s > ) == sizeof( %s )' % (T, T, T, T)),
               ('ScalarView< %s >' % T, 'ScalarView< %s >::rank() == 1 && ScalarView< %s >::size() == 1' % (T, T))]
    for I in ('int', 'long', 'short', 'unsigned'):
        for rg in ((3,), (2, 5), (4, 1, 3), (2, 3, 4, 5), *spikes(2, 6, 9)):
            M = 'MultiIndexRange< %s, %s >' % (I, ', '.join(map(str, rg)))
            fs += [(M + '::BaseIndexType', same('typename %s::BaseIndexType' % M, I)), (M + '::NUM_INDICES', '%s::NUM_INDICES == %d' % (M, len(rg))),
                   (M + ' data', 'std::extent_v< decltype( %s::data ) > == %d && ' % (M, len(rg)) + same('std::remove_extent_t< decltype( %s::data ) >' % M, I))]
            fs += [('%s::ranges[%d]' % (M, k), '%s::ranges[%d] == %d' % (M, k, n)) for k, n in enumerate(rg)]
            if I == 'int':
                fs.append(('MultiIndexRangeI', same('MultiIndexRangeI< %s >' % ', '.join(map(str, rg)), M)))
    return fs


def build(tier):
    jobs = []
    pre = INCLUDES + 'using namespace shiva::geometry::utilities;\n'
    k = 0
    for R in REALS:
        sets = [('one-dimensional types', one_dim(R)), ('geometry, scalings, arrays, indices', rest(R))] + [('mix %s' % m, multi(R, m)) for m in MIXES]
        for nm, fs in sets:
            for std in ('17', '20', '23'):
                for comp in (None, GXX):
                    k += 1
                    if tier == 'thorough' or (R == 'double' and (std, comp) in (('17', None), ('20', GXX))) or (R == 'float' and (std, comp) in (('17', GXX), ('23', None))):
                        jobs.append(static_facts_job('%s, %s, c++%s, %s' % (nm, R, std, 'g++' if comp else 'clang'), pre, fs, std=std, bounds=k % 2 == 0, compiler=comp))
    return jobs
