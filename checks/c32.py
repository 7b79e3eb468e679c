"""C32: misuse of bases, shapes and elements is rejected at compile time."""
from sa.core import compile_fail_job, GXX
from sa.wit import *
from sa.queries import bases, shape, INCLUDES

EXPLANATION = ('Compile-fail witnesses: each misuse program (value or gradient of a basis product, shape or element with one index too few, one too many or none; '
               'shapes and elements whose number of bases is not the dimension of the cube or simplex; faces of more dimensions than the shape; empty or '
               'inverted extents; numbers of nodes or quadrature points that are not supported; an inverse Jacobian in other than three dimensions; binomial '
               'coefficients out of range) must be rejected by the type checker, while the program that differs only in the misuse compiles.')
ASSUMPTIONS = ['clang 18 (and g++ 13) implement static_assert and overload resolution', 'the listed programs stand for all programs with the same misuse']
RULE = 'type-level: misuse program is ill-formed, control program is well-formed'
MIN = 330

MIXES = [[('L', 1)], [('L', 1), ('E', 2)], [('L', 1)] * 3, [('E', 2), ('G', 1), ('L', 3)], [('L', 1), ('E', 2), ('G', 1), ('L', 1)]]


def index_cases(mix):
    d = len(mix)
    cube = 'NCube< R, %d, -1, 1, 1 >' % d
    out = []
    for name, T in (('product', 'BasisProduct< R, %s >' % bases(mix)), ('shape', 'InterpolatedShape< R, %s, %s >' % (cube, bases(mix))),
                    ('element', 'ParentElement< R, %s, %s >' % (cube, bases(mix))), ('element of a simplex', 'ParentElement< R, NSimplex< R, %d, 0, 1, 1 >, %s >' % (d, bases(mix)))):
        for fn in ('value', 'gradient'):
            for n in (d - 1, d + 1, 0, d + 2):
                if n < 0 or n == 0 and d == 1:
                    continue
                def prog(k):
                    return 'auto f( R const (&x)[%d] ) { return %s::template %s< %s >( x ); }' % (d, T, fn, ', '.join(['0'] * k))
                bad = prog(n) if n else 'auto f( R const (&x)[%d] ) { return %s::%s( x ); }' % (d, T, fn)
                out.append(('%s of a %s of %s with %d indices' % (fn, name, mix, n), prog(d), bad))
            for ct, what in (('std::array< R, %d > const & x' % d, 'std::array'), ('CArrayNd< R, %d > const & x' % d, 'CArray')):
                for n in (d - 1, d + 1):
                    if n:
                        def prog2(k):
                            return 'auto f( %s ) { return %s::template %s< %s >( x ); }' % (ct, T, fn, ', '.join(['0'] * k))
                        out.append(('%s of a %s of %s at a %s with %d indices' % (fn, name, mix, what, n), prog2(d), prog2(n)))
    return out


def dim_cases():
    out = []
    for d in (1, 2, 3, 4):
        for n in sorted({d - 1, d + 1, d + 2, 1} - {0, d}):
            for g, ext in (('NCube', '-1, 1, 1'), ('NSimplex', '0, 1, 1')):
                for E in ('InterpolatedShape', 'ParentElement'):
                    def prog(k):
                        return 'using T = %s< R, %s< R, %d, %s >, %s >; int f() { return T::numDims; } template class %s< R, %s< R, %d, %s >, %s >;' % (
                            E, g, d, ext, bases([('L', 1)] * k), E, g, d, ext, bases([('L', 1)] * k))
                    use = 'using T = %s< R, %s< R, %d, %s >, %s >; int f() { return T::numDims; }'
                    out.append(('%s of %d bases over %s of dimension %d' % (E, n, g, d), use % (E, g, d, ext, bases([('L', 1)] * d)), use % (E, g, d, ext, bases([('L', 1)] * n))))
    return out


def face_cases():
    out = []
    for g, fn, ext in (('NCube', 'numMCubes', '-1, 1, 1'), ('NSimplex', 'numMSimplexes', '0, 1, 1')):
        for n in (1, 2, 3, 4):
            for m in (n + 1, n + 2, n + 5):
                use = 'int f() { return %s< R, %d, %s >::template %s< %d >(); }'
                out.append(('%s< %d > of %s of dimension %d' % (fn, m, g, n), use % (g, n, ext, fn, n), use % (g, n, ext, fn, m)))
        for good, bad in (('-1, 1, 1', '1, 1, 1'), ('-1, 1, 1', '1, -1, 1'), ('-1, 1, 1', '-1, 1, 0'), ('-1, 1, 2', '-1, 1, -2')):
            use = 'R f() { return %s< R, 2, %s >::length(); }'
            out.append(('%s with extents %s' % (g, bad), use % (g, good), use % (g, bad)))
    return out


def point_cases():
    out = []
    for cl, fn, good, bads in (('QuadratureGaussLegendre', 'weight', 4, (1, 5, 0, 9)), ('QuadratureGaussLobatto', 'weight', 5, (1, 10, 0)),
                               ('QuadratureGaussLegendre', 'coordinate', 4, (5, 6, 12)), ('QuadratureGaussLobatto', 'coordinate', 9, (10, 11, 20)),
                               ('GaussLegendreSpacing', 'coordinate', 4, (5, 6, 12)), ('GaussLobattoSpacing', 'coordinate', 9, (10, 11, 20))):
        for b in bads:
            for form in ('template %s< 0 >()' % fn, '%s( 0 )' % fn):
                if form.endswith('( 0 )') and fn == 'weight' and 'Lobatto' in cl and b == 10:
                    pass
                use = 'R f() { return %s< R, %d >::%s; }'
                out.append(('%s of %s with %d points' % (form, cl, b), use % (cl, good, form), use % (cl, b, form)))
    for sp, good, bad in (('G', 3, 4), ('L', 8, 9), ('G', 3, 7)):
        for fn in ('value', 'gradient'):
            use = 'R f( R x ) { return LagrangeBasis< R, %d, %s >::template %s< 1 >( x ); }'
            out.append(('%s of a basis of order %d with %s' % (fn, bad, SPACINGS[sp]), use % (good, SPACINGS[sp], fn), use % (bad, SPACINGS[sp], fn)))
    return out


def other_cases():
    out = []
    for fn in ('utilities::inverseJacobian( t, x, J, d );', 'using std::get; d = get< 0 >( utilities::inverseJacobian( t, x ) );'):
        use = 'using LT%d = LinearTransform< R, %s >; void f( LT%d const & t, R const (&x)[%d], typename LT%d::JacobianType & J, R & d ) { ' + fn + ' }'
        for k in (1, 2):
            out.append(('inverse Jacobian in %d dimensions' % k, use % (3, shape([('L', 1)] * 3), 3, 3, 3), use % (k, shape([('L', 1)] * k), k, k, k)))
    for T in ('int', 'long'):
        use = T + ' f() { return mathUtilities::binomialCoefficient< ' + T + ', %d, %d >::value; }'
        out += [('binomial coefficient %d over %d of %s' % (n, k, T), use % (4, 2), use % (n, k)) for n, k in ((4, 5), (4, -1), (0, 1))]
    return out


def build(tier):
    jobs = []
    pre = INCLUDES + 'using R = %s;\n'
    cs = [c for m in MIXES for c in index_cases(m)] + dim_cases() + face_cases() + point_cases() + other_cases()
    if tier != 'thorough':
        keep = [c for i, c in enumerate(index_cases(MIXES[4])) if i % 3]
        cs = [c for c in cs if c not in keep]
    for i in range(0, len(cs), 12):
        j = i // 12
        jobs.append(compile_fail_job('misuse %d' % j, pre % ('double', 'float')[j % 2], cs[i:i + 12], std=('17', '20', '23')[j % 3], bounds=j % 4 == 0))
        if tier == 'thorough':
            jobs.append(compile_fail_job('misuse %d, g++' % j, pre % 'double', cs[i:i + 12], std=('20', '17')[j % 2], compiler=GXX))
    return jobs
