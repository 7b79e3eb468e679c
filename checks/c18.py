"""C18: inverse Jacobians are true inverses, with the determinant of the Jacobian."""
import itertools
from sa.core import Job, FnJob, compile_ir, CompileError, classify_compile_error, Broken, first_errors
from sa.query import *
from sa.wit import *
from .c15 import Spec, lib_nodes
from .c17 import prelude, coord_par, entries, CONT, vname, at_point

EXPLANATION = ('The 3x3 matrix inverse is derived as rational functions of nine symbolic entries, for C arrays, owning arrays, views and a user matrix '
               'type, and compared with the adjugate divided by the determinant (so inverse times matrix is the identity as rational functions). For '
               'interpolated mappings the inverse and determinant are derived and compared in the same way for (a) the affine and trilinear families '
               'with symbolic coefficients and symbolic parent point, (b) all vertex coordinates symbolic at fixed points, (c) for higher orders '
               'groups of vertices displaced symbolically, with the previous content of both outputs symbolic. Every trace must agree, so a special '
               'case for some determinants is reported. Dimensions other than 3 must be rejected, or right.')
ASSUMPTIONS = ['arithmetic is judged over the reals; singular matrices are outside the property',
               'mappings: order-1 hexahedra completely at the listed points; other orders for groups of up to 4 symbolic vertices at a time']
RULE = 'dataflow in the domain of rational functions (interprocedural, from the IR); normal forms equal adj(J)/det(J) and det(J); type checker rejects other dimensions'
FULL = True
MIN = 450
TOL = {'double': 1e-10, 'float': 1e-4}


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def cof(m, i, j):
    r = [k for k in range(3) if k != i]
    c = [k for k in range(3) if k != j]
    v = m[r[0]][c[0]] * m[r[1]][c[1]] - m[r[0]][c[1]] * m[r[1]][c[0]]
    return v if (i + j) % 2 == 0 else -v


def judge(ctx, o, J, inv, det, tol, what):
    D = det3(J)
    real_equals(ctx, o, det, D, tol, what + ': determinant')
    r = D.recip()
    if r is None:
        return
    for i in range(3):
        for j in range(3):
            real_equals(ctx, o, inv[i][j], cof(J, j, i) * r, tol, '%s: inverse entry (%d,%d)' % (what, i, j))


def matrix(real, std, bounds):
    src = inc('math', 'carray')
    src += 'struct User { using value_type = %s; %s * p; constexpr %s & operator()( int i, int j ) { return p[ j * 3 + i ]; } };\n' % (real, real, real)
    forms = [('C array', '%s (&m)[3][3]' % real, '', 'm', 0), ('CArrayNd', 'CArrayNd< %s, 3, 3 > & m' % real, '', 'm', 0),
             ('view', '%s * p' % real, 'CArrayViewNd< %s, 3, 3 > m( p );' % real, 'm', 0), ('user matrix (column-major)', '%s * p' % real, 'User m{ p };', 'm', 1)]
    for k, (n, par, decl, a, _) in enumerate(forms):
        src += 'extern "C" void inv%d( %s, %s & det ) { %s mathUtilities::inverse( %s, det ); }\n' % (k, par, real, decl, a)

    def verify(mod, ctx):
        for k, (n, par, decl, a, tr) in enumerate(forms):
            for sp, o in outcomes(mod, ctx, 'inv%d' % k, [Buf('m', real, 9), Buf('det', real, 1, 'uninit')], track_real=(real == 'double')):
                what = 'inverse of a 3x3 %s of %s' % (n, real)
                if not returns(ctx, o, what):
                    continue
                at = (lambda i, j: j * 3 + i) if tr else (lambda i, j: i * 3 + j)
                J = [[RF.var('m[%d]' % at(i, j)) for j in range(3)] for i in range(3)]
                inv = [[final(o, o.args[0].obj, at(i, j), real) for j in range(3)] for i in range(3)]
                judge(ctx, o, J, inv, final(o, o.args[1].obj, 0, real), 1e-12, what)
    return Job('matrix inverse %s c++%s b%d' % (real, std, bounds), src, verify, std=std, bounds=bounds)


def lit(x):
    return repr(float(x))


def mapping(real, mix, cont, kind, std, bounds, part=0):
    """kind: 'family' | ('point', pt)"""
    shape = [o + 1 for _, o in mix]
    tuples = list(itertools.product(*map(range, shape)))
    label = 'inverseJacobian of LinearTransform< %s > of %s, point in a %s' % (real, ', '.join('%s%d' % (SPACINGS[s], o) for s, o in mix), cont)
    nd = [nodes(s, o + 1) if o else (Fraction(0),) for s, o in mix]
    lines, vert = [], {}
    nv = 0
    if kind == 'family':
        # vertex = A node + P node0 node1 node2 + b
        nv = 15
        for ix in tuples:
            x = [lit(nd[k][ix[k]]) for k in range(3)]
            for i in range(3):
                lines.append('t.getData()( %s, %d ) = v[%d] * T( %s ) + v[%d] * T( %s ) + v[%d] * T( %s ) + v[%d] * T( %s ) * T( %s ) * T( %s ) + v[%d];'
                             % (', '.join(map(str, ix)), i, 3 * i, x[0], 3 * i + 1, x[1], 3 * i + 2, x[2], 9 + i, x[0], x[1], x[2], 12 + i))
        label += ', affine and trilinear family, symbolic point'
    else:
        pt, free = kind
        for q, ix in enumerate(tuples):
            x = [nd[k][ix[k]] for k in range(3)]
            # a fixed distorted reference element
            ref = [x[0] + Fraction(1, 8) * x[1] * x[2], Fraction(3, 4) * x[1] + Fraction(1, 4) * x[0] * x[2], Fraction(5, 4) * x[2] - Fraction(1, 8) * x[0]]
            for i in range(3):
                if q in free:
                    vert[q, i] = 'v[%d]' % nv
                    lines.append('t.getData()( %s, %d ) = v[%d];' % (', '.join(map(str, ix)), i, nv))
                    nv += 1
                else:
                    r = Fraction(float(round(ref[i] * 64))) / 64
                    vert[q, i] = r
                    lines.append('t.getData()( %s, %d ) = T( %s );' % (', '.join(map(str, ix)), i, lit(r)))
        label += ', vertices %s free, at %s' % ('all' if len(free) == len(tuples) else sorted(free), tuple(map(float, pt)))
    src = prelude(real, mix) + 'using T = %s;\n' % real
    src += ('extern "C" void inv( %s const * v, %s, %s * out, JT & J, %s & det ) { LT t; %s LT const & t_c = t; utilities::inverseJacobian( t_c, x, J, det ); %s }\n'
            % (real, coord_par(real, 3, cont), real, real, ' '.join(lines), entries(3)))
    if kind != 'family':
        decl = {'C array': 'T const x[3] = { %s };', 'CArray': 'CArrayNd< T, 3 > const x{ %s };', 'std::array': 'std::array< T, 3 > const x{ %s };'}[cont]
        src += 'extern "C" void inv_at( %s const * v, %s * out, JT & J, %s & det ) { %s inv( v, x, out, J, det ); }\n' % (
            real, real, real, decl % ', '.join('T( %s )' % lit(p) for p in pt))
    fn = 'inv' if kind == 'family' else 'inv_at'

    def verify(mod, ctx):
        xs = lib_nodes(mod, ctx, mix)
        if xs is None or any(len(set(v)) != len(v) for v in xs):
            ctx.ob(False, label + ': nodes are distinct constants', repr(xs))
            return
        S = Spec(xs)
        if kind == 'family':
            if [tuple(v) for v in xs] != [tuple(Fraction(float(y)) for y in v) for v in nd]:
                ctx.ob(False, label + ': nodes are the true ones', repr(xs))
                return
            x = [RF.var('x[%d]' % k) for k in range(3)]
            g = [x[1] * x[2], x[0] * x[2], x[0] * x[1]]
            J = [[RF.var('v[%d]' % (3 * i + j)) + RF.var('v[%d]' % (9 + i)) * g[j] for j in range(3)] for i in range(3)]
            specs = [Buf('v', real, nv), Buf('x', real, 3), Buf('out', real, 9, 'uninit'), Buf('J', real, 9, 'uninit'), Buf('det', real, 1, 'uninit')]
            io, idet = 2, 4
        else:
            J = []
            for i in range(3):
                row = []
                for j in range(3):
                    r = RF(Poly())
                    for q, ix in enumerate(tuples):
                        w = vert[q, i]
                        r = r + (RF.var(w) if isinstance(w, str) else RF.const(w)) * at_point(S.grad(ix, j), kind[0])
                    row.append(r)
                J.append(row)
            specs = [Buf('v', real, nv), Buf('out', real, 9, 'uninit'), Buf('J', real, 9, 'uninit'), Buf('det', real, 1, 'uninit')]
            io, idet = 1, 3
        for sp, o in outcomes(mod, ctx, fn, specs, track_real=(real == 'double')):
            if not returns(ctx, o, label):
                continue
            inv = [[final(o, o.args[io].obj, 3 * i + j, real) for j in range(3)] for i in range(3)]
            judge(ctx, o, J, inv, final(o, o.args[idet].obj, 0, real), TOL[real], label)
            ctx.ob(not o.stores(o.args[0].obj), label + ': inputs are only read', '')
    return Job('%s c++%s b%d %d' % (label, std, bounds, part), src, verify, std=std, bounds=bounds)


def small_dims(real, d):
    mix = [('L', 1)] * d
    label = 'inverseJacobian of LinearTransform< %s > in %d dimensions' % (real, d)
    tuples = list(itertools.product(range(2), repeat=d))

    def fn(scratch, ctx):
        from .c17 import fill
        src = prelude(real, mix)
        src += ('extern "C" void inv( %s const * v, %s, %s * out, JT & J, %s & det ) { LT t; %s LT const & t_c = t; utilities::inverseJacobian( t_c, x, J, det ); %s }\n'
                % (real, coord_par(real, d, 'C array'), real, real, fill(tuples, d), entries(d)))
        try:
            mod = compile_ir(scratch, 'sd%s%d' % (real, d), src)
        except CompileError as e:
            if classify_compile_error(e.stderr, e.src) == 'vanished':
                raise Broken('\n'.join(first_errors(e.stderr)))
            ctx.ob(True, label + ' is rejected')
            ctx.count('rejected dimensions')
            return
        xs = lib_nodes(mod, ctx, mix)
        if xs is None:
            ctx.ob(False, label, 'nodes')
            return
        S = Spec(xs)
        J = [[RF(Poly()) for _ in range(d)] for _ in range(d)]
        for i in range(d):
            for j in range(d):
                for q, ix in enumerate(tuples):
                    J[i][j] = J[i][j] + RF.var(vname(q, i, d)) * S.grad(ix, j)
        D = J[0][0] if d == 1 else J[0][0] * J[1][1] - J[0][1] * J[1][0]
        n = len(tuples) * d
        try:
            outs = list(outcomes(mod, ctx, 'inv', [Buf('v', real, n), Buf('x', real, d), Buf('out', real, d * d, 'uninit'), Buf('J', real, d * d, 'uninit'), Buf('det', real, 1, 'uninit')]))
        except Inconclusive as e:
            ctx.ob(False, label + ' is rejected or right', 'accepted, but: %s' % e)
            return
        for sp, o in outs:
            if returns(ctx, o, label):
                real_equals(ctx, o, final(o, o.args[4].obj, 0, real), D, TOL[real], label + ' is accepted: determinant')
                adj = [[RF.const(1)]] if d == 1 else [[J[1][1], -J[0][1]], [-J[1][0], J[0][0]]]
                for i in range(d):
                    for j in range(d):
                        real_equals(ctx, o, final(o, o.args[2].obj, i * d + j, real), adj[i][j] * D.recip(), TOL[real], '%s is accepted: inverse entry (%d,%d)' % (label, i, j))
    return FnJob(label, fn)


H = Fraction(1, 2)
POINTS = [(Fraction(0),) * 3, (-Fraction(1), Fraction(1), -Fraction(1)), (H, -H / 2, H / 4), (Fraction(3, 8), Fraction(1), -Fraction(5, 8))]


def build(tier):
    jobs = [matrix(r, s, b) for r in ('double', 'float') for s in ('17', '20') for b in (False, True)]
    n = 0
    for real in ('double', 'float'):
        for cont in CONT:
            for mix in ([('L', 1)] * 3, [('E', 1), ('L', 1), ('E', 1)]):
                n += 1
                jobs.append(mapping(real, mix, cont, 'family', '17' if n % 2 else '20', n % 3 == 0))
        for k, pt in enumerate(POINTS if tier == 'thorough' else POINTS[1:3]):
            for mix in ([('L', 1)] * 3, [('E', 1), ('E', 1), ('G', 1)]):
                n += 1
                jobs.append(mapping(real, mix, CONT[n % 3], (pt, frozenset(range(8))), '17' if n % 2 else '20', n % 3 == 0))
        for mix in ([('L', 1), ('E', 2), ('G', 1)], [('L', 2), ('L', 1), ('L', 2)]) + (([('L', 2)] * 3, [('L', 1), ('G', 1), ('L', 3)], [('L', 5), ('L', 1), ('L', 1)], [('L', 1), ('E', 4), ('L', 1)], [('E', 1), ('L', 1), ('L', 6)]) if tier == 'thorough' else ()):
            nn = 1
            for _, o in mix:
                nn *= o + 1
            groups = [frozenset(range(g, nn, (nn + 3) // 4)) for g in range((nn + 3) // 4)]
            if tier == 'quick':
                groups = groups[::2] if real == 'double' else groups[1:2]
            for g in groups:
                n += 1
                jobs.append(mapping(real, mix, CONT[n % 3], (POINTS[2 + n % 2], g), '17' if n % 2 else '20', n % 3 == 0, n))
        jobs += [small_dims(real, 1), small_dims(real, 2)]
    return jobs
