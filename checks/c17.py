"""C17: the Jacobian is the matrix of partial derivatives of the mapping."""
import itertools
from sa.core import Job, around
from sa.query import *
from sa.wit import *
from .c01 import prod
from .c15 import Spec, lib_nodes, node_fns

EXPLANATION = ('For interpolated mappings of 1..5 dimensions (at quadrature points: 1..3) with equal and unequal orders, every Jacobian entry is derived as a polynomial in the '
               'symbolic parent point and all symbolic vertex coordinates, with the previous content of the output symbolic too, and compared with '
               'the sum of vertex coordinate i times the j-th partial derivative of the cardinal basis. The quadrature form is derived for every '
               'quadrature point and compared with the same specification at that point. The vertex data must be unchanged.')
ASSUMPTIONS = ['arithmetic is judged over the reals', 'the listed mixes of orders and spacings stand for all; up to 27 (quick) or 36 (thorough) support points',
               'vertices are written and entries read through the array interface that C01 and C05 establish']
RULE = 'dataflow in the polynomial domain (interprocedural, from the IR); normal form of every entry equals the partial derivative; independence of prior output'
MIN = 700
TOL = {'double': 1e-11, 'float': 3e-5}

MIXES = [[('L', 1)] * 3, [('L', 1), ('E', 2), ('G', 1)], [('E', 2), ('L', 1), ('L', 1)], [('G', 1), ('G', 1), ('E', 2)], [('L', 2)] * 3, [('E', 0), ('L', 2), ('E', 1)],
         [('L', 1), ('L', 1)], [('E', 1), ('L', 3)], [('G', 2), ('L', 1)], [('L', 1)], [('E', 4)]]
BIG = [[('L', 3)] * 3, [('L', 4), ('L', 4), ('L', 4)], [('L', 8), ('L', 1), ('L', 1)], [('L', 1), ('E', 6), ('L', 1)], [('E', 1), ('G', 1), ('L', 7)], [('L', 6)], [('L', 1), ('L', 6)], [('E', 6), ('L', 1)],
       [('L', 1)] * 4, [('E', 1), ('L', 2), ('G', 1), ('E', 0)], [('E', 1)] * 5]
MORE = [[('L', 3), ('L', 1), ('L', 2)], [('L', 1), ('L', 2), ('L', 3)], [('E', 2), ('G', 3), ('L', 2)], [('E', 1), ('E', 1), ('G', 3)], [('L', 4), ('E', 3)]]
CONT = ['C array', 'CArray', 'std::array']


def shape_t(real, mix):
    d = len(mix)
    return 'InterpolatedShape< %s, NCube< %s, %d, -1, 1, 1 >, %s >' % (real, real, d, ', '.join(basis(real, o, s) for s, o in mix))


def coord_par(real, d, cont, name='x'):
    return {'C array': '%s const (&%s)[%d]' % (real, name, d), 'CArray': 'CArrayNd< %s, %d > const & %s' % (real, d, name),
            'std::array': 'std::array< %s, %d > const & %s' % (real, d, name)}[cont]


def fill(tuples, d, v='v', t='t'):
    """Statements that copy the buffer v into the vertex data through the array interface."""
    return ' '.join('%s.getData()( %s, %d ) = %s[%d];' % (t, ', '.join(map(str, ix)), i, v, q * d + i) for q, ix in enumerate(tuples) for i in range(d))


def readback(tuples, d, out='w', t='t'):
    return ' '.join('%s[%d] = t_c.getData()( %s, %d );' % (out, q * d + i, ', '.join(map(str, ix)), i) for q, ix in enumerate(tuples) for i in range(d))


def entries(d, J='J', out='out'):
    return ' '.join('%s[%d] = %s( %d, %d );' % (out, i * d + j, J, i, j) for i in range(d) for j in range(d))


def vname(q, i, d):
    return 'v[%d]' % (q * d + i)


def entry_spec(S, tuples, d, i, j):
    r = RF(Poly())
    for q, ix in enumerate(tuples):
        r = r + RF.var(vname(q, i, d)) * S.grad(ix, j)
    return r


def at_point(rf, pt, name='x'):
    p = rf.num
    for k, v in enumerate(pt):
        p = p.subst('%s[%d]' % (name, k), Poly.const(v))
    return RF(p)


def prelude(real, mix):
    return ('#include <array>\n' + inc('basis', 'spacing', 'quad', 'ishape', 'ncube', 'lt', 'carray') +
            'using S = %s; using LT = LinearTransform< %s, S >; using JT = typename LT::JacobianType;\n' % (shape_t(real, mix), real) + node_fns(real, mix))


def point(real, mix, cont, std, bounds):
    d = len(mix)
    shape = [o + 1 for _, o in mix]
    tuples = list(itertools.product(*map(range, shape)))
    n = len(tuples) * d
    src = prelude(real, mix)
    src += ('extern "C" void jac( %s const * v, %s, %s * out, %s * w, JT & J ) { LT t; %s LT const & t_c = t; utilities::jacobian( t_c, x, J ); %s %s }\n'
            % (real, coord_par(real, d, cont), real, real, fill(tuples, d), entries(d), readback(tuples, d)))
    label = 'jacobian of LinearTransform< %s > of %s, point in a %s' % (real, ', '.join('%s%d' % (SPACINGS[s], o) for s, o in mix), cont)

    def verify(mod, ctx):
        xs = lib_nodes(mod, ctx, mix)
        if xs is None or any(len(set(v)) != len(v) for v in xs):
            ctx.ob(False, label + ': nodes are distinct constants', repr(xs))
            return
        Sp = Spec(xs)
        for sp, o in outcomes(mod, ctx, 'jac', [Buf('v', real, n), Buf('x', real, d), Buf('out', real, d * d, 'uninit'), Buf('w', real, n, 'uninit'), Buf('J', real, d * d, 'uninit')], track_real=(real == 'double')):
            if not returns(ctx, o, label):
                continue
            for i in range(d):
                for j in range(d):
                    real_equals(ctx, o, final(o, o.args[2].obj, i * d + j, real), entry_spec(Sp, tuples, d, i, j), TOL[real], '%s: entry (%d,%d)' % (label, i, j))
            for k in range(n):
                ctx.ob(is_rf(final(o, o.args[3].obj, k, real), RF.var('v[%d]' % k)), label + ': vertex data unchanged', 'value %d' % k)
            ctx.ob(not o.stores(o.args[0].obj) and not o.stores(o.args[1].obj), label + ': inputs are only read', '')
    return Job('%s c++%s b%d' % (label, std, bounds), src, verify, std=std, bounds=bounds)


QR = {'G': 'QuadratureGaussLegendre', 'L': 'QuadratureGaussLobatto'}


def quadrature(real, mix, rule, nq, std, bounds, cap):
    d = len(mix)
    shape = [o + 1 for _, o in mix]
    tuples = list(itertools.product(*map(range, shape)))
    n = len(tuples) * d
    qa = list(itertools.product(range(nq), repeat=d))
    if len(qa) > cap:
        step = len(qa) / cap
        qa = sorted({qa[0], qa[-1]} | {qa[int(k * step)] for k in range(cap)} | {tuple(nq - 1 if a == k else 0 for a in range(d)) for k in range(d)})
    src = prelude(real, mix) + 'using Q = %s< %s, %d >;\n' % (QR[rule], real, nq)
    for i in range(nq):
        src += 'extern "C" %s qc%d() { return Q::template coordinate<%d>(); }\n' % (real, i, i)
    for k, q in enumerate(qa):
        src += ('extern "C" void jac%d( %s const * v, %s * out, JT & J ) { LT t; %s LT const & t_c = t; utilities::jacobian< Q, %s >( t_c, J ); %s }\n'
                % (k, real, real, fill(tuples, d), ', '.join(map(str, q)), entries(d)))
    label = 'jacobian of LinearTransform< %s > of %s at points of %s<%d>' % (real, ', '.join('%s%d' % (SPACINGS[s], o) for s, o in mix), QR[rule], nq)

    def verify(mod, ctx):
        xs = lib_nodes(mod, ctx, mix)
        if xs is None or any(len(set(v)) != len(v) for v in xs):
            ctx.ob(False, label + ': nodes are distinct constants', repr(xs))
            return
        qs = []
        for i in range(nq):
            r = [o for _, o in outcomes(mod, ctx, 'qc%d' % i, [])]
            if len(r) != 1 or r[0].kind != 'ret' or not isinstance(r[0].value, RF) or not r[0].value.is_const():
                ctx.ob(False, label + ': quadrature points are constants', '')
                return
            qs.append(r[0].value.num.const_value())
        Sp = Spec(xs)
        es = [[entry_spec(Sp, tuples, d, i, j) for j in range(d)] for i in range(d)]
        for k, q in enumerate(qa):
            what = '%s, point %s' % (label, q)
            for sp, o in outcomes(mod, ctx, 'jac%d' % k, [Buf('v', real, n), Buf('out', real, d * d, 'uninit'), Buf('J', real, d * d, 'uninit')], track_real=(real == 'double')):
                if not returns(ctx, o, what):
                    continue
                ctx.count('quadrature points')
                for i in range(d):
                    for j in range(d):
                        real_equals(ctx, o, final(o, o.args[1].obj, i * d + j, real), at_point(es[i][j], [qs[a] for a in q]), TOL[real], '%s: entry (%d,%d)' % (what, i, j))
    return Job('%s c++%s b%d' % (label, std, bounds), src, verify, std=std, bounds=bounds)


def build(tier):
    jobs = []
    n = 0
    for mix in MIXES + MORE + BIG + [[('E', k), ('E', 1)] for k in around(6, 10, 3)] + [[('E', 1), ('E', 1), ('E', k)] for k in around(6, 9, 2)]:
        for real in ('double', 'float'):
            for cont in CONT:
                n += 1
                if tier == 'quick' and not (real == 'double' and cont == 'C array') and (n % 2 or mix in MORE + BIG):
                    continue
                jobs.append(point(real, mix, cont, '17' if n % 3 else '20', n % 4 == 0))
            for rule, nq in () if len(mix) > 3 else (('G', 2), ('G', 3), ('L', 3), ('L', 4)):
                n += 1
                if tier == 'quick' and (real == 'float' or n % 2):
                    continue
                if len(mix) < 3 and tier == 'quick' and nq == 2:
                    continue
                jobs.append(quadrature(real, mix, rule, nq, '17' if n % 3 else '20', n % 4 == 0, 4 if tier == 'quick' else 27))
    return jobs
