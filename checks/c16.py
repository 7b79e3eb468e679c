"""C16: fields are interpolated as the sum of nodal values times basis functions."""
import itertools
from sa.core import Job, around
from sa.query import *
from sa.wit import *
from .c01 import prod
from .c15 import Spec, lib_nodes, node_fns, TOL

EXPLANATION = ('For elements of 1..3 dimensions with equal and unequal orders and several kinds of nodal containers, the interpolated value and '
               'gradient are derived as polynomials in the symbolic coordinates and symbolic nodal values (all of them at once) and compared with '
               'the sum over all support points of nodal value times the product of cardinal polynomials (its partial derivative); every store '
               'outside the result is reported.')
ASSUMPTIONS = ['arithmetic is judged over the reals', 'the listed mixes of orders and spacings stand for all; up to 27 (quick) or 64 (thorough) support points']
RULE = 'dataflow in the polynomial domain (interprocedural, from the IR); normal form equals the sum of nodal value times cardinal basis; effect set of the trace'
FULL = True
MIN = 300

MIXES = [[('E', 1)], [('L', 3)], [('G', 2)], [('E', 0)], [('L', 5)],
         [('E', 1), ('L', 2)], [('L', 2), ('E', 1)], [('E', 0), ('G', 2)], [('L', 4), ('E', 2)], [('L', 3), ('L', 1)],
         [('L', 1), ('L', 1), ('L', 1)], [('E', 1), ('G', 2), ('L', 3)], [('L', 2), ('E', 1), ('G', 1)], [('G', 2), ('L', 1), ('E', 0)], [('E', 2), ('E', 2), ('E', 2)]]
BIG = [[('L', 4), ('L', 4), ('L', 4)], [('E', 1)] * 5, [('E', 1), ('L', 1), ('E', 2), ('G', 1)],
       [('L', 8), ('L', 1)], [('L', 1), ('E', 7)], [('L', 8), ('L', 1), ('E', 1)], [('L', 1), ('L', 8), ('G', 1)], [('G', 1), ('E', 1), ('E', 8)], [('L', 1)] * 6]
MORE = [[('L', 3), ('L', 2), ('L', 1)], [('L', 8)], [('E', 5), ('L', 3)], [('L', 3), ('L', 3), ('L', 3)], [('E', 3), ('E', 1), ('L', 2)]]


def conts(real, shape):
    """(name, parameter list, declarations, argument, buffer elements, offset of node) """
    n, d = prod(shape), len(shape)
    ex = ', '.join(map(str, shape))

    def row(ix):
        o = 0
        for i, e in zip(ix, shape):
            o = o * e + i
        return o

    def col(ix):
        o, s = 0, 1
        for i, e in zip(ix, shape):
            o, s = o + i * s, s * e
        return o
    args = ', '.join('int i%d' % k for k in range(d))
    cexpr, s = [], 1
    for k in range(d):
        cexpr.append('i%d * %d' % (k, s))
        s *= shape[k]
    yield 'CArrayNd', 'CArrayNd< %s, %s > const & v' % (real, ex), '', 'v', row
    yield 'mutable CArrayNd', 'CArrayNd< %s, %s > & v' % (real, ex), '', 'v', row
    yield 'view', '%s const * v' % real, 'CArrayViewNd< %s const, %s > const w( v );' % (real, ex), 'w', row
    yield 'mutable view', '%s * v' % real, 'CArrayViewNd< %s, %s > w( v );' % (real, ex), 'w', row
    yield 'function object', '%s const * v' % real, 'Field w{ v };', 'w', col
    yield 'lambda', '%s const * v' % real, 'auto w = [=] ( %s ) { return v[ %s ]; };' % (args, ' + '.join(cexpr)), 'w', col


def field(real, shape):
    d = len(shape)
    s, e = 1, []
    for k in range(d):
        e.append('i%d * %d' % (k, s))
        s *= shape[k]
    return 'struct Field { %s const * p; constexpr %s operator()( %s ) const { return p[ %s ]; } };\n' % (
        real, real, ', '.join('int i%d' % k for k in range(d)), ' + '.join(e))


def make(real, mix, k, std, bounds):
    d = len(mix)
    shape = [o + 1 for _, o in mix]
    n = prod(shape)
    tuples = list(itertools.product(*map(range, shape)))
    cname, par, decl, arg, off = list(conts(real, shape))[k]
    T = 'ParentElement< %s, NCube< %s, %d, -1, 1, 1 >, %s >' % (real, real, d, ', '.join(basis(real, o, s) for s, o in mix))
    src = inc('pe', 'basis', 'spacing', 'ncube', 'carray') + 'using P = %s;\n' % T + node_fns(real, mix) + field(real, shape)
    src += 'extern "C" %s val( %s const (&x)[%d], %s ) { %s return P::value( x, %s ); }\n' % (real, real, d, par, decl, arg)
    src += 'extern "C" void grd( %s const (&x)[%d], %s, CArrayNd< %s, %d > & out ) { %s out = P::gradient( x, %s ); }\n' % (real, d, par, real, d, decl, arg)
    label = '%s element of %s with nodal values in a %s' % (real, ', '.join('%s%d' % (SPACINGS[s], o) for s, o in mix), cname)

    def verify(mod, ctx):
        xs = lib_nodes(mod, ctx, mix)
        if xs is None or any(len(set(v)) != len(v) for v in xs):
            ctx.ob(False, label + ': nodes are distinct constants', repr(xs))
            return
        S = Spec(xs)
        nodal = [RF.var('v[%d]' % off(t)) for t in tuples]

        def want(f):
            r = RF(Poly())
            for t, v in zip(tuples, nodal):
                r = r + v * f(t)
            return r
        for sp, o in outcomes(mod, ctx, 'val', [Buf('x', real, d), Buf('v', real, n)], track_real=(real == 'double')):
            what = label + ': value'
            if returns(ctx, o, what):
                real_equals(ctx, o, o.value, want(S.value), TOL[real], what)
                ctx.ob(not o.stores(), what + ' only reads', repr(o.stores()[:1]))
                ctx.count('nodal values', n)
        for sp, o in outcomes(mod, ctx, 'grd', [Buf('x', real, d), Buf('v', real, n), Buf('out', real, d, 'uninit')], track_real=(real == 'double')):
            what = label + ': gradient'
            if returns(ctx, o, what):
                for c in range(d):
                    real_equals(ctx, o, final(o, o.args[2].obj, c, real), want(lambda t: S.grad(t, c)), TOL[real], '%s component %d' % (what, c))
                ctx.ob(not o.stores(o.args[0].obj) and not o.stores(o.args[1].obj), what + ' only reads its inputs', '')
    return Job('%s c++%s b%d' % (label, std, bounds), src, verify, std=std, bounds=bounds)


def build(tier):
    jobs = []
    n = 0
    for mix in MIXES + MORE + BIG + [[('E', k)] for k in around(10, 16, 4)]:
        for real in ('double', 'float'):
            if real == 'float' and max(o for _, o in mix) > 4:
                continue
            for k in range(6):
                n += 1
                if tier == 'quick' and not (real == 'double' and k in (0, 4)) and (n % 3 or prod(o + 1 for _, o in mix) > 60):
                    continue
                jobs.append(make(real, mix, k, '17' if n % 3 else '20', n % 4 == 0))
    return jobs
