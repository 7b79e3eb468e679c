"""C15: tensor-product bases multiply the right factor in the right direction."""
import itertools
from sa.core import Job, around
from sa.query import *
from sa.wit import *
from .c01 import prod

EXPLANATION = ('For 1..4 dimensions and many mixes of orders and spacings per direction, the value and gradient of every basis function are '
               'derived as polynomials in the symbolic coordinates, at the three levels (basis product, interpolated shape, parent element) and '
               'for C arrays, std::array, owning arrays and views as coordinates, and compared with the product of the one-dimensional cardinal '
               'polynomials of the nodes the spacings report and its partial derivatives.')
ASSUMPTIONS = ['arithmetic is judged over the reals', 'the listed mixes stand for all mixes; orders up to 4 in products']
RULE = 'dataflow in the polynomial domain (interprocedural, from the IR); normal form equals the product of the factors / its partial derivative'
MIN = 1500
TOL = {'double': 1e-11, 'float': 3e-5}

MIXES = [[('E', 1)], [('L', 3)], [('G', 2)], [('E', 0)],
         [('E', 1), ('L', 2)], [('G', 1), ('E', 3)], [('L', 2), ('L', 1)], [('E', 0), ('G', 2)], [('L', 4), ('E', 2)],
         [('L', 1), ('L', 1), ('L', 1)], [('E', 1), ('G', 2), ('L', 3)], [('L', 2), ('E', 1), ('G', 1)], [('G', 2), ('L', 1), ('E', 0)], [('E', 2), ('E', 3), ('E', 1)],
         [('L', 1), ('E', 2), ('G', 1), ('L', 2)], [('E', 1), ('E', 1), ('E', 1), ('E', 1)]]
BIG = [[('E', 1)] * 5, [('L', 1), ('E', 2), ('E', 1), ('G', 1), ('L', 2), ('E', 1)], [('E', 1), ('G', 1), ('E', 1), ('L', 1), ('E', 0), ('L', 1), ('E', 1)], [('L', 8), ('L', 1), ('E', 1)], [('L', 1), ('L', 7)],
       [('L', 1), ('L', 8), ('E', 1)], [('E', 1), ('G', 1), ('L', 8)], [('E', 9), ('L', 1)], [('L', 1), ('E', 9)]]
MORE = [[('G', 3), ('G', 2), ('G', 1)], [('L', 3), ('L', 2), ('L', 1)], [('E', 4), ('L', 4)], [('L', 5), ('E', 1), ('L', 2)], [('E', 2), ('E', 2), ('E', 2)],
        [('E', 3), ('G', 1), ('E', 0), ('L', 1)], [('L', 2), ('L', 2), ('L', 2), ('L', 1)], [('L', 8)], [('E', 6), ('L', 1)]]


def types(real, mix):
    bs = ', '.join(basis(real, o, s) for s, o in mix)
    d = len(mix)
    cube = 'NCube< %s, %d, -1, 1, 1 >' % (real, d)
    return [('BasisProduct', 'BasisProduct< %s, %s >' % (real, bs)), ('InterpolatedShape', 'InterpolatedShape< %s, %s, %s >' % (real, cube, bs)),
            ('ParentElement', 'ParentElement< %s, %s, %s >' % (real, cube, bs)),
            ('ParentElement of InterpolatedShape', None)]


def containers(real, d):
    return [('C array', '%s const (&x)[%d]' % (real, d)), ('CArray', 'CArrayNd< %s, %d > const & x' % (real, d)),
            ('std::array', 'std::array< %s, %d > const & x' % (real, d)), ('view', None), ('mutable C array', '%s (&x)[%d]' % (real, d))]


def node_fns(real, mix):
    s = ''
    for k, (sp, o) in enumerate(mix):
        if o:
            for i in range(o + 1):
                s += 'extern "C" %s nd_%d_%d() { return %s::SpacingType::template coordinate<%d>(); }\n' % (real, k, i, basis(real, o, sp), i)
    return s


def lib_nodes(mod, ctx, mix):
    out = []
    for k, (sp, o) in enumerate(mix):
        xs = []
        for i in range(o + 1 if o else 0):
            outs = [r for _, r in outcomes(mod, ctx, 'nd_%d_%d' % (k, i), [])]
            if len(outs) != 1 or outs[0].kind != 'ret' or not isinstance(outs[0].value, RF) or not outs[0].value.is_const():
                return None
            xs.append(outs[0].value.num.const_value())
        out.append(xs or [Fraction(0)])
    return out


class Spec:
    """Cardinal polynomials of the library's nodes, in variables name[k]."""

    def __init__(self, xs, name='x'):
        self.xs, self.name = xs, name
        self.memo = {}

    def factor(self, k, i):
        r = self.memo.get((k, i))
        if r is None:
            v = lagrange(self.xs[k], i, RF.var('%s[%d]' % (self.name, k)))
            r = self.memo[k, i] = (v, dpoly(v, '%s[%d]' % (self.name, k)))
        return r

    def value(self, ix):
        r = RF.const(1)
        for k, i in enumerate(ix):
            r = r * self.factor(k, i)[0]
        return r

    def grad(self, ix, c):
        r = RF.const(1)
        for k, i in enumerate(ix):
            r = r * self.factor(k, i)[1 if k == c else 0]
        return r


def select(shape, cap):
    ts = list(itertools.product(*map(range, shape)))
    if len(ts) <= cap:
        return ts
    step = len(ts) / cap
    keep = {ts[0], ts[-1]} | {ts[int(i * step)] for i in range(cap)}
    # one step from the origin in every direction tells directions apart
    for k in range(len(shape)):
        keep.add(tuple(shape[k] - 1 if q == k else 0 for q in range(len(shape))))
    return sorted(keep)


def make(real, mix, level, cont, std, bounds, cap):
    d = len(mix)
    lname, T = level
    cname, par = cont
    shape = [o + 1 for _, o in mix]
    tuples = select(shape, cap)
    src = '#include <array>\n' + inc('prod', 'basis', 'spacing', 'ishape', 'ncube', 'pe') + 'using B = %s;\n' % T + node_fns(real, mix)
    pre = ''
    if par is None:
        par, pre = '%s const (&x_)[%d]' % (real, d), 'CArrayViewNd< %s const, %d > const x( x_ );' % (real, d)
    for q, ix in enumerate(tuples):
        t = ', '.join(map(str, ix))
        src += 'extern "C" %s v%d( %s ) { %s return B::template value< %s >( x ); }\n' % (real, q, par, pre, t)
        src += 'extern "C" void g%d( %s, CArrayNd< %s, %d > & out ) { %s out = B::template gradient< %s >( x ); }\n' % (q, par, real, d, pre, t)
    label = '%s< %s > of %s with %s' % (lname, real, ', '.join('%s%d' % (SPACINGS[s], o) for s, o in mix), cname)

    def verify(mod, ctx):
        xs = lib_nodes(mod, ctx, mix)
        if xs is None or any(len(set(v)) != len(v) for v in xs):
            ctx.ob(False, label + ': nodes are distinct constants', repr(xs))
            return
        sp_ = Spec(xs)
        for q, ix in enumerate(tuples):
            for sp, o in outcomes(mod, ctx, 'v%d' % q, [Buf('x', real, d)], track_real=(real == 'double')):
                what = '%s: value<%s>' % (label, ix)
                if returns(ctx, o, what):
                    real_equals(ctx, o, o.value, sp_.value(ix), TOL[real], what)
                    ctx.ob(not o.stores(), what + ' writes nothing', repr(o.stores()[:1]))
            for sp, o in outcomes(mod, ctx, 'g%d' % q, [Buf('x', real, d), Buf('out', real, d, 'uninit')], track_real=(real == 'double')):
                what = '%s: gradient<%s>' % (label, ix)
                if returns(ctx, o, what):
                    for c in range(d):
                        real_equals(ctx, o, final(o, o.args[1].obj, c, real), sp_.grad(ix, c), TOL[real], '%s component %d' % (what, c))
                    ctx.ob(not o.stores(o.args[0].obj), what + ' does not write the coordinates', '')
    return Job('%s c++%s b%d' % (label, std, bounds), src, verify, std=std, bounds=bounds)


def build(tier):
    jobs = []
    n = 0
    for mix in MIXES + MORE + BIG + [[('E', k)] for k in around(10, 16, 4)] + [[('E', k), ('E', 1)] for k in around(9, 12, 3)] + [[('E', 1)] * k for k in around(11, 12, 2)]:
        for real in ('double', 'float'):
            if real == 'float' and max(o for _, o in mix) > 4:
                continue
            ts = types(real, mix)[:3]
            for li, lv in enumerate(ts):
                for ci, ct in enumerate(containers(real, len(mix))):
                    if tier == 'quick' and (li + ci + n) % 3 and not (real == 'double' and ci == 0):
                        continue
                    n += 1
                    if tier == 'quick' and mix in MORE + BIG and ci and (ci + li + n) % 2:
                        continue
                    cap = 40 if tier == 'thorough' else 12 if len(mix) > 4 else 16
                    jobs.append(make(real, mix, lv, ct, '17' if n % 3 else '20', n % 7 == 0, cap))
    return jobs
