"""C20: scaling mappings have the analytic Jacobian, inverse and determinant."""
from sa.core import Job
from sa.query import *
from sa.wit import *

EXPLANATION = ('For Scaling and UniformScaling of float and double, the Jacobian, inverse and determinant are derived as rational functions of the '
               'symbolic side lengths, set in every way the interface offers and over symbolic previous data, with symbolic previous outputs, and '
               'compared with h/2, 2/h and the product. Lengths are read back and default lengths derived.')
ASSUMPTIONS = ['arithmetic is judged over the reals']
RULE = 'dataflow in the domain of rational functions (interprocedural, from the IR); normal forms equal the analytic ones; independence of prior outputs'
FULL = True
MIN = 400


def make(real, std, bounds):
    src = inc('scal', 'uscal', 'carray') + 'using T = %s; using SC = Scaling< T >; using US = UniformScaling< T >;\n' % real
    sets3 = ['T const a[3] = { h[0], h[1], h[2] }; c.setData( a );', 'auto & d = c.setData(); d[0] = h[0]; d[1] = h[1]; d[2] = h[2];',
             'auto & d = c.setData(); d[2] = h[2]; d[0] = h[0]; d[1] = h[1];', 'SC o; T const a[3] = { h[0], h[1], h[2] }; o.setData( a ); c = o;',
             'T const a[3] = { p[0], p[1], p[2] }; c.setData( a ); T const b[3] = { h[0], h[1], h[2] }; c.setData( b );']
    sets1 = ['c.setData( h[0] );', 'c.setData() = h[0];', 'US o; o.setData( h[0] ); c = o;', 'c.setData( p[0] ); c.setData( h[0] );']
    prior3 = ['', 'T const q_[3] = { p[0], p[1], p[2] }; c.setData( q_ );']
    n = 0
    jobs = []
    for k, st in enumerate(sets3):
        for pk, pr in enumerate(prior3):
            jobs.append(('s%d%d' % (k, pk), 'SC', pr, st))
    for k, st in enumerate(sets1):
        for pk, pr in enumerate(['', 'c.setData( p[0] );']):
            jobs.append(('u%d%d' % (k, pk), 'US', pr, st))
    jobs += [('sd', 'SC', '', ''), ('ud', 'US', '', '')]
    for name, cls, pr, st in jobs:
        m = 3 if cls == 'SC' else 1
        read = ' '.join('out[%d] = J( %d );' % (i, i) for i in range(m))
        for fn, call in (('j', 'utilities::jacobian( k, J );'), ('i', 'utilities::inverseJacobian( k, J, det );')):
            src += ('extern "C" void %s_%s( T const * h, T const * p, typename %s::JacobianType & J, T & det, T * out, T * rb ) { %s c; %s %s %s const & k = c; %s %s %s }\n'
                    % (fn, name, cls, cls, pr, st, cls, call, read,
                       ' '.join('rb[%d] = k.getData()[%d];' % (i, i) for i in range(3)) if m == 3 else 'rb[0] = k.getData();'))

    def verify(mod, ctx):
        for name, cls, pr, st in jobs:
            m = 3 if cls == 'SC' else 1
            label = '%s< %s > (%s)' % ('Scaling' if m == 3 else 'UniformScaling', real, st or 'default lengths')
            h = [RF.const(1) if not st else RF.var('h[%d]' % i) for i in range(m)]
            det = h[0] * h[1] * h[2] if m == 3 else h[0] * h[0] * h[0]
            for fn in 'ji':
                what = label + (': jacobian' if fn == 'j' else ': inverseJacobian')
                for sp, o in outcomes(mod, ctx, '%s_%s' % (fn, name), [Buf('h', real, 3), Buf('p', real, 3), Buf('J', real, m, 'uninit'), Buf('det', real, 1, 'uninit'),
                                                                       Buf('out', real, m, 'uninit'), Buf('rb', real, m, 'uninit')], track_real=(real == 'double')):
                    if not returns(ctx, o, what):
                        continue
                    for i in range(m):
                        want = h[i] * RF.const(Fraction(1, 2)) if fn == 'j' else RF.const(2) * h[i].recip()
                        real_equals(ctx, o, final(o, o.args[4].obj, i, real), want, 1e-15, '%s component %d' % (what, i))
                        real_equals(ctx, o, final(o, o.args[5].obj, i, real), h[i], 0, '%s: length %d read back' % (what, i))
                    if fn == 'i':
                        real_equals(ctx, o, final(o, o.args[3].obj, 0, real), det * RF.const(Fraction(1, 8)), 1e-15, what + ': determinant')
                    ctx.ob(not o.stores(o.args[0].obj) and (fn == 'i' or not o.stores(o.args[3].obj)), what + ' only reads its inputs', '')
    return Job('scalings of %s c++%s b%d' % (real, std, bounds), src, verify, std=std, bounds=bounds)


def build(tier):
    return [make(r, s, b) for r in ('double', 'float') for s in ('17', '20', '23') for b in (False, True)]
