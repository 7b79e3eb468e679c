"""C21: return-by-value Jacobian helpers agree with the output-parameter forms."""
import itertools
from sa.core import Job, static_facts_job
from sa.query import *
from sa.wit import *
from .c17 import shape_t, fill, entries
from .c18 import POINTS, lit

EXPLANATION = ('For the three mappings, both forms are run by the analysis on the same symbolic cell and point and every component of what the helper '
               'returns must have the same normal form as what the output-parameter form writes: symbolic lengths for the scalings; for interpolated '
               'mappings of equal and unequal orders, the Jacobian with all vertices and the point symbolic, the inverse and determinant with an affine '
               'plus trilinear family (symbolic point) and with groups of symbolic vertices. Types and their order in the tuple are decided by the type checker.')
ASSUMPTIONS = ['arithmetic is judged over the reals', 'the output-parameter forms are judged by C17, C18 and C20']
RULE = 'relational dataflow (interprocedural, from the IR): equal normal forms of the two results; type-level facts'
FULL = True
MIN = 250


def scal(real, std, bounds):
    src = '#include <tuple>\n' + inc('jt', 'carray') + 'using T = %s;\n' % real
    for cls, m in (('Scaling', 3), ('UniformScaling', 1)):
        st = 'T const a[3] = { h[0], h[1], h[2] }; c.setData( a );' if m == 3 else 'c.setData( h[0] );'
        src += 'extern "C" void j_%s( T const * h, T * r, T * s ) { %s< T > c; %s %s< T > const & k = c; auto const J = utilities::jacobian( k ); typename %s< T >::JacobianType K; utilities::jacobian( k, K ); %s }\n' % (
            cls, cls, st, cls, cls, ' '.join('r[%d] = J( %d ); s[%d] = K( %d );' % (i, i, i, i) for i in range(m)))
        src += ('extern "C" void i_%s( T const * h, T * r, T * s ) { %s< T > c; %s %s< T > const & k = c; auto const tt = utilities::inverseJacobian( k ); using std::get; auto const & J = get< 1 >( tt );'
                ' typename %s< T >::JacobianType K; T det; utilities::inverseJacobian( k, K, det ); r[%d] = get< 0 >( tt ); s[%d] = det; %s }\n') % (
            cls, cls, st, cls, cls, m, m, ' '.join('r[%d] = J( %d ); s[%d] = K( %d );' % (i, i, i, i) for i in range(m)))

    def verify(mod, ctx):
        for cls, m in (('Scaling', 3), ('UniformScaling', 1)):
            for fn, k in (('j', m), ('i', m + 1)):
                label = '%s of %s< %s >' % ({'j': 'jacobian', 'i': 'inverseJacobian'}[fn], cls, real)
                compare(ctx, mod, '%s_%s' % (fn, cls), [Buf('h', real, 3), Buf('r', real, k, 'uninit'), Buf('s', real, k, 'uninit')], 1, 2, k, real, label)
    return Job('scalings %s c++%s b%d' % (real, std, bounds), src, verify, std=std, bounds=bounds)


def compare(ctx, mod, fn, specs, a, b, k, real, label):
    for sp, o in outcomes(mod, ctx, fn, specs):
        if not returns(ctx, o, label):
            continue
        for i in range(k):
            x, y = final(o, o.args[a].obj, i, real), final(o, o.args[b].obj, i, real)
            ctx.ob(isinstance(x, RF) and isinstance(y, RF) and (x.close(y, 1e-15) or under_guards(x, y, o.guards, 1e-15)),
                   '%s: %s of the two forms agree' % (label, 'determinants' if i == k - 1 and k in (2, 4, 10) else 'components %d' % i),
                   'returns %r, output parameter gets %r%s' % (x, y, describe(o)), loc_str(o.loc))


def lin(real, mix, std, bounds, part):
    shape = [o + 1 for _, o in mix]
    tuples = list(itertools.product(*map(range, shape)))
    n = len(tuples) * 3
    nd = [nodes(s, o + 1) if o else (Fraction(0),) for s, o in mix]
    src = '#include <tuple>\n' + inc('basis', 'spacing', 'ishape', 'ncube', 'jt', 'carray')
    src += 'using S = %s; using T = %s; using LT = LinearTransform< T, S >; using JT = typename LT::JacobianType;\n' % (shape_t(real, mix), real)
    both = ('LT const & k = t; auto const tt = utilities::inverseJacobian( k, x ); using std::get; auto const & J = get< 1 >( tt );'
            ' JT K; T det; utilities::inverseJacobian( k, x, K, det ); r[9] = get< 0 >( tt ); s[9] = det; %s %s' % (entries(3, 'J', 'r'), entries(3, 'K', 's')))
    src += ('extern "C" void jac( T const * v, T const (&x)[3], T * r, T * s ) { LT t; %s LT const & k = t; auto const J = utilities::jacobian( k, x ); JT K; utilities::jacobian( k, x, K ); %s %s }\n'
            % (fill(tuples, 3), entries(3, 'J', 'r'), entries(3, 'K', 's')))
    fam = []
    for ix in tuples:
        x = [lit(nd[k][ix[k]]) for k in range(3)]
        for i in range(3):
            fam.append('t.getData()( %s, %d ) = v[%d] * T( %s ) + v[%d] * T( %s ) + v[%d] * T( %s ) + v[%d] * T( %s ) * T( %s ) * T( %s ) + v[%d];'
                       % (', '.join(map(str, ix)), i, 3 * i, x[0], 3 * i + 1, x[1], 3 * i + 2, x[2], 9 + i, x[0], x[1], x[2], 12 + i))
    order1 = all(o == 1 and s != 'G' for s, o in mix)
    if order1:
        src += 'extern "C" void fam( T const * v, T const (&x)[3], T * r, T * s ) { LT t; %s %s }\n' % (' '.join(fam), both)
    free = set(range(part % max(1, len(tuples) // 4), len(tuples), max(1, (len(tuples) + 3) // 4)))
    ln, nv = [], 0
    for q, ix in enumerate(tuples):
        x = [nd[k][ix[k]] for k in range(3)]
        ref = [x[0] + Fraction(1, 8) * x[1] * x[2], Fraction(3, 4) * x[1] + Fraction(1, 4) * x[0] * x[2], Fraction(5, 4) * x[2] - Fraction(1, 8) * x[0]]
        for i in range(3):
            if q in free:
                ln.append('t.getData()( %s, %d ) = v[%d];' % (', '.join(map(str, ix)), i, nv))
                nv += 1
            else:
                ln.append('t.getData()( %s, %d ) = T( %s );' % (', '.join(map(str, ix)), i, lit(round(ref[i] * 64) / 64)))
    pt = POINTS[2 + part % 2]
    src += 'extern "C" void at( T const * v, T * r, T * s ) { LT t; T const x[3] = { %s }; %s %s }\n' % (', '.join('T( %s )' % lit(p) for p in pt), ' '.join(ln), both)
    label = ' of LinearTransform< %s > of %s' % (real, ', '.join('%s%d' % (SPACINGS[s], o) for s, o in mix))

    def verify(mod, ctx):
        out = lambda k: [Buf('r', real, k, 'uninit'), Buf('s', real, k, 'uninit')]
        compare(ctx, mod, 'jac', [Buf('v', real, n), Buf('x', real, 3)] + out(9), 2, 3, 9, real, 'jacobian' + label)
        if order1:
            compare(ctx, mod, 'fam', [Buf('v', real, 15), Buf('x', real, 3)] + out(10), 2, 3, 10, real, 'inverseJacobian' + label + ' (affine and trilinear family)')
        compare(ctx, mod, 'at', [Buf('v', real, nv)] + out(10), 1, 2, 10, real, 'inverseJacobian' + label + ' (vertices %s free)' % sorted(free))
    return Job('linear transform%s c++%s b%d %d' % (label, std, bounds, part), src, verify, std=std, bounds=bounds)


def types_job(real, std):
    pre = '#include <tuple>\n#include <utility>\n' + inc('basis', 'spacing', 'ishape', 'ncube', 'jt', 'carray') + 'using T = %s; using S = %s; using LT = LinearTransform< T, S >; using SC = Scaling< T >; using US = UniformScaling< T >;\n' % (
        real, shape_t(real, [('L', 1), ('E', 2), ('L', 1)]))
    facts = []
    for c, x in (('SC', ''), ('US', ''), ('LT', ', std::declval< T const (&)[3] >()')):
        facts.append(('jacobian of %s returns its JacobianType' % c, 'std::is_same_v< decltype( utilities::jacobian( std::declval< %s const & >()%s ) ), typename %s::JacobianType >' % (c, x, c)))
        facts.append(('inverseJacobian of %s returns (determinant, inverse)' % c,
                      'std::is_same_v< decltype( utilities::inverseJacobian( std::declval< %s const & >()%s ) ), shiva::tuple< T, typename %s::JacobianType > >' % (c, x, c)))
    return static_facts_job('types %s c++%s' % (real, std), pre, facts, std=std)


def build(tier):
    jobs = []
    n = 0
    for real in ('double', 'float'):
        for std in ('17', '20'):
            for b in (False, True):
                jobs.append(scal(real, std, b))
            jobs.append(types_job(real, std))
        for mix in ([('L', 1)] * 3, [('L', 1), ('E', 2), ('G', 1)], [('E', 1), ('L', 1), ('E', 1)]) + (([('L', 2)] * 3, [('E', 3), ('L', 1), ('G', 2)], [('L', 6), ('L', 1), ('E', 1)], [('L', 1), ('L', 5), ('E', 1)], [('L', 1), ('E', 1), ('E', 6)]) if tier == 'thorough' else ()):
            for part in range(4 if tier == 'thorough' else 2):
                n += 1
                jobs.append(lin(real, mix, '17' if n % 2 else '20', n % 3 == 0, part))
    return jobs
