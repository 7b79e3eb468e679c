"""C19: vertex data set on a mapping is the data it uses."""
import itertools
from sa.core import Job, around
from sa.query import *
from sa.wit import *
from .c01 import prod
from .c17 import shape_t, prelude, entries
from .c15 import Spec, lib_nodes

EXPLANATION = ('For mappings with equal and unequal numbers of support points, list containers (nested C arrays, std::array, rows of array type, '
               'views, user lists with another layout) and a previous assignment, the content of every vertex slot after setData is derived '
               'symbolically and compared with the list entry the property names; const and mutable accessor must name the same storage, and a '
               'Jacobian taken after setData (or after writing through the accessor) must use the new data.')
ASSUMPTIONS = ['the listed shapes (1..5 support points per direction) stand for all shapes of three dimensions']
RULE = 'dataflow of the vertex coordinates through setData (from the IR); every slot holds exactly its list entry; effect set of the trace'
FULL = True
MIN = 800

SHAPES = [(2, 2, 2), (2, 3, 4), (4, 3, 2), (3, 2, 2), (2, 2, 3), (2, 3, 2), (1, 2, 3), (3, 1, 2), (3, 3, 3)]
MORE = [(5, 2, 3), (2, 5, 4), (4, 4, 4), (3, 4, 5)]


def lists(real, n):
    yield 'C array of C arrays', '%s const (&v)[%d][3]' % (real, n), '', 'v'
    yield 'std::array of std::array', 'std::array< std::array< %s, 3 >, %d > const & v' % (real, n), '', 'v'
    yield 'std::array of CArrayNd', 'std::array< CArrayNd< %s, 3 >, %d > const & v' % (real, n), '', 'v'
    yield 'CArrayNd', 'CArrayNd< %s, %d, 3 > const & v' % (real, n), '', 'v'
    yield 'view', '%s const (&v)[%d]' % (real, n * 3), 'CArrayViewNd< %s const, %d, 3 > const w( v );' % (real, n), 'w'
    yield 'pointer to rows', '%s const (*v)[3]' % real, '', 'v'
    yield 'user list', '%s const * v' % real, 'List< %d > const w{ v };' % n, 'w'


def make(real, shape, k, std, bounds):
    n = prod(shape)
    tuples = list(itertools.product(*map(range, shape)))
    mix = [('E' if e > 5 else 'L' if e > 1 else 'E', e - 1) for e in shape]
    lname, par, decl, arg = list(lists(real, n))[k]
    src = prelude(real, mix)
    # the user list stores component i of entry q at 2 * q + i * stride + 1, so a wrong layout assumption shows
    src += ('template< int N > struct List { struct Row { %s const * p; constexpr %s operator[]( int i ) const { return p[ i * 2 * N ]; } }; %s const * p;\n'
            '  constexpr Row operator[]( int q ) const { return Row{ p + 2 * q + 1 }; } };\n' % (real, real, real))
    rb = ' '.join('out[%d] = t_c.getData()( %s, %d );' % (q * 3 + i, ', '.join(map(str, ix)), i) for q, ix in enumerate(tuples) for i in range(3))
    pre = ' '.join('t.getData()( %s, %d ) = u[%d];' % (', '.join(map(str, ix)), i, q * 3 + i) for q, ix in enumerate(tuples) for i in range(3))
    src += 'extern "C" void set( %s, %s const * u, %s * out ) { %s LT t; %s LT const & t_c = t; t.setData( %s ); %s }\n' % (par, real, real, decl, pre, arg, rb)
    src += ('extern "C" int same() { LT t; LT const & c = t; int r = static_cast< void const * >( &t.getData() ) == static_cast< void const * >( &c.getData() ); %s return r; }\n'
            % ' '.join('r = r && &t.getData()( %s, %d ) == &c.getData()( %s, %d );' % (', '.join(map(str, ix)), i, ', '.join(map(str, ix)), i) for ix in (tuples[0], tuples[-1], tuples[len(tuples) // 2]) for i in range(3)))
    src += 'extern "C" void use( %s, %s const (&x)[3], %s * out, JT & J ) { %s LT t; t.setData( %s ); utilities::jacobian( t, x, J ); %s }\n' % (par, real, real, decl, arg, entries(3))
    label = 'setData of LinearTransform< %s > with %dx%dx%d support points, list as %s' % ((real,) + shape + (lname,))

    def verify(mod, ctx):
        a = (lambda q, i: 2 * q + 1 + i * 2 * n) if lname == 'user list' else (lambda q, i: 3 * q + i)
        nbuf = 6 * n + 2 if lname == 'user list' else 3 * n
        want = {}
        for q, (ia, ib, ic) in enumerate(tuples):
            e = ia + shape[0] * (ib + shape[1] * ic)
            for i in range(3):
                want[q, i] = RF.var('v[%d]' % a(e, i))
        for sp, o in outcomes(mod, ctx, 'set', [Buf('v', real, nbuf), Buf('u', real, 3 * n), Buf('out', real, 3 * n, 'uninit')], track_real=(real == 'double')):
            if not returns(ctx, o, label):
                continue
            for (q, i), w in want.items():
                g = final(o, o.args[2].obj, q * 3 + i, real)
                ctx.ob(is_rf(g, w), '%s: vertex %s component %d' % (label, tuples[q], i), 'is %r, expected %r' % (g, w), loc_str(o.loc))
            ctx.ob(not o.stores(o.args[0].obj), label + ': the list is only read', '')
        for sp, o in outcomes(mod, ctx, 'same', []):
            if returns(ctx, o, label):
                ctx.ob(o.value == 1, label + ': const and mutable accessor name the same storage', repr(o.value))
        xs = lib_nodes(mod, ctx, mix)
        if xs is None:
            ctx.ob(False, label, 'nodes are constants')
            return
        S = Spec(xs)
        if n > 24:
            return
        for sp, o in outcomes(mod, ctx, 'use', [Buf('v', real, nbuf), Buf('x', real, 3), Buf('out', real, 9, 'uninit'), Buf('J', real, 9, 'uninit')], track_real=(real == 'double')):
            if not returns(ctx, o, label):
                continue
            for i in range(3):
                for j in range(3):
                    r = RF(Poly())
                    for q, ix in enumerate(tuples):
                        r = r + want[q, i] * S.grad(ix, j)
                    real_equals(ctx, o, final(o, o.args[2].obj, i * 3 + j, real), r, 1e-11 if real == 'double' else 3e-5, label + ': Jacobian after setData, entry (%d,%d)' % (i, j))
    return Job('%s c++%s b%d' % (label, std, bounds), src, verify, std=std, bounds=bounds)


def build(tier):
    jobs = []
    n = 0
    for si, shape in enumerate(SHAPES + MORE + [(6, 2, 1), (1, 6, 2), (2, 2, 7)] + [(k, 2, 2) for k in around(8, 16, 3)] + [(2, 2, k) for k in around(8, 16, 3)]):
        for real in ('double', 'float'):
            for k in range(7):
                n += 1
                if tier == 'quick' and (n + si) % (3 if real == 'double' else 5):
                    continue
                jobs.append(make(real, shape, k, '17' if n % 2 else '20', n % 4 == 0))
    return jobs
