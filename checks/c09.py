"""C09: compile-time loops visit every index combination once, in order."""
import itertools
from sa.core import around, Job
from sa.query import *
from sa.wit import *

EXPLANATION = ('For nests of 1..5 compile-time ranges of unequal lengths (including 0), the form that takes the ranges as one sequence, '
               'single loops with both callable forms and the support-point loops of basis products and shapes, a witness body '
               'reports the indices both as template constants and as values; the analysis derives the event sequence and compares it '
               'with the lexicographic product. Callables with state must be used in place, not copied.')
ASSUMPTIONS = ['listed lengths stand for all lengths']
RULE = 'event sequence of the expanded loop (interprocedural, from the IR) equals the lexicographic product of the ranges'
MIN = 200

PRE = inc('seq', 'nseq', 'prod', 'basis', 'spacing', 'ishape', 'ncube') + '''
extern "C" void cb( void const *, ... );
extern "C" void copied( void const * );
template< typename T > constexpr long cst() { return std::decay_t< T >::value; }
struct St { long n; St(); St( St const & o ) { copied( &o ); } St( St && o ) { copied( &o ); } };
struct F : St { template< typename ... T > void operator()( T && ... i ) { cb( this, cst< T >()..., (long)i... ); } };
struct CF : St { template< typename ... T > void operator()( T ... i ) const { cb( this, cst< T >()..., (long)i... ); } };
struct TF : St { template< int I > void operator()() { cb( this, (long)I, (long)I ); } };
struct TCF : St { template< int I > void operator()() const { cb( this, (long)I, (long)I ); } };
struct BF : St { template< typename ... T > bool operator()( T ... i ) { cb( this, cst< T >()..., (long)i... ); return ( (long)i + ... + 0 ) % 2 == 1; } };
struct NBF : St { template< typename ... T > bool operator()( T ... i ) const { cb( this, cst< T >()..., (long)i... ); return ( (long)i + ... + 0 ) % 2 == 0; } };
struct IF_ : St { template< typename ... T > int operator()( T ... i ) { cb( this, cst< T >()..., (long)i... ); return (int)( ( (long)i + ... + 0 ) - 1 ); } };
struct PF : St { template< typename ... T > void * operator()( T ... i ) { cb( this, cst< T >()..., (long)i... ); return nullptr; } };
struct TBF : St { template< int I > bool operator()() { cb( this, (long)I, (long)I ); return I % 2 == 1; } };
struct TNBF : St { template< int I > bool operator()() { cb( this, (long)I, (long)I ); return I % 2 == 0; } };
#define LAM [p] ( auto ... i ) { cb( p, cst< decltype( i ) >()..., (long)i... ); }
#define LAMC [p] ( auto const ... i ) constexpr { cb( p, cst< decltype( i ) >()..., (long)i... ); }
#define LAMM [p] ( auto && ... i ) mutable { cb( p, cst< decltype( i ) >()..., (long)i... ); }
'''


def unit(name, std, bounds, fns):
    """fns: [(function text with %s for the name and parameter list F/CF/.. or void const * p, owner size, ranges, label)]"""
    src = PRE
    for q, (par, body, R, label) in enumerate(fns):
        src += 'extern "C" void f%d( %s ) { %s }\n' % (q, par, body)

    def verify(mod, ctx):
        for q, (par, body, R, label) in enumerate(fns):
            for sp, o in outcomes(mod, ctx, 'f%d' % q, [Buf('f', 'long', 1)]):
                if not returns(ctx, o, label):
                    continue
                want = [list(t) + list(t) for t in itertools.product(*map(range, R))]
                bad = None
                got = []
                for e in o.calls():
                    if e[1] != '@cb':
                        bad = 'calls %s (callable copied)' % e[1]
                        break
                    a = e[2]
                    if not (isinstance(a[0], Ptr) and a[0].obj is o.args[0].obj):
                        bad = 'callable used is not the one given: %r' % (a[0],)
                        break
                    got.append(list(a[1:]))
                if bad is None and got != want:
                    k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                    bad = 'call %d is %s, expected %s (%d calls, expected %d)' % (
                        k, got[k] if k < len(got) else 'missing', want[k] if k < len(want) else 'none', len(got), len(want))
                ctx.ob(bad is None, '%s visits every combination of %s once in order' % (label, list(R)), bad, loc_str(o.loc))
    return Job(name, src, verify, std=std, bounds=bounds)


LOOPS = [(1,), (2,), (5,), (0,), (2, 3), (3, 2), (1, 4), (4, 1), (2, 0), (0, 3), (2, 3, 4), (4, 3, 2), (3, 1, 2), (2, 0, 3), (1, 1, 1), (2, 3, 1, 4),
         (3, 2, 4, 2), (2, 1, 3, 2, 2), (2, 3, 2, 2, 3), (33,), (130,), (1, 2, 1, 2, 2, 2), (2, 2, 1, 2, 1, 2, 2)] + [(k,) for k in around(34, 300, 6) if k != 130] + [(k, 2) for k in around(11, 40, 4)] + [(2, k) for k in around(11, 40, 4)]
BASES = [('E', 1), ('G', 2), ('L', 3), ('E', 0), ('L', 1), ('G', 1), ('E', 3), ('L', 4)]


def callables():
    return [('F & f', 'f', 'functor'), ('CF const & f', 'f', 'const functor'), ('F & f', 'std::move( f )', 'rvalue functor'),
            ('void const * p', 'LAM', 'lambda'), ('void const * p', 'LAMC', 'constexpr lambda'), ('void const * p', 'LAMM', 'mutable lambda'), ('BF & f', 'f', 'functor returning false first'), ('NBF const & f', 'f', 'functor returning true first'),
            ('IF_ & f', 'f', 'functor returning int'), ('PF & f', 'f', 'functor returning a null pointer')]


def build(tier):
    jobs = []
    for std, bounds in (('17', False), ('20', False), ('17', True)) + ((('23', False),) if tier == 'thorough' else ()):
        for R in LOOPS:
            if tier == 'quick' and (std, bounds) != ('17', False) and len(R) > 3:
                continue
            fns = []
            t = ','.join(map(str, R))
            for par, c, nm in callables():
                fns.append((par, 'forNestedSequence< %s >( %s );' % (t, c), R, 'forNestedSequence<%s>, %s' % (t, nm)))
                fns.append((par, 'forNestedSequence( std::integer_sequence< int, %s >{}, %s );' % (t, c), R,
                            'forNestedSequence( integer_sequence<%s> ), %s' % (t, nm)))
                if len(R) == 1:
                    fns.append((par, 'forSequence< %s >( %s );' % (t, c), R, 'forSequence<%s>, %s' % (t, nm)))
            if len(R) == 1:
                for par, c, nm in (('TF & f', 'f', 'template functor'), ('TCF const & f', 'f', 'const template functor'), ('TF & f', 'std::move( f )', 'rvalue template functor'), ('TBF & f', 'f', 'template functor returning false first'),
                                    ('TNBF & f', 'f', 'template functor returning true first')):
                    fns.append((par, 'forSequence< %s >( %s );' % (t, c), R, 'forSequence<%s>, %s' % (t, nm)))
                if std != '17':
                    fns.append(('void const * p', 'forSequence< %s >( [p]< int I >() { cb( p, (long)I, (long)I ); } );' % t, R, 'forSequence<%s>, template lambda' % t))
            jobs.append(unit('loops %s c++%s b%d' % (t, std, bounds), std, bounds, fns))
    # support loops
    combos = []
    for dim in (1, 2, 3, 4):
        for s in range(0, 6 if dim < 4 else 3):
            combos.append([BASES[(s * 3 + k * (s + 1)) % len(BASES)] for k in range(dim)])
    combos += [[('E', o)] for o in (5, 6, 7, 9)] + [[('L', 8)], [('L', 7), ('E', 1)], [('E', 1), ('L', 8)], [('E', 8), ('G', 1), ('E', 1)], [('G', 1), ('E', 7), ('G', 1)], [('E', 1), ('E', 1), ('L', 8)]]
    for q, c in enumerate(combos):
        fns = []
        R = tuple(o + 1 for _, o in c)
        bs = ', '.join(basis('double', o, s) for s, o in c)
        dim = len(c)
        for T, nm in (('BasisProduct< double, %s >' % bs, 'BasisProduct'),
                      ('InterpolatedShape< double, NCube< double, %d, -1, 1, 1 >, %s >' % (dim, bs), 'InterpolatedShape')):
            for par, cl, cn in callables():
                fns.append((par, '%s::supportLoop( %s );' % (T, cl), R, '%s::supportLoop, %s' % (nm, cn)))
        jobs.append(unit('support loops %s' % (R,), '20' if q % 3 == 0 else '17', q % 5 == 1, fns))
    return jobs
