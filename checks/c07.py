"""C07: multi-index ranges are traversed exactly once, in lexicographic order."""
import itertools
from sa.core import around, spikes, every, Job
from sa.query import *
from sa.wit import *

EXPLANATION = ('For ranges of rank 1..5 with unequal extents, every base index type and several kinds of callables a witness loops over the '
               'range with a body that reports the indices it is given; the analysis derives the sequence of reports for every '
               'start and compares it with the product of the index intervals in lexicographic order. The callable used must be the very '
               'object given.')
ASSUMPTIONS = ['listed extents stand for all extents']
RULE = 'event sequence of the loop nest (interprocedural, from the IR) equals the lexicographic product'
FULL = True
MIN = 800
TYPES = {'int': 32, 'long': 64, 'short': 16, 'unsigned': 32, 'unsigned char': 8, 'unsigned long': 64, 'signed char': 8, 'unsigned short': 16}


def make(ty, R, bounds=False, std='17'):
    rank, w = len(R), TYPES[ty]
    M = 'MultiIndexRange<%s,%s>' % (ty, ','.join(map(str, R)))
    call = ', '.join('(long)i.data[%d]' % k for k in range(rank))
    sig = ', '.join(['long'] * rank)
    ps = ', '.join('%s s%d' % (ty, k) for k in range(rank))
    init = 'M r; ' + ' '.join('r.data[%d] = s%d;' % (k, k) for k in range(rank))
    src = inc('index') + '''
using M = %s;
extern "C" void cb( %s );
extern "C" void cbf( void const *, %s );
struct F { long state; void operator()( M const & i ) { cbf( this, %s ); } };
struct CF { long state; void operator()( M const & i ) const { cbf( this, %s ); } };
struct GF { long state; template< typename T > void operator()( T && i ) { cbf( this, %s ); } };
void fn( M const & i ) { cb( %s ); }
''' % (M, sig, sig, call, call, call, call)
    src += 'extern "C" void f0( %s ) { %s forRange( r, [] ( auto const & i ) { cb( %s ); } ); }\n' % (ps, init, call)
    src += 'extern "C" void f1( F & f, %s ) { %s forRange( r, f ); }\n' % (ps, init)
    src += 'extern "C" void f2( CF const & f, %s ) { %s forRange( r, f ); }\n' % (ps, init)
    src += 'extern "C" void f3( %s ) { %s forRange( r, fn ); }\n' % (ps, init)
    src += 'extern "C" void f4( %s ) { %s auto l = [] ( M i ) mutable { cb( %s ); }; forRange( r, l ); }\n' % (ps, init, call)
    src += 'extern "C" void f5( GF & f, %s ) { %s forRange( r, f ); }\n' % (ps, init)
    src += 'extern "C" void f6( GF & f, %s ) { %s forRange( r, std::move( f ) ); }\n' % (ps, init)
    src += 'extern "C" void z() { M r; forRange( r, fn ); }\nextern "C" void z2() { M r{}; forRange( r = M{}, fn ); }\n'
    src += ''.join('extern "C" long rg%d() { return M::range( %d ); }\n' % (k, k) for k in range(rank))
    label = '%s%s c++%s' % (M, ' bounds' if bounds else '', std)
    lows = [-1, 0] if not ty.startswith('unsigned') else [0]
    per = [sorted(set(lows[:1] + [0, 1, r - 1, r])) for r in R]
    big = max(R) > 600
    if big:
        per = [sorted({max(0, r - 3), r - 1, r}) for r in R]
    starts = list(itertools.product(*per)) if rank < 4 else [s for q, s in enumerate(itertools.product(*per)) if q % 7 == 0 or sum(s) == 0]

    def check(ctx, o, s, what, obj):
        if not returns(ctx, o, what):
            return
        got = []
        for e in o.calls():
            a = e[2]
            if obj is not None:
                if not (isinstance(a[0], Ptr) and a[0].obj is obj and a[0].off == 0):
                    ctx.ob(False, what + ': the callable used is the one given', repr(a[0]), loc_str(e[3]))
                    return
                a = a[1:]
            got.append(tuple(signed(v, 64) if isinstance(v, int) else v for v in a))
        want = list(itertools.product(*[range(b, r) for b, r in zip(s, R)]))
        if got == want:
            ctx.ob(True, what)
            return
        k = next((q for q, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.ob(False, what, 'call %d is %s, expected %s (%d calls, expected %d)' % (
            k, got[k] if k < len(got) else 'missing', want[k] if k < len(want) else 'none', len(got), len(want)), loc_str(o.loc))

    def verify(mod, ctx):
        for f in range(7):
            own = f in (1, 2, 5, 6)
            for q, s in enumerate(starts):
                if f and q % 3 and rank > 1:
                    continue
                specs = ([Buf('f', 'long', 1)] if own else []) + [Int(v, w) for v in s]
                for sp, o in outcomes(mod, ctx, 'f%d' % f, specs, budget=400_000):
                    check(ctx, o, s, '%s callable %d from %s' % (label, f, list(s)), o.args[0].obj if own else None)
        for f in ('z', 'z2') if not big else ():
            for sp, o in outcomes(mod, ctx, f, []):
                check(ctx, o, (0,) * rank, '%s from the default start' % label, None)
        for k, r in enumerate(R):
            for sp, o in outcomes(mod, ctx, 'rg%d' % k, []):
                ctx.ob(o.kind == 'ret' and o.value == r, '%s: range(%d)' % (label, k), repr(o.value))
    return Job(label, src, verify, bounds=bounds, std=std)


def build(tier):
    jobs = []
    Rs = [(1,), (5,), (2, 3), (3, 2), (4, 1), (1, 3), (2, 3, 4), (4, 2, 3), (1, 1, 1), (3, 1, 2), (2, 3, 1, 4), (2, 1, 3, 2, 2), (2, 1, 2, 1, 3, 2), (1, 2, 1, 2, 2, 1, 2)] + [(k, 2) for k in around(11, 300, 4)] + [(2, k) for k in around(11, 300, 4)]
    Rs += spikes(3, 4, 9) + spikes(5, 5, 5)
    for i, R in enumerate(Rs):
        for j, ty in enumerate(TYPES):
            if tier == 'quick' and ty != 'int' and (i + j) % 3:
                continue
            jobs.append(make(ty, R))
        jobs.append(make('int', R, True))
        jobs.append(make('int', R, False, '20'))
    jobs += [make('unsigned char', (3, 200)), make('unsigned char', (255,)), make('signed char', (127, 2)), make('long', (300, 2)), make('unsigned short', (2, 500))]
    # long dimensions, from starts near their end: ranges may not be narrowed
    jobs += [make('int', (40000, 2)), make('int', (2, 70000)), make('unsigned short', (65535, 2)), make('short', (3, 32767)), make('long', (2, 100000, 3)),
             make('unsigned', (2000000000,)), make('int', (3, 2147483647), True), make('unsigned long', (1000, 1000000))]
    return jobs


def deeper():
    return [make(sorted(TYPES)[k % len(TYPES)], R, k % 2 == 0) for k, R in enumerate(every(2, 6) + every(3, 4) + every(4, 3) + every(5, 2))]
