"""C08: the linear index of a multi-index is a row-major bijection."""
import itertools
from sa.core import around, spikes, every, Job
from sa.query import *
from sa.wit import *
from .c07 import TYPES
from .c01 import rowmajor, prod

EXPLANATION = ('For ranges of rank 1..5 with unequal extents and every index type the analysis derives the linear index both as a '
               'polynomial in symbolic indices (all index values at once) and for every multi-index of the range (or its corners '
               'when the range is large), and compares with the row-major position.')
ASSUMPTIONS = ['listed extents stand for all extents; ranges whose size the index type cannot hold are outside the property']
RULE = 'polynomial and constant propagation: linearIndex == sum of index * product of later extents, without overflow'
FULL = True
MIN = 1500


def make(ty, R, bounds=False, std='17'):
    rank, w = len(R), TYPES[ty]
    M = 'MultiIndexRange<%s,%s>' % (ty, ','.join(map(str, R)))
    ps = ', '.join('%s s%d' % (ty, k) for k in range(rank))
    src = inc('index') + 'using M = %s;\n' % M
    src += 'extern "C" %s li( M const & m ) { return linearIndex( m ); }\n' % ty
    src += 'extern "C" %s lv( %s ) { M m; %s return linearIndex( m ); }\n' % (ty, ps, ' '.join('m.data[%d] = s%d;' % (k, k) for k in range(rank)))
    src += 'extern "C" %s z() { M m; return linearIndex( m ); }\n' % ty
    label = '%s%s c++%s' % (M, ' bounds' if bounds else '', std)
    es = w // 8
    T = {8: 'char', 16: 'short', 32: 'int', 64: 'long'}[w]
    n = prod(R)
    if n <= 200:
        tuples = list(itertools.product(*map(range, R)))
    else:
        tuples = [t for t in itertools.product(*[sorted({0, 1, r // 2, r - 2, r - 1}) for r in R])]

    def verify(mod, ctx):
        want = RF.const(0)
        for k, r in enumerate(R):
            want = want * RF.const(r) + RF.var('s%d' % k)
        for t in tuples:
            for sp, o in outcomes(mod, ctx, 'lv', [Int(v, w) for v in t]):
                if returns(ctx, o, label):
                    ctx.ob(o.value == rowmajor(R, t), '%s: linear index of %s' % (label, list(t)), 'is %r, expected %d' % (o.value, rowmajor(R, t)), loc_str(o.loc))
        for sp, o in outcomes(mod, ctx, 'z', []):
            ctx.ob(o.kind == 'ret' and o.value == 0, label + ': default index is 0', repr(o.value))
        try:
            outs = list(outcomes(mod, ctx, 'lv', [SymInt('s%d' % k) for k in range(rank)])) + list(outcomes(mod, ctx, 'li', [Buf('s', T, rank)]))
        except Inconclusive:
            return
        for q, (sp, o) in enumerate(outs):
            if o.kind != 'ret' or not isinstance(o.value, ISym):
                continue
            got = o.value.rf
            if q:
                for k in range(rank):
                    want = want if k else RF.const(0)
                    want = want * RF.const(R[k]) + RF.var('s[%d]' % k)
            if any('(' in x or '#' in x for x in got.num.names()):
                continue
            ctx.ob(got.close(want, 0), label + ': linear index as a polynomial', 'is %r, expected %r' % (got, want), loc_str(o.loc))
            ctx.count('polynomials')
    return Job(label, src, verify, bounds=bounds, std=std)


def plain():
    src = inc('index') + ''.join('extern "C" %s l%d( %s v ) { return linearIndex( LinearIndex<%s>{ v } ); }\n' % (t, i, t, t)
                                 for i, t in enumerate(('int', 'long', 'short')))

    def verify(mod, ctx):
        for i, w in enumerate((32, 64, 16)):
            for v in (0, 1, 17, 32767):
                for sp, o in outcomes(mod, ctx, 'l%d' % i, [Int(v, w)]):
                    ctx.ob(o.kind == 'ret' and o.value == v, 'linearIndex of LinearIndex %d' % v, repr(o.value))
    return Job('LinearIndex', src, verify)


def build(tier):
    jobs = []
    Rs = [(1,), (7,), (2, 3), (3, 2), (4, 1), (1, 4), (2, 3, 4), (4, 3, 2), (3, 1, 2), (2, 2, 2), (5, 2, 3, 2), (2, 3, 1, 4), (2, 3, 2, 4, 3), (3, 2, 2, 1, 2)]
    Rs += [x for k in around(11, 90, 4) for x in ((k, 2), (2, k))] + [(2, 1, 3, 2, 1, 2), (1, 2, 2, 3, 2, 1, 2), (2, 2, 1, 2, 1, 2, 2, 3)]
    Rs += spikes(3, 6, 9)
    for i, R in enumerate(Rs):
        for j, ty in enumerate(TYPES):
            if ty == 'signed char' and prod(R) > 128 or 'char' in ty and prod(R) > 256:
                continue
            if tier == 'quick' and ty != 'int' and (i + j) % 2:
                continue
            jobs.append(make(ty, R))
        jobs.append(make('int', R, True))
        jobs.append(make('int', R, False, '20'))
    jobs += [make('long', (2, 100000, 100000)), make('unsigned long', (100000, 2, 100000)), make('int', (2, 30000, 30000)),
             make('unsigned char', (8, 8, 4)), make('short', (181, 181)), make('unsigned', (4, 32768, 32767)), make('unsigned short', (2, 255, 127)), plain()]
    return jobs


def deeper():
    return [make(sorted(TYPES)[k % len(TYPES)], R, k % 2 == 0) for k, R in enumerate(every(2, 6) + every(3, 4) + every(4, 3) + every(5, 2))]
