"""C06: array initialisation stores the given values in order and zeroes the rest."""
from sa.core import around, spikes, every, Job, compile_fail_job, static_facts_job, GXX
from sa.query import *
from sa.wit import *
from .c01 import PRE, dims, prod

EXPLANATION = ('For every shape and every k from 0 to the size a witness constructs an owning array, in several initialisation forms, '
               'in storage of unknown content from k symbolic values; the analysis derives the content of every element afterwards: '
               'the first k hold the values in order, all others zero. Compile-fail witnesses give more values than elements.')
ASSUMPTIONS = ['listed shapes and element types stand for all']
RULE = 'memory content analysis after construction: element e holds value e for e < k and zero for e >= k; compile-fail witnesses'
FULL = True
MIN = 1000


def mixed(T, srcs, sh):
    """Values of other types that convert without loss."""
    n, d = prod(sh), dims(sh)
    ty = [srcs[i % len(srcs)] for i in range(n)]
    src = '#include <new>\n' + PRE
    for k in range(1, n + 1):
        src += 'extern "C" void m%d( CArrayNd<%s,%s> & out, %s ) { new( &out ) CArrayNd<%s,%s>{ %s }; }\n' % (
            k, T, d, ', '.join('%s x%d' % (ty[i], i) for i in range(k)), T, d, ', '.join('x%d' % i for i in range(k)))
    real = T in ('double', 'float')
    label = '%s[%s] from %s' % (T, d, '/'.join(srcs))

    def verify(mod, ctx):
        for k in range(1, n + 1):
            w = [8 * SIZES[t] for t in ty]
            vals = [(-1 - 3 * i, (1 << (w[i] - 1)) - 1 - i, -(1 << (w[i] - 1)) + i)[i % 3] for i in range(k)]
            specs = [Buf('out', T, n, 'uninit')] + [Real('x%d' % i) if real else Int(vals[i], w[i]) for i in range(k)]
            for sp, o in outcomes(mod, ctx, 'm%d' % k, specs, track_real=(T != 'float')):
                what = '%s, %d values' % (label, k)
                if not returns(ctx, o, what):
                    continue
                for e in range(n):
                    v = final(o, o.args[0].obj, e, T)
                    if real:
                        want = RF.var('x%d' % e) if e < k else RF(Poly())
                        good = is_rf(v, want)
                    else:
                        want = vals[e] if e < k else 0
                        v = v if isinstance(v, int) or not is_rf(v, RF.const(want)) else want
                        good = isinstance(v, int) and (v - want) % (1 << 8 * SIZES[T]) == 0
                    ctx.ob(good, '%s: element %d' % (what, e), 'holds %r, expected %r' % (v, want), loc_str(o.loc))
    return Job(label, src, verify)


def make(T, sh, bounds, std):
    n, d, es = prod(sh), dims(sh), SIZES[T]
    A = 'CArrayNd<%s,%s>' % (T, d)
    src = '#include <new>\n' + PRE
    fns = []
    for k in range(0, n + 1):
        ps = ', '.join(['%s & out' % A] + ['%s x%d' % (T, i) for i in range(k)])
        xs = ', '.join('x%d' % i for i in range(k))
        fs = [('braces', 'new( &out ) %s{ %s };' % (A, xs)), ('copy list', '%s a = { %s }; new( &out ) %s( a );' % (A, xs, A)),
              ('const', '%s const a{ %s }; new( &out ) %s( a );' % (A, xs, A)), ('assign', 'out = %s{ %s };' % (A, xs))]
        if k:
            fs.append(('parentheses', 'new( &out ) %s( %s );' % (A, xs)))
        else:
            fs += [('default', '%s a; new( &out ) %s( a );' % (A, A)), ('value', 'new( &out ) %s();' % A), ('placement default', 'new( &out ) %s;' % A),
                   ('member', 'struct H { %s m; }; H h; new( &out ) %s( h.m );' % (A, A))]
        for q, (nm, st) in enumerate(fs):
            f = 'i%d_%d' % (k, q)
            src += 'extern "C" void %s( %s ) { %s }\n' % (f, ps, st)
            fns.append((f, k, nm))
    if len(sh) == 1 and n == 1:
        src += 'extern "C" void sc0( Scalar<%s> & out ) { new( &out ) Scalar<%s>{}; }\n' % (T, T)
        src += 'extern "C" void sc1( Scalar<%s> & out, %s x0 ) { new( &out ) Scalar<%s>{ x0 }; }\n' % (T, T, T)
        fns += [('sc0', 0, 'Scalar'), ('sc1', 1, 'Scalar')]
    real = T in ('double', 'float')
    label = '%s[%s]%s' % (T, d, ' bounds' if bounds else '')

    def verify(mod, ctx):
        for f, k, nm in fns:
            specs = [Buf('out', T, n, 'uninit')] + [Real('x%d' % i) if real else SymInt('x%d' % i) for i in range(k)]
            for sp, o in outcomes(mod, ctx, f, specs, track_real=(T != 'float')):
                what = '%s from %d values (%s)' % (label, k, nm)
                if not returns(ctx, o, what):
                    continue
                for e in range(n):
                    v = final(o, o.args[0].obj, e, T)
                    want = RF.var('x%d' % e) if e < k else RF(Poly())
                    ctx.ob(is_rf(v, want), '%s: element %d' % (what, e), 'holds %r, expected %s' % (v, 'x%d' % e if e < k else '0'), loc_str(o.loc))
    return Job(label + ' c++' + std, src, verify, bounds=bounds, std=std)


def excess(T, sh):
    n, d = prod(sh), dims(sh)
    A = 'CArrayNd<%s,%s>' % (T, d)
    cs = []
    for k in (n + 1, n + 2, 2 * n + 3):
        lit = ', '.join('%s( %d )' % (T, i) for i in range(k))
        good = ', '.join('%s( %d )' % (T, i) for i in range(n))
        for nm, st in (('braces', 'auto f() { %s a{ %%s }; return a.data()[0]; }' % A), ('parentheses', 'auto f() { %s a( %%s ); return a.data()[0]; }' % A),
                       ('copy list', 'auto f() { %s a = { %%s }; return a.data()[0]; }' % A), ('constexpr', 'constexpr %s a{ %%s };' % A)):
            cs.append(('%d values for %s, %s' % (k, A, nm), st % good, st % lit))
    return cs


def build(tier):
    jobs = []
    shapes = [(1,), (3,), (2, 2), (1, 3), (2, 3), (2, 1, 2), (2, 2, 3)]
    shapes += [(3, 2, 2), (2, 2, 2, 2), (17,), (33,)] + spikes(2, 4, 6) +  [(k,) for k in around(11, 64, 4)]
    for T, srcs in (('double', ('float',)), ('double', ('double', 'float')), ('long', ('int',)), ('long', ('short', 'long', 'int')), ('int', ('short', 'int', 'signed char'))):
        for sh in ((1,), (4,), (2, 3), (2, 1, 3), (2, 2, 2)):
            jobs.append(mixed(T, srcs, sh))
    for sh in shapes:
        for T in ('double', 'int', 'float', 'long', 'char', 'short', 'unsigned', 'unsigned long', 'unsigned char'):
            jobs.append(make(T, sh, False, '17'))
            if T == 'double':
                jobs.append(make(T, sh, True, '17'))
                jobs.append(make(T, sh, False, '20'))
        jobs.append(compile_fail_job('excess values %s' % dims(sh), PRE, excess('double', sh) + excess('int', sh)[:4]))
        if tier == 'thorough':
            jobs.append(compile_fail_job('excess values %s gcc' % dims(sh), PRE, excess('double', sh), compiler=GXX))
    return jobs


def deeper():
    return [make(('double', 'int', 'long')[k % 3], sh, False, '17') for k, sh in enumerate(every(2, 5) + every(3, 3) + every(4, 2))]
