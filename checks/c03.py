"""C03: ill-formed array accesses do not compile."""
from sa.core import around, spikes, compile_fail_job, GXX
from sa.wit import *
from .c01 import PRE, owner, dims, prod

EXPLANATION = ('Compile-fail witnesses: each misuse program (compile-time index -1, the extent or a large value in each '
               'position; one index too few or too many, for compile-time and run-time indices; on owning arrays, views '
               'and const ones) must be rejected by the type checker, while the same program with a valid index compiles.')
ASSUMPTIONS = ['clang 18 (and g++ 13 in the thorough tier) implement static_assert; listed shapes stand for all shapes']
RULE = 'type-level: misuse program is ill-formed, control program is well-formed'
MIN = 200


def case(kind, T, sh, expr):
    par, mk = owner(kind, T, sh)
    return 'auto f(%s, int i) { %s (void)i; return %s; }\n' % (par, mk, expr)


def cases_for(kind, T, sh, tier):
    rank = len(sh)
    out = []

    def ct(ix):
        return 'a.template operator()<%s>()' % ', '.join(map(str, ix))
    good = [d - 1 for d in sh]
    for p, d in enumerate(sh):
        for bad in [-1, d] + ([-2147483647, 2147483647, d + 1] if tier == 'thorough' or (kind, p) == ('array', 0) else []):
            ix = list(good)
            ix[p] = bad
            out.append(('%s of %s[%s]: compile-time index %d in position %d' % (kind, T, dims(sh), bad, p),
                        case(kind, T, sh, ct(good)), case(kind, T, sh, ct(ix))))
    rt = ['i'] * rank
    for n in (rank - 1, rank + 1):
        if n == 0:
            out.append(('%s of %s[%s]: no index' % (kind, T, dims(sh)), case(kind, T, sh, 'a(i)'), case(kind, T, sh, 'a()')))
            continue
        out.append(('%s of %s[%s]: %d compile-time indices' % (kind, T, dims(sh), n), case(kind, T, sh, ct(good)),
                    case(kind, T, sh, ct(([0] * n)))))
        out.append(('%s of %s[%s]: %d run-time indices' % (kind, T, dims(sh), n), case(kind, T, sh, 'a(%s)' % ', '.join(rt)),
                    case(kind, T, sh, 'a(%s)' % ', '.join(['i'] * n))))
    return out


def build(tier):
    jobs = []
    shapes = [(3,), (2, 3), (3, 1, 2), (2, 3, 4, 2), (1, 1), (2, 1, 3, 1, 2), (2, 1, 2, 3, 2, 1)] + ([(1, 2, 1, 1, 2, 1, 3), (2, 1, 1, 2, 1, 1, 1, 2)] if tier == 'thorough' else [])
    shapes += spikes(3, 4, 9)
    shapes += [x for k in around(5, 5000, 4) for x in ((k,), (2, k))]
    TS = ('double', 'int', 'float', 'char', 'S16', 'long', 'bool')
    for q, sh in enumerate(shapes):
        for k, kind in enumerate(['array', 'const array', 'view', 'const view', 'view of const']):
            cs = cases_for(kind, TS[(k + q) % len(TS)], sh, tier)
            for c in range(0, len(cs), 24):
                jobs.append(compile_fail_job('%s %s %d' % (kind, dims(sh), c), PRE, cs[c:c + 24], bounds=(k % 2 == 1)))
            if tier == 'thorough':
                jobs.append(compile_fail_job('%s %s gcc' % (kind, dims(sh)), PRE, cs, std='20', compiler=GXX))
    # slices
    sl = []
    for bad in (-1, 3):
        sl.append(('slice of double[2,3]: compile-time index %d' % bad,
                   'auto f( CArrayNd<double,2,3> & a ) { return a[1].template operator()<2>(); }',
                   'auto f( CArrayNd<double,2,3> & a ) { return a[1].template operator()<%d>(); }' % bad))
    sl.append(('slice of double[2,3]: two indices', 'auto f( CArrayNd<double,2,3> & a ) { return a[1](2); }',
               'auto f( CArrayNd<double,2,3> & a ) { return a[1](0,0); }'))
    sl.append(('slice of double[2,3,4]: one index', 'auto f( CArrayNd<double,2,3,4> const & a ) { return a[1](0,0); }',
               'auto f( CArrayNd<double,2,3,4> const & a ) { return a[1](0); }'))
    sl.append(('scalar: index 1', 'auto f( Scalar<double> & a ) { return a.template operator()<0>(); }',
               'auto f( Scalar<double> & a ) { return a.template operator()<1>(); }'))
    sl.append(('scalar: two indices', 'auto f( Scalar<double> & a ) { return a(0); }', 'auto f( Scalar<double> & a ) { return a(0,0); }'))
    jobs.append(compile_fail_job('slices and scalars', PRE, sl))
    jobs.append(compile_fail_job('slices and scalars, checked', PRE, sl, bounds=True))
    return jobs
