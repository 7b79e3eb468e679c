"""C12: quadrature rules are exact to their theoretical degree."""
from sa.core import Job, FnJob, compile_ir, CompileError, classify_compile_error, Broken, first_errors
from sa.query import *
from sa.wit import *
from .c11 import const

EXPLANATION = ('For every rule and number of points the weights (both index forms) and nodes are derived by constant propagation, compared with '
               'the true weights (from the Legendre polynomials), with each other, for sign and symmetry, and the rule is applied to every '
               'monomial up to its degree in rational arithmetic. Other numbers of points must be rejected, or correct.')
ASSUMPTIONS = ['the tables for 6..9 Lobatto points have 14 digits; exactness is judged to that precision',
               'exactness for all polynomials follows from the monomials by linearity']
RULE = 'constant propagation of weights and nodes; moments equal 2/(k+1) or 0 for k up to the degree; type checker rejects other sizes'
MIN = 400
CLS = {'G': 'QuadratureGaussLegendre', 'L': 'QuadratureGaussLobatto'}


def true_weights(sp, n):
    x = nodes(sp, n)
    if sp == 'G':
        d = pder(legendre(n))
        return [Fraction(2) / ((1 - v * v) * peval(d, v) ** 2) for v in x]
    if n == 1:
        return None
    p = legendre(n - 1)
    return [Fraction(2) / (n * (n - 1) * peval(p, v) ** 2) for v in x]


def wtol(real, sp, n):
    return 1.5e-7 if real == 'float' else 7e-15 if (sp == 'L' and n >= 6) else 5e-16


def judge(ctx, real, sp, n, xs, ws, form, label):
    tw = true_weights(sp, n)
    t = Fraction(wtol(real, sp, n))
    for i, (a, b) in enumerate(zip(ws, tw)):
        ctx.ob(abs(a - b) <= t, '%s weight %d (%s) is the true weight' % (label, i, form), 'is %.17g, true weight %.17g' % (a, b))
        ctx.ob(a > 0, '%s weight %d (%s) is positive' % (label, i, form), float(a))
        ctx.ob(abs(a - ws[n - 1 - i]) <= 2 * t, '%s weight %d (%s) is symmetric' % (label, i, form), '%.17g vs %.17g' % (a, ws[n - 1 - i]))
    for k in range(0, 2 * n if sp == 'G' else 2 * n - 2):
        m = sum(w * x ** k for w, x in zip(ws, xs))
        e = Fraction(2, k + 1) if k % 2 == 0 else 0
        ctx.ob(abs(m - e) <= n * 6 * max(t, Fraction(2e-15)), '%s integrates x^%d exactly (%s)' % (label, k, form), 'gives %.17g, exact %.17g' % (m, e))


def make(real, sp, n, std, bounds):
    label = '%s<%s,%d>' % (CLS[sp], real, n)
    rt = sp == 'G' or n <= 5
    s = inc('quad') + 'using S = %s<%s,%d>;\n' % (CLS[sp], real, n)
    s += 'extern "C" %s xr( int i ) { return S::coordinate( i ); }\n' % real
    for i in range(n):
        s += 'extern "C" %s xc%d() { return S::coordinate<%d>(); }\nextern "C" %s wc%d() { return S::weight<%d>(); }\n' % (real, i, i, real, i, i)
    if rt:
        s += 'extern "C" %s wr( int i ) { return S::weight( i ); }\n' % real

    def verify(mod, ctx):
        xs = [const(ctx, mod, 'xc%d' % i, [], label + ' node') for i in range(n)]
        wc = [const(ctx, mod, 'wc%d' % i, [], label + ' weight') for i in range(n)]
        if None in xs + wc:
            return
        judge(ctx, real, sp, n, xs, wc, 'compile-time index', label)
        if rt:
            xr = [const(ctx, mod, 'xr', [Int(i)], label + ' node') for i in range(n)]
            wr = [const(ctx, mod, 'wr', [Int(i)], label + ' weight') for i in range(n)]
            if None in xr + wr:
                return
            judge(ctx, real, sp, n, xr, wr, 'run-time index', label)
            for i, (a, b) in enumerate(zip(wr, wc)):
                ctx.ob(abs(a - b) <= Fraction(wtol(real, sp, n)), '%s weight %d: run-time and compile-time index agree' % (label, i), '%.17g vs %.17g' % (a, b))
    return Job(label + ' c++%s b%d' % (std, bounds), s, verify, std=std, bounds=bounds)


def unsupported(real, sp, n, form):
    label = '%s<%s,%d>' % (CLS[sp], real, n)

    def fn(scratch, ctx):
        s = inc('quad') + 'using S = %s<%s,%d>;\n' % (CLS[sp], real, n)
        if form == 'run-time index':
            s += 'extern "C" %s w( int i ) { return S::weight( i ); }\n' % real
        else:
            s += ''.join('extern "C" %s w%d() { return S::weight<%d>(); }\n' % (real, i, i) for i in range(n))
        try:
            mod = compile_ir(scratch, 'un%s%s%d%s' % (sp, real, n, form[0]), s)
        except CompileError as e:
            if classify_compile_error(e.stderr, e.src) == 'vanished':
                raise Broken('\n'.join(first_errors(e.stderr)))
            ctx.ob(True, label + '::weight is rejected (%s)' % form)
            ctx.count('rejected sizes')
            return
        tw = true_weights(sp, n)
        for i in range(n):
            w = const(ctx, mod, 'w' if form == 'run-time index' else 'w%d' % i, [Int(i)] if form == 'run-time index' else [], label)
            if w is not None:
                ctx.ob(tw is not None and abs(w - tw[i]) <= Fraction(1e-14 if real == 'double' else 1.5e-7),
                       '%s is accepted, so its weight %d is the true one (%s)' % (label, i, form), 'is %.17g' % w)
    return FnJob('%s other size, %s' % (label, form), fn)


def build(tier):
    jobs = []
    for real in ('double', 'float'):
        for sp, ns in (('G', range(2, 5)), ('L', range(2, 10))):
            for n in ns:
                for std, b in (('17', False), ('20', False), ('17', True)):
                    jobs.append(make(real, sp, n, std, b))
        for sp, ns in (('G', (1, 5, 6, 7)), ('L', (1, 10, 11))):
            for n in ns:
                jobs += [unsupported(real, sp, n, f) for f in ('run-time index', 'compile-time index')]
        jobs += [unsupported(real, 'L', n, 'run-time index') for n in (6, 7, 8, 9)]
    return jobs
