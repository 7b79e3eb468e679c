"""C11: node spacings give the correct, increasing nodes; run time = compile time."""
from sa.core import around, Job, FnJob, compile_ok, compile_ir, CompileError, classify_compile_error, Broken, first_errors
from sa.query import *
from sa.wit import *

EXPLANATION = ('For every spacing, number of points and real type the nodes are derived by constant propagation from the run-time-index and the '
               'compile-time-index forms and compared with independently computed true nodes (Legendre roots, roots of P\' with the ends, equal '
               'spacing), with each other, for order, symmetry and range. Numbers of points beyond the tables must be rejected or correct.')
ASSUMPTIONS = ['equal spacing is analysed for 2..12 points (2..40 in the thorough tier)', 'the tables of 7, 8 and 9 Lobatto points have 13 or 14 digits; nodes are judged to that precision']
RULE = 'constant propagation of both coordinate forms; value == true node within the precision of the table; type checker rejects unsupported sizes'
FULL = True
MIN = 400

# precision of the tables: 14 digits for 7, 8 and 9 points (13 in one place), double otherwise
def table(sp, n, i):
    if sp == 'L' and n >= 7:
        return 2e-14 if n == 7 and i in (2, 4) else 5e-15
    return 5e-16


RTCT = {'double': 5e-16, 'float': 1.3e-7}


def tol(real, sp, n, i):
    return table(sp, n, i) if real == 'double' else 1.3e-7


def source(real, sp, n, cls=None):
    s = inc('spacing', 'quad') + 'using S = %s<%s,%d>;\n' % (cls or SPACINGS[sp], real, n)
    s += 'extern "C" %s rt( int i ) { return S::coordinate( i ); }\n' % real
    for i in range(n):
        s += 'extern "C" %s ct%d() { return S::coordinate<%d>(); }\n' % (real, i, i)
    s += 'extern "C" int np() { return S::numPoints; }\n'
    return s


def const(ctx, mod, fn, specs, what):
    outs = [o for _, o in outcomes(mod, ctx, fn, specs)]
    if len(outs) != 1 or outs[0].kind != 'ret':
        ctx.ob(False, what, 'does not return: %r' % [(o.kind, o.detail) for o in outs], loc_str(outs[0].loc) if outs else '')
        return None
    v = outs[0].value
    if isinstance(v, int):
        v = RF.const(v)
    if not isinstance(v, RF) or not v.is_const():
        ctx.ob(False, what, 'is not a constant: %r' % (v,))
        return None
    return v.num.const_value()


def judge(mod, ctx, real, sp, n, label):
    true = nodes(sp, n)
    got = {}
    for form in ('rt', 'ct'):
        xs = []
        for i in range(n):
            what = '%s node %d of %d (%s form)' % (label, i, n, 'run-time' if form == 'rt' else 'compile-time')
            v = const(ctx, mod, 'rt' if form == 'rt' else 'ct%d' % i, [Int(i)] if form == 'rt' else [], what)
            xs.append(v)
            if v is not None:
                ctx.ob(abs(v - true[i]) <= Fraction(tol(real, sp, n, i)), what + ' is the true node', 'is %.17g, true node %.17g' % (v, true[i]))
        got[form] = xs
        if None in xs:
            continue
        ctx.ob(all(a < b for a, b in zip(xs, xs[1:])), label + ' nodes increase strictly (%s)' % form, [float(x) for x in xs])
        t = Fraction(1, 10 ** 15) if real == 'double' else Fraction(3, 10 ** 7)
        ctx.ob(all(abs(x) <= 1 + t for x in xs), label + ' nodes inside [-1,1] (%s)' % form, [float(x) for x in xs])
        ctx.ob(all(abs(a + b) <= t for a, b in zip(xs, reversed(xs))), label + ' nodes symmetric (%s)' % form, [float(x) for x in xs])
    for i, (a, b) in enumerate(zip(got['rt'], got['ct'])):
        if a is not None and b is not None:
            ctx.ob(abs(a - b) <= Fraction(RTCT[real]), '%s node %d: run-time and compile-time index agree' % (label, i), '%.17g vs %.17g' % (a, b))


def make(real, sp, n, std, bounds, cls=None):
    label = '%s<%s,%d>' % (cls or SPACINGS[sp], real, n)

    def verify(mod, ctx):
        judge(mod, ctx, real, sp, n, label)
        v = const(ctx, mod, 'np', [], label + '::numPoints')
        ctx.ob(v == n, label + '::numPoints is %d' % n, v)
    return Job(label + ' c++%s b%d' % (std, bounds), source(real, sp, n, cls), verify, std=std, bounds=bounds)


def unsupported(real, sp, n, cls=None):
    """Beyond the tables: rejected, or right."""
    label = '%s<%s,%d>' % (cls or SPACINGS[sp], real, n)

    def fn(scratch, ctx):
        for form in ('rt', 'ct'):
            s = inc('spacing', 'quad') + 'using S = %s<%s,%d>;\n' % (cls or SPACINGS[sp], real, n)
            if form == 'rt':
                s += 'extern "C" %s rt( int i ) { return S::coordinate( i ); }\n' % real
            else:
                s += ''.join('extern "C" %s ct%d() { return S::coordinate<%d>(); }\n' % (real, i, i) for i in range(n))
            try:
                mod = compile_ir(scratch, 'un%s%s%d%s' % (sp, real, n, form + (cls or '')), s)
            except CompileError as e:
                if classify_compile_error(e.stderr, e.src) == 'vanished':
                    raise Broken('\n'.join(first_errors(e.stderr)))
                ctx.ob(True, label + ' is rejected (%s)' % form)
                ctx.count('rejected sizes')
                continue
            true = nodes(sp, n)
            for i in range(n):
                v = const(ctx, mod, form if form == 'rt' else 'ct%d' % i, [Int(i)] if form == 'rt' else [], label)
                if v is not None:
                    ctx.ob(abs(v - true[i]) <= Fraction(1e-13 if real == 'double' else 2.5e-7),
                           '%s is accepted, so its node %d is the true one (%s)' % (label, i, form), 'is %.17g, true node %.17g' % (v, true[i]))
    return FnJob(label + ' beyond the tables', fn)


def build(tier):
    jobs = []
    top = 24 if tier == 'quick' else 60
    for real in ('double', 'float'):
        for sp, ns in (('E', list(range(2, top + 1)) + [65, 100] + around(top + 1, 200, 12)), ('G', range(2, 5)), ('L', range(2, 10))):
            for n in ns:
                for std, b in (('17', False), ('20', False), ('17', True)):
                    if (std, b) != ('17', False) and n % 2 and tier == 'quick':
                        continue
                    jobs.append(make(real, sp, n, std, b))
                if sp != 'E':
                    jobs.append(make(real, sp, n, '17', False, {'G': 'QuadratureGaussLegendre', 'L': 'QuadratureGaussLobatto'}[sp]))
        for n in range(5, 9):
            jobs.append(unsupported(real, 'G', n))
        for n in range(10, 13):
            jobs.append(unsupported(real, 'L', n))
        jobs.append(unsupported(real, 'G', 5, 'QuadratureGaussLegendre'))
        jobs.append(unsupported(real, 'L', 10, 'QuadratureGaussLobatto'))
    return jobs
