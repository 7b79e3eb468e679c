"""C24: integer helpers compute powers, factorials and binomial coefficients."""
from math import comb, factorial
from sa.core import Job, FnJob, compile_ok, static_facts_job, compile_fail_job, Broken, first_errors, classify_compile_error
from sa.query import *
from sa.wit import *

EXPLANATION = ('The power helper is derived as a polynomial of its symbolic base (float, double, int, long, unsigned) for exponents 0..32 and eleven exponents up to 300, and compared '
               'with the monomial. Factorials and binomial coefficients are decided by the constant evaluator for all arguments whose factorials fit '
               'int and 64 bits; larger ones must be exact or rejected, and arguments outside 0 <= K <= N must be rejected.')
ASSUMPTIONS = ['of the exponents above 32 only 63 to 65, 127 to 129, 200, 255 to 257 and 300 are analysed']
RULE = 'dataflow in the polynomial domain (from the IR); constant evaluation by the type checker; compile-fail witnesses'
FULL = True
MIN = 400
TYPES = {'double': Real, 'float': Real}


HIGH = (63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300)


def power(std, bounds, top):
    src = inc('math')
    ts = [('double', None), ('float', None), ('int', 32), ('long', 64), ('unsigned', 32), ('long long', 64)]
    for k, (t, w) in enumerate(ts):
        for e in list(range(top)) + [h for h in HIGH if h >= top]:
            src += 'extern "C" %s p%d_%d( %s x ) { return mathUtilities::pow< %s, %d >( x ); }\n' % (t, k, e, t, t, e)

    def verify(mod, ctx):
        for k, (t, w) in enumerate(ts):
            want, at = RF.const(1), 0
            for e in list(range(top)) + [h for h in HIGH if h >= top]:
                while at < e:
                    want, at = want * RF.var('x'), at + 1
                for sp, o in outcomes(mod, ctx, 'p%d_%d' % (k, e), [SymInt('x') if w else Real('x')], budget=100_000):
                    what = 'pow< %s, %d >( x )' % (t, e)
                    if not returns(ctx, o, what):
                        continue
                    v = o.value
                    if isinstance(v, ISym):
                        v = v.rf
                    if isinstance(v, int):
                        v = RF.const(v)
                    ok = isinstance(v, RF) and under_guards(v, want, o.guards, 0)
                    ctx.ob(ok, what, 'is %r, expected %r%s' % (v, want, describe(o)), loc_str(o.loc))
        # concrete bases: constants are folded in another way
        for b in (-3, -1, 0, 1, 2, 7):
            for e in range(0, 10):
                for sp, o in outcomes(mod, ctx, 'p2_%d' % e, [Int(b)], budget=100_000):
                    if returns(ctx, o, 'pow'):
                        g = signed(o.value, 32) if isinstance(o.value, int) else o.value
                        ctx.ob(g == b ** e, 'pow< int, %d >( %d )' % (e, b), 'is %r' % (g,))
    return Job('pow c++%s b%d' % (std, bounds), src, verify, std=std, bounds=bounds)


SMALL = {'short': (16, True), 'unsigned short': (16, False), 'signed char': (8, True), 'unsigned char': (8, False), 'int': (32, True),
         'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False)}


def powers_that_fit(std):
    """Every base and exponent whose power the type can hold (bases up to 300, exponents up to 63)."""
    src = inc('math')
    todo = []
    for k, (t, (w, sg)) in enumerate(SMALL.items()):
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
        for e in range(0, 64):
            src += 'extern "C" %s q%d_%d( %s x ) { return mathUtilities::pow< %s, %d >( x ); }\n' % (t, k, e, t, t, e)
            for b in sorted({b for b in list(range(-12, 13)) + [-100, 100, 255, 127, -128, 1000, -1000, 46340, 65535] if lo <= b <= hi and lo <= b ** e <= hi}):
                todo.append((k, t, w, sg, e, b))

    def verify(mod, ctx):
        for k, t, w, sg, e, b in todo:
            for sp, o in outcomes(mod, ctx, 'q%d_%d' % (k, e), [Int(b, w)], budget=100_000):
                what = 'pow< %s, %d >( %d )' % (t, e, b)
                if returns(ctx, o, what):
                    g = o.value if not isinstance(o.value, int) else signed(o.value, w) if sg else o.value & (1 << w) - 1
                    ctx.ob(g == b ** e, what, 'is %r, expected %d' % (g, b ** e), loc_str(o.loc))
    return Job('powers that fit c++' + std, src, verify, std=std)


def exact_or_rejected(name, exprs, std):
    """[(expression, exact value)]: the value is exact, or the program is rejected."""
    def fn(scratch, ctx):
        for k, (e, v) in enumerate(exprs):
            ok, err = compile_ok(scratch, 'er%d_%s' % (k, abs(hash(name)) % 99999), inc('math') + 'constexpr auto x = %s; void f( long a, unsigned long b ) { static_assert( x == x ); }\n' % e, std)
            if not ok:
                ctx.ob(True, e + ' is rejected')
                ctx.count('rejected')
                continue
            ok = False
            if v < 2 ** 63:
                ok, err = compile_ok(scratch, 'es%d_%s' % (k, abs(hash(name)) % 99999), inc('math') + 'static_assert( %s == %dLL );\n' % (e, v), std)
            ctx.ob(ok, e + ' is accepted, so it is exact', 'is not %d' % v, name)
    return FnJob(name, fn)


def build(tier):
    jobs = []
    for std in ('17', '20'):
        for b in (False, True):
            jobs.append(power(std, b, 41 if tier == 'thorough' else 33))
        jobs.append(powers_that_fit(std))
        facts = []
        for t, top in (('int', 12), ('long', 20), ('long long', 20), ('unsigned', 12), ('short', 7)):
            for n in range(top + 1):
                facts.append(('factorial< %s, %d >' % (t, n), 'mathUtilities::factorial< %s, %d >::value == %dLL && std::is_same_v< decltype( mathUtilities::factorial< %s, %d >::value ), %s const >' % (t, n, factorial(n), t, n, t)))
                for k in range(n + 1):
                    facts.append(('binomialCoefficient< %s, %d, %d >' % (t, n, k), 'mathUtilities::binomialCoefficient< %s, %d, %d >::value == %dLL' % (t, n, k, comb(n, k))))
        jobs.append(static_facts_job('factorials and binomials c++' + std, '#include <type_traits>\n' + inc('math'), facts, std=std))
        ex = [('mathUtilities::factorial< %s, %d >::value' % (t, n), factorial(n)) for t, ns in (('int', (13, 14, 20)), ('long', (21, 22, 30))) for n in ns]
        ex += [('mathUtilities::binomialCoefficient< %s, %d, %d >::value' % (t, n, k), comb(n, k)) for t, n in (('int', 13), ('int', 30), ('long', 21), ('long', 60)) for k in (0, 1, n // 2, n)]
        jobs.append(exact_or_rejected('large factorials c++' + std, ex, std))
        cases = []
        for t in ('int', 'long'):
            for n, k in ((3, 4), (3, -1), (0, 1), (5, 6), (5, -2), (2, 100)):
                g = 'constexpr auto x = mathUtilities::binomialCoefficient< %s, %d, %d >::value;' % (t, n, n // 2)
                cases.append(('binomialCoefficient< %s, %d, %d >' % (t, n, k), g, 'constexpr auto x = mathUtilities::binomialCoefficient< %s, %d, %d >::value;' % (t, n, k)))
        cases.append(('binomialCoefficient< int, -1, 0 >', 'constexpr auto x = mathUtilities::binomialCoefficient< int, 1, 0 >::value;', 'constexpr auto x = mathUtilities::binomialCoefficient< int, -1, 0 >::value;'))
        jobs.append(compile_fail_job('binomial misuse c++' + std, inc('math'), cases, std=std))
    return jobs
