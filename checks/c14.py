"""C14: LagrangeBasis::gradient is the derivative of LagrangeBasis::value."""
from sa.core import Job
from sa.query import *
from sa.wit import *
from . import c13

EXPLANATION = ('For every order and spacing a witness instantiates gradient<i>(coord) and value<i>(coord); both are brought '
               'to polynomial normal form in coord and the gradient is compared with the formal derivative of the value, '
               'and with the derivative of the cardinal polynomial of the true nodes; a pole of the gradient (e.g. a '
               'formula that divides by coord - node) is a violation at that coordinate.')
ASSUMPTIONS = c13.ASSUMPTIONS
RULE = 'dataflow in the polynomial domain over the IR of gradient<i>; normal form equals d(value<i>)/d(coord)'
FULL = True
MIN = 500
TOL = {'double': 1e-11, 'float': 1e-4}
TRUE_TOL = {'double': 1e-9, 'float': 1e-3}


def verify(real, sp, n):
    def f(mod, ctx):
        total = RF.const(0)
        plain = True
        xs = nodes(sp, n)
        for i in range(n):
            what = 'LagrangeBasis<%s,%d,%s>::gradient<%d>' % (real, n - 1, SPACINGS[sp], i)
            vals = [o for _, o in outcomes(mod, ctx, 'v_%d' % i, [Real('x')], track_real=(real == 'double'))]
            one = len(vals) == 1 and vals[0].kind == 'ret' and isinstance(vals[0].value, RF) and vals[0].value.den is None
            true = dpoly(lagrange(xs, i, RF.var('x')), 'x')
            outs = [o for _, o in outcomes(mod, ctx, 'g_%d' % i, [Real('x')], track_real=(real == 'double'))]
            for o in outs:
                if not returns(ctx, o, what):
                    continue
                if one:
                    real_equals(ctx, o, o.value, dpoly(vals[0].value, 'x'), TOL[real], what + ' is the derivative of value<%d>' % i)
                real_equals(ctx, o, o.value, true, TRUE_TOL[real], what + ' is the derivative of the cardinal polynomial')
                c13.defined_at(ctx, o, what, list(xs) + [Fraction(1, 3), Fraction(7, 5)])
            if len(outs) == 1 and isinstance(outs[0].value, RF):
                total = total + outs[0].value
            else:
                plain = False
        if plain:
            ctx.ob(total.close(RF.const(0), TRUE_TOL[real] * 10), 'gradients of LagrangeBasis<%s,%d,%s> sum to zero'
                   % (real, n - 1, SPACINGS[sp]), repr(total))
    return f


def build(tier):
    return [Job('%s %s n=%d c++%s' % (r, SPACINGS[s], n, std), c13.source(r, s, n, True), verify(r, s, n), std=std)
            for r, s, n in c13.cfgs(tier) for std in (('17', '20') if r == 'double' else ('17',))]
