"""C13: LagrangeBasis::value is the cardinal polynomial of the spacing's nodes."""
from sa.core import Job, around
from sa.query import *
from sa.wit import *
from sa.poly import RF

EXPLANATION = ('For every order and spacing a witness instantiates value<i>(coord) and coordinate<i>(); the analysis '
               'computes the returned value as a polynomial in coord and compares all coefficients with the cardinal '
               'polynomial of the nodes the spacing reports.')
ASSUMPTIONS = ['arithmetic is judged over the reals: rounding of the evaluation itself is not considered',
               'orders 0..8 (equal spacing up to 11 in the thorough tier) stand for all orders']
RULE = 'dataflow in the polynomial domain over the IR of value<i>; normal form equals the cardinal polynomial'
FULL = True
MIN = 250
TRUE_TOL = {'double': 1e-10, 'float': 1e-4}
TOL = {'double': 1e-12, 'float': 2e-5}


def lib_nodes(mod, ctx, n):
    """Nodes as the library's compile-time coordinate reports them."""
    xs = []
    for i in range(n):
        outs = [o for _, o in outcomes(mod, ctx, 'x_%d' % i, [])]
        if len(outs) != 1 or outs[0].kind != 'ret' or not isinstance(outs[0].value, RF) or not outs[0].value.is_const():
            return None
        xs.append(outs[0].value.num.const_value())
    return xs


def cfgs(tier):
    out = []
    for real in ('double', 'float'):
        for sp in 'EGL':
            top = {'E': 13, 'G': 4, 'L': 9}[sp]
            for n in list(range(1, top + 1)) + (around(14, 18) if sp == 'E' else []):
                if real == 'float' and n > 9:
                    continue
                out.append((real, sp, n))
    return out


def source(real, sp, n, grad=False):
    s = inc('basis', 'spacing') + 'using B = %s;\n' % basis(real, n - 1, sp)
    for i in range(n):
        s += 'extern "C" %s v_%d(%s x) { return B::value<%d>(x); }\n' % (real, i, real, i)
        if grad:
            s += 'extern "C" %s g_%d(%s x) { return B::gradient<%d>(x); }\n' % (real, i, real, i)
        if n > 1:
            s += 'extern "C" %s x_%d() { return B::SpacingType::coordinate<%d>(); }\n' % (real, i, i)
    return s


def defined_at(ctx, o, what, points, name='x'):
    """The value has no pole at the given points that satisfy the guards of the trace."""
    if not isinstance(o.value, RF) or o.value.den is None:
        return
    for p in points:
        env = {name: p}
        ok = True
        for g, signs in o.guards:
            v = g.eval(env)
            if (0 if abs(v) < 1e-30 else 1 if v > 0 else -1) not in signs:
                ok = False
        if ok:
            ctx.ob(abs(o.value.den.eval(env)) > 1e-30, what, 'division by zero at coordinate %s' % float(p))


def verify(real, sp, n):
    def f(mod, ctx):
        xs = lib_nodes(mod, ctx, n) if n > 1 else [Fraction(0)]
        if xs is None or len(set(xs)) != n:
            ctx.ob(False, 'nodes of %s with %d points are distinct constants' % (SPACINGS[sp], n), repr(xs))
            return
        for i in range(n):
            what = 'LagrangeBasis<%s,%d,%s>::value<%d>' % (real, n - 1, SPACINGS[sp], i)
            spec = lagrange(xs, i, RF.var('x'))
            true = lagrange(nodes(sp, n), i, RF.var('x'))
            for _, o in outcomes(mod, ctx, 'v_%d' % i, [Real('x')], track_real=(real == 'double')):
                if returns(ctx, o, what):
                    real_equals(ctx, o, o.value, spec, TOL[real], what + ' is cardinal for the library\'s nodes')
                    real_equals(ctx, o, o.value, true, TRUE_TOL[real], what + ' is cardinal for the true nodes')
                    defined_at(ctx, o, what, xs + [Fraction(1, 3), Fraction(7, 5)])
    return f


def build(tier):
    return [Job('%s %s n=%d c++%s' % (r, SPACINGS[s], n, std), source(r, s, n), verify(r, s, n), std=std)
            for r, s, n in cfgs(tier) for std in (('17', '20') if r == 'double' else ('17',))]
