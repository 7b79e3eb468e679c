"""C26: computations are done and returned in the requested real type."""
import re
from sa.core import FnJob, Job, compile_ir, CompileError, classify_compile_error, Broken, first_errors, static_facts_job
from sa.query import *
from sa.wit import *
from sa import queries as QQ
from .c27 import index_sets, specs, big_wrapper
from .c12 import true_weights

EXPLANATION = ('Information flow: every double-precision query of the catalogue is derived with symbolic inputs; a value that passes through a '
               'single-precision operation, truncation or constant, or through an integer, becomes a marked variable, and no result may depend on one. '
               'Node and weight tables are compared with the true values to double precision (constants that lost digits before code generation). '
               'The static return type of every query is decided by the type checker for float and double.')
ASSUMPTIONS = ['the tables for 6..9 Lobatto points carry 13 to 14 digits and are held to that', 'x87 and extended precision count as not narrower',
               'a constant counts as single-precision when it is exactly a float with at least 18 significant bits and not an integer']
RULE = 'information-flow (taint) analysis over the IR: no result depends on a narrowed value; type-level facts'
FULL = True
MIN = 1500
MARK = re.compile(r'narrowed|fpto')


def flow(group, qs, std, bounds, cap, nb):
    name = 'flow %s c++%s b%d' % (group, std, bounds)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        src = QQ.INCLUDES + 'using R = double;\n' + QQ.define(qs)
        tasks = []
        for k, q in enumerate(qs):
            if q.big:
                for p in range(nb):
                    src += big_wrapper(k, q, p)
                    tasks.append(('w%d_%d' % (k, p), [Buf('s', 'double', 3)], q.label))
            else:
                src += 'extern "C" %s w%d( %s ) { return q%d( %s ); }\n' % (q.ret, k, QQ.params(q), k, ', '.join(n for n, _, _ in q.params))
                for ix in index_sets(q, cap):
                    tasks.append(('w%d' % k, [Real(n) if kd == 'R' and c == 0 else s for s, (n, kd, c) in zip(specs(q, ix, 'double'), q.params)], q.label + (' at %s' % (ix,) if ix else '')))
        try:
            mod = compile_ir(scratch, tag, src, std, bounds)
        except CompileError as e:
            if classify_compile_error(e.stderr, e.src) == 'vanished':
                raise Broken('interface gone: %s' % '\n'.join(first_errors(e.stderr)))
            ctx.ob(False, 'group %s compiles' % group, '\n'.join(first_errors(e.stderr)))
            return
        for f, sp, label in tasks:
            for _, o in outcomes(mod, ctx, f, sp, track_real=True):
                if not returns(ctx, o, label):
                    continue
                v = o.value
                rf = v.rf if isinstance(v, ISym) else v
                dep = []
                if isinstance(rf, RF):
                    dep = [n for n in rf.num.names() + (rf.den.names() if rf.den else []) if MARK.search(n)]
                for p, _s in o.guards:
                    dep += [n for n in p.names() if MARK.search(n)]
                ctx.ob(not dep, label + ' in double: no value narrowed on the way', 'depends on %s' % dep[:3], loc_str(o.loc))
    return FnJob(name, fn)


def tables(std):
    src = QQ.INCLUDES
    items = []
    for sp, cl in (('G', 'QuadratureGaussLegendre'), ('L', 'QuadratureGaussLobatto'), ('E', None)):
        for n in range(2, 5 if sp == 'G' else 10):
            for i in range(n):
                items.append((sp, n, i, 'node', '%s< double, %d >::template coordinate< %d >()' % (SPACINGS[sp], n, i), nodes(sp, n)[i]))
                items.append((sp, n, i, 'node', '%s< double, %d >::coordinate( %d )' % (SPACINGS[sp], n, i), nodes(sp, n)[i]))
                if cl:
                    w = true_weights(sp, n)[i]
                    items.append((sp, n, i, 'weight', '%s< double, %d >::template weight< %d >()' % (cl, n, i), w))
                    if sp == 'G' or n <= 5:
                        items.append((sp, n, i, 'weight', '%s< double, %d >::weight( %d )' % (cl, n, i), w))
    for k, it in enumerate(items):
        src += 'extern "C" double t%d() { return %s; }\n' % (k, it[4])

    def verify(mod, ctx):
        for k, (sp, n, i, kind, e, want) in enumerate(items):
            for _, o in outcomes(mod, ctx, 't%d' % k, []):
                v = o.value
                tol = Fraction(2e-14 if sp == 'L' and n >= 6 else 6e-16)
                ok = isinstance(v, RF) and v.is_const() and abs(v.num.const_value() - want) <= tol
                ctx.ob(ok, e + ' has double precision', 'is %r, true %.17g' % (v, float(want)), loc_str(o.loc))
    return Job('tables c++' + std, src, verify, std=std)


def types(real, std):
    qs = [q for q in QQ.catalogue('quick') if q.ret == 'R' and 'return' in q.body and q.group not in ('arrays',)]
    pre = QQ.INCLUDES + 'using R = %s;\n' % real
    facts = []
    for k, q in enumerate(qs):
        if 'J( 0, 0 ) * det' in q.body or ' * det' in q.body:
            continue
        # the same function with a deduced return type
        pre += 'constexpr auto u%d( %s ) { %s }\n' % (k, QQ.params(q), q.body)
        facts.append(('%s returns %s' % (q.label, real), 'std::is_same_v< decltype( u%d( %s ) ), R >' % (
            k, ', '.join('0' if kd == 'I' else 'std::declval< R const & >()' if c == 0 else 'std::declval< R const (&)[%d] >()' % c for n, kd, c in q.params))))
    return static_facts_job('return types %s c++%s' % (real, std), '#include <utility>\n' + pre, facts, std=std)


def build(tier):
    groups = {}
    for q in QQ.catalogue(tier):
        if q.ret == 'R':
            groups.setdefault(q.group, []).append(q)
    jobs = [tables(s) for s in ('17', '20')] + [types(r, s) for r in ('double', 'float') for s in ('17', '20')]
    n = 0
    for g, qs in groups.items():
        for c in range(0, len(qs), 30):
            for std, b in (('17', False), ('20', True), ('23', False)):
                n += 1
                if tier == 'quick' and std == '23':
                    continue
                jobs.append(flow('%s %d' % (g, c), qs[c:c + 30], std, b, 12 if tier == 'quick' else 60, 1 if tier == 'quick' else 4))
    return jobs
