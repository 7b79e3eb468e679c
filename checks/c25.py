"""C25: what is computed at compile time equals what is computed at run time."""
import re
from sa.core import FnJob, compile_ir, compile_ok, CompileError, classify_compile_error, Broken, first_errors, GXX
from sa.query import *
from sa import queries as QQ

EXPLANATION = ('A catalogue of over 700 queries covering every component is written as constexpr functions. For sampled arguments over their index domains '
               'each query is (a) evaluated by the constant evaluator of the compiler front end, in both clang and g++, and (b) derived by dataflow '
               'analysis of the code generated for the run-time call, where every is-constant-evaluated branch takes the other side; (a) must exist '
               'and equal (b). Indices are enumerated, real arguments sampled at points that distinguish the polynomials involved.')
ASSUMPTIONS = ['real arguments are sampled (6 to 9 points per query, the centre, corners and coordinate planes among them); agreement of the code paths as functions is judged by C11 to C23 for the run-time side',
               'g++ and clang constant evaluators are trusted']
RULE = 'constant evaluation by the type checker vs dataflow over the IR of the run-time path'
MIN = 1500
RT = {'double': 1e-12, 'float': 2e-5}


def make(group, qs, real, std, bounds, nsamp, gxx):
    name = '%s %s c++%s b%d' % (group, real, std, bounds)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        base = QQ.INCLUDES + 'using R = %s;\n' % real + QQ.define(qs)
        body, cases = '', []
        for k, q in enumerate(qs):
            n = 1 if not q.params else nsamp
            if any(kind == 'I' for _, kind, _ in q.params):
                n = max(n, max(c for _, kind, c in q.params if kind == 'I') + 1)
            for s in range(n):
                decl, args = QQ.literal(q, QQ.sample(q, s))
                cases.append((k, s, decl, args))
                body += 'extern "C" %s r%d_%d() { %s return q%d( %s ); }\n' % (q.ret, k, s, decl, k, args)
                body += 'extern "C" %s c%d_%d() { %s constexpr %s v = q%d( %s ); return v; }\n' % (q.ret, k, s, decl, q.ret, k, args)
        try:
            mod = compile_ir(scratch, tag, base + body, std, bounds)
        except CompileError as e:
            if classify_compile_error(e.stderr, e.src) == 'vanished':
                raise Broken('interface gone: %s' % '\n'.join(first_errors(e.stderr)))
            # name the queries that are not constant expressions
            lines = (base + body).split('\n')
            bad = {int(m) for m in re.findall(re.escape(tag) + r'\.cpp:(\d+):', e.stderr)}
            named = [lines[l - 1] for l in sorted(bad) if lines[l - 1].startswith('extern')]
            ctx.ob(False, 'queries of group %s are usable in constant expressions (clang)' % group, '\n'.join(named[:4] + first_errors(e.stderr)), name)
            return
        facts = ''
        for k, s, decl, args in cases:
            q = qs[k]
            what = '%s< %s > at sample %d' % (q.label, real, s)
            vals = []
            for f in 'rc':
                outs = [o for _, o in outcomes(mod, ctx, '%s%d_%d' % (f, k, s), [])]
                if len(outs) != 1 or outs[0].kind != 'ret':
                    ctx.ob(False, what, 'the %s call does not return a value: %s' % ({'r': 'run-time', 'c': 'constant'}[f], [(o.kind, o.detail) for o in outs][:2]))
                    break
                vals.append(outs[0].value)
            if len(vals) < 2:
                continue
            r, c = vals
            if q.ret == 'long':
                ctx.ob(r == c and isinstance(r, int), what + ': compile time = run time', 'run time %r, compile time %r' % (r, c))
                if isinstance(r, int):
                    facts += 'static_assert( q%d( %s ) == %dL, "FACT %d %d" );\n' % (k, args, signed(r, 64), k, s)
                continue
            ok = isinstance(r, RF) and isinstance(c, RF) and r.is_const() and c.is_const()
            if ok:
                a, b = r.num.const_value(), c.num.const_value()
                ok = abs(a - b) <= Fraction(RT[real]) * max(1, abs(a))
            ctx.ob(ok, what + ': compile time = run time', 'run time %r, compile time %r' % (r, c), loc_str(outs[0].loc))
            if ok:
                facts += '%s static_assert( near( q%d( %s ), %r ), "FACT %d %d" );\n' % (re.sub(r'(\w+)_\[', r'\1_%d_%d_[' % (k, s), decl), k, re.sub(r'\b(\w+)_(?=,|$)', r'\1_%d_%d_' % (k, s), args), float(a), k, s)
        if gxx and facts:
            src = base + 'constexpr bool near( R a, double b ) { double d = a - b, m = b < 0 ? -b : b; return ( d < 0 ? -d : d ) <= %g * ( m < 1 ? 1 : m ); }\n' % RT[real] + facts
            good, err = compile_ok(scratch, tag + 'g', src, std, bounds, compiler=GXX)
            if good:
                for k, s, decl, args in cases:
                    ctx.ob(True, '%s< %s >: g++ constant evaluation agrees' % (qs[k].label, real))
                ctx.count('g++ constant evaluations', len(cases))
            else:
                fs = re.findall(r'FACT (\d+) (\d+)', err)
                if fs:
                    for k, s in sorted(set(fs))[:20]:
                        ctx.ob(False, '%s< %s > at sample %s: constant evaluation by g++ = run time' % (qs[int(k)].label, real, s), '\n'.join(first_errors(err, 1)), name)
                else:
                    ctx.ob(False, 'queries of group %s are usable in constant expressions (g++)' % group, '\n'.join(first_errors(err)), name)
    return FnJob(name, fn)


def build(tier):
    groups = {}
    for q in QQ.catalogue(tier):
        groups.setdefault(q.group, []).append(q)
    jobs = []
    n = 0
    for g, qs in groups.items():
        for c in range(0, len(qs), 40):
            part = qs[c:c + 40]
            for real in ('double', 'float'):
                for std in ('17', '20', '23'):
                    for b in (False, True):
                        n += 1
                        if tier == 'quick' and not (real == 'double' and std == '17' and not b) and (n % 5):
                            continue
                        jobs.append(make('%s %d' % (g, c), part, real, std, b, 6 if tier == 'quick' else 9, True))
    return jobs
