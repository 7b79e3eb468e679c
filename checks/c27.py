"""C27: results are the same under every supported language standard and configuration."""
import itertools
import os
import re
from sa.core import FnJob, compile_ir, compile_ok, CompileError, classify_compile_error, Broken, first_errors, GXX, CLANG, REPO
from sa.query import *
from sa import queries as QQ

EXPLANATION = ('Every query of the catalogue is derived, as a function of its symbolic real inputs and for every index, from the code generated under '
               'C++17, C++20 and C++23 with bounds checking off and on, and the six normal forms must be equal. Every header and the whole catalogue '
               'must be accepted by clang and g++ under all six configurations.')
ASSUMPTIONS = ['arithmetic is judged over the reals', 'the catalogue stands for all queries; the general correctness under each standard is covered by C01 to C24, which alternate standards',
               'determinants and inverses of interpolated mappings are compared with three vertex coordinates symbolic at a time']
RULE = 'relational dataflow over the IR of six configurations: equal normal forms; acceptance by the type checkers of two compilers'
MIN = 3000
CONFIGS = [(s, b) for s in ('17', '20', '23') for b in (False, True)]


def index_sets(q, cap):
    ds = [range(c) for n, k, c in q.params if k == 'I']
    ts = list(itertools.product(*ds))
    if len(ts) > cap:
        st = len(ts) / cap
        ts = sorted({ts[0], ts[-1]} | {ts[int(i * st)] for i in range(cap)})
    return ts


def specs(q, ix, real):
    it = iter(ix)
    out = []
    for n, k, c in q.params:
        if k == 'I':
            out.append(Int(next(it)))
        else:
            out.append(Buf(n, real, max(1, c)))
    return out


def same(a, b, tol):
    """Lists of (guards, kind, value) of two configurations."""
    def eq(x, y):
        if isinstance(x, RF) and isinstance(y, RF):
            return x.close(y, tol)
        if isinstance(x, ISym) and isinstance(y, ISym):
            return x.rf.close(y.rf, 0)
        return type(x) is type(y) and x == y
    if len(a) == len(b) == 1:
        return a[0][1] == b[0][1] and eq(a[0][2], b[0][2])
    for g, k, v in a:
        m = [x for x in b if x[0] == g]
        if m:
            if not any(k == x[1] and eq(v, x[2]) for x in m):
                return False
        elif not all(k == x[1] and eq(v, x[2]) for x in b):
            return False
    return True


def big_wrapper(k, q, part):
    s = QQ.sample(q, part)
    decl, args = '', []
    for n, kind, c in q.params:
        if n == 'v':
            free = {(part * 7 + 5 * i) % c for i in range(3)}
            it = iter(range(3))
            decl += 'R const v_[%d] = { %s }; ' % (c, ', '.join('s[%d]' % next(it) if i in free else 'R( %r )' % float(s[n][i]) for i in range(c)))
        else:
            decl += 'R const %s_[%d] = { %s }; ' % (n, c, ', '.join('R( %r )' % float(f) for f in s[n]))
        args.append(n + '_')
    return 'extern "C" %s w%d_%d( R const * s ) { %s return q%d( %s ); }\n' % (q.ret, k, part, decl, k, ', '.join(args))


def make(group, qs, real, cap, nb):
    name = '%s %s' % (group, real)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        src = QQ.INCLUDES + 'using R = %s;\n' % real + QQ.define(qs, 'constexpr')
        tasks = []
        for k, q in enumerate(qs):
            if q.big:
                for p in range(nb):
                    src += big_wrapper(k, q, p)
                    tasks.append(('w%d_%d' % (k, p), [Buf('s', real, 3)], q.label + ' (vertex group %d)' % p))
            else:
                src += 'extern "C" %s w%d( %s ) { return q%d( %s ); }\n' % (q.ret, k, QQ.params(q).replace('R const x,', 'R const & x,'), k, ', '.join(n for n, _, _ in q.params))
                for ix in index_sets(q, cap):
                    sp = specs(q, ix, real)
                    sp = [Real(n) if isinstance(s_, Buf) and c == 0 else s_ for s_, (n, kd, c) in zip(sp, q.params)]
                    tasks.append(('w%d' % k, sp, q.label + (' at %s' % (ix,) if ix else '')))
        results = []
        for std, b in CONFIGS:
            try:
                mod = compile_ir(scratch, '%s_%s%d' % (tag, std, b), src, std, b)
            except CompileError as e:
                if classify_compile_error(e.stderr, e.src) == 'vanished':
                    raise Broken('interface gone: %s' % '\n'.join(first_errors(e.stderr)))
                ctx.ob(False, 'group %s compiles under c++%s, bounds checking %s' % (group, std, b), '\n'.join(first_errors(e.stderr)))
                results.append(None)
                continue
            res = []
            for f, sp, label in tasks:
                res.append([(repr([(repr(p), sorted(s)) for p, s in o.guards]), o.kind, o.value, loc_str(o.loc)) for _, o in outcomes(mod, ctx, f, sp)])
            results.append(res)
            del mod
        base = next((r for r in results if r is not None), None)
        if base is None:
            return
        for t, (f, sp, label) in enumerate(tasks):
            for (std, b), r in zip(CONFIGS, results):
                if r is None or r is base:
                    continue
                ok = same(base[t], r[t], 1e-12 if real == 'double' else 3e-5)
                ctx.ob(ok, '%s< %s >: c++%s %s bounds checking agrees with c++17 without' % (label, real, std, 'with' if b else 'without'),
                       '' if ok else 'computes %r there, %r here' % (base[t][0][1:3], r[t][0][1:3]), r[t][0][3] if r[t] else '')
    return FnJob(name, fn)


def accept(std, b, comp, cname, real):
    name = 'acceptance c++%s b%d %s %s' % (std, b, cname, real)

    def fn(scratch, ctx):
        qs = QQ.catalogue('quick')
        src = QQ.INCLUDES + 'using R = %s;\n' % real + QQ.define(qs)
        ok, err = compile_ok(scratch, re.sub(r'\W+', '_', name), src, std, b, compiler=comp)
        ctx.ob(ok, 'the catalogue of %d queries is accepted by %s under c++%s, bounds checking %s' % (len(qs), cname, std, b), '' if ok else '\n'.join(first_errors(err)))
        hs = sorted(os.path.relpath(os.path.join(d, f), REPO + '/include') for d, _, fs in os.walk(REPO + '/include/shiva') for f in fs if f.endswith('.hpp') and f != 'namespaceDocumentation.hpp')
        for h in hs if real == 'double' else []:
            ok, err = compile_ok(scratch, re.sub(r'\W+', '_', name + h), '#include "%s"\n' % h, std, b, compiler=comp)
            ctx.ob(ok, '%s compiles with %s under c++%s, bounds checking %s' % (h, cname, std, b), '' if ok else '\n'.join(first_errors(err)))
    return FnJob(name, fn)


def build(tier):
    groups = {}
    for q in QQ.catalogue(tier):
        groups.setdefault(q.group, []).append(q)
    jobs = []
    for comp, cname in ((None, 'clang'), (GXX, 'g++')):
        for std, b in CONFIGS:
            for real in ('double', 'float'):
                jobs.append(accept(std, b, comp, cname, real))
    for g, qs in groups.items():
        for c in range(0, len(qs), 30):
            for real in ('double', 'float'):
                if tier == 'quick' and real == 'float' and c % 60:
                    continue
                jobs.append(make('%s %d' % (g, c), qs[c:c + 30], real, 8 if tier == 'quick' else 40, 1 if tier == 'quick' else 4))
    return jobs
