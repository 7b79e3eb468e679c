"""C31: the library is pure: no hidden state, allocation, I/O or exceptions."""
import re
from fractions import Fraction
from sa import ir
from sa.core import Job, FnJob, Broken, compile_ir, CompileError, classify_compile_error, first_errors
from sa.query import *
from sa.wit import *
from sa import queries as QQ

EXPLANATION = ('The IR of every query of the catalogue and of operations that write outputs is searched, over the whole call graph reachable from them, for '
               'references to variables that are not constants or are thread-local, for calls of functions outside the library other than pure arithmetic '
               '(allocation, I/O, exceptions, guards of run-time initialised statics, the environment), for indirect calls, and for volatile, atomic and '
               'inline-assembly effects; global constructors and mutable globals of a unit that includes everything are listed too. For the operations with '
               'outputs every trace is followed and every store to memory that is not local must go to an output, and every input is unchanged.')
ASSUMPTIONS = ['the catalogue stands for all operations; uninstantiated templates are not judged', 'what a variable that is not constant holds depends on history or on other threads']
RULE = 'interprocedural effect analysis of the IR (call graph, globals, stores)'
FULL = True
MIN = 4000

PURE = re.compile(r'^(llvm\.(memcpy|memset|memmove|dbg|lifetime|f?muladd|fma|fabs|sqrt|pow|powi|minnum|maxnum|minimum|maximum|copysign|floor|ceil|trunc|round|rint|nearbyint|expect|assume|is\.constant|'
                  r'abs|s(min|max)|u(min|max)|[su](add|sub|mul)\.|ctpop|ctlz|cttz|vector|experimental\.|objectsize|invariant|ptrmask|launder|strip|trap|ubsantrap|exp|log|sin|cos|stacksave|stackrestore|ldexp|is\.fpclass)[\w.]*|'
                  r'(fabs|sqrt|cbrt|fma|floor|ceil|trunc|round|rint|pow|fmin|fmax|fmod|hypot|copysign|exp|exp2|log|log2|log10|a?(sin|cos|tan)h?|atan2|ldexp|frexp|abs|labs|llabs|memcpy|memmove|memset|memcmp)[fl]?|'
                  r'__gxx_personality_v0|__clang_call_terminate)$')
REF = re.compile(r'@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)')
ODD = re.compile(r'\b(atomicrmw|cmpxchg|fence)\b|\b(?:load|store) (?:atomic|volatile)\b|\basm\b')
DBG = re.compile(r', ![a-zA-Z.]+ !\d+')


def graph(mod, roots, cut):
    seen, work = set(), list(roots)
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        fn = mod.functions[f]
        for l in fn.lines:
            for r in REF.findall(l):
                while r in mod.aliases:
                    r = REF.search(mod.aliases[r]).group()
                if r in mod.functions and r not in seen and not cut(r):
                    work.append(r)
    return seen


def demangle(names):
    import subprocess
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n.strip('@"') for n in names), stdout=subprocess.PIPE, universal_newlines=True)
        return dict(zip(names, p.stdout.split('\n')))
    except OSError:
        return {n: n for n in names}


def where(mod, fn, line):
    m = re.search(r'!dbg !(\d+)', line)
    return loc_str((mod, int(m.group(1)))) if m else fn


def effects(mod, ctx, roots, label):
    """Every impure construct reachable from the roots (root -> description)."""
    reporting = {f for f in mod.functions if 'shivaAssertionFailed' in f}
    if not reporting:
        reporting = {f for f, d in mod.functions.items() if d.vararg}
    seen = graph(mod, roots, lambda f: f in reporting or f == '@__clang_call_terminate')
    bad = []
    for f in seen:
        ctx.functions.add(f)
        for l in mod.functions[f].lines:
            if 'call void @llvm.dbg' in l:
                continue
            ctx.count('instructions')
            code = DBG.sub('', l)
            if ODD.search(re.sub(r'"[^"]*"', '', code)):
                bad.append((f, l, 'volatile, atomic or inline assembly: ' + code.strip()[:80]))
            m = re.search(r'\b(?:call|invoke)\b', code)
            if m and not re.search(r'@', code.split('(')[0] if ' asm ' not in code else '@'):
                if re.search(r'\b(?:call|invoke)\b[^@]*%[\w.]+\(', code):
                    bad.append((f, l, 'call through a pointer: ' + code.strip()[:80]))
            for r in REF.findall(code):
                while r in mod.aliases:
                    r = REF.search(mod.aliases[r]).group()
                if r in mod.raw_globals:
                    ctx.count('references to variables')
                    raw = mod.raw_globals[r]
                    if not re.search(r'(^|\s)constant\b', raw.split('{')[0].split('"')[0]) or 'thread_local' in raw.split('"')[0]:
                        bad.append((f, l, 'mutable %s variable %s' % ('thread-local' if 'thread_local' in raw else 'static', r)))
                elif r in mod.declares:
                    ctx.count('references to external functions')
                    if not PURE.match(r[1:].strip('"')):
                        bad.append((f, l, 'call of ' + r))
    names = demangle(sorted({b[0] for b in bad} | {r for b in bad for r in REF.findall(b[2])}))
    done = set()
    for f, l, what in bad:
        w = (what, f)
        if w in done:
            continue
        done.add(w)
        for r in REF.findall(what):
            what = what.replace(r, names.get(r, r))
        ctx.ob(False, '%s: no operation has a hidden effect' % label, '%s in %s' % (what, names.get(f, f)), where(mod, f, l))
    return seen


def reach(group, qs, real, std, bounds):
    name = 'effects of %s, %s, c++%s, bounds %s' % (group, real, std, 'on' if bounds else 'off')
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        src = QQ.INCLUDES + 'using R = %s;\n' % real + QQ.define(qs, 'extern "C"')
        try:
            mod = compile_ir(scratch, tag, src, std, bounds)
        except CompileError as e:
            if classify_compile_error(e.stderr, e.src) == 'vanished':
                raise Broken('interface gone: %s' % '\n'.join(first_errors(e.stderr)))
            ctx.ob(False, 'the catalogue compiles', '\n'.join(first_errors(e.stderr)))
            return
        effects(mod, ctx, ['@q%d' % k for k in range(len(qs))], group)
        for k, q in enumerate(qs):
            ctx.ob('@q%d' % k in mod.functions, '%s: all that is reachable was searched' % q.label)
        ctors = [g for g in mod.raw_globals if g in ('@llvm.global_ctors', '@llvm.global_dtors')]
        ctx.ob(not ctors, group + ': nothing runs before main', repr(ctors))
    return FnJob(name, fn)


EVERYTHING = 'basis', 'spacing', 'quad', 'prod', 'pe', 'ishape', 'ncube', 'nsimplex', 'lt', 'scal', 'uscal', 'jt', 'carray', 'index', 'mi', 'math', 'seq', 'nseq', 'err', 'macros'


def whole(std, bounds):
    """Mutable variables a unit gets by including everything."""
    name = 'variables of the headers, c++%s, bounds %s' % (std, 'on' if bounds else 'off')

    def verify(mod, ctx):
        used = {r for f in mod.functions.values() for l in f.lines for r in REF.findall(l)}
        for g, raw in mod.raw_globals.items():
            if g not in used:
                continue
            head = raw.split('{')[0].split('"')[0]
            ctx.ob(bool(re.search(r'(^|\s)constant\b', head)) and 'thread_local' not in head or g in ('@stderr', '@__stderrp'), name + ': variables used are constants', g + ' = ' + raw[:120])
        ctx.ob('@llvm.global_ctors' not in mod.raw_globals, name + ': nothing runs before main')
    # used functions are emitted in full
    src = inc(*EVERYTHING) + 'extern "C" int anchor() { return 0; }\n'
    return Job(name, src, verify, std=std, bounds=bounds, extra=['-femit-all-decls'])


# ------------------------------------------------------------- outputs only

GOOD = [Fraction(3, 8), Fraction(-5, 16), Fraction(7, 8), Fraction(1, 4), Fraction(-3, 4), Fraction(9, 16), Fraction(-1, 8), Fraction(5, 8)]


def outputs(real, std, bounds):
    mix = [('L', 1), ('E', 2), ('G', 1)]
    f, n = QQ.fillv(mix)
    src = QQ.INCLUDES + 'using R = %s;\n' % real
    src += 'using S = %s; using LT = LinearTransform< R, S >; using P = ParentElement< R, NCube< R, 3, -1, 1, 1 >, %s >; using BP = BasisProduct< R, %s >; using Q = QuadratureGaussLegendre< R, 3 >;\n' % (
        QQ.shape(mix), QQ.bases(mix), QQ.bases(mix))
    src += 'using SC = Scaling< R >; using US = UniformScaling< R >; using A = CArrayNd< R, 2, 3, 2 >; using F = CArrayNd< R, 2, 3, 2 >; using namespace shiva::geometry::utilities;\n'
    ops = []

    def op(what, params, body, conf):
        # params: (declaration, name, number of reals, 'in' | 'out' | 'inout')
        nm = 'o%d' % len(ops)
        nonlocal src
        src += 'extern "C" void %s( %s ) { %s }\n' % (nm, ', '.join(d for d, _, _, _ in params), body)
        ops.append((nm, what, params, conf))
    T = ('LT const & t', 't', n, 'in')
    X = ('R const (&x)[3]', 'x', 3, 'in')
    J = ('typename LT::JacobianType & J', 'J', 9, 'out')
    D = ('R & d', 'd', 1, 'out')
    op('jacobian at a point', [T, X, J], 'jacobian( t, x, J );', 'sym')
    op('jacobian at a point, mutable mapping', [('LT & t', 't', n, 'in'), ('R (&x)[3]', 'x', 3, 'in'), J], 'jacobian( t, x, J );', 'sym')
    op('jacobian at a quadrature point', [T, J], 'jacobian< Q, 0, 2, 1 >( t, J );', 'sym')
    op('returned jacobian', [T, X, ('R (&r)[9]', 'r', 9, 'out')], 'auto const J = jacobian( t, x ); for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r[3 * i + j] = J( i, j );', 'sym')
    op('inverse jacobian', [T, X, J, D], 'inverseJacobian( t, x, J, d );', 'const')
    op('returned inverse jacobian', [T, X, D], 'using std::get; auto const r = inverseJacobian( t, x ); d = get< 0 >( r );', 'const')
    for c, m in (('SC', 3), ('US', 1)):
        C, CJ = ('%s const & c' % c, 'c', m, 'in'), ('typename %s::JacobianType & J' % c, 'J', m, 'out')
        op('jacobian of ' + c, [C, CJ], 'jacobian( c, J );', 'sym')
        op('inverse jacobian of ' + c, [C, CJ, D], 'inverseJacobian( c, J, d );', 'const')
        op('data of ' + c, [C, ('R & r', 'd', 1, 'out')], 'r = c.getData()%s;' % ('[1]' if m == 3 else ''), 'sym')
    op('setData of a scaling', [('SC & c', 'c', 3, 'out'), ('R const (&a)[3]', 'a', 3, 'in')], 'c.setData( a );', 'sym')
    op('setData of a uniform scaling', [('US & c', 'c', 1, 'out'), ('R const & a', 'a', 1, 'in')], 'c.setData( a );', 'sym')
    op('setData of a mapping', [('LT & t', 't', n, 'inout'), ('R const (&a)[%d][3]' % (n // 3), 'a', n, 'in')], 't.setData( a );', 'sym')
    for E in ('BP', 'S', 'P'):
        op('value of a basis function of ' + E, [X, D], 'd = %s::template value< 1, 2, 0 >( x );' % E, 'sym')
        op('gradient of a basis function of ' + E, [X, ('R (&g)[3]', 'g', 3, 'out')], 'auto const r = %s::template gradient< 1, 0, 1 >( x ); for( int i = 0; i < 3; ++i ) g[i] = r( i );' % E, 'sym')
    op('value of a field', [X, ('F const & f', 'f', 12, 'in'), D], 'd = P::value( x, f );', 'sym')
    op('value of a field, mutable arguments', [('R (&x)[3]', 'x', 3, 'in'), ('F & f', 'f', 12, 'in'), D], 'd = P::value( x, f );', 'sym')
    op('gradient of a field', [X, ('F const & f', 'f', 12, 'in'), ('R (&g)[3]', 'g', 3, 'out')], 'auto const r = P::gradient( x, f ); for( int i = 0; i < 3; ++i ) g[i] = r( i );', 'sym')
    op('gradient of a field, mutable arguments', [('R (&x)[3]', 'x', 3, 'in'), ('F & f', 'f', 12, 'in'), ('R (&g)[3]', 'g', 3, 'out')], 'auto const r = P::gradient( x, f ); for( int i = 0; i < 3; ++i ) g[i] = r( i );', 'sym')
    op('matrix inverse', [('R (&m)[3][3]', 'm', 9, 'inout'), D], 'mathUtilities::inverse( m, d );', 'const')
    op('matrix inverse of an array', [('CArrayNd< R, 3, 3 > & m', 'm', 9, 'inout'), D], 'mathUtilities::inverse( m, d );', 'const')
    op('reads of an array', [('A & a', 'a', 12, 'in'), D], 'd = a( 1, 2, 0 ) + a[0][1][1] + a.template operator()< 1, 0, 1 >() + a.data()[3];', 'sym')
    op('reads of a const array', [('A const & a', 'a', 12, 'in'), D], 'd = a( 1, 2, 0 ) + a[0][1][1] + a.template operator()< 1, 0, 1 >() + a.data()[3];', 'sym')
    op('copies of an array', [('A & a', 'a', 12, 'in'), ('A & b', 'b', 12, 'out')], 'A c( a ); b = c; c( 1, 1, 1 ) = 0;', 'sym')
    op('views of an array', [('R (&v)[12]', 'v', 12, 'in'), D], 'CArrayViewNd< R, 2, 3, 2 > w( v ); CArrayViewNd< R const, 2, 3, 2 > u( v ); auto w2 = w; d = w( 1, 2, 1 ) + u[1][0][1] + w2[0]( 1, 0 );', 'sym')
    op('default construction', [('R (&r)[2]', 'r', 2, 'out')], 'SC s{}; US u{}; r[0] = s.getData()[0]; r[1] = u.getData();', 'sym')
    op('loops', [('R const (&v)[6]', 'v', 6, 'in'), D], 'R s = 0; forSequence< 3 >( [&] ( auto const a ) { s += v[a]; } ); forNestedSequence< 2, 3 >( [&] ( auto const a, auto const b ) { s += v[3 * a + b]; } ); '
       'MultiIndexRange< int, 2, 3 > m{ { 0, 0 } }; forRange( m, [&] ( auto const & i ) { s += v[3 * i.data[0] + i.data[1]]; } ); d = s;', 'sym')

    def verify(mod, ctx):
        effects(mod, ctx, ['@' + o[0] for o in ops], 'operations with outputs')
        for nm, what, params, conf in ops:
            sp = []
            for k, (_, b, c, kind) in enumerate(params):
                vals = [GOOD[(i * 3 + k) % 8] + (4 if b == 'm' and i % 4 == 0 else 0) + (Fraction(i * i % 5, 4) if b == 't' else 0) for i in range(c)]
                if b == 't':
                    vals = [Fraction((i // 3 >> (2 - i % 3)) & 1) * 2 + GOOD[i % 7] / 8 for i in range(c)]
                if b == 'c':
                    vals = [abs(v) + 1 for v in vals]
                sp.append(Buf(b, real, c, 'uninit' if kind == 'out' else 'sym' if conf == 'sym' else vals))
            for s_, o in outcomes(mod, ctx, nm, sp):
                w = '%s< %s >' % (what, real)
                if not returns(ctx, o, w):
                    continue
                outs = {a.obj for a, (_, _, _, kind) in zip(o.args, params) if kind != 'in'}
                for e in o.events:
                    if e[0] == 'store':
                        ctx.ob(e[1] in outs, w + ': stores go to outputs only', 'store to %s+%s' % (e[1].name, e[2]), loc_str(e[-1]))
                    elif e[0] == 'call' and not PURE.match(e[1][1:]):
                        ctx.ob(False, w + ': no call outside the library', e[1], loc_str(e[-1]))
                for a, (_, b, c, kind) in zip(o.args, params):
                    got = [final(o, a.obj, k, real) for k in range(c)]
                    if kind == 'in' and conf == 'sym':
                        ctx.ob(all(is_rf(v, RF.var('%s[%d]' % (b, k))) for k, v in enumerate(got)), '%s: input %s is unchanged' % (w, b), repr(got)[:300])
                    elif kind == 'in':
                        ctx.ob(all(is_rf(v, RF.const(z)) for z, v in zip(sp[[p[1] for p in params].index(b)].init, got)), '%s: input %s is unchanged' % (w, b), repr(got)[:300])
                    else:
                        ctx.ob(all(isinstance(v, RF) and not any('@' in q for q in names(v)) for v in got), '%s: output %s depends on the inputs only' % (w, b), repr(got)[:300])

    def names(v):
        return set(v.num.names()) | (set(v.den.names()) if v.den is not None else set())
    return Job('stores of operations with outputs, %s c++%s bounds %d' % (real, std, bounds), src, verify, std=std, bounds=bounds)


def build(tier):
    jobs = []
    groups = {}
    for q in QQ.catalogue(tier):
        groups.setdefault(q.group, []).append(q)
    i = 0
    for g, qs in groups.items():
        for std in ('17', '20', '23'):
            for b in (False, True):
                i += 1
                if tier != 'thorough' and (i // 2 + (std == '20')) % 2:
                    continue
                jobs.append(reach(g, qs, 'double' if i % 2 or tier != 'thorough' else 'float', std, b))
    for std in ('17', '20', '23'):
        for b in (False, True):
            jobs.append(whole(std, b))
        jobs.append(outputs('float' if std == '20' else 'double', std, std == '23'))
    return jobs
