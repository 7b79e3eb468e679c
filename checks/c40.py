"""C40: no query has undefined behaviour on valid input."""
import itertools
import re
from sa.core import FnJob, compile_ir, compile_ok, CompileError, classify_compile_error, Broken, first_errors
from sa.query import *
from sa import queries as QQ
from .c27 import index_sets, specs, big_wrapper

EXPLANATION = ('The front end is asked to write down its own conditions of defined behaviour (signed arithmetic, shifts, division, conversions from real to '
               'integer, bounds of every array type including the inner arrays of a multi-dimensional one, null references, values of bool, missing returns) '
               'and the lifetimes of objects in the intermediate representation. The abstract interpreter then derives every trace of every query, for every '
               'index and symbolic real inputs, and no trace may reach a violated condition, read or write outside an object or after its lifetime, do '
               'arithmetic on a pointer beyond its object, branch on or return a value that was never initialised. The constant evaluator of the front end, which '
               'refuses undefined behaviour down to single array rows and lifetimes, must accept every query at sampled arguments.')
ASSUMPTIONS = ['the catalogue stands for all queries', 'division of reals is defined (IEEE); alignment and strict aliasing are not judged',
               'inverses of interpolated mappings are derived with three vertex coordinates symbolic at a time']
RULE = 'abstract interpretation of the IR with explicit definedness conditions, lifetimes and object bounds: no violated condition reachable'
MIN = 1500
FLAGS = ['-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=alignment,vptr,object-size,function,pointer-overflow', '-fsanitize-trap=all', '-O1', '-Xclang', '-disable-llvm-passes']
KINDS = {0: 'signed overflow in an addition', 1: 'reaching code declared unreachable', 3: 'integer division by zero or overflow', 5: 'conversion of a real to an integer that cannot hold it', 8: 'invalid argument of a builtin',
         10: 'load of a value that its type does not have', 11: 'end of a function that must return a value', 12: 'signed overflow in a multiplication', 13: 'signed overflow in a negation', 18: 'array index out of bounds',
         20: 'shift out of range', 21: 'signed overflow in a subtraction', 22: 'null reference or pointer'}
INCL = QQ.INCLUDES + '#include "shiva/common/pmpl.hpp"\n'


def extras():
    Q = []

    def q(label, ret, params, body, group='extra'):
        Q.append(QQ.Query(group, label, ret, params, body))
    # deep arrays: every access form, owner and constness
    for ext in ((2, 3, 2, 2), (1, 4, 1, 2), (2, 1, 2, 2, 3), (7, 11), (1,), (64,)):
        n = 1
        for e in ext:
            n *= e
        d = len(ext)
        es = ', '.join(map(str, ext))
        idx = [('i%d' % k, 'I', e) for k, e in enumerate(ext)]
        names = ', '.join('i%d' % k for k in range(d))
        br = ''.join('[i%d]' % k for k in range(d))
        own = 'CArrayNd< R, %s > a{}; for( int k = 0; k < %d; ++k ) a.data()[k] = v[k]; ' % (es, n)
        view = 'R b[%d]{}; for( int k = 0; k < %d; ++k ) b[k] = v[k]; CArrayViewNd< R, %s > a( b ); ' % (n, n, es)
        cview = 'CArrayViewNd< R const, %s > a( v ); ' % es
        for on, mk in (('array', own), ('view', view), ('view of const', cview)):
            for an, ex in (('call', 'a( %s )' % names), ('bracket', 'a' + br), ('const call', 'std::as_const( a )( %s )' % names), ('const bracket', 'std::as_const( a )' + br),
                           ('compile-time', 'a.template operator()< %s >()' % ', '.join(str(e - 1) for e in ext))):
                q('%s of %s %s' % (an, on, es), 'R', [('v', 'R', n)] + (idx if an != 'compile-time' else []), mk + 'return %s;' % ex)
            if on != 'view of const':
                q('write through %s %s' % (on, es), 'R', [('v', 'R', n), ('s', 'R', 0)] + idx, mk + 'a%s = s; a( %s ) += s; return a.data()[0] + a.data()[%d];' % (br, names, n - 1))
        if d > 1:
            q('slice kept, then used, of %s' % es, 'R', [('v', 'R', n)] + idx, own + 'auto const s = a[i0]; return s%s;' % ''.join('[i%d]' % k for k in range(1, d)))
            q('slice of a copy of a view of %s' % es, 'R', [('v', 'R', n)] + idx, view + 'auto c = a; auto s = c[i0]; s( %s ) = R( 2 ); return c( %s ) + b[0];' % (', '.join('i%d' % k for k in range(1, d)), names))
        for t in ('signed char', 'unsigned char', 'short', 'long', 'unsigned', 'unsigned long', 'std::size_t'):
            q('indices of type %s into %s' % (t, es), 'R', [('v', 'R', n)] + idx, own + 'return a( %s );' % ', '.join('static_cast< %s >( i%d )' % (t, k) for k in range(d)))
    # loops up to the ends of their index types
    for bt, r in (('signed char', '127'), ('unsigned char', '255'), ('short', '300'), ('unsigned short', '3, 300'), ('unsigned', '4, 3'), ('long', '3, 2, 2'), ('signed char', '11, 11')):
        rs = ', '.join('static_cast< %s >( %s )' % (bt, x) for x in r.split(','))
        q('forRange over %s %s' % (bt, r), 'long', [], 'MultiIndexRange< %s, %s > m{}; long k = 0; forRange( m, [&] ( auto const & a ) { k += a.data[0] + 1; } ); return k;' % (bt, rs))
        q('linearIndex in %s %s' % (bt, r), 'long', [], 'MultiIndexRange< %s, %s > m{}; long k = 0; forRange( m, [&] ( auto const & a ) { k += static_cast< long >( linearIndex( a ) ); } ); return k;' % (bt, rs))
    q('linear index beyond 32 bits', 'long', [], 'MultiIndexRange< long, 70000, 70000, 3 > m{}; m.data[0] = 69999; m.data[1] = 69999; m.data[2] = 2; return linearIndex( m );')
    q('linear index of the last of 2^31 - 1', 'long', [], 'MultiIndexRange< int, 2147483647 > m{}; m.data[0] = 2147483646; return linearIndex( m );')
    q('multi-index of 2^16 by 2^15 - 1', 'long', [], 'MultiIndexRange< int, 65536, 32767 > m{}; m.data[0] = 65535; m.data[1] = 32766; return linearIndex( m );')
    # counts and extents at the ends of int
    for n in (1, 5, 11):
        for m in range(n + 1):
            q('NCube<%d>::numMCubes<%d>' % (n, m), 'long', [], 'return NCube< R, %d, -1, 1, 1 >::template numMCubes< %d >();' % (n, m))
            q('NSimplex<%d>::numMSimplexes<%d>' % (n, m), 'long', [], 'return NSimplex< R, %d, 0, 1, 1 >::template numMSimplexes< %d >();' % (n, m))
    for cls in ('NCube', 'NSimplex'):
        for e in ('-2147483647 - 1, 2147483647, 1', '-2147483647, 2147483647, 2147483647', '0, 1, 3', '-2147483647 - 1, -2147483647, 7'):
            for f in ('length', 'minCoord', 'maxCoord', 'volume'):
                q('%s<3, %s>::%s' % (cls, e, f), 'R', [], 'return %s< R, 3, %s >::%s();' % (cls, e, f))
    q('factorial< int, 12 >', 'long', [], 'return mathUtilities::factorial< int, 12 >::value;')
    q('factorial< long, 20 >', 'long', [], 'return mathUtilities::factorial< long, 20 >::value;')
    q('binomialCoefficient< int, 12, 6 >', 'long', [], 'return mathUtilities::binomialCoefficient< int, 12, 6 >::value;')
    q('pow< int, 30 >( 2 )', 'long', [], 'return mathUtilities::pow< int, 30 >( 2 );')
    q('pow< int, 31 >( -2 )', 'long', [], 'return mathUtilities::pow< int, 31 >( -2 );')
    q('pow< unsigned char, 3 >( 6 )', 'long', [], 'return mathUtilities::pow< unsigned char, 3 >( 6 );')
    # loops and expansions with state, references and temporaries
    q('forSequence that keeps indices', 'long', [], 'int s[5]{}; int n = 0; forSequence< 5 >( [&] ( auto const i ) { s[n++] = i; } ); long r = 0; for( int k = 0; k < 5; ++k ) r = 10 * r + s[k]; return r;')
    q('nested sequence of a temporary', 'long', [('i', 'I', 3)], 'long r = 0; forNestedSequence< 2, 1, 3 >( [&r, i] ( auto const a, auto const b, auto const c ) { r = r * 2 + a + b + c + i; } ); return r;')
    q('executeSequence of references', 'long', [('i', 'I', 4)], 'int k = i; auto f = [] ( int & x, int const & y, auto const ... a ) { x += y; return ( a + ... + x ); }; long const r = executeSequence< 3 >( f, k, 5 ); return r + k;')
    q('executeSequence that returns an object', 'R', [('v', 'R', 3)], 'auto const a = executeSequence< 3 >( [&] ( auto const ... k ) { return CArrayNd< R, 3 >{ v[decltype(k)::value]... }; } ); return a( 2 );')
    # objects
    q('mapping copied and moved', 'R', [('v', 'R', 24)], 'using LT = LinearTransform< R, %s >; LT t{}; R const l[8][3] = { %s }; t.setData( l ); LT u = t; LT w = std::move( u ); w = t; return w.getData()( 1, 1, 1, 2 ) + t.getData()( 0, 0, 1, 0 );' % (
        QQ.shape([('L', 1)] * 3), ', '.join('{ v[%d], v[%d], v[%d] }' % (3 * k, 3 * k + 1, 3 * k + 2) for k in range(8))))
    for mix in ([('L', 1), ('E', 2), ('G', 1)], [('L', 3), ('L', 1), ('L', 2)]):
        n = 1
        for _, o in mix:
            n *= o + 1
        q('setData from an array on %s' % mix, 'R', [('v', 'R', 3 * n)], 'using LT = LinearTransform< R, %s >; LT t{}; CArrayNd< R, %d, 3 > l{}; for( int k = 0; k < %d; ++k ) l.data()[k] = v[k]; t.setData( l ); return t.getData().data()[%d];' % (QQ.shape(mix), n, 3 * n, 3 * n - 1))
    q('default mapping', 'R', [], 'using LT = LinearTransform< R, %s >; LT t{}; R s = 0; for( int k = 0; k < 24; ++k ) s = s + t.getData().data()[k]; return s;' % QQ.shape([('L', 1)] * 3))
    q('default-initialised mapping', 'R', [], 'LinearTransform< R, %s > t; R s = 0; for( int k = 0; k < 24; ++k ) s = s + t.getData().data()[k]; return s;' % QQ.shape([('L', 1)] * 3))
    q('default-initialised array', 'R', [], 'CArrayNd< R, 2, 3 > t; R s = 0; for( int k = 0; k < 6; ++k ) s = s + t.data()[k]; return s;')
    q('default-initialised multi-indices', 'long', [], 'MultiIndex< int, 3 > a; MultiIndexRange< long, 2, 3 > b; return a.data[0] + a.data[2] + b.data[0] + b.data[1] + b.range( 1 );')
    q('default-initialised scalings', 'R', [], 'Scaling< R > a; UniformScaling< R > b; return a.getData()[0] + a.getData()[2] + b.getData();')
    q('jacobian into an array that was never written', 'R', [('v', 'R', 24), ('x', 'R', 3)], 'using LT = LinearTransform< R, %s >; LT t{}; %stypename LT::JacobianType J; utilities::jacobian( t, x, J ); return J( 2, 1 );' % (QQ.shape([('L', 1)] * 3), QQ.fillv([('L', 1)] * 3)[0]))
    # the portability layer on the host
    q('kernel on data', 'R', [('v', 'R', 3)], 'R d[3] = { v[0], v[1], v[2] }; shiva::pmpl::genericKernelWrapper( 3, d, [] ( auto * const p ) { p[0] = p[1] + p[2]; } ); return d[0];', 'host')
    q('kernel without data', 'R', [('v', 'R', 2)], 'R r = 0; shiva::pmpl::genericKernelWrapper( [&] { r = v[0] + v[1]; } ); return r;', 'host')
    q('allocated data', 'R', [('v', 'R', 2)], 'R * p = new R[2]; p[0] = v[0]; p[1] = v[1]; R const r = p[0] + p[1]; shiva::pmpl::deallocateData( p ); return r;', 'host')
    q('check', 'long', [('v', 'R', 3)], 'return shiva::pmpl::check( v[0], v[1], v[2] );', 'host')
    return Q


def holds_undef(v):
    if v is UNDEF:
        return True
    e = getattr(v, 'e', None)
    return isinstance(e, list) and any(holds_undef(x) for x in e)


def make(group, qs, real, std, bounds, cap, nb, part):
    name = '%s %d %s c++%s bounds %s' % (group, part, real, std, 'on' if bounds else 'off')
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        src = INCL + 'using R = %s;\n' % real + QQ.define(qs, 'constexpr' if group != 'host' else 'inline')
        tasks = []
        for k, q in enumerate(qs):
            if q.big:
                for p in range(nb):
                    src += big_wrapper(k, q, p)
                    tasks.append(('w%d_%d' % (k, p), [Buf('s', real, 3)], q.label + ' (vertex group %d)' % p))
            else:
                src += 'extern "C" %s w%d( %s ) { return q%d( %s ); }\n' % (q.ret, k, QQ.params(q), k, ', '.join(n for n, _, _ in q.params))
                for ix in index_sets(q, cap):
                    sp = [Real(n) if isinstance(s_, Buf) and c == 0 else s_ for s_, (n, kd, c) in zip(specs(q, ix, real), q.params)]
                    tasks.append(('w%d' % k, sp, q.label + (' at %s' % (ix,) if ix else '')))
        try:
            mod = compile_ir(scratch, tag, src, std, bounds, extra=FLAGS)
        except CompileError as e:
            if classify_compile_error(e.stderr, e.src) == 'vanished':
                raise Broken('interface gone: %s' % '\n'.join(first_errors(e.stderr)))
            ctx.ob(False, 'group %s compiles' % group, '\n'.join(first_errors(e.stderr)))
            return
        ctx.count('conditions of definedness in the code analysed', sum(1 for f in mod.functions.values() for l in f.lines or () if '@llvm.ubsantrap(' in l))
        for f, sp, label in tasks:
            for _, o in outcomes(mod, ctx, f, sp, strict_gep=True):
                ctx.count('traces')
                why = ''
                if o.kind == 'abort' and 'ubsantrap' in str(o.detail):
                    a = o.events[-1][2] if o.events and o.events[-1][0] == 'call' else []
                    why = KINDS.get(a[0] if a else None, 'undefined behaviour (condition %s)' % a)
                elif o.kind != 'ret':
                    why = '%s: %s' % (o.kind, o.detail)
                elif holds_undef(o.value):
                    why = 'the result was never initialised'
                ctx.ob(not why, '%s< %s > has defined behaviour' % (label, real), why + describe(o), loc_str(o.loc))
    return FnJob(name, fn)


UB_NOTE = re.compile(r'note: (.*(?:past the end|one-past|outside the range|uninitialized|lifetime|overflow|shift|division by zero|null pointer|outside the bounds|destroyed|dangling|has ended|not representable|cannot be represented|out of bounds|reached end|without returning|indeterminate|member of union).*)')


def evaluate(group, qs, real, std, bounds, part):
    name = 'constant evaluation of %s %d %s c++%s bounds %s' % (group, part, real, std, 'on' if bounds else 'off')
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        src = INCL + 'using R = %s;\n' % real + QQ.define(qs)
        first = src.count('\n') + 1
        cases = []
        for k, q in enumerate(qs):
            m = max([c for _, kd, c in q.params if kd == 'I'] or [1])
            for s in range(min(m + 1, 6) if q.params else 1):
                decl, args = QQ.literal(q, QQ.sample(q, s))
                src += 'constexpr int k%d_%d() { %s constexpr auto v = q%d( %s ); (void) v; return 0; }\n' % (k, s, decl, k, args)
                cases.append((k, s))
        ok, err = compile_ok(scratch, tag, src, std, bounds, extra=['-ferror-limit=0', '-fconstexpr-steps=100000000', '-fconstexpr-backtrace-limit=2'])
        bad, cur = {}, None
        for l in err.split('\n') if not ok else []:
            m = re.match(r'(.*?):(\d+):\d+: (error|fatal error): (.*)', l)
            if m:
                cur = None
                if re.search(re.escape(tag) + r'\.cpp$', m.group(1)) and int(m.group(2)) >= first and 'constant expression' in m.group(4):
                    cur = int(m.group(2)) - first
                continue
            n = UB_NOTE.search(l)
            if n and cur is not None and cur not in bad:
                bad[cur] = (n.group(1), l.split(': note')[0])
        for j, (k, s) in enumerate(cases):
            ctx.ob(j not in bad, '%s< %s > at sample %d has defined behaviour in constant evaluation' % (qs[k].label, real, s), bad.get(j, ('', ''))[0], bad.get(j, ('', ''))[1])
        ctx.count('constant evaluations', len(cases))
    return FnJob(name, fn)


CONFIGS = [('17', False), ('17', True), ('20', False), ('20', True), ('23', False), ('23', True)]


def build(tier):
    groups = {}
    for q in QQ.catalogue(tier) + extras():
        groups.setdefault(q.group, []).append(q)
    jobs = []
    n = 0
    for g, qs in groups.items():
        size = {'fields': 6, 'jacobians': 10, 'inverses': 3, 'extra': 45}.get(g, 30)
        for c in range(0, len(qs), size):
            n += 1
            part = qs[c:c + size]
            if g != 'host':
                for real, (s, b) in ((('double', 'float')[n % 2], ('20', n % 3 == 0)),) if tier == 'quick' else itertools.product(('double', 'float'), CONFIGS):
                    jobs.append(evaluate(g, part, real, s, b, c))
            cap, nb = (24, 1) if tier == 'quick' else (200, 4)
            cfgs = CONFIGS if tier == 'thorough' else [CONFIGS[(n + j) % 6] for j in (0, 3)]
            for i, (s, b) in enumerate(cfgs):
                for real in (('double', 'float') if tier == 'thorough' else (('double', 'float')[(i + n) % 2],)):
                    jobs.append(make(g, part, real, s, b, cap, nb, c))
    return jobs
