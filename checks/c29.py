"""C29: every header is self-contained and safe to include anywhere."""
import os
import random
import re
from sa.core import FnJob, Broken, compile_ok, run, incl, first_errors, classify_compile_error, CLANG, GXX, REPO
from sa.wit import NS
from sa import queries as QQ
from checks.c28 import flags, STUB

EXPLANATION = ('Each public header, found in the tree, is type-checked alone, twice, after the whole standard library and followed by uses of what it offers, with two '
               'compilers under each standard and configuration. The text each header contributes after preprocessing, and the value of every macro of the '
               'library, is compared over all ordered pairs of headers and shuffled orders of all headers (host, CUDA and HIP configurations): it must '
               'not depend on what was included before, so that several translation units see one definition. The symbols that each header and the whole '
               'catalogue define are listed from the generated code of both compilers: none may be a strong external definition.')
ASSUMPTIONS = ['the library headers are those under include/shiva, less the documentation-only one', 'headers of the standard library include no more than those installed here',
               'uninstantiated templates define no symbols']
RULE = 'type checking of inclusion witnesses; token-stream comparison over inclusion orders; linkage analysis of emitted symbols'
MIN = 6000
INC = os.path.join(REPO, 'include')

# what each header offers, used with nothing else included (T is the real type)
USES = {
    'common/CArray.hpp': 'T f() { CArrayNd< T, 2, 3 > a{ T( 0 ) }; CArrayNd< T, 2, 3 > const & b = a; a( 1, 2 ) = T( 2 ); a[0][1] = T( 1 ); CArrayViewNd< T const, 2 > v( a[1].data() ); Scalar< T > s{ T( 1 ) }; ScalarView< T > w( s.data() ); return b[1][2] + b( 0, 1 ) + a.template operator()< 0, 1 >() + s( 0 ) + w( 0 ) + a.size() + a.rank() + a.template extent< 1 >(); }',
    'common/CArrayHelper.hpp': 'int f() { return CArrayHelper::size< 2, 3 >() + CArrayHelper::stride< 2, 3 >() + CArrayHelper::get< 1, 4, 5 >() + CArrayHelper::linearIndexHelper< 2, 3 >::eval( 1, 2 ) + CArrayHelper::linearIndexHelper< 2, 3 >::template eval< 1, 2 >(); }',
    'common/IndexTypes.hpp': 'int f() { MultiIndexRangeI< 2, 3 > i{}; int s = 0; forRange( i, [&] ( auto const & j ) { s += static_cast< int >( linearIndex( j ) ); } ); return s + linearIndex( 3 ); }',
    'common/LinearIndex.hpp': 'int f( LinearIndex< int > i ) { return i; }',
    'common/MathUtilities.hpp': 'T f() { T m[3][3] = { { 2, 0, 0 }, { 0, 2, 0 }, { 0, 0, 2 } }; T d = 0; mathUtilities::inverse( m, d ); return d + mathUtilities::pow< T, 3 >( d ) + mathUtilities::factorial< int, 4 >::value + mathUtilities::binomialCoefficient< int, 4, 2 >::value; }',
    'common/MultiIndex.hpp': 'int f() { MultiIndex< int, 2 > m{}; MultiIndexRange< int, 2, 3 > r{}; return m.data[0] + r.data[1] + r.range( 1 ); }',
    'common/NestedSequenceUtilities.hpp': 'int f() { int s = 0; forNestedSequence< 2, 3 >( [&] ( auto i, auto j ) { s += i * j; } ); forNestedSequence( std::integer_sequence< int, 2 >{}, [&] ( auto i ) { s += i; } ); return s; }',
    'common/SequenceUtilities.hpp': 'int f() { int s = 0; forSequence< 3 >( [&] ( auto i ) { s += i; } ); return s + executeSequence< 3 >( [] ( auto ... i ) { return ( i + ... ); } ) + IntPackPeeler< 1, 4, 5 >::value(); }',
    'common/ShivaErrorHandling.hpp': 'void f( int i ) { SHIVA_ASSERT_MSG( i > 0, "%d", i ); shivaAssertionFailed( "f", 1, false, "x" ); }',
    'common/ShivaMacros.hpp': 'SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int f( int i ) { SHIVA_UNUSED_VAR( i ); return SHIVA_IS_CONST_EVAL(); } SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int g() { return 1; } struct X { SHIVA_S_CEVAL_HD_I int h() { return 1; } }; static_assert( g() == 1 && X::h() == 1, "" ); SHIVA_HOST int k() { return f( 1 ); }',
    'common/pmpl.hpp': 'void f( T * p ) { pmpl::genericKernelWrapper( 1, p, [] SHIVA_DEVICE ( T * q ) { q[0] = 1; } ); pmpl::genericKernelWrapper( [] SHIVA_DEVICE () {} ); pmpl::deallocateData( p ); static_assert( pmpl::check( T( 1 ), T( 1 ), T( 1 ) ), "" ); }',
    'common/types.hpp': 'int f() { shiva::tuple< int, T > t = shiva::make_tuple( 1, T( 2 ) ); (void) t; return static_cast< int >( sizeof( shiva::int_sequence< 1, 2 > ) + sizeof( shiva::make_int_sequence< 4 > ) ); }',
    'functions/spacing/Spacing.hpp': 'T f( int i ) { return EqualSpacing< T, 3 >::coordinate( i ) + GaussLegendreSpacing< T, 3 >::coordinate( i ) + GaussLobattoSpacing< T, 4 >::coordinate( i ) + EqualSpacing< T, 3 >::template coordinate< 1 >() + GaussLobattoSpacing< T, 5 >::template coordinate< 1 >(); }',
    'functions/quadrature/Quadrature.hpp': 'T f( int i ) { return QuadratureGaussLegendre< T, 3 >::weight( i ) + QuadratureGaussLobatto< T, 4 >::template weight< 1 >() + QuadratureGaussLobatto< T, 4 >::template coordinate< 1 >(); }',
    'functions/bases/LagrangeBasis.hpp': 'template< typename R, int N > struct Even { static constexpr int numPoints = N; static constexpr R coordinate( int i ) { return R( i ); } template< int I > static constexpr R coordinate() { return R( I ); } }; T f( T x ) { using B = LagrangeBasis< T, 2, Even >; return B::template value< 1 >( x ) + B::template gradient< 2 >( x ) + B::order; }',
    'functions/bases/BasisProduct.hpp': 'struct B { static constexpr int numSupportPoints = 2; template< int I > static constexpr T value( T x ) { return x; } template< int I > static constexpr T gradient( T ) { return T( 1 ); } }; T f( T const (&x)[2] ) { using P = BasisProduct< T, B, B >; T s = 0; P::supportLoop( [&] ( auto const ... i ) { s += P::template value< decltype(i)::value... >( x ) + P::template gradient< decltype(i)::value... >( x )( 0 ); } ); return s; }',
    'geometry/shapes/NCube.hpp': 'T f() { using C = NCube< T, 3, -1, 1, 1 >; return C::volume() + C::length() + C::minCoord() + C::maxCoord() + C::numVertices() + C::numEdges() + C::numFaces() + C::numCells() + C::numHyperFaces() + C::template numMCubes< 2 >() + Cube< T >::numDims() + Square< T >::numDims(); }',
    'geometry/shapes/NSimplex.hpp': 'T f() { using C = NSimplex< T, 3, 0, 1, 1 >; return C::volume() + C::length() + C::minCoord() + C::maxCoord() + C::numVertices() + C::numEdges() + C::numFaces() + C::numCells() + C::numHyperFaces() + C::template numMSimplexes< 2 >() + Tetrahedron< T >::numDims() + Triangle< T >::numDims(); }',
    'geometry/shapes/InterpolatedShape.hpp': 'struct B { static constexpr int numSupportPoints = 2; template< int I > static constexpr T value( T x ) { return x; } template< int I > static constexpr T gradient( T ) { return T( 1 ); } }; struct G { using CoordType = T[1]; static constexpr int numVertices() { return 2; } static constexpr int numDims() { return 1; } }; T f( T const (&x)[1] ) { using S = InterpolatedShape< T, G, B >; return S::template value< 0 >( x ) + S::template gradient< 1 >( x )( 0 ) + S::numVertices; }',
    'geometry/mapping/Scaling.hpp': 'T f( Scaling< T > & s ) { typename Scaling< T >::JacobianType J{}; T d = 0; utilities::jacobian( s, J ); utilities::inverseJacobian( s, J, d ); s.setData()[0] = d; return s.getData()[1]; }',
    'geometry/mapping/UniformScaling.hpp': 'T f( UniformScaling< T > & s ) { typename UniformScaling< T >::JacobianType J{}; T d = 0; utilities::jacobian( s, J ); utilities::inverseJacobian( s, J, d ); s.setData() = d; return s.getData(); }',
    'geometry/mapping/LinearTransform.hpp': '''struct S { using IndexType = MultiIndexRangeI< 1, 1, 1 >; using numSupportPointsSequence = std::integer_sequence< int, 1, 1, 1 >; struct BasisCombinationType { using IndexType = MultiIndexRangeI< 1, 1, 1 >; }; static constexpr int numVertices = 1; static constexpr int numDims = 3;
template< typename F > static constexpr void supportLoop( F && f ) { f( std::integral_constant< int, 0 >{}, std::integral_constant< int, 0 >{}, std::integral_constant< int, 0 >{} ); } template< int, int, int, typename C > static constexpr CArrayNd< T, 3 > gradient( C const & c ) { return CArrayNd< T, 3 >{ c[0], c[1], c[2] }; } };
struct Q { template< int I > static constexpr T coordinate() { return T( I ); } };
T f( LinearTransform< T, S > & s, T const (&x)[3] ) { typename LinearTransform< T, S >::JacobianType J{}; T d = 0; utilities::jacobian( s, x, J ); utilities::jacobian< Q, 0, 0, 0 >( s, J ); utilities::inverseJacobian( s, x, J, d ); T c[1][3] = { { 1, 2, 3 } }; s.setData( c ); return s.getData()( 0, 0, 0, 1 ) + d; }''',
    'geometry/mapping/JacobianTransforms.hpp': 'T f( Scaling< T > & s, UniformScaling< T > & u ) { auto a = utilities::jacobian( s ); auto b = utilities::inverseJacobian( u ); using std::get; return a( 0 ) + get< 0 >( b ) + get< 0 >( utilities::inverseJacobian( s ) ); }',
    'discretizations/finiteElementMethod/parentElements/ParentElement.hpp': 'struct B { static constexpr int numSupportPoints = 2; template< int I > static constexpr T value( T x ) { return x; } template< int I > static constexpr T gradient( T ) { return T( 1 ); } }; struct G { using CoordType = T[1]; static constexpr int numVertices() { return 2; } static constexpr int numDims() { return 1; } }; T f( T const (&x)[1], CArrayNd< T, 2 > const & v ) { using S = ParentElement< T, G, B >; return S::template value< 0 >( x ) + S::template gradient< 1 >( x )( 0 ) + S::value( x, v ) + S::gradient( x, v )( 0 ); }',
}
UMBRELLA = [
    ('spacings', USES['functions/spacing/Spacing.hpp']), ('quadrature', USES['functions/quadrature/Quadrature.hpp']),
    ('bases', 'T f( T x ) { using B = LagrangeBasis< T, 2, EqualSpacing >; return B::template value< 1 >( x ) + B::template gradient< 2 >( x ); }'),
    ('products of bases', 'using B = LagrangeBasis< T, 1, GaussLobattoSpacing >; T f( T const (&x)[2] ) { return BasisProduct< T, B, B >::template value< 0, 1 >( x ); }'),
    ('cubes', USES['geometry/shapes/NCube.hpp']), ('simplices', USES['geometry/shapes/NSimplex.hpp']),
    ('interpolated shapes', 'using B = LagrangeBasis< T, 1, GaussLobattoSpacing >; T f( T const (&x)[2] ) { return InterpolatedShape< T, Square< T >, B, B >::template value< 0, 1 >( x ); }'),
    ('parent elements', 'using B = LagrangeBasis< T, 1, GaussLobattoSpacing >; T f( T const (&x)[2], CArrayNd< T, 2, 2 > const & v ) { return ParentElement< T, Square< T >, B, B >::value( x, v ); }'),
    ('mappings', 'using B = LagrangeBasis< T, 1, GaussLobattoSpacing >; using L = LinearTransform< T, InterpolatedShape< T, Cube< T >, B, B, B > >; T f( L const & l, T const (&x)[3], Scaling< T > const & s, UniformScaling< T > const & u ) { using std::get; return get< 0 >( utilities::inverseJacobian( l, x ) ) + utilities::jacobian( s )( 0 ) + utilities::jacobian( u )( 0 ); }'),
]
OPEN = 'namespace shiva{ namespace functions{} namespace geometry{ namespace utilities{} } namespace discretizations{ namespace finiteElementMethod{} } }\n'


def headers():
    hs = []
    for d, _, fs in os.walk(os.path.join(INC, 'shiva')):
        for f in fs:
            if f.endswith(('.hpp', '.h', '.hh')) and f != 'namespaceDocumentation.hpp':
                hs.append(os.path.relpath(os.path.join(d, f), os.path.join(INC, 'shiva')))
    if len(hs) < 10:
        raise Broken('only %d headers found under include/shiva' % len(hs))
    return sorted(hs)


def line(h):
    return '#include "shiva/%s"\n' % h


def alone(std, bounds, comp, cname):
    name = 'inclusion c++%s b%d %s' % (std, bounds, cname)

    def fn(scratch, ctx):
        k = [0]

        def accept(src, what, uses):
            k[0] += 1
            ok, err = compile_ok(scratch, re.sub(r'\W+', '_', name) + '_%d' % k[0], src, std, bounds, compiler=comp)
            if not ok and uses and classify_compile_error(err, '%s_%d.cpp' % (re.sub(r'\W+', '_', name), k[0])) == 'vanished':
                # the witness names something that does not exist: either the header lacks an include, or the library lacks the name
                k[0] += 1
                full = ''.join(line(h) for h in hs) + src
                ok2, err2 = compile_ok(scratch, re.sub(r'\W+', '_', name) + '_%d' % k[0], full, std, bounds, compiler=comp)
                if not ok2:
                    raise Broken('interface used by the witness of %s is gone: %s' % (what, '\n'.join(first_errors(err2))))
            ctx.ob(ok, '%s (%s, c++%s, bounds checking %s)' % (what, cname, std, 'on' if bounds else 'off'), '' if ok else '\n'.join(first_errors(err)))
        hs = headers()
        for h in hs:
            use = OPEN + NS + 'using T = double;\n' + USES.get(h, '') + '\n'
            accept(line(h) + use, '%s alone, and what it offers' % h, True)
            accept(line(h) + line(h) + '#include <shiva/%s>\n' % h + use.replace('double', 'float'), '%s included repeatedly' % h, True)
            accept('#include <bits/stdc++.h>\n' + line(h) + use, '%s after the whole standard library' % h, True)
        if 'Shiva.hpp' in hs:
            for what, use in UMBRELLA:
                accept(line('Shiva.hpp') + OPEN + NS + 'using T = double;\n' + use + '\n', 'the umbrella header offers the ' + what, True)
        else:
            raise Broken('no umbrella header Shiva.hpp')
        for n in range(3):
            o = list(hs)
            random.Random(n).shuffle(o)
            accept(''.join(map(line, o)), 'all headers in shuffled order %d' % n, False)
        accept(''.join(map(line, hs)), 'all headers in alphabetic order', False)
        accept(''.join(map(line, hs[::-1])), 'all headers in reverse order', False)
    return FnJob(name, fn)


def split_tokens(text):
    """Preprocessed text -> {library header: its tokens, once per inclusion}."""
    out, cur = {}, None
    root = os.path.join(INC, 'shiva') + os.sep
    for l in text.split('\n'):
        m = re.match(r'#\s*(?:line\s+)?(\d+)\s+"((?:[^"\\]|\\.)*)"([ 0-9]*)', l)
        if m:
            p = os.path.normpath(m.group(2))
            cur = p[len(root):] if p.startswith(root) else None
            if cur is not None and '1' in m.group(3).split():
                out.setdefault(cur, []).append([])
            continue
        if cur is not None and l.strip() and not l.lstrip().startswith('#pragma'):
            out.setdefault(cur, [[]])[-1].extend(l.split())
    return {f: [t for t in ts if t] for f, ts in out.items()}


def orders_job(kind, std, bounds, tier, part=0, parts=1):
    name = 'inclusion orders, %s, c++%s, bounds checking %s, part %d' % (kind, std, 'on' if bounds else 'off', part)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        hs = headers()
        cnt = [0]

        def pre(order, dm=False):
            cnt[0] += 1
            src = scratch.path('%s_%d.%s' % (tag, cnt[0], 'cpp' if kind == 'host' else 'hip'))
            open(src, 'w').write(''.join(map(line, order)))
            if kind == 'host':
                cmd = [CLANG, '-std=c++' + std, '-w'] + incl(scratch, bounds)
            else:
                cmd = [CLANG] + flags(scratch, kind, 'host', std, bounds)
            rc, out, err = run(cmd + ['-E'] + (['-dM'] if dm else []) + [src])
            os.unlink(src)
            if rc:
                return None, '\n'.join(first_errors(err))
            return out, ''

        base, first, macros = {}, {}, {}

        def use(order, what):
            out, err = pre(order)
            if out is None:
                ctx.ob(False, '%s can be included (%s)' % (what, name), err)
                return
            toks = split_tokens(out)
            for f, ts in toks.items():
                t = [x for part in ts for x in part]
                if f not in base:
                    base[f], first[f] = t, what
                    continue
                ok = t == base[f]
                d = ''
                if not ok:
                    i = next((i for i, (a, b) in enumerate(zip(t, base[f])) if a != b), min(len(t), len(base[f])))
                    d = 'with %s: ... %s ...; with %s: ... %s ...' % (what, ' '.join(t[i:i + 12]), first[f], ' '.join(base[f][i:i + 12]))
                ctx.ob(ok, '%s contributes the same text with %s (%s)' % (f, what, name), d, f)

        def mac(order, what):
            out, err = pre(order, True)
            if out is None:
                return
            for l in out.split('\n'):
                m = re.match(r'#define (SHIVA_\w+)(.*)', l)
                if m:
                    k, v = m.group(1), m.group(2)
                    if k not in macros:
                        macros[k] = (v, what)
                        continue
                    ok = macros[k][0] == v
                    ctx.ob(ok, 'macro %s is the same with %s (%s)' % (k, what, name), '' if ok else '%s there, %s with %s' % (v, macros[k][0], macros[k][1]), k)
        for h in hs:
            use([h], h + ' alone')
            mac([h], h + ' alone')
        pairs = [(a, b) for a in hs[part::parts] for b in hs]
        if kind != 'host' and tier == 'quick':
            pairs = []
        for a, b in pairs:
            use([a, b], '%s before %s' % (a, b))
        for n in range(part, 4 if tier == 'quick' else 60, parts):
            o = list(hs)
            random.Random(n).shuffle(o)
            use(o, 'shuffled order %d' % n)
            mac(o, 'shuffled order %d' % n)
        use(hs, 'alphabetic order')
        use(hs[::-1], 'reverse order')
    return FnJob(name, fn)


def symbols_job(std, bounds, comp, cname, kind='host'):
    name = 'symbols, %s, %s, c++%s b%d' % (kind, cname, std, bounds)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        hs = headers()

        def emitted(src_text, n):
            src = scratch.path('%s_%d.%s' % (tag, n, 'cpp' if kind == 'host' else 'hip'))
            open(src, 'w').write(src_text)
            out = src + '.s'
            cmd = ([comp or CLANG, '-std=c++' + std, '-w'] + incl(scratch, bounds)) if kind == 'host' else [CLANG] + flags(scratch, kind, 'host', std, bounds)
            if kind != 'host':
                cmd += (['-DRT_CUDA'] if kind == 'cuda' else []) + ['-include', os.path.join(STUB, 'runtime.h')]
            cmd += ['-O0', '-S', '-o', out, src]
            if comp is None:
                cmd[1:1] = ['-emit-llvm', '-Xclang', '-disable-llvm-passes']
            rc, _, err = run(cmd)
            if rc:
                return None, err
            text = open(out).read()
            os.unlink(out)
            strong, weak = [], 0
            if comp is None:
                for l in text.split('\n'):
                    m = re.match(r'(define|@\S+ =)(.*)', l)
                    if not m:
                        continue
                    head = l.split('(')[0] if l.startswith('define') else l
                    if re.search(r'\b(internal|private|linkonce|linkonce_odr|weak|weak_odr|available_externally|extern_weak)\b', head):
                        weak += 1
                        continue
                    if l.startswith('define'):
                        strong.append(re.search(r'@("[^"]*"|[-\w$.]+)', l).group(1))
                    elif not re.search(r'= (dso_local )?external\b', l) and not re.match(r'@llvm\.|@__(hip|cuda)', l):
                        strong.append(re.match(r'@("[^"]*"|[-\w$.]+)', l).group(1))
            else:
                strong = re.findall(r'^\s*\.globl\s+(\S+)', text, re.M)
                weak = len(re.findall(r'^\s*\.weak\s+(\S+)', text, re.M))
                strong = [s for s in strong if re.search(r'^%s:' % re.escape(s), text, re.M)]
            return strong, weak
        for i, h in enumerate(hs):
            strong, err = emitted(line(h), i)
            if strong is None:
                ctx.ob(False, '%s compiles (%s)' % (h, name), '\n'.join(first_errors(err)))
                continue
            ctx.ob(not strong, '%s alone defines no strong external symbol (%s)' % (h, name), 'defines %s: a second translation unit that includes the header defines it again' % strong[:5], h)
        if kind != 'host':
            return
        qs = QQ.catalogue('quick')
        src = ''.join(map(line, hs)) + QQ.INCLUDES + 'using R = double;\n' + QQ.define(qs, '__attribute__((used)) static')
        strong, weak = emitted(src, 999)
        if strong is None:
            ctx.ob(False, 'the catalogue compiles (%s)' % name, '\n'.join(first_errors(weak)))
            return
        if weak < 500:
            raise Broken('only %d library symbols seen in %s' % (weak, name))
        ctx.count('library symbols examined', weak)
        ctx.ob(not strong, 'no use of the library defines a strong external symbol (%s, %d symbols)' % (name, weak), 'defines %s' % strong[:5])
    return FnJob(name, fn)


def build(tier):
    jobs = []
    for std in ('17', '20', '23'):
        for bounds in (False, True):
            for comp, cname in ((None, 'clang'), (GXX, 'g++')):
                if tier == 'thorough' or (std, bounds, cname) in (('17', False, 'g++'), ('17', True, 'clang'), ('20', True, 'g++'), ('20', False, 'clang'), ('23', True, 'g++'), ('23', False, 'clang')):
                    jobs.append(alone(std, bounds, comp, cname))
    jobs += [orders_job('host', '17', False, tier, k, 8) for k in range(8)]
    jobs.append(orders_job('cuda', '17', False, tier))
    jobs.append(orders_job('hip', '17', False, tier))
    if tier == 'thorough':
        jobs += [orders_job('host', s, b, tier, k, 4) for k in range(4) for s, b in (('20', False), ('23', False), ('17', True), ('23', True))]
    for std, bounds in (('17', False), ('17', True), ('20', False), ('23', False)) if tier == 'thorough' else (('17', True), ('20', False)):
        for comp, cname in ((None, 'clang'), (GXX, 'g++')):
            jobs.append(symbols_job(std, bounds, comp, cname))
    for kind in ('cuda', 'hip'):
        jobs.append(symbols_job('17', True, None, 'clang', kind))
    return jobs
