"""C41: objects of the library are plain data that may be copied byte by byte."""
import re
from sa.core import static_facts_job, spikes, around, GXX, FnJob, compile_ir, CompileError, classify_compile_error, Broken, first_errors
from sa.query import *
from sa.queries import bases, shape, INCLUDES
from sa.wit import *

EXPLANATION = ('The type checkers of clang and g++ decide, for arrays, views, multi-indices and mappings of many shapes and element types, that they are trivially '
               'copyable and destructible, of standard layout, of the size and alignment of their elements (or of one pointer), usable in constant expressions, and '
               'that stateless types are empty. The analysis of the code then derives what a byte-wise copy of an object answers to every query, with '
               'symbolic contents: the same as the original, and independent of it.')
ASSUMPTIONS = ['clang 18 and g++ 13 decide type traits as the standard says', 'the listed shapes stand for all', 'a view copied byte by byte still refers to the memory of the original']
RULE = 'type-level facts discharged by the type checker; memory content analysis of byte-wise copies'
MIN = 2000
SHAPES = ((1,), (3,), (2, 5), (4, 1, 3), (2, 3, 4, 5), (1, 2, 1, 2, 3)) + tuple(spikes(3, 6, 9))
ELEMS = ('double', 'float', 'int', 'char', 'long', 'Pod', 'double *')
PRE = INCLUDES + '#include <cstring>\nstruct Pod { double a; int b; };\n#define LIT( ... ) ( [] { constexpr __VA_ARGS__ o{}; (void) o; return true; }() )\n'


def plain(T, size=None, align=None):
    fs = [(T + ' is trivially copyable', 'std::is_trivially_copyable_v< %s >' % T), (T + ' is trivially destructible', 'std::is_trivially_destructible_v< %s >' % T),
          (T + ' has standard layout', 'std::is_standard_layout_v< %s >' % T), (T + ' is trivially copy constructible', 'std::is_trivially_copy_constructible_v< %s >' % T),
          (T + ' has no virtual functions', '!std::is_polymorphic_v< %s >' % T)]
    if size:
        fs.append((T + ' has the size of its data', 'sizeof( %s ) == %s' % (T, size)))
    if align:
        fs.append((T + ' has the alignment of its data', 'alignof( %s ) == %s' % (T, align)))
    return fs


def facts():
    fs = []
    for E in ELEMS:
        for sh in SHAPES:
            n = 1
            for s in sh:
                n *= s
            d = ', '.join(map(str, sh))
            A = 'CArrayNd< %s, %s >' % (E, d)
            fs += plain(A, '%d * sizeof( %s )' % (n, E), 'alignof( %s )' % E)
            fs += [(A + ' is trivially assignable', 'std::is_trivially_copy_assignable_v< %s >' % A), (A + ' is default constructible', 'std::is_default_constructible_v< %s >' % A)]
            for V in ('CArrayViewNd< %s, %s >' % (E, d), 'CArrayViewNd< %s const, %s >' % (E, d)):
                fs += plain(V, 'sizeof( void * )', 'alignof( void * )')
        for S in ('Scalar< %s >' % E,):
            fs += plain(S, 'sizeof( %s )' % E, 'alignof( %s )' % E)
        fs += plain('ScalarView< %s >' % E, 'sizeof( void * )')
    for E in ('int', 'long', 'short', 'unsigned char'):
        for sh in ((3,), (2, 5), (4, 1, 3), (2, 3, 4, 5), (1,), (100,), (2, 1, 3, 1, 2)) + tuple((2,) * k for k in list(range(6, 11)) + around(11, 16, 4)) + tuple(spikes(2, 5, 9)):
            for T in ('MultiIndexRange< %s, %s >' % (E, ', '.join(map(str, sh))), 'MultiIndex< %s, %d >' % (E, len(sh))):
                fs += plain(T, '%d * sizeof( %s )' % (len(sh), E), 'alignof( %s )' % E) + [(T + ' is trivially assignable', 'std::is_trivially_copy_assignable_v< %s >' % T)]
    for R in ('double', 'float'):
        for mix in [[('L', 1)], [('E', 2), ('L', 4)], [('L', 1)] * 3, [('L', 1), ('E', 2), ('G', 3)], [('E', 0)], [('G', 7)], [('L', 3), ('L', 1)], [('E', 5), ('L', 1), ('L', 1)],
                    [('L', 1), ('L', 6), ('L', 1)], [('E', 1), ('G', 1), ('L', 7)], [('L', 2)] * 3, [('L', 3)] * 3, [('E', 1)] * 4, [('E', 1)] * 5] + [[('E', k)] for k in around(8, 16, 3)]:
            d = len(mix)
            n = 1
            for _, o in mix:
                n *= o + 1
            sub = lambda t: re.sub(r'\bR\b', R, t)
            fs += plain(sub('LinearTransform< R, %s >' % shape(mix)), '%d * sizeof( %s )' % (n * d, R), 'alignof( %s )' % R)
            for T in ('BasisProduct< R, %s >' % bases(mix), shape(mix), 'ParentElement< R, NCube< R, %d, -1, 1, 1 >, %s >' % (d, bases(mix))):
                fs += plain(sub(T)) + [(sub(T) + ' is empty', 'std::is_empty_v< %s >' % sub(T))]
        for T, z in (('Scaling< %s >' % R, 3), ('UniformScaling< %s >' % R, 1)):
            fs += plain(T, '%d * sizeof( %s )' % (z, R), 'alignof( %s )' % R) + [(T + ' is trivially assignable', 'std::is_trivially_copy_assignable_v< %s >' % T), (T + ' can be constructed in a constant expression', 'LIT( %s )' % T)]
        for sp, ns in (('E', [1, 2, 3, 5, 8] + around(9, 16, 3)), ('G', (1, 2, 3, 4, 7)), ('L', (2, 3, 4, 5, 9))):
            for n in ns:
                T = '%s< %s, %d >' % (SPACINGS[sp], R, n)
                fs += plain(T) + [(T + ' is empty', 'std::is_empty_v< %s >' % T)]
                B = basis(R, n - 1, sp)
                fs += plain(B) + [(B + ' is empty', 'std::is_empty_v< %s >' % B)]
        for T in (['QuadratureGaussLegendre< %s, %d >' % (R, n) for n in (1, 2, 3, 4)] + ['QuadratureGaussLobatto< %s, %d >' % (R, n) for n in (2, 3, 5)] +
                  ['%s< %s, %d, %s >' % (S, R, n, r) for S in ('NCube', 'NSimplex') for n in range(1, 9) for r in ('-1, 1, 1', '0, 1, 1', '-1, 1, 2')]):
            fs += plain(T) + [(T + ' is empty', 'std::is_empty_v< %s >' % T)]
    return fs


def copies(R, std, bounds):
    """Byte-wise copies answer as their originals, in storage of unknown content."""
    W = []   # (label, body, n inputs, expected index or expression list)
    src = PRE + 'using R = %s;\n' % R
    tests = []

    def t(label, n, body):
        k = len(tests)
        tests.append((label, n))
        return 'extern "C" void w%d( R const * v, R const * z, R * out ) { %s }\n' % (k, body)
    for sh in ((3,), (2, 5), (4, 1, 3), (2, 1, 2, 3)):
        n = 1
        for s in sh:
            n *= s
        d = ', '.join(map(str, sh))
        args = ', '.join('v[%d]' % k for k in range(n))
        src += t('array ' + d, n, 'CArrayNd< R, %s > a{ %s }; CArrayNd< R, %s > b; std::memcpy( static_cast< void * >( &b ), &a, sizeof( a ) ); for( int k = 0; k < %d; ++k ) a.data()[k] = z[0]; for( int k = 0; k < %d; ++k ) out[k] = b.data()[k];' % (d, args, d, n, n))
        src += t('array %s into raw memory' % d, n, 'CArrayNd< R, %s > a{ %s }; R raw[%d]; std::memcpy( raw, &a, sizeof( a ) ); for( int k = 0; k < %d; ++k ) out[k] = raw[k];' % (d, args, n, n))
        src += t('array %s from raw memory' % d, n, 'CArrayNd< R, %s > a; R raw[%d] = { %s }; std::memcpy( static_cast< void * >( &a ), raw, sizeof( a ) ); for( int k = 0; k < %d; ++k ) out[k] = a.data()[k];' % (d, n, args, n))
        src += t('view ' + d, n, 'R raw[%d] = { %s }; CArrayViewNd< R, %s > a( raw ); R other[%d]{}; CArrayViewNd< R, %s > b( other ); std::memcpy( static_cast< void * >( &b ), static_cast< void const * >( &a ), sizeof( a ) ); for( int k = 0; k < %d; ++k ) out[k] = b.data()[k];' % (n, args, d, n, d, n))
    for mix in ([('L', 1)] * 3, [('L', 1), ('E', 2), ('G', 1)]):
        n = 3
        for _, o in mix:
            n *= o + 1
        m = n // 3
        src += t('mapping on %s' % mix, n, 'using LT = LinearTransform< R, %s >; LT a{}; for( int k = 0; k < %d; ++k ) a.getData().data()[k] = v[k]; LT b; std::memcpy( static_cast< void * >( &b ), &a, sizeof( a ) ); for( int k = 0; k < %d; ++k ) a.getData().data()[k] = z[0]; for( int k = 0; k < %d; ++k ) out[k] = std::as_const( b ).getData().data()[k];' % (shape(mix), n, n, n))
        src += t('mapping on %s as bytes of its data' % mix, n, 'using LT = LinearTransform< R, %s >; LT b; R raw[%d]; for( int k = 0; k < %d; ++k ) raw[k] = v[k]; std::memcpy( static_cast< void * >( &b ), raw, sizeof( b ) ); for( int k = 0; k < %d; ++k ) out[k] = b.getData().data()[k];' % (shape(mix), n, n, n))
    src += t('Scaling', 3, 'Scaling< R > a; R const h[3] = { v[0], v[1], v[2] }; a.setData( h ); Scaling< R > b; std::memcpy( &b, &a, sizeof( a ) ); R const g[3] = { z[0], z[0], z[0] }; a.setData( g ); for( int k = 0; k < 3; ++k ) out[k] = b.getData()[k];')
    src += t('UniformScaling', 1, 'UniformScaling< R > a; a.setData( v[0] ); UniformScaling< R > b; std::memcpy( &b, &a, sizeof( a ) ); a.setData( z[0] ); out[0] = b.getData();')
    name = 'byte-wise copies %s c++%s b%d' % (R, std, bounds)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        try:
            mod = compile_ir(scratch, tag, src.replace('#include <array>', '#include <utility>\n#include <array>', 1), std, bounds)
        except CompileError as e:
            if classify_compile_error(e.stderr, e.src) == 'vanished':
                raise Broken('interface gone: %s' % '\n'.join(first_errors(e.stderr)))
            ctx.ob(False, 'byte-wise copies compile', '\n'.join(first_errors(e.stderr)))
            return
        for k, (label, n) in enumerate(tests):
            for _, o in outcomes(mod, ctx, 'w%d' % k, [Buf('v', R, n), Buf('z', R, 1), Buf('out', R, n)]):
                if not returns(ctx, o, label):
                    continue
                dst = o.args[2].obj
                for e in range(n):
                    got = final(o, dst, e, R)
                    ctx.ob(is_rf(got, RF.var('v[%d]' % e)) , '%s< %s >: element %d of a byte-wise copy' % (label, R, e), 'is %r' % (got,), loc_str(o.loc))
    return FnJob(name, fn)


def build(tier):
    jobs = []
    for std in ('17', '20', '23'):
        for comp in (None, GXX):
            for b in (False, True):
                if tier == 'thorough' or (std, comp, b) in (('17', None, False), ('20', GXX, True), ('23', None, True)):
                    jobs.append(static_facts_job('plain data, c++%s, %s, bounds %s' % (std, 'g++' if comp else 'clang', b), PRE, facts(), std=std, bounds=b, compiler=comp))
    for R in ('double', 'float'):
        for std, b in (('17', False), ('20', True), ('23', False)):
            if tier == 'thorough' or (R == 'double') == (std != '20'):
                jobs.append(copies(R, std, b))
    return jobs
