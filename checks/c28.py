"""C28: every library function is callable from device code (and from host code)."""
import os
import re
from sa.core import FnJob, Broken, VANISHED, CLANG, REPO, config_header, run, first_errors
from sa import queries as QQ

EXPLANATION = ('The headers, with the CUDA and the HIP configuration, and functions that use every query of the catalogue and the remaining entry points '
               'are type-checked in CUDA/HIP mode, once as device code and once as host code, in the strict execution-space discipline (constexpr does '
               'not imply device): the compiler follows every call reachable from the witness and rejects references to functions or variables of the '
               'wrong space, exceptions and variable-length stack use. The device IR is then searched for calls to functions that exist only on the host.')
ASSUMPTIONS = ['the device toolkits are not installed: their headers are replaced by declarations (attributes, printf, trap) and the C++ standard library '
               'is taken to be callable from device code, as the toolkits make it', 'clang is the device compiler', 'run-time dispatch to devices is not judged']
RULE = 'execution-space (host/device) type checking of compile witnesses, effect check of the device IR'
MIN = 5000
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'device')

EXTRAS = r'''
SPACE R e0( R const * v ) { CArrayNd< R, 2, 2 > const a{ v[0], v[1], v[2], v[3] }; CArrayNd< R, 2, 2 > b( a ); b = a; b.data()[1] = 2; return a.data()[1] + a.template operator()< 1, 1 >() + a[1][0] + a( 0, 1 ) + b[1][1] + b.template operator()< 0, 1 >() + decltype(a)::size() + decltype(a)::rank() + decltype(a)::template extent< 1 >(); }
SPACE R e1() { R const c[4] = { 1, 2, 3, 4 }; CArrayViewNd< R const, 2, 2 > a( c ); R d[4] = { 1, 2, 3, 4 }; CArrayViewNd< R, 2, 2 > b( d ); b( 1, 1 ) = 2; Scalar< R > s{ R( 3 ) }; ScalarView< R const > t( s.data() ); return a( 1, 0 ) + b[1][1] + s( 0 ) + t( 0 ); }
SPACE long e2( long i ) { return linearIndex( LinearIndex< long >( i ) ); }
SPACE R e3() { Scaling< R > s{}; s.setData()[1] = R( 2 ); UniformScaling< R > u{}; u.setData() = R( 2 ); return s.getData()[1] + u.getData() + Scaling< R >::jacobianIsConstInCell() + UniformScaling< R >::jacobianIsConstInCell(); }
SPACE void e4( int i ) { SHIVA_ASSERT_MSG( i > 0, "i = %d", i ); SHIVA_UNUSED_VAR( i ); }
SPACE void e5( int i ) { shivaAssertionFailed( "f", i, false, "m %d", i ); }
SPACE R e6( R x ) { auto t = shiva::make_tuple( x, 1 ); using std::get; return get< 0 >( t ); }
struct PackFn { SPACE constexpr int operator()( int a ) const { return a; } };
SPACE int e7() { int r = 0; forSequence< 4 >( [&] ( auto i ) { r += i; } ); r += executeSequence< 3 >( [] ( auto const ... a ) { return ( a + ... ); } ); r += forSequence< 3 >( [&] ( auto const ... a ) { return ( a() + ... ); } ); forNestedSequence( std::integer_sequence< int, 2, 3 >{}, [&] ( auto i, auto j ) { r += i * j; } ); return r; }
SPACE int e8() { MultiIndex< int, 3 > m{}; MultiIndexRangeI< 2, 3 > n{}; return m.data[1] + n.range( 1 ) + decltype(n)::ranges[0]; }
'''

# functions that the device runtimes provide
DEVICE = re.compile(r'^(llvm\..*|printf|vprintf|__trap|__assert_fail|memcpy|memset|memmove|memcmp|malloc|free|_Znwm|_Znam|_ZdlPv|_ZdaPv|_ZdlPvm|_ZdaPvm|abs|l?labs|'
                    r'(sqrt|cbrt|fabs|floor|ceil|round|trunc|rint|nearbyint|exp|exp2|expm1|log|log2|log10|log1p|a?(sin|cos|tan)h?|atan2|tgamma|lgamma|erfc?|pow|fmax|fmin|'
                    r'fmod|hypot|copysign|fma|remainder|ldexp|frexp|modf|scalbn|l?lround|l?lrint)f?|__ockl.*|__ocml.*|__nv.*)$')


def flags(scratch, kind, side, std, bounds, asis=False):
    cfg = config_header(scratch, 'dev-%s-%d' % (kind, bounds), bounds=bounds, cuda=kind == 'cuda', hip=kind == 'hip')
    f = ['-x', 'hip', '--offload-arch=gfx906', '-nogpuinc', '-nogpulib', '--cuda-%s-only' % side, '-std=c++' + std, '-w', '-ferror-limit=0',
         '-Xclang', '-fcuda-allow-variadic-functions',
         '-include', os.path.join(STUB, 'device_stub.h'), '-I' + STUB, '-I' + cfg, '-I' + os.path.join(REPO, 'include')]
    f += ['-DSTD_AS_WRITTEN'] if asis else ['-Xclang', '-fno-cuda-host-device-constexpr']
    if kind == 'cuda':
        f.append('-U__HIP_DEVICE_COMPILE__')
        if side == 'device':
            f.append('-D__CUDA_ARCH__=700')
    return f


def witness(qs, real, space, extras):
    s = QQ.INCLUDES + '#include "shiva/common/ShivaErrorHandling.hpp"\n#include "shiva/common/types.hpp"\n#define SPACE __%s__\nusing R = %s;\n' % (space, real)
    for k, q in enumerate(qs):
        s += 'SPACE %s q%d( %s ) { %s }\n' % (q.ret, k, QQ.params(q), q.body)
    return s + (EXTRAS if extras else '')


def make(kind, side, std, bounds, real, qs, part, asis=False):
    name = '%s %s pass c++%s bounds %s %s part %d' % (kind, side, std, 'on' if bounds else 'off', real, part) + (', standard library as written' if asis else '')
    tag = re.sub(r'\W+', '_', name)
    full = kind == 'hip' and side == 'device' and not asis

    def fn(scratch, ctx):
        src = scratch.path(tag + '.hip')
        text = witness(qs, real, side, part == 0)
        open(src, 'w').write(text)
        out = scratch.path(tag + '.ll')
        cmd = [CLANG] + flags(scratch, kind, side, std, bounds, asis)
        cmd += ['-S', '-emit-llvm', '-gline-tables-only', '-Xclang', '-disable-llvm-passes', '-o', out] if full else ['-fsyntax-only']
        rc, _, err = run(cmd + [src])
        n = len(qs) + (EXTRAS.count('SPACE') if part == 0 else 0)
        ctx.count('witness functions', n)
        if rc:
            lines = text.split('\n')
            inside = []
            for l in err.split('\n'):
                m = re.match(r'([^:\s]+):(\d+):\d+: (?:fatal )?error: (.*)', l)
                if not m:
                    continue
                f, msg = m.group(1), m.group(3)
                if os.path.basename(f) == os.path.basename(src):
                    if VANISHED.search(l):
                        raise Broken('interface used by the witness is gone: %s' % l)
                    inside.append('%s  (witness: %s)' % (msg, lines[int(m.group(2)) - 1][:160]))
                elif f.startswith(REPO):
                    inside.insert(0, '%s:%s: %s' % (f, m.group(2), msg))
                elif not inside:
                    inside.append('%s:%s: %s' % (f, m.group(2), msg))
            if not inside:
                raise Broken('device compiler failed: ' + err[-500:])
            seen = []
            for i in inside:
                if i not in seen:
                    seen.append(i)
            for i in seen[:8]:
                ctx.ob(False, 'the interface is callable from %s code (%s backend, c++%s)' % (side, kind, std), i, i.split(': ')[0])
            return
        for k in range(n):
            ctx.ob(True, '%s: callable from %s code (%s, c++%s)' % (qs[k].label if k < len(qs) else 'remaining entry points', side, kind, std))
        if not full:
            return
        ll = open(out).read()
        os.unlink(out)
        files = dict(re.findall(r'^(!\d+) = !DIFile\(filename: "([^"]+)"', ll, re.M))
        for nm, f in re.findall(r'DISubprogram\(name: "([^"]*)".*?file: (!\d+)', ll):
            if 'include/shiva' in files.get(f, ''):
                ctx.functions.add(files[f].split('include/')[1] + ':' + nm)
        for d in re.findall(r'^declare [^@]*@"?([\w.$]+)"?\(', ll, re.M):
            ok = bool(DEVICE.match(d))
            where = ''
            if not ok:
                m = re.search(r'^define [^@]*@"?([\w.$]+)"?\((?:(?!^})[\s\S])*?call [^\n]*@' + re.escape(d) + r'\(', ll, re.M)
                where = 'called in ' + m.group(1) if m else ''
            ctx.ob(ok, 'everything called on the device exists on the device: %s' % d, 'no device version of %s' % d, where)
    return FnJob(name, fn)


def build(tier):
    qs = QQ.catalogue(tier)
    h = (len(qs) + 1) // 2
    jobs = []
    for kind in ('cuda', 'hip'):
        for side in ('device', 'host'):
            for i, std in enumerate(('17', '20', '23')):
                for real in ('double', 'float') if tier == 'thorough' else ('double', 'float')[i % 2:i % 2 + 1]:
                    for b in (False, True) if tier == 'thorough' or i == 0 else (True,):
                        for p in range(2):
                            jobs.append(make(kind, side, std, b, real, qs[p * h:(p + 1) * h], p))
            if side == 'device':
                for std in ('17', '20') if kind == 'cuda' or tier == 'thorough' else ('17',):
                    for p in range(2):
                        jobs.append(make(kind, side, std, False, 'double', qs[p * h:(p + 1) * h], p, True))
    return jobs
