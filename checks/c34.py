"""C34: the test-portability layer runs a function exactly once on the given data."""
import os
import re
from sa import ir
from sa.core import Job, FnJob, Broken, CLANG, OPT, run, first_errors, VANISHED
from sa.query import *
from checks.c28 import flags, STUB

EXPLANATION = ('Host: for callables of several kinds and data of several types, the events of a launch (one call, with the data pointer given, no other '
               'effect) and of a deallocation are derived from the IR for a symbolic size. Device backends: the host side of the launch is compiled for '
               'CUDA and HIP against declarations of their runtimes, and the order and arguments of the runtime calls (allocate, copy in, launch, wait, copy out, '
               'free, report) are derived for a symbolic size and every outcome of the wait. The comparison helper is derived as a decision on symbolic reals.')
ASSUMPTIONS = ['runtime calls other than launch and wait succeed', 'the kernel launched is judged on the host configuration, where its body is the same source',
               'float and double, trivially destructible data types']
RULE = 'event-order (typestate) analysis over the IR of host and device configurations'
MIN = 150

PRE = '''#include "shiva/common/pmpl.hpp"
using namespace shiva;
extern "C" void cb( ... ); extern "C" void copied( void const * );
struct Rec { double a; int b[3]; };
'''
KINDS = {  # functor bodies; D is the data type
    'const function object': 'struct F { long s; F(); F( F const & o ) : s( o.s ) { copied( &o ); } void operator()( D * p ) const { cb( s, p ); } };',
    'mutable function object': 'struct F { long s; F(); F( F const & o ) : s( o.s ) { copied( &o ); } void operator()( D * p ) { cb( s, p ); s = 0; } };',
    'void pointer parameter': 'struct F { long s; F(); F( F const & o ) : s( o.s ) { copied( &o ); } void operator()( void * p ) const { cb( s, p ); } };',
    'returning function object': 'struct F { long s; F(); F( F const & o ) : s( o.s ) { copied( &o ); } int operator()( D * p ) const { cb( s, p ); return 3; } };',
}


def host_unit(dt, std):
    src = PRE + 'using D = %s;\n' % dt
    fns = []
    for k, (what, code) in enumerate(KINDS.items()):
        for form, ex in (('lvalue', 'f'), ('const lvalue', 'static_cast< F const & >( f )'), ('rvalue', 'static_cast< F && >( f )')):
            nm = 'w%d' % len(fns)
            src += 'namespace n%s { %s extern "C" void %s( int n, D * p, F & f, bool a ) { pmpl::genericKernelWrapper( n, p, %s, a ); }\n' % (nm, code, nm, ex)
            src += 'extern "C" void %sd( int n, D * p, F & f ) { pmpl::genericKernelWrapper( n, p, %s ); } }\n' % (nm, ex)
            fns.append((nm, '%s (%s)' % (what, form)))
    src += 'struct G { long s; G(); G( G const & o ) : s( o.s ) { copied( &o ); } void operator()() const { cb( s ); } }; struct H { long s; H(); H( H const & o ) : s( o.s ) { copied( &o ); } void operator()() { cb( s ); } };\n'
    nd = []
    for T in 'GH':
        for ex in ('f', 'static_cast< %s && >( f )' % T):
            nm = 'v%d' % len(nd)
            src += 'extern "C" void %s( %s & f, bool a ) { pmpl::genericKernelWrapper( %s, a ); } extern "C" void %sd( %s & f ) { pmpl::genericKernelWrapper( %s ); }\n' % (nm, T, ex, nm, T, ex)
            nd.append(nm)
    src += 'extern "C" void del( D * p ) { pmpl::deallocateData( p ); }\n'
    src += 'extern "C" void lam( int n, D * p, long & out, D & one ) { pmpl::genericKernelWrapper( n, p, [&]( D * q ) { out = out + ( q == p ? 10 : 1 ); one = *q; } ); }\n'

    def trace(ctx, o, what, pre, data):
        if not returns(ctx, o, what):
            return
        cs = [e for e in o.calls() if e[1] != '@copied']
        ctx.ob(len(cs) == 1 and cs[0][1] == '@cb', what + ': exactly one call and no other effect', repr([e[1] for e in cs]), loc_str(o.loc))
        if len(cs) == 1 and cs[0][1] == '@cb':
            a = cs[0][2]
            ctx.ob(isinstance(a[0], ISym) and a[0].rf.close(RF.var('f[0]'), 0), what + ': the callable given is called', repr(a[0]), loc_str(cs[0][3]))
            if data is not None:
                ctx.ob(isinstance(a[1], Ptr) and a[1].obj is data and a[1].off == 0, what + ': with the data pointer given', repr(a[1]), loc_str(cs[0][3]))
        touched = [e for e in o.events if e[0] in ('load', 'store') and data is not None and e[1] is data]
        ctx.ob(not touched, what + ': the data is not touched', repr(touched[:2]))

    def verify(mod, ctx):
        for nm, what in fns:
            for suffix, more in (('', [Int(0, 1)]), ('', [Int(1, 1)]), ('d', [])):
                for size in (None, 0):
                    p = Buf('p', 'char', 64)
                    for sp, o in outcomes(mod, ctx, nm + suffix, [SymInt('n'), p, Buf('f', 'long', 1)] + more):
                        trace(ctx, o, '%s* data, %s%s' % (dt, what, ', default abort flag' if suffix else ''), None, o.args[1].obj)
        for nm in nd:
            for suffix, more in (('', [Int(0, 1)]), ('', [Int(1, 1)]), ('d', [])):
                for sp, o in outcomes(mod, ctx, nm + suffix, [Buf('f', 'long', 1)] + more):
                    trace(ctx, o, 'launch without data %s%s' % (nm, suffix), None, None)
        for sp, o in outcomes(mod, ctx, 'del', [Buf('p', 'char', 64)]):
            what = 'deallocateData( %s * )' % dt
            if returns(ctx, o, what):
                cs = o.calls()
                ok = len(cs) == 1 and cs[0][1] in ('@_ZdaPv', '@_ZdaPvm', '@_ZdaPvSt11align_val_t') and isinstance(cs[0][2][0], Ptr) and cs[0][2][0].obj is o.args[0].obj and cs[0][2][0].off == 0
                ctx.ob(ok, what + ': releases the array given, once, as an array', repr([(e[1], e[2]) for e in cs]), loc_str(o.loc))
        sz = {'double': 1, 'int': 1}.get(dt)
        if sz:
            for sp, o in outcomes(mod, ctx, 'lam', [SymInt('n'), Buf('p', dt, 4), Buf('out', 'long', 1), Buf('one', dt, 1)]):
                if returns(ctx, o, 'lambda with captures'):
                    v, w = final(o, o.args[2].obj, 0, 'long'), final(o, o.args[3].obj, 0, dt)
                    v = v.rf if isinstance(v, ISym) else v
                    w = w.rf if isinstance(w, ISym) else w
                    ctx.ob(isinstance(v, RF) and v.close(RF.var('out[0]') + RF.const(10), 0) and isinstance(w, RF) and w.close(RF.var('p[0]'), 0),
                           'a lambda that captures by reference has run once, on the data, when the launch returns', '%r %r' % (v, w))
    return Job('host %s c++%s' % (dt, std), src, verify, std=std)


def check_unit(real):
    src = PRE + 'extern "C" int chk( %s a, %s b, %s t ) { return pmpl::check( a, b, t ); }\n' % (real, real, real)
    pts = [Fraction(n, 8) for n in (-40, -9, -8, -7, -1, 0, 1, 3, 7, 8, 9, 40)]

    def verify(mod, ctx):
        outs = [o for _, o in outcomes(mod, ctx, 'chk', [Real('a'), Real('b'), Real('t')])]
        for o in outs:
            returns(ctx, o, 'pmpl::check')
        for a in pts:
            for b in pts:
                for t in (Fraction(0), Fraction(1, 16), Fraction(1, 8), Fraction(1), Fraction(5, 4), Fraction(6)):
                    env = {'a': a, 'b': b, 't': t}
                    got = set()
                    for o in outs:
                        if all(sg(evaluate(p, env)) in s for p, s in o.guards):
                            got.add(value_at(o.value, env))
                    ctx.ob(got == {int(abs(a - b) < t)}, 'pmpl::check< %s >( %s, %s, %s )' % (real, a, b, t), 'gives %s' % got)
        src0 = Real('a'), Real('b'), Real('t')
        for k in range(1, 8):
            # a value that is not a number is not close to anything
            sp = [Special('nan') if k >> q & 1 else v for q, v in enumerate(src0)]
            for _, o in outcomes(mod, ctx, 'chk', sp):
                ctx.ob(o.kind == 'ret' and o.value == 0, 'pmpl::check< %s > with nan for %s' % (real, [n for q, n in enumerate('abt') if k >> q & 1]), 'gives %r' % (o.value,))
    return Job('comparison helper ' + real, src, verify)


def sg(v):
    return (v > 0) - (v < 0)


def evaluate(p, env):
    return Fraction(p.eval(env))


def value_at(v, env):
    from sa.absint import Cond
    if isinstance(v, Cond):
        num, den = v.rf.num, v.rf.den
        x = evaluate(num, env)
        if den is not None:
            x *= sg(evaluate(den, env))
        return int(sg(x) in v.signs)
    return v


# ---------------------------------------------------------------- device backends

DEV = '''#include "shiva/common/pmpl.hpp"
using namespace shiva;
struct Rec { double a; int b[3]; };
'''


def device_unit(kind, dt, size, std):
    name = '%s %s c++%s' % (kind, dt, std)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        src = DEV + 'using D = %s;\n' % dt + '''struct F { long s; __device__ void operator()( D * p ) const { p[0] = D(); } }; struct G { long s; __device__ void operator()() const {} };
extern "C" void w( int n, D * p, F & f, bool a ) { pmpl::genericKernelWrapper( n, p, f, a ); }
extern "C" void wd( int n, D * p, F & f ) { pmpl::genericKernelWrapper( n, p, f ); }
extern "C" void wr( int n, D * p, F & f ) { pmpl::genericKernelWrapper( n, p, static_cast< F && >( f ) ); }
extern "C" void v( G & f, bool a ) { pmpl::genericKernelWrapper( f, a ); }
extern "C" void vd( G & f ) { pmpl::genericKernelWrapper( f ); }
extern "C" void del( D * p ) { pmpl::deallocateData( p ); }
'''
        path = scratch.path(tag + '.hip')
        open(path, 'w').write(src)
        fl = flags(scratch, kind, 'host', std, False)
        i = fl.index('-include')
        fl[i + 2:i + 2] = (['-DRT_CUDA'] if kind == 'cuda' else []) + ['-include', os.path.join(STUB, 'runtime.h')]
        bc = scratch.path(tag + '.bc')
        rc, _, err = run([CLANG] + fl + ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-c', '-emit-llvm', path, '-o', bc])
        if rc:
            if any(VANISHED.search(l) and l.startswith(path) for l in err.split('\n')):
                raise Broken('interface gone: ' + '\n'.join(first_errors(err)))
            ctx.ob(False, 'the portability layer compiles for the %s backend' % kind, '\n'.join(first_errors(err)))
            return
        ctx.ob(True, 'the portability layer compiles for the %s backend' % kind)
        rc, text, err = run([OPT, '-S', '-passes=sroa', bc, '-o', '-'])
        if rc:
            raise Broken('opt failed')
        mod = ir.Module(text)
        ev = lambda m, n, v: m.o.events.append(('call', n, v, m.loc))

        def ok(m, n, v, x):
            ev(m, n, v)
            return 0

        def sym(m, n, v, x):
            ev(m, n, v)
            return ISym(RF.var('%s#%d' % (n[1:], len(m.o.events))))

        def alloc(m, n, v, x):
            ev(m, n, v)
            p = Ptr(Obj('device memory', None, 'heap', 'sym'), 0)
            m.store(v[0], ('ptr',), p)
            m.o.device = getattr(m.o, 'device', []) + [p.obj]
            return 0
        ext = {'@rt_malloc': alloc, '@rt_mallocManaged': alloc, '@rt_memcpy': ok, '@rt_free': ok, '@rt_free_hd': ok, '@__hipPushCallConfiguration': ok,
               '@rt_sync': sym, '@rt_lastError': sym}
        for g in mod.functions:
            if '__device_stub__' in g:
                ext[g] = (lambda m, n, v, x: ev(m, '@launch', v))

        def bytes_ok(v):
            return isinstance(v, (ISym,)) and v.rf.close(RF.var('n') * RF.const(size), 0)

        def judge(o, what, data, abort):
            cs = o.calls()
            names = [e[1] for e in cs]
            wait = [i for i, n in enumerate(names) if n in ('@rt_sync', '@rt_lastError')]
            failed = [g for g in o.guards if any(n.startswith(('rt_sync', 'rt_lastError')) for n in g[0].names()) and 0 not in g[1]]
            la = [i for i, n in enumerate(names) if n == '@launch']
            where = loc_str(o.loc) if o.loc else ''
            ctx.ob(len(la) == 1, what + ': exactly one kernel launch', repr(names), where)
            if len(la) != 1:
                return
            la = la[0]
            cfg = [e for e in cs if e[1] == '@__hipPushCallConfiguration']
            ctx.ob(len(cfg) == 1 and cfg[0][2][:4] == [1 | 1 << 32, 1, 1 | 1 << 32, 1], what + ': one thread', repr([e[2] for e in cfg]), where)
            sy = [i for i, n in enumerate(names) if n == '@rt_sync']
            ctx.ob(bool(sy) and sy[0] > la, what + ': waits for the kernel', repr(names), where)
            if data is not None:
                dev = getattr(o, 'device', [])
                mem = [(i, e[2]) for i, e in enumerate(cs) if e[1] == '@rt_memcpy']
                is_dev = lambda p: isinstance(p, Ptr) and len(dev) == 1 and p.obj is dev[0] and p.off == 0
                is_host = lambda p: isinstance(p, Ptr) and p.obj is data and p.off == 0
                ctx.ob(len(dev) == 1 and bytes_ok([e for e in cs if 'alloc' in e[1]][0][2][1]), what + ': device memory for N elements', repr([e[2] for e in cs if 'alloc' in e[1]]), where)
                up = [(i, v) for i, v in mem if i < la]
                ctx.ob(len(up) == 1 and is_dev(up[0][1][0]) and is_host(up[0][1][1]) and bytes_ok(up[0][1][2]) and up[0][1][3] in (1, 4),
                       what + ': the data is copied to the device before the launch', repr(up), where)
                lv = cs[la][2]
                ctx.ob(is_dev(lv[-1]), what + ': the kernel gets the device data', repr(lv), where)
                down = [(i, v) for i, v in mem if i > la]
                free = [(i, e[2]) for i, e in enumerate(cs) if e[1] in ('@rt_free', '@rt_free_hd')]
                if not failed or o.kind == 'ret':
                    ctx.ob(len(down) == 1 and is_host(down[0][1][0]) and is_dev(down[0][1][1]) and bytes_ok(down[0][1][2]) and down[0][1][3] in (2, 4),
                           what + ': the data is copied back after the launch', repr(down), where)
                    ctx.ob(len(free) == 1 and is_dev(free[0][1][0]) and all(free[0][0] > i for i, _ in mem) and free[0][0] > la, what + ': the device data is freed once, last', repr(free), where)
            reported = any(n in ('@printf', '@fprintf', '@puts', '@fputs', '@putchar', '@fwrite', '@perror') for n in names[la:])
            if failed:
                ctx.ob(reported, what + ': a failed kernel is reported', repr(names), where)
                if abort:
                    ctx.ob(o.kind == 'abort', what + ': a failed kernel ends the program', o.kind, where)
                else:
                    ctx.ob(o.kind == 'ret', what + ': a failed kernel is only reported when told not to abort', o.kind, where)
            else:
                ctx.ob(o.kind == 'ret' and not reported and bool([g for g in o.guards if any(n.startswith(('rt_sync', 'rt_lastError')) for n in g[0].names())]),
                       what + ': a successful kernel returns silently, after its status was looked at', '%s %r' % (o.kind, names), where)
            return bool(failed)
        data3 = [SymInt('n'), Buf('p', 'char', None), Buf('f', 'long', 1)]
        for f, specs, data, ab in (('w', data3 + [Int(1, 1)], 1, True), ('w', data3 + [Int(0, 1)], 1, False), ('wd', data3, 1, True), ('wr', data3, 1, True),
                                   ('v', [Buf('f', 'long', 1), Int(1, 1)], None, True), ('v', [Buf('f', 'long', 1), Int(0, 1)], None, False), ('vd', [Buf('f', 'long', 1)], None, True)):
            seen = set()
            for sp, o in outcomes(mod, ctx, f, specs, externals=ext):
                what = '%s launch %s of %s data' % (kind, f, dt)
                seen.add(judge(o, what, o.args[data].obj if data is not None else None, ab))
            ctx.ob({True, False} <= seen, '%s launch %s: the status of the kernel decides' % (kind, f), repr(seen))
        for sp, o in outcomes(mod, ctx, 'del', [Buf('p', 'char', 64)], externals=ext):
            cs = o.calls()
            ctx.ob(o.kind == 'ret' and len(cs) == 1 and cs[0][1] in ('@rt_free', '@rt_free_hd') and cs[0][2][0].obj is o.args[0].obj and cs[0][2][0].off == 0,
                   '%s deallocateData releases the device array given, once' % kind, repr([(e[1], e[2]) for e in cs]))
    return FnJob(name, fn)


def build(tier):
    jobs = []
    for i, dt in enumerate(('double', 'int', 'Rec', 'float', 'long')):
        jobs.append(host_unit(dt, ('17', '20', '23')[i % 3]))
        for kind in ('cuda', 'hip'):
            jobs.append(device_unit(kind, dt, {'double': 8, 'int': 4, 'Rec': 24, 'float': 4, 'long': 8}[dt], ('17', '20', '23')[i % 3]))
    return jobs + [check_unit('double'), check_unit('float')]
