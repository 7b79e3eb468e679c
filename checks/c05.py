"""C05: views and slices alias their buffer; owning arrays are independent copies."""
import itertools
from sa.core import around, spikes, every, Job, static_facts_job
from sa.query import *
from sa.wit import *
from .c01 import PRE, dims, prod, rowmajor

EXPLANATION = ('For every chain of views, slices and copies a witness stores a symbolic value through it; the analysis derives '
               'the memory effect for every index tuple: exactly one store, of that value, at the row-major position of the '
               'wrapped buffer, and no read of it. Witnesses that only make, copy or keep views and slices must have no effect '
               'on the buffer. Copies of owning arrays hold the symbolic elements of the original and share no storage with it.')
ASSUMPTIONS = ['listed shapes (rank 1..4) and element types stand for all']
RULE = 'effect analysis: set of (object, offset, value) stores and of loads per chain equals the specified one'
FULL = True
FULL = True
MIN = 1500
LLT = {'double': 'double', 'float': 'float', 'int': 'int', 'long': 'long', 'char': 'char'}


def chains(rank, d, T):
    """(name, owner: buf|array|ptr, statements ending in an lvalue expression)"""
    ix = ['i%d' % k for k in range(rank)]
    al = ', '.join(ix)
    V = 'CArrayViewNd<%s,%s>' % (T, d)
    out = [('view', 'buf', '%s a( buf );' % V, 'a(%s)' % al),
           ('view from pointer', 'ptr', '%s a( ptr );' % V, 'a(%s)' % al),
           ('view brackets', 'buf', '%s a( buf );' % V, 'a' + ''.join('[%s]' % i for i in ix)),
           ('view data', 'buf', '%s a( buf ); (void)i0;' % V, None),
           ('copy of view', 'buf', '%s v( buf ); %s a( v );' % (V, V), 'a(%s)' % al),
           ('copy of const view', 'buf', '%s const v( buf ); auto a = v;' % V, 'a(%s)' % al),
           ('copy of copy of view', 'buf', '%s v( buf ); auto w = v; auto a = w;' % V, 'a(%s)' % al),
           ('moved view', 'buf', '%s v( buf ); %s a( std::move( v ) );' % (V, V), 'a(%s)' % al),
           ('view of array data', 'array', '%s a( o.data() );' % V, 'a(%s)' % al),
           ('view of view data', 'buf', '%s v( buf ); %s a( v.data() );' % (V, V), 'a(%s)' % al),
           ('array', 'array', 'auto & a = o;', 'a(%s)' % al),
           ('array brackets', 'array', 'auto & a = o;', 'a' + ''.join('[%s]' % i for i in ix)),
           ('kept reference', 'array', 'auto & r = o(%s);' % al, 'r'),
           ('kept bracket reference', 'array', 'decltype(auto) r = o%s;' % ''.join('[%s]' % i for i in ix), 'r')]
    for base, own, mk in (('array', 'array', 'auto & b = o;'), ('view', 'buf', '%s b( buf );' % V), ('ptr view', 'ptr', '%s b( ptr );' % V)):
        for k in range(1, rank):
            br = ''.join('[%s]' % i for i in ix[:k])
            rest = ', '.join(ix[k:])
            rbr = ''.join('[%s]' % i for i in ix[k:])
            out.append(('slice of %s, depth %d' % (base, k), own, mk + ' auto s = b%s;' % br, 's(%s)' % rest))
            out.append(('slice of %s, depth %d, brackets' % (base, k), own, mk + ' auto s = b%s;' % br, 's' + rbr))
            out.append(('slice of %s bound to reference, depth %d' % (base, k), own, mk + ' auto && s = b%s;' % br, 's(%s)' % rest))
            out.append(('copy of slice of %s, depth %d' % (base, k), own, mk + ' auto s0 = b%s; auto s = s0;' % br, 's(%s)' % rest))
            out.append(('temporary slice of %s, depth %d' % (base, k), own, mk, 'b%s(%s)' % (br, rest)))
            stepwise = ' '.join('auto s%d = %s[%s];' % (q, 's%d' % (q - 1) if q else 'b', ix[q]) for q in range(k))
            out.append(('slices of slices of %s, depth %d' % (base, k), own, mk + ' ' + stepwise, 's%d(%s)' % (k - 1, rest)))
            out.append(('view of slice data of %s, depth %d' % (base, k), own,
                        mk + ' auto s0 = b%s; CArrayViewNd<%s,%s> s( s0.data() );' % (br, T, ','.join(d.split(',')[k:])), 's(%s)' % rest))
    return out


def make(T, sh, bounds):
    rank, n, d, es = len(sh), prod(sh), dims(sh), SIZES[T]
    A, V = 'CArrayNd<%s,%s>' % (T, d), 'CArrayViewNd<%s,%s>' % (T, d)
    par = {'buf': '%s (&buf)[%d]' % (T, n), 'ptr': '%s * ptr' % T, 'array': '%s & o' % A}
    ip = ', '.join('int i%d' % k for k in range(rank))
    al = ', '.join('i%d' % k for k in range(rank))
    cs = chains(rank, d, T)
    src = '#include <new>\n' + PRE
    for q, (nm, own, mk, ex) in enumerate(cs):
        if ex is None:
            src += 'extern "C" void const * d%d( %s, %s ) { %s return a.data(); }\n' % (q, par[own], ip, mk)
            continue
        src += 'extern "C" void w%d( %s, %s, %s x ) { %s %s = x; }\n' % (q, par[own], ip, T, mk, ex)
        src += 'extern "C" void m%d( %s, %s ) { %s }\n' % (q, par[own], ip, mk + ' (void)i0;')
        # seen through the other: write through the chain, read through the buffer
        alt = {'buf': 'buf[off]', 'ptr': 'ptr[off]', 'array': 'o.data()[off]'}[own]
        src += 'extern "C" %s r%d( %s, %s, %s x, int off ) { %s %s = x; return %s; }\n' % (T, q, par[own], ip, T, mk, ex, alt)
        src += 'extern "C" %s q%d( %s, %s, %s x, int off ) { %s %s = x; return %s; }\n' % (T, q, par[own], ip, T, mk, alt, ex)
    src += 'extern "C" unsigned long vsize() { return sizeof( %s ); }\n' % V
    # owning copies
    cp = [('copy construction', 'new( &out ) %s( o );' % A), ('copy construction from const', 'new( &out ) %s( static_cast< %s const & >( o ) );' % (A, A)),
          ('copy initialisation', '%s b = o; new( &out ) %s( b );' % (A, A)), ('auto copy', 'auto b = o; out = b;'),
          ('assignment', 'out = o;'), ('move construction', 'new( &out ) %s( std::move( o ) );' % A), ('move assignment', 'out = std::move( o );'),
          ('pass by value', '[&]( %s b ) { out = b; }( o );' % A), ('self-assignment then copy', 'auto & p = o; o = p; out = o;')]
    if n * es <= 16:     # small aggregates travel in registers of another shape: an artefact of the calling convention
        cp = [c for c in cp if c[0] != 'pass by value']
    for q, (nm, st) in enumerate(cp):
        src += 'extern "C" void cp%d( %s & o, %s & out ) { %s }\n' % (q, A, A, st)
    src += 'extern "C" %s ind( %s & o, %s, %s x ) { auto b = o; b(%s) = x; return o(%s); }\n' % (T, A, ip, T, al, al)
    src += 'extern "C" %s ind2( %s & o, %s, %s x ) { auto b = o; o(%s) = x; return b(%s); }\n' % (T, A, ip, T, al, al)
    src += 'extern "C" %s ind3( %s & o, %s, %s x ) { auto b = o; auto c = b; c(%s) = x; return b(%s); }\n' % (T, A, ip, T, al, al)
    if rank > 1:
        rest = ', '.join('i%d' % k for k in range(1, rank))
        src += 'extern "C" %s ind4( %s & o, %s, %s x ) { auto b = o; auto s = b[i0]; s(%s) = x; return o(%s); }\n' % (T, A, ip, T, rest, al)
    label = '%s[%s]%s' % (T, d, ' bounds checked' if bounds else '')
    real = T in ('double', 'float')
    tuples = list(itertools.product(*map(range, sh)))

    def arg():
        return Real('x') if real else SymInt('x')

    def sym(v):
        return v if isinstance(v, RF) else v.rf if isinstance(v, ISym) else RF.const(v) if isinstance(v, int) else None

    def isx(v, want):
        v = sym(v)
        return v is not None and v.close(want, 0)

    def buf(nm='buf', init='sym'):
        return Buf(nm, T, n, init)

    def verify(mod, ctx):
        X = RF.var('x')
        for q, (nm, own, mk, ex) in enumerate(cs):
            for ix in tuples:
                what = '%s: %s at %s' % (label, nm, list(ix))
                ints = [Int(i) for i in ix]
                want = rowmajor(sh, ix) * es
                if ex is None:
                    for sp, o in outcomes(mod, ctx, 'd%d' % q, [buf()] + ints):
                        ctx.ob(o.kind == 'ret' and isinstance(o.value, Ptr) and o.value.obj is o.args[0].obj and o.value.off == 0 and not o.events,
                               what + ' points to the buffer', repr(o.value), loc_str(o.loc))
                    break
                for sp, o in outcomes(mod, ctx, 'w%d' % q, [buf()] + ints + [arg()], track_real=(T != 'float')):
                    if not returns(ctx, o, what):
                        continue
                    st = o.stores()
                    ok = (len(o.events) == 1 and len(st) == 1 and st[0][1] is o.args[0].obj and st[0][2] == want and st[0][3] == es
                          and isx(st[0][4], X))
                    ctx.ob(ok, 'write through ' + what + ' stores exactly that element', 'effects %r, expected a store at buf+%d' % (
                        [e[:5] for e in o.events], want), loc_str(o.events[0][-1] if o.events else o.loc))
                for fn in ('r%d' % q, 'q%d' % q):
                    for sp, o in outcomes(mod, ctx, fn, [buf()] + ints + [arg(), Int(rowmajor(sh, ix))]):
                        if returns(ctx, o, what):
                            ctx.ob(isx(o.value, X), 'write seen through the other side, ' + what, repr(o.value), loc_str(o.loc))
            for ix in (tuples[0], tuples[-1]) if ex is not None else ():
                for sp, o in outcomes(mod, ctx, 'm%d' % q, [buf()] + [Int(i) for i in ix]):
                    ctx.ob(o.kind == 'ret' and not o.events, '%s: making "%s" has no effect on the elements' % (label, nm),
                           repr([e[:5] for e in o.events]), loc_str(o.loc))
        for sp, o in outcomes(mod, ctx, 'vsize', []):
            ctx.ob(o.value == 8, label + ': a view holds nothing but the pointer', '%r bytes' % (o.value,))
        for q, (nm, st) in enumerate(cp):
            for sp, o in outcomes(mod, ctx, 'cp%d' % q, [buf('a'), buf('out', 'uninit')], track_real=(T != 'float')):
                if not returns(ctx, o, nm):
                    continue
                src_o, out_o = o.args[0].obj, o.args[1].obj
                for e in range(n):
                    w = RF.var('a[%d]' % e)
                    for ob_, side in ((out_o, 'copy'), (src_o, 'original')):
                        c = elem_at(o, ob_, e, es)
                        ctx.ob(c is None and ob_ is src_o or isx(c, w), '%s: %s, element %d of the %s' % (label, nm, e, side),
                               '%r' % (c,), loc_str(o.loc))
        for fn, want in (('ind', None), ('ind2', None), ('ind3', None)) + ((('ind4', None),) if rank > 1 else ()):
            for ix in tuples:
                for sp, o in outcomes(mod, ctx, fn, [buf('a')] + [Int(i) for i in ix] + [arg()], track_real=(T != 'float')):
                    if returns(ctx, o, fn):
                        ctx.ob(isx(o.value, RF.var('a[%d]' % rowmajor(sh, ix))), '%s: copies are independent (%s at %s)' % (label, fn, list(ix)),
                               repr(o.value), loc_str(o.loc))

    def elem_at(o, obj, e, size):
        """None: the cell was never touched."""
        if not any(obj.cells.get(e * size + k) for k in range(size)):
            return None
        return final(o, obj, e, T)
    return Job(label, src, verify, bounds=bounds)


def scalar(T):
    es = SIZES[T]
    src = PRE + '''
extern "C" void w( T (&b)[1], T x ) { ScalarView< T > s( b ); s( 0 ) = x; }
extern "C" void w2( T (&b)[1], T x ) { ScalarView< T > s( b ); s[ 0 ] = x; }
extern "C" void w3( T (&b)[1], T x ) { ScalarView< T > s( b ); auto t = s; t.template operator()< 0 >() = x; }
extern "C" void w4( T * b, T x ) { ScalarView< T > s( b ); s( 0 ) = x; }
extern "C" void w5( Scalar< T > & b, T x ) { ScalarView< T > s( b.data() ); s( 0 ) = x; }
extern "C" T ind( Scalar< T > & b, T x ) { Scalar< T > s = b; s( 0 ) = x; return b( 0 ); }
extern "C" void mk( T (&b)[1] ) { ScalarView< T > s( b ); auto t = s; }
'''.replace('( T ', '( %s ' % T).replace(' T x', ' %s x' % T).replace('< T >', '< %s >' % T).replace('C" T', 'C" %s' % T)

    def verify(mod, ctx):
        for f in ('w', 'w2', 'w3', 'w4', 'w5'):
            for sp, o in outcomes(mod, ctx, f, [Buf('b', T, 1), Real('x')]):
                st = o.stores()
                ctx.ob(o.kind == 'ret' and len(o.events) == 1 and len(st) == 1 and st[0][1] is o.args[0].obj and st[0][2] == 0,
                       'write through ScalarView<%s> (%s) stores the element' % (T, f), repr([e[:5] for e in o.events]), loc_str(o.loc))
        for sp, o in outcomes(mod, ctx, 'mk', [Buf('b', T, 1)]):
            ctx.ob(o.kind == 'ret' and not o.events, 'making a ScalarView has no effect', repr(o.events))
        for sp, o in outcomes(mod, ctx, 'ind', [Buf('b', T, 1), Real('x')]):
            ctx.ob(o.kind == 'ret' and isinstance(o.value, RF) and o.value.close(RF.var('b[0]'), 0), 'copy of a Scalar is independent', repr(o.value))
    return Job('ScalarView %s' % T, src, verify)


def build(tier):
    jobs = [scalar('double'), scalar('float')]
    shapes = [(1,), (4,), (2, 3), (3, 1), (2, 3, 4), (3, 1, 2), (2, 1, 3, 2)]
    shapes += [(4, 2), (4, 3, 2), (2, 3, 2, 4), (2, 2, 2, 2, 3), (2, 1, 2, 1, 2, 2), (130,), (2, 40)] + [(k,) for k in around(11, 300, 4)] + [(2, k) for k in around(11, 60, 4)] + [(k, 2) for k in around(11, 150, 4)]
    shapes += spikes(3, 4, 9)
    for i, sh in enumerate(shapes):
        for j, T in enumerate(('double', 'int', 'float', 'long', 'char')):
            if T in ('float', 'long', 'char') and (i + j) % 3 and tier == 'quick':
                continue
            jobs.append(make(T, sh, False))
            if T == 'double':
                jobs.append(make(T, sh, True))
    return jobs


def deeper():
    return [make('double', sh, k % 2 == 0) for k, sh in enumerate(every(2, 5) + every(3, 3) + every(4, 2))]
