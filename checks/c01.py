"""C01: element addressing is row-major, injective and the same in every access form."""
import itertools
from sa.core import around, spikes, every, Job
from sa.query import *
from sa.wit import *

EXPLANATION = ('For each shape, element type, index type, owner kind (array, view, const of either) and access form a '
               'witness returns the address of the accessed element; the analysis evaluates the address expression for '
               'every valid index tuple (bounds checking on and off) and compares the offset into the storage with the '
               'row-major offset of the declared shape; with bounds checking off the offset is also derived as a '
               'polynomial in symbolic indices, which covers every index value at once.')
ASSUMPTIONS = ['the listed shapes (rank 1..7, unequal extents, extents of 1, one long extent in each position) stand for all shapes']
RULE = 'constant and polynomial propagation of element addresses; offset == row-major offset for every tuple and form'
FULL = True
MIN = 3000

ITYPES = {'int': 32, 'long': 64, 'short': 16, 'unsigned': 32, 'std::size_t': 64, 'signed char': 8, 'unsigned char': 8,
          'long long': 64, 'unsigned short': 16, 'unsigned long long': 64, 'char': 8, 'wchar_t': 32, 'char16_t': 16, 'I8': 8, 'U8': 64}
SHAPES = [(1,), (5,), (2, 3), (3, 2), (1, 4), (4, 1), (2, 3, 4), (4, 3, 2), (3, 1, 2), (1, 1, 1), (3, 4, 2, 5), (2, 1, 3, 2),
          (2, 3, 2, 4, 3), (1, 2, 3, 2, 1)]
BIG = [(300,), (70000,), (2, 300), (300, 2), (3, 200, 2), (3, 40000), (40000, 3), (2, 70000)]
SIZ = {'short': 2, 'double': 8, 'float': 4, 'int': 4, 'char': 1, 'S16': 16, 'bool': 1, 'long': 8, 'unsigned short': 2, 'S72': 72, 'S3': 3, 'double *': 8, 'CArrayNd<double,3>': 24, 'E2': 2}
PRE = inc('carray') + 'struct S16 { double a; long b; };\nstruct S72 { S16 a[4]; char b; };\nstruct S3 { char c[3]; };\nenum I8 : signed char { i8 };\nenum U8 : unsigned long { u8 };\nenum class E2 : short { one, two };\nusing namespace shiva;\n#include <cstddef>\n'


def dims(sh):
    return ','.join(map(str, sh))


def prod(sh):
    n = 1
    for d in sh:
        n *= d
    return n


def rowmajor(sh, ix):
    o = 0
    for d, i in zip(sh, ix):
        o = o * d + i
    return o


def owner(kind, T, sh):
    """(parameter declaration, statement making 'a')"""
    n = prod(sh)
    A = 'CArrayNd<%s,%s>' % (T, dims(sh))
    V = 'CArrayViewNd<%s,%s>' % (T, dims(sh))
    CV = 'CArrayViewNd<%s const,%s>' % (T, dims(sh))
    return {'array': ('%s & a' % A, ''), 'const array': ('%s const & a' % A, ''),
            'view': ('%s (&buf)[%d]' % (T, n), '%s a( buf );' % V),
            'const view': ('%s (&buf)[%d]' % (T, n), '%s const a( buf );' % V),
            'view of const': ('%s const (&buf)[%d]' % (T, n), '%s a( buf );' % CV),
            'view of mutable buffer as const': ('%s (&buf)[%d]' % (T, n), '%s const a( buf );' % CV),
            'view of pointer': ('%s * buf' % T, '%s a( buf );' % V)}[kind]


OWNERS = ['array', 'const array', 'view', 'const view', 'view of const', 'view of mutable buffer as const', 'view of pointer']


def forms(rank):
    """(label, declarations, expression)"""
    ix = ['i%d' % k for k in range(rank)]
    br = lambda q: ''.join('[%s]' % i for i in q)
    out = [('a(i..)', '', 'a(%s)' % ', '.join(ix)), ('a[i]..', '', 'a' + br(ix))]
    for k in range(1, rank):
        out.append(('a%s(..)' % br('ijklmnop'[:k]), '', 'a%s(%s)' % (br(ix[:k]), ', '.join(ix[k:]))))
    if rank > 1:
        out.append(('auto const s = a[i]; s(j..)', 'auto const%s s = a[i0];' % (' &' if rank == 1 else ''), 's(%s)' % ', '.join(ix[1:])))
    if rank > 2:
        out.append(('auto s = a[i]; s[j]..', 'auto s = a[i0];', 's' + br(ix[1:])))
        out.append(('auto && s = a[i]; s[j]..', 'auto && s = a[i0];', 's' + br(ix[1:])))
        out.append(('auto const s = a[i]; auto t = s[j]; t[k]..', 'auto const s = a[i0]; auto t = s[i1];', 't' + br(ix[2:])))
    if rank > 3:
        out.append(('slices of slices of slices', 'auto s = a[i0]; auto const t = s[i1]; auto u = t[i2];', 'u' + br(ix[3:])))
    return out


COMMON = ('int', 'long', 'std::size_t')


def make(T, sh, kind, itypes, bounds, plain=False):
    rank = len(sh)
    src = PRE
    par, mk = owner(kind, T, sh)
    fns = []
    for fi, (fname, decl, ex) in enumerate(forms(rank)):
        for ti, it in enumerate(itypes):
            if ti and fi > 1:
                continue
            n = 'f%d_%d' % (fi, ti)
            src += 'extern "C" void const volatile * %s(%s, %s) { %s %s return &%s; }\n' % (
                n, par, ', '.join('%s i%d' % (it, k) for k in range(rank)), mk, decl, ex)
            fns.append((n, fname, it))
    # mixed index types and integral constants
    if rank > 1:
        for m, ts in enumerate((['long', 'int', 'std::size_t', 'int', 'long'],) if plain else (['long', 'int', 'unsigned char', 'std::size_t', 'short'], ['signed char', 'long', 'unsigned', 'short', 'int'],
                                ['unsigned char', 'unsigned short', 'int', 'long', 'std::size_t'], ['std::size_t', 'signed char', 'long', 'unsigned', 'short'])):
            ts = ts + ts
            src += 'extern "C" void const volatile * fmix%d(%s, %s) { %s return &a(%s); }\n' % (
                m, par, ', '.join('%s i%d' % (ts[k], k) for k in range(rank)), mk, ', '.join('i%d' % k for k in range(rank)))
            fns.append(('fmix%d' % m, 'a(i..) mixed types %s' % ts[:rank], [ts[k] for k in range(rank)]))
    tuples = list(itertools.product(*map(range, sh))) if prod(sh) <= 160 else sorted(itertools.product(*[sorted(i for i in {0, 1, d // 2, d - 2, d - 1} if 0 <= i < d) for d in sh]))
    for q, ix in enumerate(tuples):
        src += 'extern "C" void const volatile * c%d(%s) { %s return &a.template operator()<%s>(); }\n' % (q, par, mk, dims(ix))
        if q % 7 == 0:
            src += 'extern "C" void const volatile * k%d(%s) { %s return &a(%s); }\n' % (
                q, par, mk, ', '.join('std::integral_constant<int,%d>{}' % i for i in ix))
    par0, mk0 = par, mk
    src += 'extern "C" void const volatile * base(%s) { %s return &a.data()[0]; }\n' % (par0, mk0)
    src += 'extern "C" int rank_(%s) { %s return a.rank(); }\nextern "C" int size_(%s) { %s return a.size(); }\n' % (par, mk, par, mk)
    for k in range(rank):
        src += 'extern "C" int ext%d(%s) { %s return a.template extent<%d>(); }\n' % (k, par, mk, k)
    if kind == 'array':
        src += 'extern "C" unsigned long bytes() { return sizeof(CArrayNd<%s,%s>); }\n' % (T, dims(sh))

    label = '%s of %s[%s]' % (kind, T, dims(sh))
    es = SIZ[T]
    nbytes = prod(sh) * es

    def buf():
        return Buf('buf', 'char', nbytes)

    def one(mod, ctx, fn, specs, ix, what):
        for sp, o in outcomes(mod, ctx, fn, [buf()] + specs):
            if not returns(ctx, o, what):
                continue
            v = o.value
            want = rowmajor(sh, ix) * es
            ok = isinstance(v, Ptr) and v.obj is o.args[0].obj and v.off == want
            ctx.ob(ok, what, 'address is %r, expected &buf+%d%s' % (v, want, describe(o)), loc_str(o.loc))

    def verify(mod, ctx):
        for n, fname, it in fns:
            for ix in tuples:
                its = it if isinstance(it, list) else [it] * rank
                if any(i >= 1 << ITYPES[t] - (0 if t.startswith(('u', 'U', 'char16')) or t == 'std::size_t' else 1) for i, t in zip(ix, its)):
                    continue
                one(mod, ctx, n, [Int(i, ITYPES[t]) for i, t in zip(ix, its)], ix,
                    '%s, form %s, index type %s, indices %s' % (label, fname, it, list(ix)))
            if not bounds and it in ('int', 'long'):
                symbolic(mod, ctx, n, fname, it)
        for q, ix in enumerate(tuples):
            one(mod, ctx, 'c%d' % q, [], ix, '%s, compile-time indices %s' % (label, list(ix)))
            if q % 7 == 0:
                one(mod, ctx, 'k%d' % q, [], ix, '%s, integral constant indices %s' % (label, list(ix)))
        for sp, o in outcomes(mod, ctx, 'base', [buf()]):
            ctx.ob(o.kind == 'ret' and isinstance(o.value, Ptr) and o.value.obj is o.args[0].obj and o.value.off == 0,
                   '%s: data() is the storage' % label, repr(o.value), loc_str(o.loc))
        consts = [('rank_', rank), ('size_', prod(sh))] + [('ext%d' % k, d) for k, d in enumerate(sh)]
        for n, want in consts:
            for sp, o in outcomes(mod, ctx, n, [buf()]):
                ctx.ob(o.kind == 'ret' and o.value == want, '%s: %s is %d' % (label, n, want), repr(o.value), loc_str(o.loc))
        if kind == 'array':
            for sp, o in outcomes(mod, ctx, 'bytes', []):
                ctx.ob(o.value == nbytes, '%s: occupies exactly its elements' % label, '%r bytes' % (o.value,))

    def symbolic(mod, ctx, n, fname, it):
        """Offset as a polynomial in the indices (only when the code does not branch on them)."""
        try:
            outs = list(outcomes(mod, ctx, n, [buf()] + [SymInt('i%d' % k) for k in range(rank)]))
        except Inconclusive:
            return
        if len(outs) != 1 or outs[0][1].kind != 'ret':
            return
        v = outs[0][1].value
        want = RF.const(0)
        for k, d in enumerate(sh):
            want = want * RF.const(d) + RF.var('i%d' % k)
        want = want * RF.const(es)
        if not isinstance(v, Ptr) or isinstance(v.off, IV):
            return
        got = v.off.rf if isinstance(v.off, ISym) else RF.const(v.off)
        if any('(' in x or '#' in x for x in got.num.names()):
            return
        ctx.ob(v.obj is outs[0][1].args[0].obj and got.close(want, 0), '%s, form %s: offset polynomial (all indices)' % (label, fname),
               'offset %r, expected %r' % (got, want))
        ctx.count('offset polynomials')
    job = Job(label + (' (bounds checked)' if bounds else ''), src, verify, bounds=bounds)
    if not plain:
        job.alt = lambda: make(T, sh, kind, [t for t in itypes if t in COMMON], bounds, plain=True)
    return job


def build(tier):
    jobs = []
    for sh in SHAPES:
        for k, kind in enumerate(OWNERS):
            big = prod(sh) > 60
            T = ['double', 'float', 'int', 'char', 'S16'][(len(sh) + k) % 5]
            if kind == 'array':
                T = 'double'
            its = ['int'] if (big and tier == 'quick') else list(ITYPES) if kind in ('array', 'const view') else ['int', 'std::size_t']
            for b in (False, True):
                jobs.append(make(T, sh, kind, its, b))
                if tier == 'thorough' and T != 'float':
                    jobs.append(make('float', sh, kind, list(ITYPES), b))
    # long dimensions: index arithmetic may not be narrowed
    for sh in BIG + [(2, 1, 2, 2, 3, 2), (1, 2, 3, 1, 2, 1, 2), (2, 1, 2, 1, 1, 2, 1, 3), (1, 2, 1, 1, 2, 1, 1, 2, 2)] + [x for k in around(11, 69999, 6) for x in ((k,), (k, 2), (2, k))]:
        for kind, T in (('array', 'double'), ('const view', 'S16')):
            jobs.append(make(T, sh, kind, ['int', 'long', 'short', 'unsigned char', 'unsigned'], False))
            jobs.append(make(T, sh, kind, ['int', 'long', 'unsigned short'], True))
    # byte offsets beyond 31 and 32 bits
    for sh, T in (((2, 300000000), 'double'), ((3, 2, 300000000), 'char'), ((1000000, 2, 1000), 'S16')):
        jobs.append(make(T, sh, 'view of pointer', ['int', 'long', 'unsigned'], False))
        jobs.append(make(T, sh, 'view of pointer', ['int', 'std::size_t'], True))
    # element types of other sizes and kinds
    for k, T in enumerate(('bool', 'long', 'unsigned short', 'S72', 'S3', 'double *', 'CArrayNd<double,3>', 'E2')):
        for q, sh in enumerate(((5,), (2, 3), (3, 1, 2), (2, 3, 2, 2))):
            for kind in ('array', 'const array', 'view', 'const view', 'view of const')[(k + q) % 2::2]:
                jobs.append(make(T, sh, kind, ['int', 'long', 'unsigned char'], (k + q) % 3 == 0))
    # one long dimension in each position of each rank
    for k, sh in enumerate(spikes(3, 6, 9)):
        jobs.append(make('double', sh, 'array', ['int'], k % 2 == 0))
        jobs.append(make('S16', sh, 'const view', ['int'], k % 2 == 1))
    return jobs


def deeper():
    jobs = []
    for k, sh in enumerate(every(2, 6) + every(3, 4) + every(4, 3) + every(5, 2) + spikes(7, 8, 5)):
        jobs.append(make('double', sh, ('array', 'view', 'const array', 'const view')[k % 4], ['int', 'long'], k % 3 == 0))
    return jobs
