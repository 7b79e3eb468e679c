"""C02: bounds checking fires exactly on out-of-range indices."""
import itertools
from sa.core import Job, spikes, every
from sa.query import *
from sa.wit import *
from sa import ir
from .c01 import PRE, owner, forms, dims, prod, rowmajor, SIZ, ITYPES, COMMON

EXPLANATION = ('Bounds checking on: for every access form, position and index type, the whole out-of-range part of the index '
               'type (as intervals, split until every branch is decided) must lead to program termination before any '
               'element is read or written, and every in-range tuple must reach exactly its element without failing. '
               'Bounds checking off: no function that can end the program or report is reachable from any access. Both: '
               'same layout (sizeof, extents) and same row-major element.')
ASSUMPTIONS = ['listed shapes stand for all shapes', 'brackets take the array\'s index type int, as declared']
RULE = 'interval analysis of the index checks; out-of-range interval => termination before the first element access'
FULL = True
MIN = 3000

RANGES = {'int': (32, True), 'long': (64, True), 'short': (16, True), 'signed char': (8, True), 'long long': (64, True),
          'unsigned': (32, False), 'std::size_t': (64, False), 'unsigned char': (8, False), 'unsigned short': (16, False), 'I8': (8, True), 'U8': (64, False), 'char16_t': (16, False), 'unsigned long long': (64, False)}
SHAPES = [(5,), (1,), (2, 3), (4, 1), (3, 2, 4), (1, 2, 3), (2, 3, 1, 2), (2, 1, 2, 3, 2), (2, 1, 2, 1, 3, 2), (1, 2, 1, 2, 1, 2, 2), (2, 1, 2, 1, 1, 2, 1, 3)]
OWN = ['array', 'const array', 'view', 'const view', 'view of const']
TERMINATORS = ('abort', 'llvm.trap', 'llvm.ubsantrap', 'exit', '_exit', 'quick_exit', '__assert_fail', '_ZSt9terminatev', '__cxa_throw')
OUTPUT = ('fprintf', 'printf', 'vfprintf', 'vprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fwrite', 'perror', 'write', 'putc')


def outside(it, d):
    """Out-of-range boxes (as signed bounds of the bit pattern)."""
    w, sg = RANGES[it]
    half = 1 << (w - 1)
    out = [(-half, -1)]
    if d <= half - 1:
        out.append((d, half - 1))
    return out


def make(T, sh, kind, its, writes):
    rank = len(sh)
    par, mk = owner(kind, T, sh)
    src = PRE
    fns = []
    for fi, (fname, decl, ex) in enumerate(forms(rank)):
        for ti, it in enumerate(its if fi == 0 else ['int']):
            n = 'f%d_%d' % (fi, ti)
            args = ', '.join('%s i%d' % (it, q) for q in range(rank))
            src += 'extern "C" %s %s(%s, %s) { %s %s }\n' % (T, n, par, args, mk, '%s return %s;' % (decl, ex))
            fns.append((n, fname, it, False))
            if writes and 'auto const' not in decl:
                src += 'extern "C" void w%s(%s, %s) { %s %s %s = %s(1); }\n' % (n, par, args, mk, decl, ex, T)
                fns.append(('w' + n, fname + ' written', it, True))
    label = '%s of %s[%s]' % (kind, T, dims(sh))
    es = SIZ[T]

    def buf():
        return Buf('buf', T, prod(sh))

    def verify(mod, ctx):
        for n, fname, it, wr in fns:
            w = RANGES[it][0]
            base = [Int(0, w) for _ in sh]
            # out of range in one position, others at each of their corner values
            for p, d in enumerate(sh):
                others = [sorted({0, e - 1}) if q != p else [0] for q, e in enumerate(sh)]
                for combo in itertools.product(*others):
                    for lo, hi in outside(it, d):
                        specs = [Int(c, w) for c in combo]
                        specs[p] = Box(lo, hi, w)
                        what = '%s, form %s, index type %s: out-of-range index in position %d is reported' % (label, fname, it, p)
                        bad_access(mod, ctx, n, specs, what)
            # several positions at once
            if rank > 1:
                for signs in itertools.product((0, 1), repeat=rank):
                    boxes = [outside(it, d)[min(s, len(outside(it, d)) - 1)] for s, d in zip(signs, sh)]
                    bad_access(mod, ctx, n, [Box(lo, hi, w) for lo, hi in boxes],
                               '%s, form %s, index type %s: all indices out of range' % (label, fname, it))
            for ix in itertools.product(*map(range, sh)):
                what = '%s, form %s, index type %s: valid indices %s' % (label, fname, it, list(ix))
                for sp, o in outcomes(mod, ctx, n, [buf()] + [Int(i, w) for i in ix]):
                    if not returns(ctx, o, what):
                        continue
                    b = o.args[0].obj
                    acc = [(e[0], e[2]) for e in o.events if e[0] in ('load', 'store') and e[1] is b]
                    want = [('store' if wr else 'load', rowmajor(sh, ix) * es)]
                    ctx.ob(acc == want and not o.calls(), what, 'accesses %r and calls %r, expected %r' % (
                        acc, [c[1] for c in o.calls()], want), loc_str(o.loc))

    def bad_access(mod, ctx, n, specs, what):
        for sp, o in outcomes(mod, ctx, n, [buf()] + specs):
            b = o.args[0].obj
            shown = ['%d..%d' % (s.lo, s.hi) if isinstance(s, Box) else s.v for s in sp[1:]]
            touched = [e for e in o.events if e[0] in ('load', 'store') and e[1] is b]
            ctx.ob(o.kind == 'abort' and not touched, what, 'indices %s: %s%s' % (
                shown, {'ret': 'access returns normally', 'oob': 'reaches memory outside the array: %s' % o.detail}.get(
                    o.kind, '%s %s' % (o.kind, o.detail)), ', after touching an element' if touched else ''),
                loc_str(o.loc))
            ctx.count('index intervals')
    job = Job(label + ' checked', src, verify, bounds=True)
    if not set(its) <= set(COMMON):
        job.alt = lambda: make(T, sh, kind, [t for t in its if t in COMMON], writes)
    return job


def make_off(T, sh, kind, its=tuple(ITYPES)):
    """Bounds checking disabled: no failure path; same layout."""
    rank = len(sh)
    par, mk = owner(kind, T, sh)
    src = PRE
    names = []
    for fi, (fname, decl, ex) in enumerate(forms(rank)):
        for ti, it in enumerate(its if fi == 0 else ['int']):
            n = 'f%d_%d' % (fi, ti)
            src += 'extern "C" %s %s(%s, %s) { %s %s }\n' % (T, n, par, ', '.join('%s i%d' % (it, q) for q in range(rank)), mk,
                                                          '%s return %s;' % (decl, ex))
            names.append((n, fname, it))
    label = '%s of %s[%s]' % (kind, T, dims(sh))

    def verify(mod, ctx):
        for n, fname, it in names:
            reach, ext = closure(mod, '@' + n)
            bad = sorted(x for x in ext if x[1:] in TERMINATORS + OUTPUT)
            ctx.ob(not bad, '%s, form %s, index type %s: no failure path without bounds checking' % (label, fname, it),
                   'reaches %s' % ', '.join(bad))
            ctx.functions |= reach
    job = Job(label + ' unchecked', src, verify, bounds=False)
    if its != COMMON:
        job.alt = lambda: make_off(T, sh, kind, COMMON)
    return job


def closure(mod, fname):
    """(defined functions reachable, external callees) over direct calls and address-taken functions."""
    seen, ext = set(), set()
    work = [fname]
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        fn = mod.functions[f]
        if fn.blocks is None:
            mod.body(f)
        for b in fn.blocks.values():
            for x in b:
                for g in re.findall(r'@(?:"[^"]*"|[-\w$.]+)', x.text):
                    if g in mod.functions:
                        work.append(g)
                    elif g in mod.declares:
                        ext.add(g)
    return seen, ext


def layout():
    src = PRE
    sz = []
    for sh in SHAPES:
        for T in ('double', 'int', 'char'):
            for alias in ('CArrayNd', 'CArrayViewNd'):
                n = 'z%d' % len(sz)
                src += 'extern "C" unsigned long %s() { return sizeof(%s<%s,%s>) * 1000 + alignof(%s<%s,%s>); }\n' % (
                    n, alias, T, dims(sh), alias, T, dims(sh))
                want = (prod(sh) * SIZ[T] * 1000 + SIZ[T]) if alias == 'CArrayNd' else 8008
                sz.append((n, '%s<%s,%s>' % (alias, T, dims(sh)), want))

    def verify(mod, ctx):
        for n, t, want in sz:
            for _, o in outcomes(mod, ctx, n, []):
                ctx.ob(o.value == want, 'layout of %s does not depend on bounds checking' % t, '%r, expected %r' % (o.value, want))
    return [Job('layout checked', src, verify, bounds=True), Job('layout unchecked', src, verify, bounds=False)]


def build(tier):
    jobs = layout()
    for i, sh in enumerate(SHAPES):
        for k, kind in enumerate(OWN):
            T = ['double', 'int', 'float', 'char', 'long', 'short'][(i + k) % 6]
            its = list(RANGES) if kind in ('array', 'view') else ['int', 'long', 'unsigned']
            if tier == 'quick' and len(sh) > 3:
                its = ['int', 'long', 'unsigned']
            jobs.append(make(T, sh, kind, its, kind in ('array', 'view')))
            jobs.append(make_off(T, sh, kind))
    # one long dimension in each position of each rank
    for i, sh in enumerate(spikes(3, 5, 9)):
        for kind in ('array', 'const view') if i % 2 else ('const array', 'view'):
            jobs.append(make('double', sh, kind, ['int', 'long'], False))
            jobs.append(make_off('double', sh, kind))
    return jobs


def deeper():
    jobs = []
    for k, sh in enumerate(every(2, 5) + every(3, 3) + every(4, 2)):
        jobs.append(make('double', sh, OWN[k % 5], ['int', 'long', 'unsigned'], False))
        jobs.append(make_off('double', sh, OWN[k % 5]))
    return jobs
