"""C30: assertion failures are reported completely and then end the program."""
import os
import re
from sa import ir
from sa.core import Job, FnJob, Broken, CLANG, OPT, run, first_errors, VANISHED
from sa.absint import Pieces
from sa.query import *
from checks.c28 import flags

EXPLANATION = ('Calls of the reporting function with symbolic file, line, format and argument lists of many kinds, and assertions placed in functions at known '
               'lines, are interpreted over their IR; every write to a stream is turned into a token of the text written, so that the whole report of a '
               'trace is known as a sequence of literals and values. Obligations: all of it goes to standard error; file, line, formatted message with '
               'exactly the arguments passed, end of line, in this order, once; then the program ends (or the call returns, when told not to abort); a '
               'passing assertion evaluates its condition once and has no other effect; the library\'s own assertions pass arguments of the types their '
               'formats convert. In device code a failed assertion reports and traps.')
ASSUMPTIONS = ['the C library\'s output functions do what their specification says', 'device toolkits are replaced by declarations']
RULE = 'effect-sequence (token stream) analysis of every trace'
MIN = 300

INC = '#include "shiva/common/ShivaErrorHandling.hpp"\n'
LISTS = [('none', '', []), ('int', 'int', ['i']), ('double', 'double', ['d']), ('string', 'char const *', ['p']), ('long, long', 'long', ['l', 'l']),
         ('float, int, string, double', None, ['f', 'i', 'p', 'd']), ('nine ints', 'int', ['i'] * 9)]
CT = {'i': 'int', 'd': 'double', 'l': 'long', 'p': 'char const *', 'f': 'float'}
QUIET = ('@llvm.', '@fflush', '@flockfile', '@funlockfile', '@malloc', '@free', '@_Znwm', '@_Znam', '@_ZdlPv', '@_ZdaPv', '@_ZdaPvm', '@_ZdlPvm')


def cstring(p):
    """Constant string at p, or None."""
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int):
        return None
    out = bytearray()
    k = p.off
    while True:
        c = p.obj.cells.get(k)
        if c is None and p.obj.init == 'zero' and p.obj.size is not None and k < p.obj.size:
            return out.decode('latin1')
        if c is None or c[0] != 1 or not isinstance(c[1], int):
            return None
        if c[1] == 0:
            return out.decode('latin1')
        out.append(c[1] & 255)
        k += 1


CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L)?([diouxXcsfFeEgGaAp%])')


def tokens(fmt, args):
    """[('lit', text) | ('val', conversion, value)]; None when the arguments do not fit."""
    out, k, i = [], 0, 0
    for m in CONV.finditer(fmt):
        if m.start() > k:
            out.append(('lit', fmt[k:m.start()]))
        k = m.end()
        if m.group(5) == '%':
            out.append(('lit', '%'))
            continue
        if m.group(2) == '*' or m.group(3) == '*':
            raise Broken('computed field width')
        if i >= len(args):
            return None
        out.append(('val', m.group(), args[i]))
        i += 1
    if '%' in CONV.sub('', fmt):
        return None
    if k < len(fmt):
        out.append(('lit', fmt[k:]))
    return out


class Streams:
    """External functions that write text; each trace collects (stream, token) pairs in o.text."""

    def __init__(self):
        self.ext = {}
        self.buffers = {}
        for n in ('fprintf', 'vfprintf', 'printf', 'vprintf', 'fputs', 'puts', 'fputc', 'putc', 'putchar', 'fwrite', 'write', 'dprintf', 'perror', 'snprintf', 'vsnprintf', 'sprintf', 'vsprintf'):
            self.ext['@' + n] = getattr(self, 'x_' + n)

    @staticmethod
    def stream(f):
        if isinstance(f, int):
            return {2: 'stderr', 1: 'stdout'}.get(f, 'fd %d' % f)
        n = f.obj.name if isinstance(f, Ptr) and f.obj is not None else repr(f)
        for s in ('stderr', 'stdout'):
            if s in n:
                return s
        return n

    @staticmethod
    def put(m, s, toks):
        if not hasattr(m.o, 'text'):
            m.o.text = []
        m.o.text += [(s, t, m.loc) for t in toks]
        return 1

    def format(self, f, args):
        t = cstring(f)
        if t is not None and args is not None:
            ts = tokens(t, args)
            return self.expand(ts) if ts is not None else [('bad', t)]
        return [('fmt', f, args)]

    def expand(self, ts):
        out = []
        for t in ts:
            b = self.buffers.get(id(t[2].obj)) if t[0] == 'val' and t[1] == '%s' and isinstance(t[2], Ptr) and t[2].off == 0 else None
            out += b[1] if b else [t]
        return out

    def fmt(self, m, s, f, args):
        return self.put(m, s, self.format(f, args))

    # formatting into memory: complete when the size of the destination is computed, possibly cut off when it is a constant
    def into(self, m, dest, size, f, args):
        if isinstance(dest, Ptr) and dest.obj is not None and size != 0:
            ts = self.format(f, args)
            self.buffers[id(dest.obj)] = (dest.obj, [('bad', 'cut off at %d' % size)] if isinstance(size, int) else ts)
        return ISym(RF.var('length#%d' % len(m.o.events)))

    def x_snprintf(self, m, n, v, x):
        return self.into(m, v[0], v[1], v[2], v[3:])

    def x_vsnprintf(self, m, n, v, x):
        return self.into(m, v[0], v[1], v[2], self.va(v[3]))

    def x_sprintf(self, m, n, v, x):
        return self.into(m, v[0], 1, v[1], v[2:])

    def x_vsprintf(self, m, n, v, x):
        return self.into(m, v[0], 1, v[1], self.va(v[2]))

    def va(self, ap):
        c = ap.obj.cells.get(ap.off) if isinstance(ap, Ptr) and ap.obj is not None else None
        return c[1][1] if c and isinstance(c[1], tuple) and c[1][0] == 'va_list' else None

    def x_fprintf(self, m, n, v, x):
        return self.fmt(m, self.stream(v[0]), v[1], v[2:])

    def x_dprintf(self, m, n, v, x):
        return self.fmt(m, self.stream(v[0]), v[1], v[2:])

    def x_printf(self, m, n, v, x):
        return self.fmt(m, 'stdout', v[0], v[1:])

    def x_vprintf(self, m, n, v, x):
        return self.fmt(m, 'stdout', v[0], self.va(v[1]))

    def x_vfprintf(self, m, n, v, x):
        return self.fmt(m, self.stream(v[0]), v[1], self.va(v[2]))

    def text(self, m, s, p):
        t = cstring(p)
        return self.put(m, s, [('lit', t)] if t is not None else self.expand([('val', '%s', p)]))

    def x_fputs(self, m, n, v, x):
        return self.text(m, self.stream(v[1]), v[0])

    def x_puts(self, m, n, v, x):
        return self.put(m, 'stdout', [('other', 'puts')])

    def x_perror(self, m, n, v, x):
        return self.put(m, 'stderr', [('other', 'perror')])

    def char(self, m, s, c):
        return self.put(m, s, [('lit', chr(c & 255))] if isinstance(c, int) else [('val', '%c', c)])

    def x_fputc(self, m, n, v, x):
        return self.char(m, self.stream(v[1]), v[0])

    x_putc = x_fputc

    def x_putchar(self, m, n, v, x):
        return self.char(m, 'stdout', v[0])

    def x_fwrite(self, m, n, v, x):
        t = cstring(v[0])
        if t is None or not isinstance(v[1], int) or not isinstance(v[2], int) or v[1] * v[2] > len(t):
            return self.put(m, self.stream(v[3]), [('other', 'fwrite')])
        return self.put(m, self.stream(v[3]), [('lit', t[:v[1] * v[2]])])

    def x_write(self, m, n, v, x):
        t = cstring(v[1])
        if t is None or not isinstance(v[2], int) or v[2] > len(t):
            return self.put(m, self.stream(v[0]), [('other', 'write')])
        return self.put(m, self.stream(v[0]), [('lit', t[:v[2]])])


def merged(o):
    out = []
    for s, t, loc in getattr(o, 'text', []):
        if t[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + t[1])
        elif t[0] != 'lit' or t[1]:
            out.append(tuple(t))
    return out


def same(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and a.off == b.off
    if isinstance(a, ISym) and isinstance(b, ISym):
        return a.rf.close(b.rf, 0)
    if isinstance(a, RF) and isinstance(b, RF):
        return a.close(b, 0)
    return type(a) is type(b) and a == b


def report(ctx, o, what, file_ok, line_ok, message, abort, loc=None):
    """message: list of tokens the message must consist of, or ('fmt', ptr, args)."""
    loc = loc_str(o.loc) if o.loc else ''
    streams = {s for s, _, _ in getattr(o, 'text', [])}
    ctx.ob(streams == {'stderr'}, what + ': the report goes to standard error', repr(sorted(streams)), loc)
    ts = merged(o)
    show = repr(ts)
    bad = [t for t in ts if t[0] in ('bad', 'other')]
    ctx.ob(not bad, what + ': well-formed output', show, loc)
    f = [i for i, t in enumerate(ts) if t[0] == 'val' and t[1] == '%s' and file_ok(t[2])]
    lit_file = [i for i, t in enumerate(ts) if t[0] == 'lit' and isinstance(file_ok(None), str) and file_ok(None) in t[1]]
    f = f or lit_file
    ctx.ob(bool(f), what + ': the report begins with the file', show, loc)
    if not f:
        return
    f = f[0]
    ln = [i for i, t in enumerate(ts) if i > f and t[0] == 'val' and re.fullmatch(r'%l?[diu]', t[1]) and line_ok(t[2])]
    ctx.ob(bool(ln), what + ': then the line', show, loc)
    if not ln:
        return
    ln = ln[0]
    ctx.ob(all(t[0] == 'lit' for t in ts[:f]) and all(t[0] == 'lit' for t in ts[f + 1:ln]) and '\n' not in ''.join(t[1] for t in ts[f + 1:ln]) and ln > f + 1,
           what + ': file and line only, apart from each other', show, loc)
    rest = ts[ln + 1:]
    if message and message[0] == 'fmt':
        k = [i for i, t in enumerate(rest) if t[0] == 'fmt']
        ok = len(k) == 1 and same(rest[k[0]][1], message[1]) and rest[k[0]][2] is not None and len(rest[k[0]][2]) == len(message[2]) and all(
            same(a, b) for a, b in zip(rest[k[0]][2], message[2]))
        ctx.ob(ok, what + ': the message is formatted once, with exactly the arguments passed', '%s; passed %r' % (show, message), loc)
        if not ok:
            return
        ctx.ob(all(t[0] == 'lit' for i, t in enumerate(rest) if i != k[0]), what + ': nothing else is interpreted', show, loc)
        ctx.ob('\n' not in ''.join(t[1] for t in rest[:k[0]]), what + ': location and message share a line', show, loc)
        tail = ''.join(t[1] for t in rest[k[0] + 1:] if t[0] == 'lit')
    else:
        text = [t for t in rest]
        flat = ''.join(t[1] if t[0] == 'lit' else '\x00' for t in text)
        vals = [t for t in text if t[0] == 'val']
        want = ''.join(t[1] if t[0] == 'lit' else '\x00' for t in message)
        wv = [t for t in message if t[0] == 'val']
        head, nl, after = flat.partition('\n')
        ok = head.endswith(want) and len(vals) == len(wv) and all(a[1] == b[1] and (callable(b[2]) and b[2](a[2]) or not callable(b[2]) and same(a[2], b[2])) for a, b in zip(vals, wv))
        ctx.ob(ok, what + ': the message with exactly its arguments', '%s; wanted %r' % (show, message), loc)
        if not ok:
            return
        tail = nl + after
    ctx.ob(tail.startswith('\n'), what + ': an end of line follows the message', show, loc)
    if abort:
        ctx.ob(o.kind == 'abort' and o.detail not in ('@exit', '@_exit', '@quick_exit'), what + ': the program ends', '%s %s' % (o.kind, o.detail), loc)
    else:
        ctx.ob(o.kind == 'ret' and tail == '\n', what + ': the call reports the same and returns', '%s %s' % (o.kind, show), loc)


def only(ctx, o, what, allowed=()):
    st = [e[1] for e in o.calls() if not e[1].startswith(QUIET) and e[1] not in allowed and e[1] not in ('@abort', '@exit', '@_exit', '@_ZSt9terminatev')]
    if st:
        raise Broken('%s: calls %s, whose effect is not modelled' % (what, sorted(set(st))))


def direct(std, defs, bounds):
    src = INC
    fns = []
    for k, (what, _, ls) in enumerate(LISTS):
        ps = ''.join(', %s a%d' % (CT[c], i) for i, c in enumerate(ls))
        aa = ''.join(', a%d' % i for i in range(len(ls)))
        src += 'extern "C" void r%d( char const * file, int line, bool ab, char const * fmt%s ) { shivaAssertionFailed( file, line, ab, fmt%s ); }\n' % (k, ps, aa)
        fns.append((k, what, ls))
    # constant formats
    src += 'extern "C" void cf( char const * file, int line, bool ab, int a, double b, char const * c ) { shivaAssertionFailed( file, line, ab, "100%% sure: %d and %g of %s", a, b, c ); }\n'
    src += 'extern "C" void ce( char const * file, int line, bool ab ) { shivaAssertionFailed( file, line, ab, "" ); }\n'
    src += 'extern "C" void twice( char const * file, int line, char const * fmt, int a ) { shivaAssertionFailed( file, line, false, fmt, a ); shivaAssertionFailed( file, line, true, fmt, a ); }\n'

    def verify(mod, ctx):
        ext = Streams().ext
        base = lambda ab: [Buf('file', 'char', 64), SymInt('line'), Int(ab, 1)]
        for ab in (0, 1):
            for k, what, ls in fns:
                w = 'reporting with arguments (%s), %s' % (what, 'aborting' if ab else 'not aborting')
                sp = base(ab) + [Buf('fmt', 'char', 64)] + [{'i': SymInt('a%d' % i), 'l': SymInt('a%d' % i), 'd': Real('a%d' % i), 'f': Real('a%d' % i), 'p': Buf('a%d' % i, 'char', 16)}[c] for i, c in enumerate(ls)]
                for _, o in outcomes(mod, ctx, 'r%d' % k, sp, externals=ext):
                    only(ctx, o, w)
                    report(ctx, o, w, lambda v: same(v, o.args[0]), lambda v: same(v, o.args[1]), ('fmt', o.args[3], o.args[4:]), ab)
            sp = base(ab) + [SymInt('a'), Real('b'), Buf('c', 'char', 16)]
            for _, o in outcomes(mod, ctx, 'cf', sp, externals=ext):
                a = o.args
                report(ctx, o, 'reporting with a constant format', lambda v: same(v, a[0]), lambda v: same(v, a[1]),
                       [('lit', '100% sure: '), ('val', '%d', a[3]), ('lit', ' and '), ('val', '%g', a[4]), ('lit', ' of '), ('val', '%s', a[5])], ab)
            for _, o in outcomes(mod, ctx, 'ce', base(ab), externals=ext):
                report(ctx, o, 'reporting an empty message', lambda v: same(v, o.args[0]), lambda v: same(v, o.args[1]), [], ab)
        for _, o in outcomes(mod, ctx, 'twice', [Buf('file', 'char', 64), SymInt('line'), Buf('fmt', 'char', 64), SymInt('a')], externals=ext):
            n = [t for t in merged(o) if t[0] == 'fmt']
            ctx.ob(o.kind == 'abort' and len(n) == 2 and all(same(t[2][0], o.args[3]) for t in n), 'a failure that did not abort does not prevent the next report', '%s %r' % (o.kind, merged(o)))
    return Job('reporting function c++%s %s' % (std, ' '.join(defs)), src, verify, std=std, bounds=bounds, extra=defs)


def macro(std, defs, bounds):
    src = INC + '''extern "C" void before(); extern "C" void after();
#line 4321 "some/file one.c"
extern "C" void m0( int c, int & n ) { before(); SHIVA_ASSERT_MSG( ( ++n, c > 3 ), "m %d of %s", c, "x" ); after(); }
#line 77 "two.c"
extern "C" void m1( int c, int & n ) { before(); SHIVA_ASSERT_MSG( c == 1 || ( ++n, c == 2 ), "either" ); after(); }
#line 9 "three.c"
extern "C" void m2( int c, int & n ) { before(); if( c > 0 ) SHIVA_ASSERT_MSG( ( ++n, c < 10 ), "%d", c ); else n = 100; after(); }
#line 123456 "four.c"
template< typename T > inline void tmpl( T c, int & n ) { SHIVA_ASSERT_MSG( ( ++n, c > T( 3 ) ), "%d", 5 ); }
extern "C" void m3( int c, int & n ) { before(); tmpl< long >( c, n ); after(); }
#line 10 "five.c"
extern "C" void m4( int c, int & n )
{
  before();
  SHIVA_ASSERT_MSG( ( ++n, c > 3 ),
                    "%d %d",
                    c,
                    n );
  SHIVA_ASSERT_MSG( ( ++n, c > 5 ), "second %d", 2 );
  after();
}
#line 20 "six.c"
constexpr int half( int c ) { SHIVA_ASSERT_MSG( c % 2 == 0, "odd" ); return c / 2; }
static_assert( half( 8 ) == 4 );
extern "C" void m5( int c, int & n ) { before(); n += half( 2 * c ); after(); }
#line 30 "seven.c"
extern "C" void m6( int c, int & n ) { before(); SHIVA_ASSERT_MSG( n++ >= 0 ? c > 1 : c > 2, "q" ); after(); }
#line 40 "eight.c"
extern "C" void m7( double c, int & n ) { before(); SHIVA_ASSERT_MSG( ( ++n, c > 0.0 ), "%g", c ); after(); }
#line 50 "nine.c"
extern "C" void m8( int c, int & n ) { before(); SHIVA_ASSERT_MSG( ( ++n, c & 2 ), "bit" ); after(); }
'''
    big = (1 << 31) - 1
    lit = lambda s: ('lit', s)
    val = lambda f, v: ('val', f, v)
    # function, passing ranges with the number of evaluations, failing ranges: (range, file, line, message, evaluations)
    cases = [
        ('m0', [((4, big), 1)], [((-big - 1, 3), 'some/file one.c', 4321, lambda c: [lit('m '), val('%d', c), lit(' of '), val('%s', lambda p: cstring(p) == 'x')], 1)]),
        ('m1', [((1, 1), 0), ((2, 2), 1)], [((-big - 1, 0), 'two.c', 77, lambda c: [lit('either')], 1), ((3, big), 'two.c', 77, lambda c: [lit('either')], 1)]),
        ('m2', [((1, 9), 1), ((-big - 1, 0), 100)], [((10, big), 'three.c', 9, lambda c: [val('%d', c)], 1)]),
        ('m3', [((4, big), 1)], [((-big - 1, 3), 'four.c', 123456, lambda c: [val('%d', lambda v: v == 5)], 1)]),
        ('m4', [((6, big), 2)], [((-big - 1, 3), 'five.c', (13, 16), lambda c: [val('%d', c), lit(' '), val('%d', lambda v: v == 1)], 1),
                                 ((4, 5), 'five.c', (17, 17), lambda c: [lit('second '), val('%d', lambda v: v == 2)], 2)]),
        ('m5', [((3, 3), 3), ((0, 0), 0)], []),
        ('m6', [((2, big), 1)], [((-big - 1, 1), 'seven.c', 30, lambda c: [lit('q')], 1)]),
        ('m8', [((2, 2), 1), ((7, 7), 1)], [((5, 5), 'nine.c', 50, lambda c: [lit('bit')], 1)]),
    ]

    def passing(ctx, o, what, n):
        if not returns(ctx, o, what):
            return
        cs = [e[1] for e in o.calls() if not e[1].startswith(QUIET)]
        ctx.ob(cs == ['@before', '@after'] and not getattr(o, 'text', []), what + ': nothing is reported', repr(cs), loc_str(o.loc))
        v = final(o, o.args[1].obj, 0, 'int')
        ctx.ob(is_rf(v, RF.const(n)), what + ': the condition is evaluated once', '%r, expected %d' % (v, n))

    def failing(ctx, o, what, file, line, msg, n):
        cs = [e[1] for e in o.calls() if not e[1].startswith(QUIET)]
        ctx.ob('@after' not in cs and cs[:1] == ['@before'], what + ': the program does not go on', repr(cs), loc_str(o.loc))
        lo, hi = line if isinstance(line, tuple) else (line, line)
        report(ctx, o, what, lambda v: file if v is None else cstring(v) == file, lambda v: isinstance(v, int) and lo <= v <= hi, msg(o.args[0]), True)
        v = final(o, o.args[1].obj, 0, 'int')
        ctx.ob(is_rf(v, RF.const(n)), what + ': the condition is evaluated once', '%r, expected %d' % (v, n))

    def verify(mod, ctx):
        ext = Streams().ext

        def zero(m, n, v, x):
            m.o.events.append(('call', n, v, m.loc))
        ext['@before'] = zero
        ext['@after'] = zero

        def go(f, rng, judge, what):
            for _, o in outcomes(mod, ctx, f, [Box(rng[0], rng[1]), Buf('n', 'int', 1, 'zero')], externals=ext):
                only(ctx, o, what, ('@before', '@after'))
                judge(o)
        for f, good, bad in cases:
            for rng, n in good:
                w = 'assertion %s with %d..%d' % (f, *rng)
                go(f, rng, lambda o: passing(ctx, o, w, n), w)
            for rng, file, line, msg, n in bad:
                w = 'assertion %s with %d..%d' % (f, *rng)
                go(f, rng, lambda o: failing(ctx, o, w, file, line, msg, n), w)
        kinds = set()
        for _, o in outcomes(mod, ctx, 'm7', [Real('c'), Buf('n', 'int', 1, 'zero')], externals=ext):
            kinds.add(o.kind)
            pos = any(s == frozenset((1,)) for _, s in o.guards)
            if pos:
                passing(ctx, o, 'assertion on a real', 1)
            else:
                failing(ctx, o, 'assertion on a real', 'eight.c', 40, lambda c: [val('%g', c)], 1)
        ctx.ob(kinds == {'ret', 'abort'}, 'assertion on a real: the condition decides', repr(kinds))
    return Job('assertion macro c++%s %s' % (std, ' '.join(defs)), src, verify, std=std, bounds=bounds, extra=defs)


LIB = '''#include "shiva/common/CArray.hpp"
#include "shiva/common/MultiIndex.hpp"
#include "shiva/common/IndexTypes.hpp"
using namespace shiva;
'''
WIDTH = {None: ('i', 32), 'h': ('i', 32), 'hh': ('i', 32), 'l': ('i', 64), 'll': ('i', 64), 'j': ('i', 64), 'z': ('i', 64), 't': ('i', 64)}


def library(bt):
    """The library's own assertions: format and arguments agree, index and extent are named."""
    sh = (3, 5)
    src = LIB + '''using I = %s;
extern "C" double c0( CArrayNd< double, 3, 5 > const & a, I i, I j ) { return a( i, j ); }
extern "C" double c1( CArrayNd< double, 3, 5 > & a, I i, I j ) { return a( i, j ); }
extern "C" double c2( CArrayNd< double, 3, 5 > const & a, I i, I j ) { auto s = a[i]; return s[j]; }
extern "C" double c3( CArrayNd< double, 3, 5 > & a, I i, I j ) { auto s = a[i]; return s[j]; }
extern "C" double c4( CArrayNd< double, 3, 5 > & a, I i, I j ) { return a[i]( j ); }
extern "C" double c5( CArrayNd< double, 5 > & a, I, I j ) { return a( j ); }
extern "C" double c6( CArrayNd< double, 5 > & a, I, I j ) { return a[j]; }
''' % bt
    w, sg = {'int': (32, True), 'long': (64, True), 'short': (16, True), 'signed char': (8, True)}[bt]

    def verify(mod, ctx):
        ext = Streams().ext
        fails = [g for g in mod.functions if 'shivaAssertionFailed' in g]
        types = {}

        def hook(m, n, v, x):
            m.o.sent = ([t for t, _, _ in x.a[1]], v)
            return m.call_internal(n, v)
        for g in fails:
            ext[g] = hook
        for f in ('c0', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6'):
            two = f < 'c5'
            for i, j, k, d in ([(3, 0, 0, 3), (-1, 4, 0, 3)] if two else []) + [(0, 5, 1, 5), (2, -1, 1, 5)]:
                for _, o in outcomes(mod, ctx, f, [Buf('a', 'double', 15), Int(i, w), Int(j, w)], externals=ext):
                    what = 'access %s with %s ( %d, %d )' % (f, bt, i, j)
                    if o.kind != 'abort' or not hasattr(o, 'sent'):
                        ctx.ob(o.kind == 'abort' and bool(getattr(o, 'text', [])), what + ' is reported', o.kind)
                        continue
                    ts, vs = o.sent
                    fmt = next((q for q, v in enumerate(vs) if cstring(v) is not None and q > 0), None)
                    fs = cstring(vs[fmt])
                    va, vt = vs[fmt + 1:], ts[fmt + 1:]
                    cs = [m for m in CONV.finditer(fs) if m.group(5) != '%']
                    ok = len(cs) == len(va)
                    for m, t in zip(cs, vt):
                        c = m.group(5)
                        want = WIDTH.get(m.group(4)) if c in 'dioxuXc' else ('ptr',) if c in 'sp' else ('double',)
                        ok = ok and tuple(t[:len(want)]) == want
                    ctx.ob(ok, what + ': the conversions fit the types of the arguments', '%r %r' % (fs, vt), loc_str(o.loc))
                    got = [signed(v, t[1]) for v, t in zip(va, vt) if isinstance(v, int) and t[0] == 'i']
                    ctx.ob((i, j)[k] in got and d in got, what + ': the report names the index and the extent', repr(got), loc_str(o.loc))
                    ctx.ob(any(x[1][0] == 'val' and x[1][1] == '%s' and (cstring(x[1][2]) or '').endswith(('.hpp', '.h')) for x in o.text), what + ': the report names the header')
    return Job('assertions of the library, index type ' + bt, src, verify, bounds=True)


def device(kind, std):
    name = 'device %s c++%s' % (kind, std)
    tag = re.sub(r'\W+', '_', name)

    def fn(scratch, ctx):
        path = scratch.path(tag + '.hip')
        open(path, 'w').write('#include <cstdio>\nextern "C" __device__ int rt_printf( char const *, ... );\nnamespace std { using ::rt_printf; }\n#define printf rt_printf\n' + INC + 'extern "C" __device__ void after(); extern "C" __device__ void f( int c, int & n ) { SHIVA_ASSERT_MSG( ( ++n, c > 3 ), "m" ); after(); }\nextern "C" __device__ void g( char const * file, int line, bool ab ) { shivaAssertionFailed( file, line, ab, "m" ); after(); }\n')
        bc = scratch.path(tag + '.bc')
        rc, _, err = run([CLANG] + flags(scratch, kind, 'device', std, False) + ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-c', '-emit-llvm', path, '-o', bc])
        if rc:
            ctx.ob(False, 'assertions compile for the %s backend' % kind, '\n'.join(first_errors(err)))
            return
        ctx.ob(True, 'assertions compile for the %s backend' % kind)
        rc, text, err = run([OPT, '-S', '-passes=sroa', bc, '-o', '-'])
        if rc:
            raise Broken('opt failed')
        mod = ir.Module(text)
        ext = Streams().ext

        def trap(m, n, v, x):
            from sa.absint import Stop
            m.o.events.append(('call', n, v, m.loc))
            raise Stop('abort', n, m.loc)
        ext['@rt_printf'] = ext['@printf']
        ext['@__trap'] = ext['@_Z6__trapv'] = trap
        ext['@after'] = lambda m, n, v, x: m.o.events.append(('call', n, v, m.loc))
        big = (1 << 31) - 1
        for rng in ((4, big), (-big - 1, 3)):
            for _, o in outcomes(mod, ctx, 'f', [Box(*rng), Buf('n', 'int', 1, 'zero')], externals=ext):
                what = '%s device assertion with %d..%d' % (kind, *rng)
                v = final(o, o.args[1].obj, 0, 'int')
                ctx.ob(is_rf(v, RF.const(1)), what + ': condition evaluated once', repr(v))
                if rng[0] == 4:
                    ctx.ob(o.kind == 'ret' and not getattr(o, 'text', []) and [e[1] for e in o.calls()] == ['@after'], what + ': silent', '%s %r' % (o.kind, o.events))
                else:
                    vals = [t for _, t, _ in getattr(o, 'text', []) if t[0] == 'val']
                    ctx.ob(o.kind == 'abort' and not [e for e in o.calls() if e[1] == '@after'], what + ': ends the kernel', o.kind)
                    ctx.ob(len(vals) >= 2 and (cstring(vals[0][2]) or '').endswith(tag + '.hip') and vals[1][2] == 6, what + ': reports file and line', repr(getattr(o, 'text', [])))
                    ctx.ob(any(t[0] == 'lit' and 'm' in t[1] for _, t, _ in getattr(o, 'text', [])[2:]), what + ': reports the message', repr(getattr(o, 'text', [])))
        for ab in (0, 1):
            for _, o in outcomes(mod, ctx, 'g', [Buf('file', 'char', 64), SymInt('line'), Int(ab, 1)], externals=ext):
                what = '%s device report, abort %s' % (kind, 'on' if ab else 'off')
                vals = [t for _, t, _ in getattr(o, 'text', []) if t[0] == 'val']
                ctx.ob(o.kind == 'abort' and not [e for e in o.calls() if e[1] == '@after'], what + ': ends the kernel', o.kind)
                ctx.ob(len(vals) >= 2 and same(vals[0][2], o.args[0]) and same(vals[1][2], o.args[1]), what + ': reports the file and line given', repr(getattr(o, 'text', [])))
    return FnJob(name, fn)


def build(tier):
    jobs = []
    for i, std in enumerate(('17', '20', '23')):
        for defs in ([], ['-DNDEBUG']) if tier == 'thorough' or i == 0 else ([['-DNDEBUG'], []][i - 1],):
            jobs += [direct(std, defs, i == 1), macro(std, defs, i == 0)]
    for bt in ('int', 'long', 'short', 'signed char'):
        jobs.append(library(bt))
    for kind in ('cuda', 'hip'):
        for std in ('17', '20') if tier == 'thorough' else ('17',):
            jobs.append(device(kind, std))
    return jobs
