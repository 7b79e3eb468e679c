"""Abstract interpretation of LLVM IR with trace partitioning.

Value domain
  integers   exact constants, signed intervals (IV), symbolic integers (ISym, a polynomial)
  reals      rational functions of the symbolic inputs (poly.RF), exact over the reals
  pointers   (object, offset)
  memory     per object a map offset -> (size, value); argument objects start out symbolic
Branches on integers must be decided by the intervals; when they are not, the caller splits the
input interval (Undecided), so every partition is decided exactly.  Branches on real conditions fork
the trace and leave a sign constraint (guard) on it.  Nothing is executed and no solver is used.
"""
from fractions import Fraction
import re
import struct
import sys
import threading
from .poly import Poly, RF, VARS, P1
from . import ir as IR

sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


class Inconclusive(Exception):
    """The domain cannot represent what the code does: the analysis has no answer."""


class Undecided(Exception):
    """A branch or address depends on where in its interval an integer input lies."""


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class IV:
    """Signed interval lo..hi (lo < hi) of a w-bit integer."""
    __slots__ = ('lo', 'hi', 'w')

    def __init__(self, lo, hi, w):
        self.lo, self.hi, self.w = lo, hi, w

    def __repr__(self):
        return '[%d,%d]' % (self.lo, self.hi)


class ISym:
    """Symbolic integer: a polynomial over symbolic integer inputs (no wrap-around assumed) or an opaque name."""
    __slots__ = ('rf',)

    def __init__(self, rf):
        self.rf = rf

    def __repr__(self):
        return 'int(%r)' % self.rf


class Cond:
    """i1 value: sign of a polynomial/rational in a set of signs."""
    __slots__ = ('rf', 'signs')

    def __init__(self, rf, signs):
        self.rf, self.signs = rf, frozenset(signs)

    def __repr__(self):
        return 'sign(%r) in %s' % (self.rf, sorted(self.signs))


class CondTree:
    """Boolean combination of conditions, decided lazily: ('and'|'or'|'xor', a, b)."""
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


class Obj:
    __slots__ = ('name', 'size', 'kind', 'cells', 'init', 'const', 'elem', 'alive')

    def __init__(self, name, size, kind, init):
        self.name, self.size, self.kind, self.init = name, size, kind, init
        self.cells = {}
        self.const = False
        self.elem = None
        self.alive = True

    def __repr__(self):
        return self.name


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'null+%r' % self.off if self.obj is None else '&%s+%r' % (self.obj.name, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Agg:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.e))


class Pieces:
    """Integer-typed bit pattern assembled from memory cells: [(offset, size, value)]."""
    __slots__ = ('p', 'size')

    def __init__(self, p, size):
        self.p, self.size = p, size

    def __repr__(self):
        return 'bits%r' % (self.p,)


class Stop(Exception):
    def __init__(self, kind, detail=None, loc=None):
        self.kind, self.detail, self.loc = kind, detail, loc


class Outcome:
    def __init__(self):
        self.kind = None       # ret | abort | oob | undef | div0 | unreachable
        self.value = None
        self.events = []       # ('call', name, args, loc) | ('store', obj, off, size, value, loc)
        self.guards = []       # Cond-like (rf, signs)
        self.detail = None
        self.loc = None
        self.args = None

    def calls(self):
        return [e for e in self.events if e[0] == 'call']

    def stores(self, obj=None):
        return [e for e in self.events if e[0] == 'store' and (obj is None or e[1] is obj)]


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


MATH_TERMINATORS = {'@abort', '@llvm.trap', '@exit', '@_exit', '@quick_exit', '@_ZSt9terminatev', '@__assert_fail',
                    '@llvm.ubsantrap', '@__cxa_pure_virtual', '@__cxa_throw', '@__cxa_rethrow', '@_ZSt20__throw_length_errorPKc',
                    '@__cxa_bad_cast', '@_ZSt17__throw_bad_allocv', '@_ZSt24__throw_out_of_range_fmtPKcz'}

ROUND_F32 = True


def f32(fr):
    try:
        return Fraction(struct.unpack('f', struct.pack('f', float(fr)))[0])
    except (OverflowError, ValueError):
        return fr


class Stats:
    def __init__(self):
        self.instrs = 0
        self.partitions = 0
        self.functions = set()
        self.narrow = []


class Machine:
    def __init__(self, mod, stats=None, externals=None, max_instr=30_000_000, cuts=None, track_real=False, strict_gep=False):
        self.mod = mod
        self.T = mod.types
        self.stats = stats or Stats()
        self.externals = externals or {}
        self.max_instr = max_instr
        self.cuts = {}
        for name, p in (cuts or []):
            self.cuts.setdefault(len(p.t), []).append((name, p))
        self.cut_tol = 1e-11
        self.track_real = track_real
        self.fmemo = {}
        self.strict_gep = strict_gep

    # ------------------------------------------------------------------ driver
    def explore(self, fname, make_args, max_paths=64):
        """All real-condition traces of fname; make_args() builds fresh argument values. Returns ([Outcome], why), why being
        the reason that there are more traces than these (None if there are not)."""
        work = [()]
        out = []
        while work:
            dec = work.pop()
            try:
                o, taken = self.run(fname, make_args, dec)
            except Inconclusive as e:
                return out, e
            for i in range(len(dec), len(taken)):
                work.append(tuple(taken[:i]) + (not taken[i],))
            out.append(o)
            if len(out) > max_paths:
                return out, Inconclusive('more than %d traces in %s' % (max_paths, fname))
        return out, None

    def run(self, fname, make_args, decisions=()):
        self.dec = list(decisions)
        self.taken = []
        self.known = {}
        self.ranges = {}
        self.gobjs = {}
        self.int_width = {}
        self.o = Outcome()
        self.n = 0
        self.depth = 0
        self.allocs = 0
        self.loc = None
        args = make_args(self)
        self.o.args = args
        self.stats.partitions += 1
        try:
            self.o.value = self.call_internal(fname, args)
            self.o.kind = 'ret'
        except Stop as s:
            self.o.kind, self.o.detail, self.o.loc = s.kind, s.detail, s.loc
        return self.o, self.taken

    # ------------------------------------------------------------------ objects
    def arg_object(self, name, size=None, init='sym', elem=None):
        o = Obj(name, size, 'arg', init)
        o.elem = elem
        return o

    def global_obj(self, name):
        o = self.gobjs.get(name)
        if o is not None:
            return o
        g = self.mod.global_(name)
        if g is None:
            if name in self.mod.functions or name in self.mod.declares:
                return None
            raise Inconclusive('unknown global ' + name)
        if g.init is None:
            o = Obj(name, self.T.size(g.type), 'extglobal', 'sym')
        else:
            # what a mutable variable holds depends on the history of the program: any value
            o = Obj(name, self.T.size(g.type), 'global', 'zero' if g.const else 'sym')
            self.gobjs[name] = o
            if not g.const:
                pass
            elif g.init[0] == 'bytes':
                for i, b in enumerate(g.init[1]):
                    o.cells[i] = (1, b)
            else:
                self.init_const(o, 0, g.type, g.init)
            o.const = g.const
        self.gobjs[name] = o
        return o

    def init_const(self, o, off, t, v):
        k = v[0]
        if k == 'zero':
            return
        if k == 'undef':
            return
        t = self.T.resolve(t)
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fo, _ = self.T.field_offset(t, i)
                self.init_const(o, off + fo, et, ev)
            return
        o.cells[off] = (self.T.size(t), self.val(v, t, None))

    # ------------------------------------------------------------------ operands
    def val(self, v, t, fr):
        k = v[0]
        if k == 'loc':
            try:
                return fr[v[1]]
            except KeyError:
                raise Inconclusive('unset %s' % v[1])
        if k == 'int':
            return v[1] & ((1 << t[1]) - 1) if t[0] == 'i' else v[1]
        if k == 'fp':
            return v[1] if isinstance(v[1], str) else self.narrowed(RF.const(v[1]), 'constant') if self.track_real and t[0] == 'double' else RF.const(v[1])
        if k == 'glob':
            o = self.global_obj(v[1])
            return Fn(v[1]) if o is None else Ptr(o, 0)
        if k == 'null':
            return Ptr(None, 0)
        if k == 'zero':
            return self.zero(t)
        if k == 'undef':
            return self.undef(t)
        if k == 'agg':
            return Agg([self.val(x, et, fr) for et, x in v[1]])
        if k == 'bytes':
            return Agg(list(v[1]))
        if k == 'gep':
            return self.gep(v[1], self.val(v[2], ('ptr',), fr), [(it, self.val(iv, it, fr)) for it, iv in v[3]])
        if k == 'ccast':
            return self.val(v[3], v[2], fr)
        if k == 'cbin':
            return self.intop(v[1], self.val(v[3], v[2], fr), self.val(v[4], v[2], fr), v[2][1], [])
        if k == 'ccmp':
            return self.icmp(v[1], self.val(v[3], v[2], fr), self.val(v[4], v[2], fr), v[2])
        raise Inconclusive('operand %r' % (v,))

    def undef(self, t):
        t = self.T.resolve(t)
        if t[0] == 'struct':
            return Agg([self.undef(e) for e in t[1]])
        if t[0] in ('arr', 'vec'):
            return Agg([self.undef(t[2]) for _ in range(t[1])])
        return UNDEF

    def zero(self, t):
        t = self.T.resolve(t)
        if t[0] == 'i':
            return 0
        if t[0] in ('double', 'float', 'x86_fp80', 'half'):
            return RF(Poly())
        if t[0] == 'ptr':
            return Ptr(None, 0)
        if t[0] == 'struct':
            return Agg([self.zero(e) for e in t[1]])
        if t[0] in ('arr', 'vec'):
            return Agg([self.zero(t[2]) for _ in range(t[1])])
        raise Inconclusive('zero of %r' % (t,))

    # ------------------------------------------------------------------ memory
    def gep(self, bt, base, idx):
        if base is UNDEF:
            raise Stop('undef', 'pointer arithmetic on an undefined pointer', self.loc)
        if not isinstance(base, Ptr):
            raise Inconclusive('gep on %r' % (base,))
        off = base.off
        t = bt
        for n, (it, i) in enumerate(idx):
            if n == 0:
                sz = self.T.size(t)
                st = None
            else:
                rt = self.T.resolve(t)
                if rt[0] == 'struct':
                    fo, t = self.T.field_offset(rt, i)
                    off = self.addoff(off, fo)
                    continue
                sz, t = self.T.size(rt[2]), rt[2]
            if isinstance(i, int):
                off = self.addoff(off, signed(i, it[1]) * sz)
            elif isinstance(i, IV):
                off = self.addoff(off, IV(i.lo * sz, i.hi * sz, 64))
            elif i is UNDEF:
                raise Stop('undef', 'undefined index', self.loc)
            elif sz == 0:
                pass
            elif isinstance(i, ISym):
                off = self.addoff(off, ISym(i.rf * RF.const(sz)))
            else:
                raise Inconclusive('gep index %r' % (i,))
        if self.strict_gep and isinstance(off, int) and off != base.off:
            o = base.obj
            if o is None:
                raise Stop('oob', 'arithmetic on a null pointer', self.loc)
            if o.size is not None and not 0 <= off <= o.size:
                raise Stop('oob', 'pointer arithmetic to offset %d of %s (%d bytes)' % (off, o.name, o.size), self.loc)
        return Ptr(base.obj, off)

    @staticmethod
    def addoff(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(a, ISym) or isinstance(b, ISym):
            def rf(x):
                if isinstance(x, int):
                    return RF.const(x)
                if isinstance(x, ISym):
                    return x.rf
                raise Undecided()
            r = rf(a) + rf(b)
            if r.is_const():
                return int(r.num.const_value())
            return ISym(r)
        la, ha = (a, a) if isinstance(a, int) else (a.lo, a.hi)
        lb, hb = (b, b) if isinstance(b, int) else (b.lo, b.hi)
        return IV(la + lb, ha + hb, 64)

    def check_access(self, p, size, what):
        if p is UNDEF:
            raise Stop('undef', '%s through an undefined pointer' % what, self.loc)
        if not isinstance(p, Ptr):
            raise Inconclusive('%s through %r' % (what, p))
        if isinstance(p.off, IV):
            o = p.obj
            if o is not None and o.size is not None and (p.off.hi < 0 or p.off.lo + size > o.size):
                raise Stop('oob', '%s of %d bytes at offset %r of %s (%d bytes)' % (what, size, p.off, o.name, o.size), self.loc)
            raise Undecided('address')
        if isinstance(p.off, ISym):
            raise Inconclusive('%s at symbolic offset %r' % (what, p.off))
        o = p.obj
        if o is None:
            raise Stop('oob', '%s through a null pointer' % what, self.loc)
        if not o.alive:
            raise Stop('undef', '%s of %s after the end of its lifetime' % (what, o.name), self.loc)
        if o.size is not None and (p.off < 0 or p.off + size > o.size):
            raise Stop('oob', '%s of %d bytes at offset %d of %s (%d bytes)' % (what, size, p.off, o.name, o.size), self.loc)
        return o

    def fresh(self, o, off, size, t):
        if t[0] in ('double', 'float', 'half', 'x86_fp80'):
            return RF.var('%s[%d]' % (o.name, off // size))
        if t[0] == 'ptr':
            return Ptr(Obj('*%s[%d]' % (o.name, off // 8), None, 'opaque', 'sym'), 0)
        if t[0] == 'i':
            v = ISym(RF.var('%s[%d]' % (o.name, off // size)))
            self.note_width(v, t)
            return v
        raise Inconclusive('fresh %r' % (t,))

    def note_width(self, v, t):
        if t[0] == 'i':
            for n in v.rf.num.names():
                self.int_width.setdefault(n, t[1])

    def load(self, p, t):
        t = self.T.resolve(t)
        size = self.T.store_size(t)
        if size == 0:
            return Agg([])
        o = self.check_access(p, size, 'read')
        if t[0] in ('struct', 'arr', 'vec'):
            es = []
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                fo, ft = self.T.field_offset(t, i)
                es.append(self.load(Ptr(o, p.off + fo), ft))
            return Agg(es)
        if o.kind not in ('alloca', 'global'):
            self.o.events.append(('load', o, p.off, size, self.loc))
        elif o.kind == 'global' and not o.const:
            self.o.events.append(('load', o, p.off, size, self.loc))
        return self.read_scalar(o, p.off, size, t)

    def read_scalar(self, o, off, size, t):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(c[1], t, size)
        # gather
        parts = []
        pos = off
        end = off + size
        cells = o.cells
        missing = False
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                parts.append((pos - off, c[0], c[1]))
                pos += c[0]
                continue
            # covered by an earlier, larger cell?
            found = None
            for back in range(1, 32):
                cb = cells.get(pos - back)
                if cb is not None:
                    if pos - back + cb[0] > pos:
                        found = (pos - back, cb)
                    break
            if c is not None:
                found = (pos, c)
            if found:
                base, (bs, bv) = found
                take = min(base + bs, end) - pos
                parts.append((pos - off, take, self.sub_bits(bv, bs, pos - base, take)))
                pos += take
                continue
            # uncovered byte run
            nxt = pos + 1
            while nxt < end and nxt not in cells:
                nxt += 1
            run = nxt - pos
            if o.init == 'zero':
                parts.append((pos - off, run, 0))
            elif o.init == 'sym' and run == size and not (t[0] == 'i' and o.elem is not None and self.T.size(o.elem) < run and run % self.T.size(o.elem) == 0):
                v = self.fresh(o, off, size, t)
                cells[off] = (size, v)
                return v
            elif o.init == 'sym' and o.elem is not None and run % self.T.size(o.elem) == 0:
                es = self.T.size(o.elem)
                for q in range(pos, nxt, es):
                    v = self.fresh(o, q, es, o.elem)
                    cells[q] = (es, v)
                    parts.append((q - off, es, v))
            elif o.init == 'sym':
                v = self.fresh(o, pos, run, ('i', run * 8))
                cells[pos] = (run, v)
                parts.append((pos - off, run, v))
            else:
                parts.append((pos - off, run, UNDEF))
            pos = nxt
        if len(parts) == 1:
            return self.retype(parts[0][2], t, size)
        if all(isinstance(v, int) for _, _, v in parts):
            r = 0
            for po, ps, v in parts:
                r |= (v & ((1 << (8 * ps)) - 1)) << (8 * po)
            return self.retype(r, t, size)
        if all(v is UNDEF for _, _, v in parts):
            return UNDEF
        if t[0] == 'i':
            return Pieces(parts, size)
        raise Inconclusive('mixed read of %r at %s+%d: %r' % (t, o.name, off, parts))

    def sub_bits(self, v, size, start, n):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return (v >> (8 * start)) & ((1 << (8 * n)) - 1)
        if isinstance(v, Pieces):
            ps = [(o - start, s, x) for o, s, x in v.p if o >= start and o + s <= start + n]
            if sum(s for _, s, _ in ps) == n:
                return ps[0][2] if len(ps) == 1 else Pieces(ps, n)
        if isinstance(v, RF) and v.is_const() and size in (4, 8):
            f = float(v.num.const_value())
            bits = struct.unpack('<Q' if size == 8 else '<I', struct.pack('<d' if size == 8 else '<f', f))[0]
            return (bits >> (8 * start)) & ((1 << (8 * n)) - 1)
        raise Inconclusive('partial read of %r' % (v,))

    def retype(self, v, t, size):
        """Reinterpret a stored scalar as type t."""
        if v is UNDEF:
            return v
        if t[0] in ('double', 'float'):
            if isinstance(v, int):
                b = v.to_bytes(size, 'little')
                f = struct.unpack('<d' if size == 8 else '<f', b)[0]
                if f != f:
                    return 'nan'
                if f in (float('inf'), float('-inf')):
                    return 'inf' if f > 0 else '-inf'
                return RF.const(f)
            if isinstance(v, (RF, str)):
                return v
            raise Inconclusive('reinterpret %r as %r' % (v, t))
        if t[0] == 'ptr' and isinstance(v, int):
            if v == 0:
                return Ptr(None, 0)
            return Ptr(None, v)
        return v

    def store(self, p, t, v):
        t = self.T.resolve(t)
        size = self.T.store_size(t)
        if size == 0:
            return
        o = self.check_access(p, size, 'write')
        if t[0] in ('struct', 'arr', 'vec'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                fo, ft = self.T.field_offset(t, i)
                self.store(Ptr(o, p.off + fo), ft, UNDEF if v is UNDEF else v.e[i])
            return
        if o.const:
            raise Stop('oob', 'write to constant %s' % o.name, self.loc)
        self.write_cell(o, p.off, size, v)
        if o.kind != 'alloca':
            self.o.events.append(('store', o, p.off, size, v, self.loc))

    def write_cell(self, o, off, size, v):
        if isinstance(v, Pieces):
            self.clear(o, off, size)
            for po, ps, x in v.p:
                o.cells[off + po] = (ps, x)
            return
        c = o.cells.get(off)
        if not (c is not None and c[0] == size):
            self.clear(o, off, size)
        o.cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells
        for pos in range(off - 31, off + size):
            c = cells.get(pos)
            if c is None or pos + c[0] <= off:
                continue
            del cells[pos]
            cs, cv = c
            if pos < off:
                cells[pos] = (off - pos, self.sub_bits(cv, cs, 0, off - pos))
            if pos + cs > off + size:
                k = off + size - pos
                cells[off + size] = (cs - k, self.sub_bits(cv, cs, k, cs - k))

    def memcpy(self, d, s, n):
        if not isinstance(n, int):
            raise Inconclusive('memcpy of symbolic length')
        if n == 0:
            return
        so = self.check_access(s, n, 'read')
        do = self.check_access(d, n, 'write')
        if do.const:
            raise Stop('oob', 'write to constant %s' % do.name, self.loc)
        if so.kind not in ('alloca',) and not (so.kind == 'global' and so.const):
            self.o.events.append(('load', so, s.off, n, self.loc))
        items = []
        if so.init == 'sym':
            es = self.T.size(so.elem) if so.elem else None
            pos = s.off
            while pos < s.off + n:
                c = so.cells.get(pos)
                if c is None:
                    if es is None:
                        es2 = 8 if (s.off + n - pos) % 8 == 0 and pos % 8 == 0 else 4 if pos % 4 == 0 and (s.off + n - pos) % 4 == 0 else 1
                        self.read_scalar(so, pos, es2, ('double',) if es2 == 8 else ('i', 8 * es2))
                    else:
                        self.read_scalar(so, pos, es, so.elem)
                    c = so.cells[pos]
                pos += c[0]
        # split cells on the borders
        pos = s.off
        cells = so.cells
        covered = sorted(k for k in cells if k + cells[k][0] > s.off and k < s.off + n)
        for k in covered:
            sz, v = cells[k]
            a, b = max(k, s.off), min(k + sz, s.off + n)
            if a != k or b != k + sz:
                v = self.sub_bits(v, sz, a - k, b - a)
            items.append((a - s.off, b - a, v))
        gaps = []
        pos = 0
        for po, ps, v in items:
            if po > pos:
                gaps.append((pos, po - pos))
            pos = po + ps
        if pos < n:
            gaps.append((pos, n - pos))
        self.clear(do, d.off, n)
        for po, ps, v in items:
            do.cells[d.off + po] = (ps, v)
        for po, ps in gaps:
            if so.init == 'zero':
                if do.init != 'zero':
                    self.fill_zero(do, d.off + po, ps)
            elif do.init != 'uninit':
                for b in range(ps):
                    do.cells[d.off + po + b] = (1, UNDEF)
        if do.kind != 'alloca':
            for po, ps, v in items:
                self.o.events.append(('store', do, d.off + po, ps, v, self.loc))
            for po, ps in gaps:
                self.o.events.append(('store', do, d.off + po, ps, 0 if so.init == 'zero' else UNDEF, self.loc))

    def fill_zero(self, o, off, n):
        pos = off
        while pos < off + n:
            es = 8 if pos % 8 == 0 and off + n - pos >= 8 else 4 if pos % 4 == 0 and off + n - pos >= 4 else 1
            o.cells[pos] = (es, 0)
            pos += es

    def memset(self, d, b, n):
        if not isinstance(n, int) or not isinstance(b, int):
            raise Inconclusive('memset of symbolic length')
        if n == 0:
            return
        o = self.check_access(d, n, 'write')
        self.clear(o, d.off, n)
        if b == 0:
            self.fill_zero(o, d.off, n)
        else:
            for i in range(n):
                o.cells[d.off + i] = (1, b & 255)
        if o.kind != 'alloca':
            self.o.events.append(('store', o, d.off, n, 0 if b == 0 else ('memset', b), self.loc))

    # ------------------------------------------------------------------ integers
    def intop(self, op, a, b, w, flags):
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                return a & b
            elif op == 'or':
                return a | b
            elif op == 'xor':
                return a ^ b
            elif op == 'shl':
                if b >= w:
                    raise Stop('undef', 'shift by %d' % b, self.loc)
                r = a << b
            elif op == 'lshr':
                if b >= w:
                    raise Stop('undef', 'shift by %d' % b, self.loc)
                r = a >> b
            elif op == 'ashr':
                if b >= w:
                    raise Stop('undef', 'shift by %d' % b, self.loc)
                r = signed(a, w) >> b
            elif op in ('sdiv', 'srem', 'udiv', 'urem'):
                if b == 0:
                    raise Stop('div0', 'integer division by zero', self.loc)
                if op[0] == 's':
                    x, y = signed(a, w), signed(b, w)
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    r = q if op == 'sdiv' else x - q * y
                else:
                    r = a // b if op == 'udiv' else a % b
            else:
                raise Inconclusive('int op ' + op)
            if 'nsw' in flags and op in ('add', 'sub', 'mul', 'shl'):
                x, y = signed(a, w), signed(b, w)
                ex = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x << b
                if ex != signed(ex & M, w):
                    raise Stop('overflow', 'signed overflow in %s' % op, self.loc)
            return r & M
        if a is UNDEF or b is UNDEF:
            if op in ('and',) and (a == 0 or b == 0):
                return 0
            return UNDEF
        if isinstance(a, (Cond, CondTree)) or isinstance(b, (Cond, CondTree)):
            if op in ('and', 'or', 'xor'):
                if w == 1:
                    for x, y in ((a, b), (b, a)):
                        if isinstance(x, int):
                            if op == 'and':
                                return y if x else 0
                            if op == 'or':
                                return 1 if x else y
                            if op == 'xor':
                                return self.negate(y) if x else y
                return CondTree(op, a, b)
            a = self.force(a) if isinstance(a, (Cond, CondTree)) else a
            b = self.force(b) if isinstance(b, (Cond, CondTree)) else b
            return self.intop(op, a, b, w, flags)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                d = self.addoff(a.off, self.negoff(b.off))
                return d & ((1 << w) - 1) if isinstance(d, int) else d
            if op == 'add':
                p, i = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(i, int):
                    return Ptr(p.obj, self.addoff(p.off, signed(i, w)))
                if isinstance(i, (IV, ISym)):
                    return Ptr(p.obj, self.addoff(p.off, i))
            raise Inconclusive('pointer arithmetic %s' % op)
        if isinstance(a, Pieces) or isinstance(b, Pieces):
            if isinstance(a, Pieces) and isinstance(b, int):
                if op == 'lshr' and b % 8 == 0:
                    k = b // 8
                    ps = [(o - k, s, x) for o, s, x in a.p if o >= k]
                    if all(o + s <= k or o >= k for o, s, x in a.p):
                        ps.append((a.size - k, k, 0))
                        return Pieces(ps, a.size)
                if op == 'and' and (b & (b + 1)) == 0 and b.bit_length() % 8 == 0:
                    k = b.bit_length() // 8
                    return Pieces([(o, s, x) for o, s, x in a.p if o + s <= k] + [(k, a.size - k, 0)], a.size)
            if op == 'or' and isinstance(a, Pieces) and isinstance(b, Pieces):
                za = {o: (s, x) for o, s, x in a.p if x != 0 or not isinstance(x, int)}
                zb = {o: (s, x) for o, s, x in b.p if x != 0 or not isinstance(x, int)}
                return Pieces(sorted([(o, s, x) for o, (s, x) in za.items()] + [(o, s, x) for o, (s, x) in zb.items()],
                                     key=lambda q: q[0]), a.size)
            if op == 'shl' and isinstance(a, Pieces) and isinstance(b, int) and b % 8 == 0:
                k = b // 8
                return Pieces([(0, k, 0)] + [(o + k, s, x) for o, s, x in a.p if o + s + k <= a.size], a.size)
            raise Inconclusive('bit operation %s on assembled value' % op)
        if isinstance(a, ISym) or isinstance(b, ISym):
            ra, rb = self.int_rf(a, w), self.int_rf(b, w)
            if op == 'add':
                return self.isym(ra + rb, w)
            if op == 'sub':
                return self.isym(ra - rb, w)
            if op == 'mul':
                return self.isym(ra * rb, w)
            if op == 'shl' and isinstance(b, int):
                return self.isym(ra * RF.const(1 << b), w)
            return ISym(RF.var('%s(%r,%r)' % (op, ra, rb)))
        # intervals
        if isinstance(a, (IV, int)) and isinstance(b, (IV, int)):
            al, ah = self.bounds(a, w)
            bl, bh = self.bounds(b, w)
            if op == 'add':
                lo, hi = al + bl, ah + bh
            elif op == 'sub':
                lo, hi = al - bh, ah - bl
            elif op == 'mul':
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
            elif op == 'and' and isinstance(b, int) and not b >> (w - 1):
                lo, hi = 0, b
                if al >= 0:
                    hi = min(b, ah)
            elif op == 'shl' and isinstance(b, int):
                lo, hi = al << b, ah << b
            elif op == 'ashr' and isinstance(b, int):
                lo, hi = al >> b, ah >> b
            elif op == 'lshr' and isinstance(b, int):
                if al >= 0:
                    lo, hi = al >> b, ah >> b
                elif ah < 0:
                    lo, hi = (al + (1 << w)) >> b, (ah + (1 << w)) >> b
                else:
                    raise Undecided('lshr')
            else:
                raise Undecided(op)
            mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if lo < mn or hi > mx:
                if 'nsw' in flags and (lo > mx or hi < mn):
                    raise Stop('overflow', 'signed overflow in %s' % op, self.loc)
                if lo > mx or hi < mn:
                    k = (lo - mn) // (1 << w)
                    if (hi - mn) // (1 << w) == k:
                        lo, hi = lo - (k << w), hi - (k << w)
                        return self.mkiv(lo, hi, w)
                raise Undecided('overflow')
            return self.mkiv(lo, hi, w)
        if op == 'and' and isinstance(a, Fn) and b == 1:      # virtual or not: function addresses are even
            return 0
        raise Inconclusive('int op %s on %r, %r' % (op, a, b))

    @staticmethod
    def negoff(o):
        if isinstance(o, int):
            return -o
        if isinstance(o, ISym):
            return ISym(-o.rf)
        return IV(-o.hi, -o.lo, 64)

    @staticmethod
    def mkiv(lo, hi, w):
        if lo == hi:
            return lo & ((1 << w) - 1)
        return IV(lo, hi, w)

    @staticmethod
    def isym(rf, w):
        if rf.is_const():
            return int(rf.num.const_value()) & ((1 << w) - 1)
        return ISym(rf)

    def int_rf(self, a, w):
        if isinstance(a, int):
            return RF.const(signed(a, w))
        if isinstance(a, ISym):
            return a.rf
        if isinstance(a, IV):
            raise Undecided('mix')
        raise Inconclusive('integer %r' % (a,))

    @staticmethod
    def bounds(a, w):
        if isinstance(a, int):
            s = signed(a, w)
            return s, s
        return a.lo, a.hi

    def icmp(self, pred, a, b, t):
        if t[0] == 'vec':
            return Agg([self.icmp(pred, x, y, t[2]) for x, y in zip(a.e, b.e)])
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return int(same == (pred == 'eq'))
        if t[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UNDEF or b is UNDEF:
                raise Stop('undef', 'comparison of an undefined pointer', self.loc)
            if isinstance(a, int):
                a = Ptr(None, a)
            if isinstance(b, int):
                b = Ptr(None, b)
            if a.obj is not b.obj:
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                raise Inconclusive('ordering of unrelated pointers')
            ao, bo = a.off, b.off
            if isinstance(ao, int) and isinstance(bo, int):
                return int({'eq': ao == bo, 'ne': ao != bo, 'ult': ao < bo, 'ule': ao <= bo, 'ugt': ao > bo,
                            'uge': ao >= bo, 'slt': ao < bo, 'sle': ao <= bo, 'sgt': ao > bo, 'sge': ao >= bo}[pred])
            raise Undecided('pointer comparison')
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            if pred in ('eq', 'ne'):
                return int((a == b) == (pred == 'eq'))
            if pred[0] == 's':
                a, b = signed(a, w), signed(b, w)
            p = pred[1:]
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (Cond, CondTree)) or isinstance(b, (Cond, CondTree)):
            c, k = (a, b) if isinstance(a, (Cond, CondTree)) else (b, a)
            if isinstance(k, int) and pred in ('eq', 'ne'):
                truth = (k != 0) == (pred == 'eq')
                if k in (0, 1):
                    return c if truth else self.negate(c)
            return self.icmp(pred, self.force(a), self.force(b), t)
        if isinstance(a, (ISym,)) or isinstance(b, ISym):
            d = self.int_rf(a, w) - self.int_rf(b, w)
            return self.mkcond(d, pred if pred in ('eq', 'ne') else pred[1:])
        if isinstance(a, (IV, int)) and isinstance(b, (IV, int)):
            (al, ah), (bl, bh) = self.bounds(a, w), self.bounds(b, w)
            if pred[0] == 'u':
                def u(l, h):
                    if l >= 0:
                        return l, h
                    if h < 0:
                        return l + (1 << w), h + (1 << w)
                    raise Undecided('unsigned')
                (al, ah), (bl, bh) = u(al, ah), u(bl, bh)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            if p in ('gt', 'ge'):
                (al, ah), (bl, bh) = (bl, bh), (al, ah)
                p = {'gt': 'lt', 'ge': 'le'}[p]
            if p == 'lt':
                if ah < bl:
                    return 1
                if al >= bh:
                    return 0
            elif p == 'le':
                if ah <= bl:
                    return 1
                if al > bh:
                    return 0
            else:
                if ah < bl or al > bh:
                    return int(p == 'ne')
            raise Undecided('icmp')
        raise Inconclusive('icmp %r %r' % (a, b))

    # ------------------------------------------------------------------ conditions
    SIGNS = {'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}, 'eq': {0}, 'ne': {-1, 1}}

    def mkcond(self, rf, p):
        s = self.SIGNS[p]
        if rf.is_const():
            c = rf.num.const_fixed()
            return int((0 if c == 0 else 1 if c > 0 else -1) in s)
        return Cond(rf, s)

    def fcmp(self, pred, a, b, t):
        if t[0] == 'vec':
            return Agg([self.fcmp(pred, x, y, t[2]) for x, y in zip(a.e, b.e)])
        if pred in ('true', 'false'):
            return int(pred == 'true')
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, str) or isinstance(b, str):
            fa = float(a) if isinstance(a, str) else None
            fb = float(b) if isinstance(b, str) else None
            if (fa is not None and fa != fa) or (fb is not None and fb != fb):
                return int(pred[0] == 'u' and pred != 'une' or pred == 'une' or pred == 'uno')
            x = fa if fa is not None else 0.0
            y = fb if fb is not None else 0.0
            p = pred[1:]
            if pred in ('ord', 'uno'):
                return int(pred == 'ord')
            return int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[p])
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        return self.mkcond(a - b, pred[1:])

    def negate(self, c):
        if isinstance(c, Cond):
            return Cond(c.rf, {-1, 0, 1} - c.signs)
        return CondTree('xor', c, 1)

    def force(self, c):
        """Decide an i1 (or zext of one) value, forking the trace when it is a real condition."""
        if isinstance(c, int):
            return c
        if c is UNDEF:
            raise Stop('undef', 'branch on an undefined value', self.loc)
        if isinstance(c, Cond):
            return int(self.decide(c))
        if isinstance(c, CondTree):
            a = self.force(c.a)
            if c.op == 'and':
                return self.force(c.b) & 1 if a & 1 else 0
            if c.op == 'or':
                return 1 if a & 1 else self.force(c.b) & 1
            return (a ^ self.force(c.b)) & 1
        if isinstance(c, IV):
            raise Undecided('branch')
        raise Inconclusive('branch on %r' % (c,))

    def decide(self, c):
        num = c.rf.num
        if c.rf.den is not None:
            # sign of num/den: use the product (same sign where den != 0)
            num = c.rf.num * c.rf.den
        lead = max(num.t)
        flip = num.t[lead] < 0
        key = (-num if flip else num).key()
        signs = frozenset(-s for s in c.signs) if flip else c.signs
        known = self.known.get(key, frozenset((-1, 0, 1)))
        known = known & self.interval_signs(-num if flip else num)
        t, f = known & signs, known - signs
        if not f:
            return True
        if not t:
            return False
        i = len(self.taken)
        d = self.dec[i] if i < len(self.dec) else True
        self.taken.append(d)
        self.known[key] = t if d else f
        p = -num if flip else num
        self.o.guards.append((p, t if d else f))
        self.note_interval(p, t if d else f)
        return d

    def linear(self, p):
        names = p.names()
        if len(names) == 1 and p.degree(names[0]) == 1:
            m = VARS.mono(names[0])
            return names[0], Fraction(p.t[m]), Fraction(p.t.get(0, 0))
        return None

    def interval_signs(self, p):
        l = self.linear(p)
        if not l:
            return frozenset((-1, 0, 1))
        n, a, b = l
        if n not in self.ranges:
            return frozenset((-1, 0, 1))
        lo, ls, hi, hs = self.ranges[n]
        root = -b / a
        s = set()
        if hi is None or hi > root:
            s.add(1 if a > 0 else -1)
        if lo is None or lo < root:
            s.add(-1 if a > 0 else 1)
        if (lo is None or lo < root or (lo == root and not ls)) and (hi is None or hi > root or (hi == root and not hs)):
            s.add(0)
        return frozenset(s)

    def note_interval(self, p, signs):
        l = self.linear(p)
        if not l:
            return
        n, a, b = l
        lo, ls, hi, hs = self.ranges.get(n, (None, False, None, False))
        root = -b / a
        sg = frozenset(-s for s in signs) if a < 0 else signs
        if 1 not in sg and (hi is None or hi > root or (hi == root and not hs)):
            hi, hs = root, 0 not in sg
        if -1 not in sg and (lo is None or lo < root or (lo == root and not ls)):
            lo, ls = root, 0 not in sg
        self.ranges[n] = (lo, ls, hi, hs)

    # ------------------------------------------------------------------ reals
    def fop(self, op, a, b, t):
        if t[0] == 'vec':
            return Agg([self.fop(op, x, y, t[2]) for x, y in zip(a.e, b.e)])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, str) or isinstance(b, str):
            return self.special(op, a, b)
        if not isinstance(a, RF) or not isinstance(b, RF):
            raise Inconclusive('%s on %r, %r' % (op, a, b))
        if op == 'fadd':
            r = a + b
        elif op == 'fsub':
            r = a - b
        elif op == 'fmul':
            r = a * b
        elif op == 'fdiv':
            rb = b.recip()
            if rb is None:
                if a.is_const() and a.num.is_zero():
                    return 'nan'
                if a.is_const():
                    return 'inf' if a.num.const_fixed() > 0 else '-inf'
                return 'nan'
            r = a * rb
        else:
            if a.is_const() and b.is_const() and op == 'frem':
                x, y = a.num.const_value(), b.num.const_value()
                if y == 0:
                    return 'nan'
                q = abs(x) // abs(y)
                m = abs(x) - q * abs(y)
                return RF.const(-m if x < 0 else m)
            raise Inconclusive(op)
        if self.cuts:
            r = self.cut(r)
        return r

    def special(self, op, a, b):
        if 'nan' in (a, b):
            return 'nan'
        x = float(a) if isinstance(a, str) else (float(a.num.const_value()) if a.is_const() else None)
        y = float(b) if isinstance(b, str) else (float(b.num.const_value()) if b.is_const() else None)
        if x is None or y is None:
            return 'nan'
        try:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
        except (ZeroDivisionError, KeyError):
            return 'nan'
        if r != r:
            return 'nan'
        if r in (float('inf'), float('-inf')):
            return 'inf' if r > 0 else '-inf'
        return RF.const(r)

    def cut(self, r):
        if r.den is None:
            for name, p in self.cuts.get(len(r.num.t), ()):
                if r.num.close(p, self.cut_tol):
                    return RF.var(name)
        return r

    # ------------------------------------------------------------------ calls
    def call_internal(self, name, args):
        f = self.mod.functions.get(name)
        if f is None:
            raise Inconclusive('no definition of ' + name)
        if f.blocks is None:
            self.mod.body(name)
        self.stats.functions.add(name)
        self.depth += 1
        if self.depth > 4000:
            raise Inconclusive('recursion')
        fr = {}
        for (t, nm, attrs), v in zip(f.params, args):
            if 'byval' in attrs and isinstance(v, Ptr):
                n = Obj('byval' + nm, None, 'alloca', 'uninit')
                bt = self._byval_type(f, nm)
                n.size = self.T.size(bt)
                self.memcpy(Ptr(n, 0), v, n.size)
                v = Ptr(n, 0)
                fr.setdefault('#locals', []).append(n)
            if self.depth == 1 and isinstance(v, ISym):
                self.note_width(v, t)
            fr[nm] = v
        if f.vararg:
            fr['...'] = list(args[len(f.params):])
        blocks = f.blocks
        label = f.order[0]
        prev = None
        while True:
            ins = blocks[label]
            i = 0
            n = len(ins)
            if ins and ins[0].op == 'phi':
                new = []
                while i < n and ins[i].op == 'phi':
                    p = ins[i]
                    for v, b in p.a[0]:
                        if b == prev:
                            new.append((p.dst, self.val(v, p.type, fr)))
                            break
                    else:
                        raise Inconclusive('phi')
                    i += 1
                for d, v in new:
                    fr[d] = v
            nxt = None
            while i < n:
                x = ins[i]
                i += 1
                self.n += 1
                op = x.op
                if x.dbg is not None:
                    self.loc = (self.mod, x.dbg)
                if op == 'br':
                    c, a, b = x.a
                    if c is None:
                        nxt = a
                    else:
                        v = self.val(c, ('i', 1), fr)
                        nxt = a if self.force(v) & 1 else b
                    break
                if op == 'ret':
                    self.depth -= 1
                    r = None if x.a[0] is None else self.val(x.a[0], x.type, fr)
                    for o in fr.get('#locals', ()):
                        o.alive = False
                    return r
                if op == 'switch':
                    v, d, cases = x.a
                    v = self.val(v, x.type, fr)
                    if isinstance(v, (Cond, CondTree)):
                        v = self.force(v)
                    w = x.type[1]
                    nxt = d
                    if isinstance(v, int):
                        for cv, l in cases:
                            if cv & ((1 << w) - 1) == v:
                                nxt = l
                                break
                    elif isinstance(v, IV):
                        for cv, l in cases:
                            if v.lo <= signed(cv & ((1 << w) - 1), w) <= v.hi:
                                raise Undecided('switch')
                    elif v is UNDEF:
                        raise Stop('undef', 'switch on an undefined value', self.loc)
                    else:
                        for cv, l in cases:
                            if self.force(self.icmp('eq', v, cv & ((1 << w) - 1), x.type)):
                                nxt = l
                                break
                    break
                if op == 'unreachable':
                    raise Stop('unreachable', 'reached code assumed unreachable', self.loc)
                try:
                    h = getattr(self, 'x_' + op)
                except AttributeError:
                    if op in IR.BINOPS:
                        r = self.binop(x, fr)
                    elif op in IR.CASTS:
                        r = self.cast(x, fr)
                    else:
                        raise Inconclusive('instruction ' + x.text)
                else:
                    r = h(x, fr)
                if x.dst is not None:
                    fr[x.dst] = r
                if op == 'call' and x.a[2] is not None:
                    nxt = x.a[2]
                    break
            if self.n > self.max_instr:
                raise Stop('endless', 'still running after %d instructions in %s, where the analysed code needs a small fraction of that' % (self.max_instr, name), self.loc)
            prev, label = label, nxt

    def _byval_type(self, f, nm):
        m = re.search(r'byval\(((?:[^()]|\([^()]*\))*)\)[^%]*' + re.escape(nm) + r'\b', f.header)
        return IR.Cur(IR.tokenize(m.group(1)), self.mod, '').type()

    def x_alloca(self, x, fr):
        n = self.val(x.a[0], ('i', 64), fr)
        if not isinstance(n, int):
            raise Inconclusive('dynamic alloca')
        self.allocs += 1
        o = Obj('local%s#%d' % (x.dst, self.allocs), self.T.size(x.type) * n, 'alloca', 'uninit')
        fr.setdefault('#locals', []).append(o)
        return Ptr(o, 0)

    def x_load(self, x, fr):
        v = self.load(self.val(x.a[0], ('ptr',), fr), x.type)
        if self.track_real and x.type[0] == 'double':
            return self.narrowed(v, 'constant')
        return v

    def narrowed(self, v, op):
        """With track_real: v, or a fresh variable when v has lost precision in a single-precision operation."""
        if not isinstance(v, RF):
            return v
        if v.is_const():
            c = v.num.const_value()
            if op == 'constant':
                if c.denominator == 1 or abs(c.numerator).bit_length() < 18 or abs(c.numerator).bit_length() > 24 or f32(c) != c:
                    return v
            elif f32(c) == c:
                return v
        elif op == 'constant':
            return v
        if any(n.startswith('narrowed') for n in v.num.names() + (v.den.names() if v.den else [])):
            return v
        return RF.var('narrowed[%s at %s]' % (op, loc_str(self.loc)))

    def x_store(self, x, fr):
        self.store(self.val(x.a[1], ('ptr',), fr), x.type, self.val(x.a[0], x.type, fr))

    def x_getelementptr(self, x, fr):
        return self.gep(x.type, self.val(x.a[0], ('ptr',), fr), [(it, self.val(iv, it, fr)) for it, iv in x.a[1]])

    def x_icmp(self, x, fr):
        return self.icmp(x.a[0], self.val(x.a[1], x.type, fr), self.val(x.a[2], x.type, fr), x.type)

    def x_fcmp(self, x, fr):
        return self.fcmp(x.a[0], self.val(x.a[1], x.type, fr), self.val(x.a[2], x.type, fr), x.type)

    def x_fneg(self, x, fr):
        a = self.val(x.a[0], x.type, fr)
        if isinstance(a, Agg):
            return Agg([-e if isinstance(e, RF) else e for e in a.e])
        if isinstance(a, RF):
            return -a
        if a is UNDEF:
            return a
        return {'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[a]

    def x_select(self, x, fr):
        c = self.val(x.a[0], ('i', 1), fr)
        if isinstance(c, Agg):
            a, b = self.val(x.a[1], x.type, fr), self.val(x.a[2], x.type, fr)
            return Agg([p if self.force(q) & 1 else r for q, p, r in zip(c.e, a.e, b.e)])
        # boolean selects stay lazy
        if x.type == ('i', 1) and isinstance(c, (Cond, CondTree)):
            a, b = self.val(x.a[1], x.type, fr), self.val(x.a[2], x.type, fr)
            if b == 0:
                return self.intop('and', c, a, 1, [])
            if a == 1:
                return self.intop('or', c, b, 1, [])
        return self.val(x.a[1] if self.force(c) & 1 else x.a[2], x.type, fr)

    def x_freeze(self, x, fr):
        v = self.val(x.a[0], x.type, fr)
        return v

    def x_extractvalue(self, x, fr):
        v = self.val(x.a[0], x.type, fr)
        for i in x.a[1]:
            if v is UNDEF:
                return UNDEF
            v = v.e[i]
        return v

    def x_insertvalue(self, x, fr):
        v = self.val(x.a[0], x.type, fr)
        e = self.val(x.a[2], x.a[1], fr)

        def ins(v, idx):
            if not idx:
                return e
            r = list(v.e)
            r[idx[0]] = ins(r[idx[0]], idx[1:])
            return Agg(r)
        return ins(v, x.a[3])

    def x_extractelement(self, x, fr):
        v = self.val(x.a[0], x.type, fr)
        i = self.val(x.a[1], ('i', 64), fr)
        if not isinstance(i, int):
            raise Undecided('extractelement')
        return UNDEF if v is UNDEF else v.e[i]

    def x_insertelement(self, x, fr):
        v = self.val(x.a[0], x.type, fr)
        e = self.val(x.a[1], x.type[2], fr)
        i = self.val(x.a[2], ('i', 64), fr)
        r = list(v.e)
        r[i] = e
        return Agg(r)

    def x_shufflevector(self, x, fr):
        a = self.val(x.a[0], x.type, fr)
        b = self.val(x.a[1], x.type, fr)
        m = self.val(x.a[3], x.a[2], fr)
        al = a.e + b.e
        return Agg([UNDEF if i is UNDEF else al[i] for i in m.e])

    def x_asm(self, x, fr):
        if '""' in x.text:
            return UNDEF
        raise Inconclusive('inline asm')

    def x_fence(self, x, fr):
        self.o.events.append(('call', '@fence', [], self.loc))

    def x_va_arg(self, x, fr):
        raise Inconclusive('va_arg')

    def binop(self, x, fr):
        t = x.type
        a, b = self.val(x.a[0], t, fr), self.val(x.a[1], t, fr)
        if x.op[0] == 'f':
            r = self.fop(x.op, a, b, t)
            return self.narrowed(r, x.op + ' float') if self.track_real and t[0] in ('float', 'half', 'bfloat') else r
        if t[0] == 'vec':
            return Agg([self.intop(x.op, p, q, t[2][1], x.a[2]) for p, q in zip(a.e, b.e)])
        return self.intop(x.op, a, b, t[1], x.a[2])

    def cast(self, x, fr):
        ft, v = x.a
        tt = x.type
        v = self.val(v, ft, fr)
        if ft[0] == 'vec' and isinstance(v, Agg) and tt[0] == 'vec' and ft[1] == tt[1]:
            return Agg([self.cast1(x.op, e, ft[2], tt[2]) for e in v.e])
        return self.cast1(x.op, v, ft, tt)

    def cast1(self, op, v, ft, tt):
        if v is UNDEF:
            return UNDEF
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'inttoptr' and isinstance(v, int):
                return Ptr(None, v)
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
                return v.off
            return v
        if op == 'bitcast':
            if isinstance(v, Agg) and ft[0] == 'vec' and tt[0] == 'vec' and ft[1] == tt[1]:
                return v
            if ft[0] != tt[0] and (ft[0] == 'vec' or tt[0] == 'vec'):
                o = Obj('bitcast', self.T.size(ft), 'alloca', 'uninit')
                self.store(Ptr(o, 0), ft, v)
                return self.load(Ptr(o, 0), tt)
            if tt[0] in ('double', 'float'):
                return self.retype(v, tt, self.T.size(tt))
            if tt[0] == 'i' and isinstance(v, RF) and v.is_const():
                return self.sub_bits(v, self.T.size(ft), 0, self.T.size(ft))
            return v
        if op == 'trunc':
            w = tt[1]
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            if isinstance(v, IV):
                mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if v.lo >= mn and v.hi <= mx:
                    return self.mkiv(v.lo, v.hi, w)
                k = (v.lo - mn) >> w
                if (v.hi - mn) >> w == k:
                    return self.mkiv(v.lo - (k << w), v.hi - (k << w), w)
                raise Undecided('trunc')
            if isinstance(v, (Cond, CondTree)):
                return v
            if isinstance(v, Pieces) and w % 8 == 0:
                return self.sub_bits(v, v.size, 0, w // 8)
            if isinstance(v, ISym):
                ns = v.rf.num.names()
                if self.track_real and len(ns) == 1 and self.int_width.get(ns[0], 0) > w and v.rf.close(RF.var(ns[0]), 0):
                    return ISym(RF.var('narrowed[%s to i%d at %s]' % (ns[0], w, loc_str(self.loc))))     # a value, cut
                return v
            raise Inconclusive('trunc of %r' % (v,))
        if op == 'zext':
            if isinstance(v, (int, Cond, CondTree)):
                return v
            if isinstance(v, IV):
                if v.lo >= 0:
                    return IV(v.lo, v.hi, tt[1])
                if v.hi < 0:
                    return IV(v.lo + (1 << ft[1]), v.hi + (1 << ft[1]), tt[1])
                raise Undecided('zext')
            if isinstance(v, ISym):
                return v
            if isinstance(v, Pieces):
                return Pieces(v.p + [(v.size, tt[1] // 8 - v.size, 0)], tt[1] // 8)
            if isinstance(v, RF):
                return Pieces([(0, ft[1] // 8, v), (ft[1] // 8, tt[1] // 8 - ft[1] // 8, 0)], tt[1] // 8)
            raise Inconclusive('zext of %r' % (v,))
        if op == 'sext':
            if isinstance(v, int):
                return signed(v, ft[1]) & ((1 << tt[1]) - 1)
            if isinstance(v, IV):
                return IV(v.lo, v.hi, tt[1])
            if isinstance(v, ISym):
                return v
            if isinstance(v, (Cond, CondTree)):
                return ((1 << tt[1]) - 1) if self.force(v) & 1 else 0
            raise Inconclusive('sext of %r' % (v,))
        if op in ('fpext', 'fptrunc'):
            if op == 'fptrunc':
                self.stats.narrow.append(('fptrunc %s to %s' % (ft[0], tt[0]), self.loc))
                if self.track_real:
                    return self.narrowed(v, 'fptrunc')
                if tt[0] == 'float' and isinstance(v, RF) and v.is_const():
                    return RF.const(f32(v.num.const_value()))
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, (Cond, CondTree)):
                v = self.force(v)
            if self.track_real and tt[0] == 'float':
                return self.narrowed(RF.const(signed(v, ft[1]) if op == 'sitofp' else v) if isinstance(v, int) else v.rf if isinstance(v, ISym) else v, op + ' float')
            if isinstance(v, int):
                return RF.const(signed(v, ft[1]) if op == 'sitofp' else v)
            if isinstance(v, ISym):
                return v.rf
            if isinstance(v, IV):
                raise Undecided(op)
            raise Inconclusive('%s of %r' % (op, v))
        if op in ('fptosi', 'fptoui'):
            self.stats.narrow.append((op, self.loc))
            if isinstance(v, RF) and v.is_const():
                c = v.num.const_value()
                q = abs(c.numerator) // c.denominator
                if q + 1 - abs(c) < Fraction(1, 1 << 280):     # 1/3 * 3: the fixed point value is just below
                    q += 1
                return (-q if c < 0 else q) & ((1 << tt[1]) - 1)
            if isinstance(v, RF):
                return ISym(RF.var('%s(%r)' % (op, v)))
            return UNDEF
        raise Inconclusive(op)

    def x_call(self, x, fr):
        callee, args, dest, unwind = x.a
        if callee[0] == 'glob':
            name = callee[1]
        else:
            f = self.val(callee, ('ptr',), fr)
            if isinstance(f, Fn):
                name = f.name
            else:
                raise Inconclusive('indirect call through %r' % (f,))
        while name in self.mod.aliases:
            name = re.search(r'@(?:"[^"]*"|[-\w$.]+)', self.mod.aliases[name]).group()
        if name.startswith('@llvm.'):
            return self.intrinsic(name, x, args, fr)
        h = self.externals.get(name)
        vals = [self.val(v, t, fr) for t, v, _ in args]
        if h is not None:
            return h(self, name, vals, x)
        if name in self.mod.functions:
            loc = self.loc
            r = self.call_internal(name, vals)
            self.loc = loc
            return r
        # byval arguments of external calls etc. are passed through
        self.o.events.append(('call', name, vals, self.loc))
        if name in MATH_TERMINATORS:
            raise Stop('abort', name, self.loc)
        return self.external_result(name, x, vals)

    def external_result(self, name, x, vals):
        t = self.T.resolve(x.type) if x.type[0] != 'void' else x.type
        if t[0] == 'void':
            return None
        n = name[1:]
        if n in ('fabs', 'fabsf'):
            return self.fabs(vals[0])
        if n in ('fma', 'fmaf'):
            return self.fop('fadd', self.fop('fmul', vals[0], vals[1], ('double',)), vals[2], ('double',))
        if n in ('pow', 'powf', 'sqrt', 'sqrtf'):
            r = self.math(n, vals)
            if r is not None:
                return r
        if n == 'strlen':
            r = self.strlen(vals[0])
            if r is not None:
                return r
        if n in ('abs', 'labs'):
            v = vals[0]
            if isinstance(v, int):
                return abs(signed(v, t[1]))
        if t[0] == 'ptr':
            return Ptr(Obj('ext:%s#%d' % (n, len(self.o.events)), None, 'heap', 'sym'), 0)
        if t[0] in ('double', 'float'):
            return RF.var('%s(%s)' % (n, ','.join(map(repr, vals))))
        if t[0] == 'i':
            return ISym(RF.var('%s#%d' % (n, len(self.o.events))))
        raise Inconclusive('result of external ' + name)

    def strlen(self, p):
        """Length of a string all of whose bytes are known; None otherwise."""
        if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int):
            return None
        for k in range(65536):
            try:
                v = self.load(Ptr(p.obj, p.off + k), ('i', 8))
            except (Stop, Inconclusive):
                return None
            if not isinstance(v, int):
                return None
            if v == 0:
                return k
        return None

    def fabs(self, v):
        if isinstance(v, RF):
            if v.is_const():
                return -v if v.num.const_fixed() < 0 else v
            return v if self.decide(Cond(v, {0, 1})) else -v
        if v is UNDEF or v == 'nan':
            return v
        return 'inf'

    def intrinsic(self, name, x, args, fr):
        n = name[6:]
        if n.startswith('lifetime.'):
            p = self.val(args[1][1], args[1][0], fr)
            if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'alloca':
                p.obj.alive = n.startswith('lifetime.start')
                p.obj.cells.clear()
            return None
        if n.startswith(('dbg.', 'assume', 'invariant.', 'experimental.noalias', 'donothing', 'prefetch', 'pseudoprobe')):
            return None
        vals = [self.val(v, t, fr) for t, v, _ in args]
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(vals[0], vals[1], vals[2])
            return None
        if n.startswith('memset'):
            self.memset(vals[0], vals[1], vals[2])
            return None
        if n.startswith(('fmuladd', 'fma.')):
            t = x.type
            return self.fop('fadd', self.fop('fmul', vals[0], vals[1], t), vals[2], t)
        if n.startswith('fabs'):
            return self.fabs(vals[0])
        if n.startswith('expect'):
            return vals[0]
        if n.startswith('is.constant'):       # up to the optimiser: both
            self.allocs += 1
            return Cond(RF.var('is.constant#%d' % self.allocs), {1})
        if n.startswith('objectsize'):
            return (1 << 64) - 1
        if n.startswith(('minnum', 'maxnum', 'minimum', 'maximum')):
            a, b = vals
            c = self.force(self.fcmp('olt', a, b, ('double',)))
            return (a if c else b) if n.startswith('min') else (b if c else a)
        if n.startswith(('smax', 'smin', 'umax', 'umin')):
            t = args[0][0]
            c = self.icmp(('slt' if n[0] == 's' else 'ult'), vals[0], vals[1], t)
            c = self.force(c)
            return (vals[0] if c else vals[1]) if n[1:4] == 'min' else (vals[1] if c else vals[0])
        if n.startswith('abs.'):
            t = args[0][0]
            c = self.force(self.icmp('slt', vals[0], 0, t))
            return self.intop('sub', 0, vals[0], t[1], []) if c else vals[0]
        if n.startswith('copysign'):
            a, b = self.fabs(vals[0]), vals[1]
            return a if self.force(self.fcmp('oge', b, RF(Poly()), ('double',))) else -a
        if n.startswith('va_start'):
            self.o.events.append(('call', name, vals, self.loc))
            if isinstance(vals[0], Ptr) and vals[0].obj is not None:
                vals[0].obj.cells[vals[0].off] = (8, ('va_list', fr.get('...')))
            return None
        if n.startswith(('va_end', 'va_copy')):
            self.o.events.append(('call', name, vals, self.loc))
            if isinstance(vals[0], Ptr) and vals[0].obj is not None:
                if n.startswith('va_end'):
                    vals[0].obj.cells[vals[0].off] = (8, ('va_list', None))
                elif isinstance(vals[1], Ptr) and vals[1].obj is not None:
                    vals[0].obj.cells[vals[0].off] = vals[1].obj.cells.get(vals[1].off, (8, ('va_list', None)))
            return None
        if n.startswith(('trap', 'ubsantrap', 'debugtrap')):
            self.o.events.append(('call', name, vals, self.loc))
            raise Stop('abort', name, self.loc)
        if n.startswith(('sadd.with', 'ssub.with', 'smul.with', 'uadd.with', 'usub.with', 'umul.with')):
            t = args[0][0]
            a, b = vals
            if isinstance(a, int) and isinstance(b, int):
                w = t[1]
                if n[0] == 's':
                    a, b = signed(a, w), signed(b, w)
                r = {'add': a + b, 'sub': a - b, 'mul': a * b}[n[1:4]]
                ok = signed(r & ((1 << w) - 1), w) == r if n[0] == 's' else 0 <= r < (1 << w)
                return Agg([r & ((1 << w) - 1), int(not ok)])
        if n.startswith(('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round')):
            v = vals[0]
            if isinstance(v, RF) and v.is_const():
                import math
                c = v.num.const_value()
                return RF.const({'f': math.floor, 'c': math.ceil, 't': math.trunc}.get(n[0], round)(c))
            return RF.var('%s(%r)' % (n, v))
        if n.startswith('stacksave'):
            return Ptr(None, 0)
        if n.startswith('stackrestore'):
            return None
        if n.startswith(('sqrt', 'pow', 'exp', 'log', 'sin', 'cos')):
            r = self.math(n.split('.')[0], vals)
            return r if r is not None else RF.var('%s(%s)' % (n, ','.join(map(repr, vals))))
        if n.startswith(('ctpop', 'ctlz', 'cttz')):
            v, w = vals[0], args[0][0][1]
            if isinstance(v, (Cond, CondTree)):
                v = self.force(v)
            if isinstance(v, int):
                return bin(v).count('1') if n[2] == 'p' else w - v.bit_length() if n[2] == 'l' else (v & -v).bit_length() - 1 if v else w
            if isinstance(v, IV):
                raise Undecided(n)
        if n.startswith('is.fpclass'):
            v, mask = vals
            v = self.force(v) if isinstance(v, (Cond, CondTree)) else v
            if v == 'nan':
                return int(bool(mask & 0x3))
            if v == 'inf':
                return int(bool(mask & 0x204))
            if isinstance(v, RF) and mask & 0x1f8 in (0, 0x1f8):      # finite over the reals: only the class of finite values matters
                return int(bool(mask & 0x1f8))
            if isinstance(v, RF):
                neg, zero, pos = bool(mask & 0x18), bool(mask & 0x60), bool(mask & 0x180)
                s = {k for k, b in ((-1, neg), (0, zero), (1, pos)) if b}
                return int(bool(self.decide(Cond(v, s))))
        raise Inconclusive('intrinsic ' + name)

    def math(self, n, vals):
        """The value of pow with a small constant exponent, of sqrt of a constant; None when unknown."""
        n = n.rstrip('fl') if n not in ('pow', 'sqrt') else n
        if n in ('pow', 'powi') and isinstance(vals[0], RF):
            e = vals[1]
            if isinstance(e, RF) and e.is_const() and e.num.const_value().denominator == 1:
                e = int(e.num.const_value())
            elif isinstance(e, int) and n == 'powi':
                e = signed(e, 32)
            else:
                return None
            if abs(e) > 64:
                return None
            r = RF.const(1)
            for _ in range(abs(e)):
                r = r * vals[0]
            return r if e >= 0 else self.fop('fdiv', RF.const(1), r, ('double',))
        if n == 'sqrt' and isinstance(vals[0], RF) and vals[0].is_const():
            c = vals[0].num.const_fixed()
            if c >= 0:
                import math
                return RF(Poly({0: math.isqrt(c * ONE)} if c else {}))
        return None


def loc_str(loc):
    """file:line of a (module, dbg id)."""
    if not loc:
        return '?'
    mod, d = loc
    m = re.search(r'DILocation\(line: (\d+).*scope: !(\d+)', mod.meta.get(d, ''))
    if not m:
        return '?'
    line, scope = m.group(1), int(m.group(2))
    for _ in range(50):
        s = mod.meta.get(scope, '')
        f = re.search(r'\bfile: !(\d+)', s)
        if f:
            fm = re.search(r'DIFile\(filename: "([^"]*)"', mod.meta.get(int(f.group(1)), ''))
            return '%s:%s' % (fm.group(1) if fm else '?', line)
        p = re.search(r'\bscope: !(\d+)', s)
        if not p:
            break
        scope = int(p.group(1))
    return '?:' + line


def in_thread(fn):
    """Run fn in a thread with a large stack (deep template recursion)."""
    box = {}

    def go():
        try:
            box['r'] = fn()
        except BaseException as e:     # re-raised below
            box['e'] = e
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in box:
        raise box['e']
    return box.get('r')
