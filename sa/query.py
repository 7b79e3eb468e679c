"""Obligations about the functions of a witness unit, stated over the abstract interpreter's results."""
import re
from fractions import Fraction
from .absint import Machine, Stats, Ptr, Obj, IV, ISym, Undecided, Inconclusive, UNDEF, Outcome, loc_str, signed
from .poly import Poly, RF, VARS

SIZES = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'char': 1, 'short': 2, 'unsigned': 4, 'unsigned long': 8, 'unsigned char': 1, 'signed char': 1,
         'unsigned short': 2, 'long long': 8}
ELEM = {'double': ('double',), 'float': ('float',), 'int': ('i', 32), 'long': ('i', 64), 'char': ('i', 8), 'short': ('i', 16)}
ELEM.update({t: ('i', 8 * s) for t, s in SIZES.items() if t not in ELEM})


class Real:
    def __init__(self, name):
        self.name = name


class Special:
    """An infinity or not-a-number: 'nan', 'inf', '-inf'."""

    def __init__(self, v):
        self.v = v


class Int:
    def __init__(self, v, w=32):
        self.v, self.w = v, w


class Box:
    """Interval input (signed bounds of a w-bit integer)."""

    def __init__(self, lo, hi, w=32):
        self.lo, self.hi, self.w = lo, hi, w


class Buf:
    """Pointer to n elements of type elem; init sym|zero|uninit|list of values. n None: unknown size."""

    def __init__(self, name, elem, n, init='sym'):
        self.name, self.elem, self.n, self.init = name, elem, n, init


class SymInt:
    def __init__(self, name):
        self.name = name


def build_args(specs):
    def mk(m):
        out = []
        for s in specs:
            if isinstance(s, Real):
                out.append(RF.var(s.name))
            elif isinstance(s, Special):
                out.append(s.v)
            elif isinstance(s, Int):
                out.append(s.v & ((1 << s.w) - 1))
            elif isinstance(s, Box):
                out.append(s.lo & ((1 << s.w) - 1) if s.lo == s.hi else IV(s.lo, s.hi, s.w))
            elif isinstance(s, SymInt):
                out.append(ISym(RF.var(s.name)))
            elif isinstance(s, Buf):
                given = isinstance(s.init, (list, tuple))
                o = m.arg_object(s.name, None if s.n is None else s.n * SIZES[s.elem], 'uninit' if given else s.init, ELEM[s.elem])
                if given:
                    for k, v in enumerate(s.init):
                        o.cells[k * SIZES[s.elem]] = (SIZES[s.elem], RF.const(v) if s.elem in ('double', 'float') else v)
                out.append(Ptr(o, 0))
            else:
                raise Inconclusive('argument %r' % (s,))
        return out
    return mk


def outcomes(mod, ctx, fname, specs, cuts=None, externals=None, track_real=False, max_paths=64, cut_tol=None, strict_gep=False, budget=None):
    """All traces of fname; integer boxes are split until decided. Yields (specs, Outcome)."""
    if not fname.startswith('@'):
        fname = '@' + fname
    work = [list(specs)]
    n = 0
    while work:
        sp = work.pop()
        stats = Stats()
        m = Machine(mod, stats, externals=externals, cuts=cuts, track_real=track_real, strict_gep=strict_gep)
        if budget:
            m.max_instr = budget
        if cut_tol:
            m.cut_tol = cut_tol
        try:
            res, why = m.explore(fname, build_args(sp), max_paths)
        except Undecided:
            # split the widest box in half
            widest = None
            for i, s in enumerate(sp):
                if isinstance(s, Box) and s.hi > s.lo and (widest is None or s.hi - s.lo > sp[widest].hi - sp[widest].lo):
                    widest = i
            if widest is None:
                raise Inconclusive('undecided branch without interval input in ' + fname)
            n += 1
            if n > 4000:
                raise Inconclusive('too many splits in ' + fname)
            b = sp[widest]
            mid = (b.lo + b.hi) // 2
            for lo, hi in ((mid + 1, b.hi), (b.lo, mid)):
                q = list(sp)
                q[widest] = Box(lo, hi, b.w)
                work.append(q)
            continue
        finally:
            ctx.absorb(stats)
        for o in res:
            o.stats = stats
            o.machine = m
            yield sp, o
        if why:
            # what the traces seen so far violate is violated all the same
            raise why


def under_guards(value, spec, guards, tol):
    """value == spec on the region described by the guards (equality guards are substituted)."""
    if value.close(spec, tol):
        return True
    v, s = value, spec
    for p, signs in guards:
        if signs == frozenset((0,)):
            for n in p.names():
                if p.degree(n) == 1:
                    m = VARS.mono(n)
                    # coefficient of n must be constant
                    rest = Poly({k: c for k, c in p.t.items() if k != m})
                    if m in p.t and n not in rest.names():
                        a = Fraction(p.t[m], 1)
                        r = RF(-rest) * RF(Poly({0: p.t[m]})).recip()
                        v = RF(v.num.subst(n, r.num), v.den.subst(n, r.num) if v.den else None)
                        s = RF(s.num.subst(n, r.num), s.den.subst(n, r.num) if s.den else None)
                        break
    return v is not value and v.close(s, tol)


def describe(o):
    g = '; '.join('%r in signs %s' % (p, sorted(s)) for p, s in o.guards)
    return ' under [%s]' % g if g else ''


def real_equals(ctx, o, value, spec, tol, what, loc=None):
    if isinstance(value, int) and value == 0:
        value = RF(Poly())
    if not isinstance(value, RF):
        return ctx.ob(False, what, 'computes %r, expected %r%s' % (value, spec, describe(o)), loc_str(loc or o.loc))
    ok = under_guards(value, spec, o.guards, tol)
    return ctx.ob(ok, what, '' if ok else 'computes %r, expected %r%s' % (value, spec, describe(o)), loc_str(loc or o.loc))


def returns(ctx, o, what):
    """The trace returns normally."""
    if o.kind != 'ret':
        ctx.ob(False, what, 'does not return: %s (%s)%s' % (o.kind, o.detail, describe(o)), loc_str(o.loc))
        return False
    return True


def cell(obj, off, size, mod=None):
    """Value in memory at the end; RF for reals."""
    c = obj.cells.get(off)
    if c is not None and c[0] == size:
        return c[1]
    return None


def check_fn_real(mod, ctx, fname, specs, spec, tol, what, **kw):
    """Every trace of fname returns spec (an RF) within tol."""
    for sp, o in outcomes(mod, ctx, fname, specs, **kw):
        if returns(ctx, o, what):
            real_equals(ctx, o, o.value, spec, tol, what)


def fn_line(mod, fname):
    f = mod.functions.get('@' + fname)
    return f.header[:80] if f else fname


def as_real(v, size=8):
    """Integer-typed bit pattern of a real cell (memset zero etc.)."""
    if isinstance(v, int) and v == 0:
        return RF(Poly())
    if isinstance(v, int):
        import struct
        f = struct.unpack('<d' if size == 8 else '<f', v.to_bytes(size, 'little'))[0]
        if f == f and abs(f) != float('inf'):
            return RF.const(f)
    return v


def out_real(obj, idx, size):
    v = cell(obj, idx * size, size)
    if v is None:
        # zero-filled piecewise?
        parts = [obj.cells.get(idx * size + k) for k in range(size)]
        if parts[0] is not None and parts[0] == (4, 0) and size == 8 and obj.cells.get(idx * size + 4) == (4, 0):
            return RF(Poly())
        return None
    return as_real(v, size)


def final(o, obj, idx, T):
    """Element idx of type T of obj at the end of the trace, as the code would read it."""
    try:
        v = o.machine.read_scalar(obj, idx * SIZES[T], SIZES[T], ELEM[T])
    except Inconclusive as e:
        return str(e)
    if isinstance(v, ISym):
        return v.rf
    if isinstance(v, int):
        return RF.const(signed(v, ELEM[T][1])) if ELEM[T][0] == 'i' else as_real(v, SIZES[T])
    return v


def is_rf(v, want, tol=0):
    return isinstance(v, RF) and v.close(want, tol)
