"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for witness units."""
import re
from fractions import Fraction
import struct

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<fp>-?\d+\.\d*(?:e[+-]?\d+)?)
  | (?P<int>-?\d+)
  | (?P<meta>!(?:[a-zA-Z0-9._]+|\{)?)
  | (?P<attr>\#\d+)
  | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
  | (?P<dots>\.\.\.)
  | (?P<punct><\{|\}>|[()\[\]{}<>,=*:|])
  | (?P<ws>\s+)
  | (?P<comment>;.*)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('token %r in %r' % (s[pos:pos + 20], s[:100]))
        k = m.lastgroup
        if k == 'comment':
            break
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out


# ---- types: ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('arr',n,T) ('struct',(T..),packed) ('vec',n,T) ('named',name)

class TypeTable:
    def __init__(self):
        self.named = {}
        self._size = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def sizealign(self, t):
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self._sizealign(t)
        return r

    def _sizealign(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return (max(b, a) if b not in (1, 2, 4, 8) else b, a)
        if k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'half':
            return (2, 2)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'fp128':
            return (16, 16)
        if k == 'ptr':
            return (8, 8)
        if k == 'arr':
            s, a = self.sizealign(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.sizealign(t[2])
            n = s * t[1]
            al = 1
            while al < n:
                al *= 2
            return (n, al)
        if k == 'named':
            return self.sizealign(self.resolve(t))
        if k == 'struct':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.sizealign(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'void':
            return (0, 1)
        raise ParseError('size of %r' % (t,))

    def store_size(self, t):
        return (t[1] + 7) // 8 if t[0] == 'i' else self.size(t)

    def size(self, t):
        return self.sizealign(t)[0]

    def field_offset(self, t, i):
        t = self.resolve(t)
        if t[0] == 'struct':
            off = 0
            for j, e in enumerate(t[1]):
                s, a = self.sizealign(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    return off, e
                off += s
            raise ParseError('field')
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        raise ParseError('field_offset %r' % (t,))

    def fields(self, t):
        """Flattened scalar leaves as (offset, type)."""
        t = self.resolve(t)
        if t[0] == 'struct':
            for j in range(len(t[1])):
                o, e = self.field_offset(t, j)
                for oo, ee in self.fields(e):
                    yield o + oo, ee
        elif t[0] in ('arr', 'vec'):
            s = self.size(t[2])
            for j in range(t[1]):
                for oo, ee in self.fields(t[2]):
                    yield j * s + oo, ee
        else:
            yield 0, t


PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
              'returned', 'inreg', 'nest', 'immarg', 'swiftself', 'swifterror', 'swiftasync', 'noext', 'writable',
              'allocptr', 'nofpclass', 'dead_on_unwind'}
PARAM_ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                  'preallocated', 'elementtype', 'alignstack', 'range', 'initializes', 'nofpclass'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'dllimport', 'dllexport'}
CC = {'fastcc', 'ccc', 'coldcc', 'ptx_kernel', 'ptx_device', 'amdgpu_kernel', 'spir_func', 'spir_kernel'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class Cur:
    """Token cursor."""
    __slots__ = ('t', 'i', 'mod', 'line')

    def __init__(self, toks, mod, line=''):
        self.t = toks
        self.i = 0
        self.mod = mod
        self.line = line

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise ParseError('expected %r got %r in %s' % (s, self.peek(), self.line[:160]))
        self.i += 1

    def type(self):
        w = self.next()
        if w[0] == 'i' and w[1:].isdigit():
            t = ('i', int(w[1:]))
        elif w in ('double', 'float', 'half', 'x86_fp80', 'fp128', 'void', 'label', 'metadata', 'token', 'bfloat'):
            t = (w,)
        elif w == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif w == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif w == '<':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
            t = ('vec', n, e)
        elif w in ('{', '<{'):
            close = '}' if w == '{' else '}>'
            fs = []
            while self.peek() != close:
                fs.append(self.type())
                if not self.accept(','):
                    break
            self.expect(close)
            t = ('struct', tuple(fs), w == '<{')
        elif w.startswith('%'):
            t = ('named', w)
        elif w == 'opaque':
            t = ('opaque',)
        else:
            raise ParseError('type %r in %s' % (w, self.line[:160]))
        if self.peek() == '(' and t[0] in ('i', 'double', 'float', 'ptr', 'void', 'struct', 'named', 'vec', 'arr', 'x86_fp80') and self._is_fnty():
            self.skip_parens()
        return t

    def _is_fnty(self):
        # function type such as  i32 (ptr, ...)  in a call: the parenthesised list is followed by @ or %
        d, j = 0, self.i
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else (None, '')
                    return nx[0] in ('glob', 'loc')
            j += 1
        return False

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def skip_attrs(self):
        while True:
            v = self.peek()
            if v in PARAM_ATTR:
                self.next()
                if self.peek() == '(' and v == 'nofpclass':
                    self.skip_parens()
            elif v in PARAM_ATTR_ARG:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            else:
                return

    def value(self, t):
        """Operand of type t: ('loc',name) ('int',v) ('fp',Fraction|str) ('glob',name) ('zero',) ('undef',) ('agg',[(t,v)..]) ('gep',..)"""
        k = self.kind()
        w = self.next()
        if k == 'loc':
            return ('loc', w)
        if k == 'glob':
            return ('glob', w)
        if k == 'int':
            if t[0] in ('double', 'float', 'half', 'x86_fp80'):
                return ('fp', Fraction(int(w)))
            return ('int', int(w))
        if k == 'fp':
            return ('fp', Fraction(w))
        if k == 'hex':
            return ('fp', fp_hex(w))
        if k == 'str' and w.startswith('c'):
            return ('bytes', decode_str(w[2:-1]))
        if w in ('true', 'false'):
            return ('int', 1 if w == 'true' else 0)
        if w == 'null':
            return ('null',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w in ('[', '{', '<{', '<'):
            close = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[w]
            es = []
            while self.peek() != close:
                et = self.type()
                es.append((et, self.value(et)))
                if not self.accept(','):
                    break
            self.expect(close)
            return ('agg', es)
        if w == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.kind(1) == 'int':
                    self.skip_parens()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', bt, base, idx)
        if w in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            ft = self.type(); v = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return ('ccast', w, ft, v, tt)
        if w in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            ft = self.type(); a = self.value(ft); self.expect(',')
            ft2 = self.type(); b = self.value(ft2); self.expect(')')
            return ('cbin', w, ft, a, b)
        if w in ('icmp', 'fcmp'):
            pred = self.next()
            self.expect('(')
            ft = self.type(); a = self.value(ft); self.expect(',')
            ft2 = self.type(); b = self.value(ft2); self.expect(')')
            return ('ccmp', pred, ft, a, b)
        if w == 'blockaddress':
            self.skip_parens()
            return ('undef',)
        if w == 'dso_local_equivalent' or w == 'no_cfi':
            return self.value(t)
        raise ParseError('value %r in %s' % (w, self.line[:160]))

    def typed(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def fp_hex(w):
    if w[2] in 'KLMHR':
        if w[2] == 'K':
            h = int(w[3:], 16)
            s, e, m = h >> 79, (h >> 64) & 0x7fff, h & ((1 << 64) - 1)
            if e == 0x7fff:
                return 'inf' if not s else '-inf'
            v = Fraction(m, 1 << 63) * (Fraction(2) ** (e - 16383)) if e or m else Fraction(0)
            return -v if s else v
        raise ParseError('fp const ' + w)
    d = struct.unpack('>d', bytes.fromhex(w[2:].rjust(16, '0')))[0]
    if d != d:
        return 'nan'
    if d in (float('inf'), float('-inf')):
        return 'inf' if d > 0 else '-inf'
    return Fraction(d)


def decode_str(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Global:
    __slots__ = ('name', 'type', 'init', 'const', 'tls', 'linkage', 'text')


class Function:
    __slots__ = ('name', 'params', 'ret', 'lines', 'blocks', 'order', 'mod', 'linkage', 'vararg', 'header', 'attrs')


class Instr:
    __slots__ = ('op', 'dst', 'type', 'a', 'text', 'dbg')

    def __init__(self, op, dst, type, a, text):
        self.op, self.dst, self.type, self.a, self.text = op, dst, type, a, text


class Module:
    def __init__(self, text):
        self.types = TypeTable()
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.aliases = {}
        self.meta = {}
        self.raw_globals = {}
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}':
                    cur = None
                else:
                    cur.lines.append(line)
                continue
            if not line:
                continue
            c = line[0]
            if c == '%':
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = type (.*)$', line)
                if m:
                    self.types.named[m.group(1)] = Cur(tokenize(m.group(2)), self, line).type()
            elif c == '@':
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = (.*)$', line)
                if m:
                    if re.search(r'\balias\b', m.group(2)):
                        self.aliases[m.group(1)] = m.group(2)
                    else:
                        self.raw_globals[m.group(1)] = m.group(2)
            elif line.startswith('define '):
                cur = self._header(line)
                cur.lines = []
                self.functions[cur.name] = cur
            elif line.startswith('declare '):
                f = self._header(line)
                self.declares[f.name] = f
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', line)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)

    def global_(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        raw = self.raw_globals.get(name)
        if raw is None:
            return None
        g = Global()
        g.name, g.text = name, raw
        c = Cur(tokenize(re.sub(r', (align|comdat|section|!dbg|no_sanitize).*$', '', raw)), self, raw)
        g.linkage, g.tls = [], False
        while True:
            v = c.peek()
            if v in ('constant', 'global'):
                g.const = v == 'constant'
                c.next()
                break
            if v == 'thread_local':
                g.tls = True
                c.next()
                if c.peek() == '(':
                    c.skip_parens()
                continue
            if v == 'addrspace':
                c.next(); c.skip_parens()
                continue
            if v not in LINKAGE:
                raise ParseError('global ' + raw[:120])
            g.linkage.append(v)
            c.next()
        g.type = c.type()
        g.init = c.value(g.type) if c.peek() is not None and c.peek() != ',' else None
        self.globals[name] = g
        return g

    def _header(self, line):
        f = Function()
        f.mod = self
        f.header = line
        f.blocks = None
        c = Cur(tokenize(re.sub(r'\s*\{\s*$', '', line)), self, line)
        c.next()
        f.linkage = []
        while True:
            v = c.peek()
            if v == '!dbg':
                c.next(); c.next()
            elif v in LINKAGE:
                f.linkage.append(v); c.next()
            elif v in CC:
                c.next()
            elif v == 'cc':
                c.next(); c.next()
            elif v in PARAM_ATTR or v in PARAM_ATTR_ARG:
                c.skip_attrs()
            elif v in FMF:
                c.next()
            else:
                break
        f.ret = c.type()
        f.name = c.next()
        c.expect('(')
        f.params, f.vararg = [], False
        n = 0
        while c.peek() != ')':
            if c.peek() == '...':
                f.vararg = True
                c.next()
                break
            t = c.type()
            byval = None
            j = c.i
            c.skip_attrs()
            attrs = [x[1] for x in c.t[j:c.i]]
            if c.kind() == 'loc':
                nm = c.next()
            else:
                nm = '%' + str(n)
            n += 1
            f.params.append((t, nm, attrs))
            if not c.accept(','):
                break
        f.attrs = [x[1] for x in c.t[c.i:]]
        return f

    def body(self, name):
        f = self.functions[name]
        if f.blocks is None:
            self._parse_body(f)
        return f

    def _parse_body(self, f):
        f.blocks, f.order = {}, []
        n_unnamed = sum(1 for (t, nm, _) in f.params if re.match(r'%\d+$', nm))
        cur = []
        label = '%' + str(n_unnamed)
        first = True
        lines = f.lines
        i = 0
        while i < len(lines):
            line = lines[i]
            i += 1
            if not line.strip() or line.lstrip().startswith(';'):
                continue
            if line[0] not in ' \t':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', line)
                if not m:
                    raise ParseError('label ' + line)
                if not first or cur:
                    f.blocks[label] = cur
                    f.order.append(label)
                label = '%' + m.group(1)
                cur = []
                first = False
                continue
            first = False
            s = line.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            if (s.startswith('invoke') or ' = invoke' in s) and i < len(lines) and lines[i].strip().startswith('to label'):
                s += ' ' + lines[i].strip()
                i += 1
            if ('landingpad' in s):
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    i += 1
            cur.append(parse_instr(s, self))
        f.blocks[label] = cur
        f.order.append(label)
        f.lines = []


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def parse_instr(s, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        dbg = int(m.group(1))
    body = re.sub(r',? ![a-zA-Z_.]+ !\d+', '', s)
    ins = _parse_instr(body, mod)
    ins.dbg = dbg
    return ins


def _parse_instr(s, mod):
    c = Cur(tokenize(s), mod, s)
    dst = None
    if c.kind() == 'loc' and c.peek(1) == '=':
        dst = c.next()
        c.next()
    op = c.next()
    if op in ('tail', 'musttail', 'notail'):
        op = c.next()
    if op in BINOPS:
        flags = []
        while c.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or c.peek() in FMF:
            flags.append(c.next())
        t = c.type()
        a = c.value(t); c.expect(','); b = c.value(t)
        return Instr(op, dst, t, (a, b, flags), s)
    if op == 'fneg':
        while c.peek() in FMF:
            c.next()
        t = c.type()
        return Instr(op, dst, t, (c.value(t),), s)
    if op in CASTS:
        while c.peek() in ('nneg', 'nuw', 'nsw'):
            c.next()
        ft = c.type(); v = c.value(ft); c.expect('to'); tt = c.type()
        return Instr(op, dst, tt, (ft, v), s)
    if op in ('icmp', 'fcmp'):
        while c.peek() in FMF or c.peek() == 'samesign':
            c.next()
        pred = c.next()
        t = c.type(); a = c.value(t); c.expect(','); b = c.value(t)
        return Instr(op, dst, t, (pred, a, b), s)
    if op == 'load':
        while c.peek() in ('volatile', 'atomic'):
            c.next()
        t = c.type(); c.expect(','); pt = c.type(); p = c.value(pt)
        return Instr(op, dst, t, (p, ' volatile ' in s, ' atomic ' in s), s)
    if op == 'store':
        while c.peek() in ('volatile', 'atomic'):
            c.next()
        t = c.type(); v = c.value(t); c.expect(','); pt = c.type(); p = c.value(pt)
        return Instr(op, None, t, (v, p, ' volatile ' in s, ' atomic ' in s), s)
    if op == 'alloca':
        if c.peek() == 'inalloca':
            c.next()
        t = c.type()
        n = ('int', 1)
        if c.accept(',') and c.peek() not in ('align', 'addrspace'):
            nt = c.type(); n = c.value(nt)
        return Instr(op, dst, t, (n,), s)
    if op == 'getelementptr':
        while c.peek() in ('inbounds', 'nuw', 'nusw'):
            c.next()
        bt = c.type(); c.expect(',')
        pt = c.type(); base = c.value(pt)
        idx = []
        while c.accept(','):
            it = c.type()
            idx.append((it, c.value(it)))
        return Instr(op, dst, bt, (base, idx), s)
    if op in ('call', 'invoke'):
        while c.peek() in FMF or c.peek() in CC or c.peek() == 'cc':
            if c.next() == 'cc':
                c.next()
        c.skip_attrs()
        t = c.type()
        if c.peek() == 'asm':
            return Instr('asm', dst, t, (), s)
        callee = c.value(('ptr',))
        c.expect('(')
        args = []
        while c.peek() != ')':
            at = c.type()
            if at == ('metadata',):
                d = 0
                while not (d == 0 and c.peek() in (',', ')')):
                    v = c.next()
                    d += v in '({' and 1 or 0
                    d -= v in ')}' and 1 or 0
                args.append((at, ('undef',), ()))
            else:
                j = c.i
                c.skip_attrs()
                attrs = tuple(x[1] for x in c.t[j:c.i])
                args.append((at, c.value(at), attrs))
            if not c.accept(','):
                break
        c.expect(')')
        dest = None
        if op == 'invoke':
            while c.peek() != 'to':
                c.next()
            c.next(); c.next()
            dest = c.next()
            c.expect('unwind'); c.next()
            unwind = c.next()
            return Instr('call', dst, t, (callee, args, dest, unwind), s)
        return Instr('call', dst, t, (callee, args, None, None), s)
    if op == 'br':
        if c.peek() == 'label':
            c.next()
            return Instr('br', None, None, (None, c.next(), None), s)
        t = c.type(); v = c.value(t); c.expect(',')
        c.expect('label'); a = c.next(); c.expect(','); c.expect('label'); b = c.next()
        return Instr('br', None, None, (v, a, b), s)
    if op == 'switch':
        t = c.type(); v = c.value(t); c.expect(','); c.expect('label'); d = c.next(); c.expect('[')
        cases = []
        while c.peek() != ']':
            ct = c.type(); cv = c.value(ct); c.expect(','); c.expect('label')
            cases.append((cv[1], c.next()))
        return Instr('switch', None, t, (v, d, cases), s)
    if op == 'ret':
        t = c.type()
        return Instr('ret', None, t, (None if t == ('void',) else c.value(t),), s)
    if op == 'unreachable':
        return Instr(op, None, None, (), s)
    if op == 'phi':
        while c.peek() in FMF:
            c.next()
        t = c.type()
        inc = []
        while True:
            c.expect('[')
            v = c.value(t); c.expect(','); b = c.next(); c.expect(']')
            inc.append((v, b))
            if not c.accept(','):
                break
        return Instr('phi', dst, t, (inc,), s)
    if op == 'select':
        while c.peek() in FMF:
            c.next()
        ct = c.type(); cv = c.value(ct); c.expect(',')
        t = c.type(); a = c.value(t); c.expect(',')
        t2 = c.type(); b = c.value(t2)
        return Instr('select', dst, t, (cv, a, b), s)
    if op == 'extractvalue':
        t = c.type(); v = c.value(t)
        idx = []
        while c.accept(','):
            idx.append(int(c.next()))
        return Instr(op, dst, t, (v, idx), s)
    if op == 'insertvalue':
        t = c.type(); v = c.value(t); c.expect(',')
        et = c.type(); e = c.value(et)
        idx = []
        while c.accept(','):
            idx.append(int(c.next()))
        return Instr(op, dst, t, (v, et, e, idx), s)
    if op == 'extractelement':
        t = c.type(); v = c.value(t); c.expect(',')
        it = c.type(); i = c.value(it)
        return Instr(op, dst, t, (v, i), s)
    if op == 'insertelement':
        t = c.type(); v = c.value(t); c.expect(',')
        et = c.type(); e = c.value(et); c.expect(',')
        it = c.type(); i = c.value(it)
        return Instr(op, dst, t, (v, e, i), s)
    if op == 'shufflevector':
        t = c.type(); a = c.value(t); c.expect(',')
        t2 = c.type(); b = c.value(t2); c.expect(',')
        mt = c.type(); m = c.value(mt)
        return Instr(op, dst, t, (a, b, mt, m), s)
    if op == 'freeze':
        t = c.type()
        return Instr(op, dst, t, (c.value(t),), s)
    if op == 'va_arg':
        t = c.type(); v = c.value(t); c.expect(','); tt = c.type()
        return Instr(op, dst, tt, (v,), s)
    if op in ('landingpad', 'resume', 'cleanupret', 'catchpad', 'catchswitch', 'cleanuppad', 'catchret', 'fence',
              'atomicrmw', 'cmpxchg', 'indirectbr', 'callbr'):
        return Instr(op, dst, None, (), s)
    raise ParseError('instruction ' + s)
