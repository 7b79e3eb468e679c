"""Abstract interpreter for Python scripts over facts about path strings.

A string is described by facts that hold for each of its possible values:
  under     the path is at or below the output directory          isout  it is the output directory itself
  leaf      the path is directly in the output directory, or not a file    isfile  it is the output file the user named
  abs, rel  it begins, does not begin, with a separator             nodd   no component is '..'
  ddlead    '..' only as leading components of a relative path        comp   it has no separator
  slash     it ends with a separator                               nonempty
Symbolic links below the output directory are not followed."""
import ast

BAD_MODES = set('wax+')
EMPTY = frozenset()
SINKS = {  # dotted name -> positions of the paths that are written, created, removed
    'os.makedirs': (0,), 'os.mkdir': (0,), 'os.remove': (0,), 'os.unlink': (0,), 'os.rmdir': (0,), 'os.removedirs': (0,), 'os.rename': (0, 1), 'os.renames': (0, 1), 'os.replace': (0, 1), 'os.symlink': (1,),
    'os.link': (1,), 'os.truncate': (0,), 'os.open': (0,), 'os.chmod': (0,), 'os.utime': (0,), 'os.mkfifo': (0,), 'os.mknod': (0,), 'shutil.rmtree': (0,), 'shutil.copy': (1,), 'shutil.copy2': (1,),
    'shutil.copyfile': (1,), 'shutil.copytree': (1,), 'shutil.copymode': (1,), 'shutil.copystat': (1,), 'shutil.move': (0, 1), 'os.chown': (0,), 'shutil.chown': (0,)}
PATH_SINKS = {'write_text', 'write_bytes', 'mkdir', 'touch', 'unlink', 'rename', 'replace', 'rmdir', 'symlink_to', 'hardlink_to', 'chmod'}
FORBIDDEN = ('subprocess.', 'os.system', 'os.popen', 'os.exec', 'os.spawn', 'os.fork', 'os.chdir', 'os.chroot', 'os.fchdir', 'ctypes.', 'socket.', 'tempfile.', 'zipfile.', 'tarfile.', 'sqlite3.', 'shelve.', 'exec', 'eval')


class S:
    """A string (or path object)."""
    __slots__ = ('f', 'const', 'deriv')

    def __init__(self, f=EMPTY, const=None, deriv=None):
        self.f, self.const, self.deriv = frozenset(f), const, deriv

    def key(self):
        return ('S', self.f, self.const)


class L:
    __slots__ = ('elem',)

    def __init__(self, elem):
        self.elem = elem

    def key(self):
        return ('L', self.elem.key() if self.elem is not None else None)


class T:
    """A tuple or list of known length."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def key(self):
        return ('T', tuple(i.key() for i in self.items))


class M:
    """A module, or something in one, by its dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('M', self.name)


class F:
    __slots__ = ('node', 'env', 'self_')

    def __init__(self, node, env, self_=None):
        self.node, self.env, self_ = node, env, self_
        self.self_ = self_

    def key(self):
        return ('F', id(self.node))


class O:
    """An instance of a class of the script; attributes are joined over all assignments."""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def key(self):
        return ('O', id(self.cls))


class C:
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node

    def key(self):
        return ('C', id(self.node))


class N:
    """None, booleans, numbers: never a path."""
    __slots__ = ()

    def key(self):
        return ('N',)


class Args:
    """The parsed command line."""
    __slots__ = ()

    def key(self):
        return ('Args',)


NONE = N()
TOPS = S()


def const(c):
    f = {'abs' if c.startswith('/') else 'rel'}
    parts = c.split('/')
    if '..' not in parts:
        f.add('nodd')
    if '/' not in c:
        f.add('comp')
    if c.endswith('/'):
        f.add('slash')
    if c:
        f.add('nonempty')
    return S(f, c)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b or a.key() == b.key():
        return a
    if isinstance(a, N):
        return b
    if isinstance(b, N):
        return a
    if isinstance(a, S) and isinstance(b, S):
        return S(a.f & b.f, a.const if a.const == b.const else None)
    if isinstance(a, (L, T)) and isinstance(b, (L, T)):
        return L(join(elem(a), elem(b)))
    return TOPS


def elem(v):
    if isinstance(v, L):
        return v.elem
    if isinstance(v, T):
        r = None
        for i in v.items:
            r = join(r, i)
        return r
    if isinstance(v, S) and v.const is not None and len(v.const) == 1:
        return v
    return TOPS


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = {}
    for k in set(a) | set(b):
        if k.startswith('#'):
            if k in a and k in b and a[k] is b[k]:
                out[k] = a[k]
            continue
        if k.startswith('@'):
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            continue
        out[k] = join(a.get(k), b.get(k)) if k in a and k in b else (a.get(k) or b.get(k))
    return out


def same_env(a, b):
    if (a is None) != (b is None):
        return False
    return a is None or (set(k for k in a if k[0] != '#') == set(k for k in b if k[0] != '#') and all(a[k].key() == b[k].key() for k in a if k[0] != '#'))


class Gone(Exception):
    pass


class Interp:
    def __init__(self, tree, outdirs, outfiles, path):
        self.tree, self.outdirs, self.outfiles, self.path = tree, outdirs, outfiles, path
        self.sinks = {}        # (line, what) -> ok
        self.unknown = {}
        self.stack = []
        self.steps = 0
        self.calls = set()
        self.globals = {}
        self.rets = []
        self.loops = []

    # -------------------------------------------------- string operations
    def opath(self, a, parts):
        """os.path.join."""
        r = a
        for b in parts:
            if not isinstance(b, S):
                b = TOPS
            f = set()
            if 'abs' in b.f:
                r = S(b.f, b.const)
                continue
            if isinstance(r, S):
                if 'under' in r.f and 'rel' in b.f:
                    if 'nodd' in b.f:
                        f.add('under')
                    elif 'comp' in b.f:
                        f.add('leaf')
                if 'nodd' in r.f and 'nodd' in b.f:
                    f.add('nodd')
                f |= r.f & {'abs'}
                if 'rel' in b.f:
                    f |= r.f & {'rel'}
                if 'nonempty' in b.f:
                    f |= b.f & {'slash'} | {'nonempty'}
            r = S(f)
        return r

    def cat(self, a, b):
        if not (isinstance(a, S) and isinstance(b, S)):
            return TOPS
        if a.const is not None and b.const is not None:
            return const(a.const + b.const)
        if a.const == '':
            return b
        if b.const == '':
            return a
        f = set()
        cut = 'slash' in a.f or 'abs' in b.f
        if 'nonempty' in a.f:
            f |= a.f & {'abs', 'rel'}
        if 'nonempty' in b.f:
            f |= b.f & {'slash'}
        if 'nonempty' in a.f or 'nonempty' in b.f:
            f.add('nonempty')
        if cut:
            if 'nodd' in a.f and 'nodd' in b.f:
                f.add('nodd')
            if 'under' in a.f and 'nodd' in b.f:
                f.add('under')
                if b.const is not None and not b.const.strip('/') and 'isout' in a.f:
                    f.add('isout')
        elif 'comp' in a.f and 'comp' in b.f:
            f.add('comp')
        else:
            # the last component of a and the first of b fuse: no '..' appears if one of them cannot be part of it
            for x, y in ((a, b), (b, a)):
                if x.const is not None and 'nodd' in x.f and 'nodd' in y.f:
                    edge = x.const.split('/')[-1] if x is a else x.const.split('/')[0]
                    if edge.strip('.'):
                        f.add('nodd')
                        if x is b and 'under' in a.f and 'isout' not in a.f and '/' not in b.const:
                            f.add('under')
        return S(f)

    def norm(self, x, absolute=False):
        if not isinstance(x, S):
            return TOPS
        f = {'nonempty'} | (x.f & {'under', 'isout', 'isfile', 'leaf', 'abs', 'rel', 'nodd'})
        if 'abs' in f or absolute:
            f -= {'rel'}
            f |= {'abs', 'nodd'}
        f.add('ddlead')
        if absolute:
            f.discard('comp')
        return S(f)

    def dirname(self, x):
        if not isinstance(x, S):
            return TOPS
        f = x.f & {'abs', 'rel', 'nodd'}
        if ('under' in x.f or 'leaf' in x.f) and 'isout' not in x.f:
            f = f | {'under'}
        return S(f)

    def basename(self, x):
        return S({'comp', 'rel'} | (x.f & {'nodd'} if isinstance(x, S) else EMPTY))

    def split(self, x, sep):
        f = set()
        if isinstance(x, S) and sep == '/':
            f = {'comp', 'rel'} | (x.f & {'nodd'})
        return L(S(f))

    def lstrip(self, x, chars):
        f = set()
        if chars is not None and '/' in chars:
            f = {'rel'} | (x.f & {'nodd', 'comp'}) if set(chars) <= {'/', '.'} else set()
            if set(chars) == {'/'} and 'ddlead' in x.f:
                f |= {'ddlead'}
        elif chars is not None:
            f = set()
        return S(f)

    def known(self, v, facts):
        """The string v, known to have the facts."""
        return S(v.f | frozenset(facts), v.const)

    # -------------------------------------------------- calls of modelled functions
    def sink(self, v, node, what):
        ok = isinstance(v, S) and bool(v.f & {'under', 'leaf', 'isfile'})
        k = (node.lineno, what)
        self.sinks[k] = self.sinks.get(k, True) and ok

    def modcall(self, name, args, kw, node, env):
        a = list(args)

        def arg(i, *names):
            if i < len(a):
                return a[i]
            for n in names:
                if n in kw:
                    return kw[n]
            return None
        s0 = a[0] if a and isinstance(a[0], S) else TOPS
        for p in FORBIDDEN:
            if name == p or p.endswith('.') and name.startswith(p) or name.startswith(p) and p.startswith('os.') and not p.endswith('.') and name != 'os.path':
                self.sinks[(node.lineno, 'call of %s' % name)] = False
                return TOPS
        if name in ('open', 'io.open', 'codecs.open', 'os.fdopen'):
            m = arg(1, 'mode')
            w = True if m is not None and not (isinstance(m, S) and m.const is not None) else m is not None and bool(set(m.const) & BAD_MODES)
            if w:
                self.sink(arg(0, 'file', 'filename') or TOPS, node, 'open for writing')
            return M('<file>')
        if name in SINKS:
            names = {0: ('name', 'path', 'src', 'file'), 1: ('dst',)}
            for i in SINKS[name]:
                self.sink(arg(i, *names[i]) or TOPS, node, name)
            return NONE
        if name == 'os.path.join':
            if any(isinstance(x, ast.Starred) for x in node.args):
                r = None
                for x in node.args:
                    if isinstance(x, ast.Starred):
                        e = elem(self.ev(x.value, env))
                        v = e if e is not None else None
                        if v is not None:
                            r = v if r is None else join(r, self.opath(self.opath(r, [v]), [v]))
                    else:
                        v = self.ev(x, env)
                        r = v if r is None else self.opath(r, [v])
                return r or TOPS
            return self.opath(a[0], a[1:]) if a else TOPS
        if name == 'os.path.normpath':
            return self.norm(s0)
        if name in ('os.path.abspath', 'os.path.realpath'):
            return self.norm(s0, True)
        if name == 'os.path.dirname':
            return self.dirname(s0)
        if name == 'os.path.basename':
            return self.basename(s0)
        if name == 'os.path.split':
            return T([self.dirname(s0), self.basename(s0)])
        if name == 'os.path.splitdrive':
            return T([const(''), S(s0.f, s0.const)])
        if name == 'os.path.splitext':
            return T([S(s0.f & {'comp'}), S(s0.f & {'comp'})])
        if name in ('os.path.expanduser', 'os.path.expandvars', 'os.path.normcase', 'os.fspath', 'os.fsdecode', 'str', 'pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath', 'pathlib.PurePosixPath', 'sys.intern'):
            if name.startswith('pathlib'):
                return self.opath(s0, a[1:]) if a else const('.')
            return S(s0.f, s0.const) if 'expand' not in name else TOPS
        if name == 'os.path.relpath':
            base = arg(1, 'start')
            f = {'rel', 'ddlead', 'nonempty'}
            if isinstance(base, S) and base.const == '/':
                f |= {'nodd'}
            if isinstance(base, S) and 'isout' in base.f and 'under' in s0.f:
                f |= {'nodd'}
            return S(f)
        if name in ('os.path.commonpath', 'os.path.commonprefix'):
            return TOPS
        if name in ('os.sep', 'os.path.sep'):
            return const('/')
        if name in ('os.getcwd', 'os.getcwdb'):
            return S({'abs'})
        if name in ('sorted', 'list', 'tuple', 'reversed', 'set', 'frozenset', 'iter'):
            return L(elem(a[0])) if a else L(None)
        if name == 'filter':
            return L(elem(a[1])) if len(a) > 1 else L(TOPS)
        if name == 'enumerate':
            return L(T([NONE, elem(a[0]) if a else TOPS]))
        if name == 'zip':
            return L(T([elem(x) or NONE for x in a]))
        if name == 'next':
            return elem(a[0]) if a else TOPS
        if name.startswith('argparse.') or name.endswith(('.add_parser', '.add_subparsers', '.add_argument_group', '.add_mutually_exclusive_group')):
            return M('argparse.<parser>')
        if name in ('print', 'len', 'isinstance', 'issubclass', 'range', 'int', 'bool', 'float', 'any', 'all', 'min', 'max', 'sum', 'hash', 'id', 'abs', 'callable', 'hasattr') or name.startswith(('os.path.', 're.', 'sys.', 'argparse.', 'logging.', 'collections.', 'itertools.', 'typing.', 'textwrap.', 'string.', 'math.', 'functools.', 'dataclasses.', 'hashlib.', 'time.', 'warnings.', 'contextlib.', 'enum.', 'json.')):
            if name == 'sys.exit':
                raise Gone()
            if name == 'range':
                return L(NONE)
            return TOPS
        if name in ('os.exit', 'os._exit', 'exit', 'quit', 'os.abort'):
            raise Gone()
        if name.startswith(('os.', 'shutil.', 'pathlib.')):
            if name in ('os.environ.get', 'os.getenv', 'os.listdir', 'os.walk', 'os.stat', 'os.lstat', 'os.scandir', 'os.access', 'os.getpid', 'os.cpu_count', 'os.get_terminal_size', 'shutil.which', 'shutil.get_terminal_size', 'os.close', 'os.linesep', 'os.readlink', 'os.strerror', 'os.umask') or name.startswith('pathlib.'):
                return TOPS
            self.unknown[(node.lineno, name)] = True
        return TOPS

    def strcall(self, x, meth, args, kw, node, env):
        def cst(i):
            return args[i].const if i < len(args) and isinstance(args[i], S) else None
        if meth in PATH_SINKS and not (meth == 'replace' and len(args) >= 2):
            self.sink(x, node, 'Path.' + meth)
            if meth in ('rename', 'replace') and args:
                self.sink(args[0], node, 'Path.' + meth)
                return args[0]
            return NONE
        if meth == 'open':
            m = args[0] if args else kw.get('mode')
            if m is not None and (not isinstance(m, S) or m.const is None or set(m.const) & BAD_MODES):
                self.sink(x, node, 'Path.open for writing')
            return M('<file>')
        if meth == 'lstrip':
            return self.lstrip(x, cst(0) if args else None)
        if meth == 'strip' and args:
            c = cst(0)
            if c == '/':
                return S({'rel'} | (x.f & {'nodd', 'comp'}))
            return TOPS
        if meth == 'rstrip' and args and cst(0) == '/':
            return S(x.f - {'slash', 'nonempty', 'abs'} if x.const is None else const(x.const.rstrip('/')).f)
        if meth in ('strip', 'rstrip', 'lower', 'upper', 'format', 'expandtabs', 'casefold', 'title', 'encode', 'decode'):
            return S(x.f & {'comp'}) if meth in ('lower', 'upper', 'casefold', 'strip') else TOPS
        if meth == 'replace' and len(args) >= 2:
            o, n = cst(0), cst(1)
            if o == '..' and n is not None and '.' not in n and len(args) == 2:
                return S({'nodd'} | (x.f & {'comp'} if '/' not in n else EMPTY))
            if o == '/' and n is not None and '/' not in n:
                return S({'comp', 'rel'} | ({'nodd'} if n.strip('.') and 'abs' in x.f else EMPTY))
            if o == '\\' and n == '/':
                return TOPS
            return TOPS
        if meth in ('split', 'rsplit'):
            return self.split(x, cst(0) if args else None)
        if meth in ('partition', 'rpartition'):
            e = self.split(x, cst(0)).elem
            return T([e if meth == 'partition' else S(e.f - {'comp'}), TOPS, e if meth != 'partition' else S(EMPTY)]) if cst(0) == '/' else T([TOPS] * 3)
        if meth == 'join':
            if args and isinstance(args[0], T) and x.const is not None and args[0].items:
                r = None
                for i in args[0].items:
                    r = i if r is None else self.cat(self.cat(r, x), i)
                return r if isinstance(r, S) else TOPS
            e = elem(args[0]) if args else TOPS
            if e is None:
                return const('')
            f = set()
            if isinstance(e, S) and x.const == '/':
                if 'nodd' in e.f:
                    f.add('nodd')
                if 'rel' in e.f and 'nonempty' in e.f:
                    f.add('rel')
            elif isinstance(e, S) and x.const is not None and '/' not in x.const and 'comp' in e.f:
                f |= {'comp', 'rel'}
                if x.const.strip('.'):
                    pass
            return S(f)
        if meth in ('resolve', 'absolute'):
            return self.norm(x, True) if meth == 'resolve' else S(x.f & {'under', 'isout', 'isfile', 'leaf', 'nodd'} | {'abs'})
        if meth in ('as_posix', '__str__', '__fspath__'):
            return x
        if meth == 'joinpath':
            return self.opath(x, args)
        if meth in ('relative_to',):
            b = args[0] if args else TOPS
            f = {'rel'} | (x.f & {'nodd'})
            return S(f)
        if meth in ('with_name', 'with_suffix', 'with_stem'):
            a = args[0] if args and isinstance(args[0], S) else TOPS
            if meth == 'with_suffix' and a.const is not None:
                return x
            return S({'leaf'} if 'under' in x.f and 'isout' not in x.f else EMPTY)
        if meth in ('removeprefix', 'removesuffix'):
            return S(x.f & ({'comp', 'nodd'} if meth == 'removeprefix' and cst(0) == '/' else {'comp'}))
        if meth in ('iterdir', 'glob', 'rglob'):
            return L(S(x.f & {'under'}) if meth == 'iterdir' else TOPS)
        return TOPS

    # -------------------------------------------------- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > 400000:
            raise RecursionError('script too large for the path analysis')
        t = type(e)
        if t is ast.Constant:
            return const(e.value) if isinstance(e.value, str) else NONE
        if t is ast.Name:
            if e.id in env:
                return env[e.id]
            if e.id in self.globals:
                return self.globals[e.id]
            return M(e.id)
        if t is ast.Attribute:
            b = self.ev(e.value, env)
            if isinstance(b, M):
                n = b.name + '.' + e.attr
                if n in ('os.sep', 'os.path.sep'):
                    return const('/')
                if n in ('os.pardir', 'os.path.pardir'):
                    return const('..')
                if n in ('os.curdir', 'os.path.curdir'):
                    return const('.')
                return M(n)
            if isinstance(b, Args):
                return env.get('@' + e.attr) or self.argument(e.attr)
            if isinstance(b, O):
                if e.attr in b.attrs:
                    return b.attrs[e.attr]
                m = self.method(b.cls, e.attr)
                if m is not None:
                    if any(isinstance(d, ast.Name) and d.id == 'property' for d in m.decorator_list):
                        return self.call(F(m, {}, b), [], {}, e)
                    return F(m, {}, None if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.decorator_list) else b)
                return TOPS
            if isinstance(b, C):
                m = self.method(b.node, e.attr)
                if m is not None:
                    return F(m, {}, b if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in m.decorator_list) else None)
                for s in b.node.body:
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.attr for x in s.targets):
                        return self.ev(s.value, {})
                return TOPS
            if isinstance(b, S):
                if e.attr == 'parent':
                    return self.dirname(b)
                if e.attr in ('name', 'stem'):
                    return self.basename(b)
                if e.attr == 'parts':
                    # the first part of an absolute path is its root
                    return L(S(b.f & {'nodd'} | {'nonempty'} | ({'rel', 'comp'} if 'rel' in b.f else EMPTY)))
                if e.attr in ('suffix', 'anchor', 'root', 'drive'):
                    return TOPS
                return M('<str>')
            return TOPS
        if t is ast.Call:
            return self.evcall(e, env)
        if t is ast.BinOp:
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.Add):
                if isinstance(a, (L, T)) or isinstance(b, (L, T)):
                    return L(join(elem(a), elem(b)))
                return self.cat(a, b)
            if isinstance(e.op, ast.Div) and isinstance(a, S):
                return self.opath(a, [b])
            if isinstance(e.op, ast.Mod) and isinstance(a, S) and a.const is not None:
                return self.percent(a.const, b)
            return TOPS if isinstance(a, S) or isinstance(b, S) else NONE
        if t is ast.JoinedStr:
            r = const('')
            for v in e.values:
                x = self.ev(v.value, env) if isinstance(v, ast.FormattedValue) else self.ev(v, env)
                r = self.cat(r, x if isinstance(x, S) else TOPS)
            return r
        if t is ast.BoolOp:
            r, cur = None, env
            for i, v in enumerate(e.values):
                if cur is None:
                    break
                x = self.ev(v, cur)
                last = i == len(e.values) - 1
                if isinstance(e.op, ast.Or):
                    if not (isinstance(x, N) and not last):
                        r = join(r, self.known(x, {'nonempty'}) if isinstance(x, S) and not last else x)
                    cur = self.refine(v, dict(cur), False)
                else:
                    # a falsy value of the left side is an empty string or None, never a path that is written
                    if last:
                        r = join(r, x)
                    cur = self.refine(v, dict(cur), True)
            return r or NONE
        if t is ast.IfExp:
            self.ev(e.test, env)
            a = self.refine(e.test, dict(env), True)
            b = self.refine(e.test, dict(env), False)
            return join(self.ev(e.body, a) if a is not None else None, self.ev(e.orelse, b) if b is not None else None) or TOPS
        if t in (ast.Tuple, ast.List):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                r = None
                for x in e.elts:
                    r = join(r, elem(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.ev(x, env))
                return L(r)
            return T([self.ev(x, env) for x in e.elts])
        if t is ast.Set:
            r = None
            for x in e.elts:
                r = join(r, self.ev(x, env))
            return L(r)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            c = self.comp(e.generators, dict(env))
            return L(self.ev(e.elt, c) if c is not None else None)
        if t is ast.DictComp:
            c = self.comp(e.generators, dict(env))
            if c is not None:
                self.ev(e.key, c)
                self.ev(e.value, c)
            return TOPS
        if t is ast.Dict:
            for x in list(e.keys) + list(e.values):
                if x is not None:
                    self.ev(x, env)
            return TOPS
        if t is ast.Subscript:
            b = self.ev(e.value, env)
            if not isinstance(e.slice, ast.Slice):
                self.ev(e.slice, env)
            if isinstance(b, T) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(b.items) <= e.slice.value < len(b.items):
                return b.items[e.slice.value]
            if isinstance(b, (L, T)):
                if isinstance(e.slice, ast.Slice):
                    return L(elem(b))
                return elem(b) or TOPS
            if isinstance(b, S):
                if isinstance(e.slice, ast.Slice):
                    one = isinstance(e.slice.lower, ast.Constant) and e.slice.lower.value == 1 and e.slice.upper is None and e.slice.step is None
                    return S(b.f & ({'comp', 'nodd'} if one and 'abs' in b.f else {'comp'}))
                return S({'comp'}) if 'comp' in b.f else TOPS
            return TOPS
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            env[e.target.id] = v
            env['#' + e.target.id] = e.value
            return v
        if t is ast.Lambda:
            return F(e, env)
        if t is ast.Starred:
            return L(elem(self.ev(e.value, env)))
        if t is ast.Compare:
            self.ev(e.left, env)
            for x in e.comparators:
                self.ev(x, env)
            return NONE
        if t is ast.UnaryOp:
            self.ev(e.operand, env)
            return NONE
        if t in (ast.Await, ast.Yield, ast.YieldFrom):
            if getattr(e, 'value', None) is not None:
                v = self.ev(e.value, env)
                if self.rets:
                    self.rets[-1].append(L(v) if t is ast.Yield else L(elem(v)))
            return TOPS
        if t is ast.FormattedValue:
            return self.ev(e.value, env)
        return TOPS

    def argument(self, name):
        """The value of an argument of the command line."""
        if name in self.outdirs:
            return S({'under', 'isout', 'nonempty'})
        if name in self.outfiles:
            return S({'isfile', 'nonempty'})
        return TOPS

    def percent(self, fmt, b):
        import re as _re
        items = b.items if isinstance(b, T) else [b]
        parts = _re.split(r'(%s)', fmt)
        if '%' in fmt.replace('%s', '') or fmt.count('%s') != len(items):
            return TOPS
        r, i = const(''), 0
        for p in parts:
            if p == '%s':
                x = items[i]
                i += 1
                r = self.cat(r, x if isinstance(x, S) else TOPS)
            else:
                r = self.cat(r, const(p))
        return r

    def comp(self, gens, env):
        for g in gens:
            v = self.ev(g.iter, env)
            x = elem(v)
            if x is None:
                return None
            self.bind(g.target, x, env)
            for c in g.ifs:
                self.ev(c, env)
                env = self.refine(c, env, True)
                if env is None:
                    return None
        return env

    def method(self, cls, name):
        for s in cls.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                return s
        for b in cls.bases:
            if isinstance(b, ast.Name) and isinstance(self.globals.get(b.id), C):
                m = self.method(self.globals[b.id].node, name)
                if m is not None:
                    return m
        return None

    def evcall(self, e, env):
        fn = e.func
        args = []
        star = False
        for x in e.args:
            v = self.ev(x, env)
            if isinstance(x, ast.Starred):
                star = True
                v = elem(v) or NONE
            args.append(v)
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        for k in e.keywords:
            if not k.arg:
                self.ev(k.value, env)
                star = True
        if isinstance(fn, ast.Attribute):
            b = self.ev(fn.value, env)
            if isinstance(b, S):
                return self.strcall(b, fn.attr, args, kw, e, env)
            if isinstance(b, (L, T)):
                if fn.attr in ('append', 'add', 'insert', 'appendleft'):
                    v = args[-1] if args else None
                    self.assign_back(fn.value, L(join(elem(b), v)), env)
                    return NONE
                if fn.attr in ('extend', 'update', 'union'):
                    r = L(join(elem(b), elem(args[0]) if args else None))
                    if fn.attr != 'union':
                        self.assign_back(fn.value, r, env)
                    return r
                if fn.attr in ('pop', 'popleft'):
                    return elem(b) or TOPS
                if fn.attr in ('copy',):
                    return L(elem(b))
                return TOPS
            if isinstance(b, M):
                n = b.name + '.' + fn.attr
                if b.name == '<file>' or b.name.startswith('<'):
                    return TOPS
                if b.name.startswith('argparse.<') and fn.attr.startswith('add_') and fn.attr != 'add_argument':
                    return M('argparse.<parser>')
                if fn.attr in ('parse_args',) or fn.attr == 'parse_known_args':
                    return Args() if fn.attr == 'parse_args' else T([Args(), TOPS])
                head = n.split('.')[0]
                if head in self.imports:
                    return self.modcall(n, args, kw, e, env)
                return TOPS
            if isinstance(b, Args):
                return TOPS
            if isinstance(b, N):
                return TOPS
        f = self.ev(fn, env)
        if isinstance(f, F):
            return self.call(f, args, kw, e, env if isinstance(fn, ast.Name) and f.env is not None and not f.self_ and f.node not in self.toplevel else None, star)
        if isinstance(f, C):
            o = O(f.node, {})
            self.objects.append(o)
            m = self.method(f.node, '__init__')
            if m is not None:
                self.call(F(m, {}, o), args, kw, e, None, star)
            else:
                # dataclass-like: fields in order
                fields = [s.target.id for s in f.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
                for n, v in list(zip(fields, args)) + list(kw.items()):
                    o.attrs[n] = v
            return o
        if isinstance(f, M):
            n = f.name
            # names imported from a module
            n = self.aliases.get(n, n)
            if n.split('.')[0] in self.imports or '.' not in n:
                if '.parse_args' in n:
                    return Args()
                return self.modcall(n, args, kw, e, env)
        return TOPS

    def assign_back(self, target, v, env):
        if isinstance(target, ast.Name):
            env[target.id] = v
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value, env)
            if isinstance(b, O):
                b.attrs[target.attr] = join(b.attrs.get(target.attr), v)
                self.dirty = True

    def call(self, f, args, kw, node, closure=None, star=False):
        fn = f.node
        a = fn.args
        if isinstance(fn, ast.Lambda):
            env = dict(f.env)
        else:
            env = dict(closure if closure is not None else f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.self_ is not None and names:
            env[names[0]] = f.self_
            names = names[1:]
        if star:
            args = [TOPS] * len(names)
        for n, v in zip(names, args):
            env[n] = v
            env.pop('#' + n, None)
        allargs = [x.arg for x in a.posonlyargs + a.args]
        for n, d in list(zip(allargs[::-1], a.defaults[::-1])) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n in names[:len(args)] or n in kw:
                continue
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                env[n] = self.ev(d, dict(self.globals))
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw[n]
            elif n not in env:
                env[n] = TOPS
            env.pop('#' + n, None)
        if a.vararg:
            r = None
            for v in args[len(names):]:
                r = join(r, v)
            env[a.vararg.arg] = L(r)
        if a.kwarg:
            env[a.kwarg.arg] = TOPS
        key = (id(fn), tuple(sorted((k, v.key()) for k, v in env.items() if k[0] != '#' and k in allargs)))
        if key in self.stack or len(self.stack) > 40:
            return TOPS
        self.calls.add(getattr(fn, 'name', '<lambda>'))
        self.stack.append(key)
        self.rets.append([])
        loops, self.loops = self.loops, []
        try:
            if isinstance(fn, ast.Lambda):
                return self.ev(fn.body, env)
            out = self.block(fn.body, env)
            r = None
            for v in self.rets[-1]:
                r = join(r, v)
            if out is not None and r is None:
                r = NONE
            if closure is not None:
                for s in ast.walk(fn):
                    if isinstance(s, ast.Nonlocal):
                        for n in s.names:
                            closure[n] = TOPS
            if out is None and not self.rets[-1]:
                raise Gone()
            return r or NONE
        finally:
            self.loops = loops
            self.rets.pop()
            self.stack.pop()

    # -------------------------------------------------- conditions
    def strip_wrap(self, e):
        """The expression whose location is that of e."""
        while isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ('abspath', 'realpath', 'normpath', 'fspath') and e.args:
                e = e.args[0]
            elif isinstance(f, ast.Attribute) and f.attr in ('resolve', 'absolute', 'as_posix') and not e.args:
                e = f.value
            elif isinstance(f, ast.Name) and f.id in ('str', 'Path') and e.args:
                e = e.args[0]
            else:
                break
        return e

    def add(self, env, e, facts, depth=0):
        """e is known to have the facts."""
        if depth > 6:
            return
        if isinstance(e, ast.Name) and e.id in env and isinstance(env[e.id], S):
            v = env[e.id]
            d = env.get('#' + e.id)
            env[e.id] = self.known(v, facts)
            if d is not None:
                env['#' + e.id] = d
                if 'under' in facts:
                    x = self.strip_wrap(d)
                    if x is not d or isinstance(d, ast.Name):
                        self.add(env, x, {'under'}, depth + 1)
        elif isinstance(e, ast.Attribute) and isinstance(self.ev(e.value, dict(env)), Args):
            v = self.ev(e, dict(env))
            if isinstance(v, S):
                env['@' + e.attr] = self.known(v, facts)
        else:
            x = self.strip_wrap(e)
            if x is not e and 'under' in facts:
                self.add(env, x, {'under'}, depth + 1)

    def look(self, e, env, depth=0):
        """The defining expression of a name, for conditions on derived values."""
        while isinstance(e, ast.Name) and '#' + e.id in env and depth < 5:
            e = env['#' + e.id]
            depth += 1
        return e

    def is_sepsplit(self, e, env):
        """x such that e is the list of the components of x."""
        e = self.look(e, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'split' and e.args:
            v = self.ev(e.args[0], dict(env))
            if isinstance(v, S) and v.const == '/':
                return e.func.value
        if isinstance(e, ast.Attribute) and e.attr == 'parts':
            return self.strip_path(e.value, env)
        return None

    def strip_path(self, e, env):
        e = self.look(e, env) if isinstance(e, ast.Name) and isinstance(self.look(e, env), ast.Call) and not isinstance(env.get(e.id), S) else e
        if isinstance(e, ast.Call) and e.args and (isinstance(e.func, ast.Name) and e.func.id in ('Path', 'PurePath', 'PurePosixPath', 'str') or isinstance(e.func, ast.Attribute) and e.func.attr in ('Path', 'PurePath', 'PurePosixPath')):
            return e.args[0]
        return e

    def refine(self, c, env, truth):
        """env restricted to states in which c has the truth value; None if there are none."""
        if env is None:
            return None
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            return self.refine(c.operand, env, not truth)
        if isinstance(c, ast.BoolOp):
            conj = isinstance(c.op, ast.And) == truth
            if conj:
                for v in c.values:
                    env = self.refine(v, env, truth)
                return env
            out, cur = None, env
            for v in c.values:
                if cur is None:
                    break
                out = join_env(out, self.refine(v, dict(cur), truth))
                cur = self.refine(v, cur, not truth)
            return out
        if isinstance(c, ast.Constant):
            return env if bool(c.value) == truth else None
        if isinstance(c, ast.Attribute):
            if truth:
                self.add(env, c, {'nonempty'})
            return env
        if isinstance(c, ast.Name):
            v = env.get(c.id)
            d = env.get('#' + c.id)
            if isinstance(v, S) and truth:
                self.add(env, c, {'nonempty'})
            if d is not None and isinstance(d, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
                return self.refine(d, env, truth)
            return env
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            op, l, r = c.ops[0], c.left, c.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'len' and len(l.args) == 1 and isinstance(r, ast.Constant) and isinstance(r.value, int):
                k = r.value
                if k == 0 and isinstance(op, (ast.Gt, ast.NotEq)) and truth or k == 1 and isinstance(op, ast.GtE) and truth or k == 0 and isinstance(op, (ast.Eq, ast.LtE)) and not truth or k == 1 and isinstance(op, ast.Lt) and not truth:
                    self.add(env, l.args[0], {'nonempty'})
                return env
            lv, rv = self.ev(l, dict(env)), self.ev(r, dict(env))
            eq = isinstance(op, (ast.Eq, ast.Is)) and truth or isinstance(op, (ast.NotEq, ast.IsNot)) and not truth
            ne = isinstance(op, (ast.NotEq, ast.IsNot)) and truth or isinstance(op, (ast.Eq, ast.Is)) and not truth
            if eq or ne:
                for x, y, yv in ((l, r, rv), (r, l, lv)):
                    d = self.look(x, env)
                    if eq and isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'commonpath' and d.args and isinstance(yv, S) and 'isout' in yv.f:
                        lst = self.look(d.args[0], env)
                        if isinstance(lst, (ast.List, ast.Tuple)):
                            for z in lst.elts:
                                zv = self.ev(z, dict(env))
                                if isinstance(zv, S) and 'nodd' in zv.f and 'isout' not in zv.f:
                                    self.add(env, z, {'under'})
                    if isinstance(yv, S) and yv.const is not None:
                        if eq:
                            self.add(env, x, const(yv.const).f)
                        elif yv.const == '..' and isinstance(x, ast.Name) and isinstance(env.get(x.id), S) and 'comp' in env[x.id].f:
                            self.add(env, x, {'nodd'})
                        elif yv.const == '':
                            self.add(env, x, {'nonempty'})
                        elif yv.const == '/' and isinstance(x, ast.Name) and isinstance(env.get(x.id), S):
                            pass
                    # p == realpath... no information otherwise
                return env
            if isinstance(op, (ast.In, ast.NotIn)):
                inn = isinstance(op, ast.In) == truth
                if not inn:
                    vals = [v.const for v in rv.items if isinstance(v, S)] if isinstance(rv, T) else []
                    if isinstance(r, ast.Set):
                        vals = [self.ev(z, dict(env)).const for z in r.elts if isinstance(self.ev(z, dict(env)), S)]
                    if isinstance(l, ast.Name) and isinstance(env.get(l.id), S) and vals:
                        f = set()
                        if '..' in vals and 'comp' in env[l.id].f:
                            f.add('nodd')
                        if '' in vals:
                            f.add('nonempty')
                        if '..' in vals and '/' in vals and 'comp' not in env[l.id].f and 'nonempty' in env[l.id].f:
                            # a part of a path object
                            f |= {'comp', 'rel', 'nodd'} if self.from_parts(l, env) else set()
                        self.add(env, l, f)
                    if isinstance(lv, S) and lv.const == '..':
                        x = self.is_sepsplit(r, env)
                        if x is not None:
                            self.add(env, x, {'nodd'})
                        elif isinstance(rv, S):
                            self.add(env, r, {'nodd'})
                    if isinstance(lv, S) and lv.const == '/' and isinstance(rv, S):
                        self.add(env, r, {'comp', 'rel'})
                    # OUT in p.parents: false tells nothing
                else:
                    if isinstance(lv, S) and 'isout' in lv.f and isinstance(r, ast.Attribute) and r.attr == 'parents':
                        pv = self.ev(r.value, dict(env))
                        if isinstance(pv, S) and 'nodd' in pv.f:
                            self.add(env, r.value, {'under'})
                return env
            return env
        if isinstance(c, ast.Call):
            f = c.func
            if isinstance(f, ast.Attribute):
                if f.attr == 'startswith' and c.args:
                    bv, av = self.ev(f.value, dict(env)), self.ev(c.args[0], dict(env))
                    alts = [v for v in av.items] if isinstance(av, T) else [av]
                    if truth:
                        if all(isinstance(v, S) and 'under' in v.f and 'slash' in v.f for v in alts) and isinstance(bv, S) and 'nodd' in bv.f:
                            self.add(env, f.value, {'under'})
                        if all(isinstance(v, S) and v.const and v.const.startswith('/') for v in alts):
                            self.add(env, f.value, {'abs'})
                    else:
                        for v in alts:
                            if isinstance(v, S) and v.const == '/':
                                self.add(env, f.value, {'rel'})
                            if isinstance(v, S) and v.const in ('..', '../') and isinstance(bv, S) and 'ddlead' in bv.f:
                                if v.const == '..':
                                    self.add(env, f.value, {'nodd'})
                                d = self.look(f.value, env)
                                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'relpath' and len(d.args) == 2:
                                    o = self.ev(d.args[1], dict(env))
                                    if isinstance(o, S) and 'isout' in o.f and v.const == '..':
                                        self.add(env, d.args[0], {'under'})
                    return env
                if f.attr == 'isabs' and c.args:
                    self.add(env, c.args[0], {'abs'} if truth else {'rel'})
                    return env
                if f.attr == 'is_absolute' and not c.args:
                    self.add(env, f.value, {'abs'} if truth else {'rel'})
                    return env
                if f.attr == 'is_relative_to' and c.args and truth:
                    bv, av = self.ev(f.value, dict(env)), self.ev(c.args[0], dict(env))
                    if isinstance(av, S) and 'isout' in av.f and isinstance(bv, S) and 'nodd' in bv.f:
                        self.add(env, f.value, {'under'})
                    return env
            if isinstance(f, ast.Name) and f.id in ('any', 'all') and c.args and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)) and truth == (f.id == 'all'):
                g = c.args[0]
                x = self.is_sepsplit(g.generators[0].iter, env) if len(g.generators) == 1 and not g.generators[0].ifs else None
                if x is not None and isinstance(g.generators[0].target, ast.Name):
                    e2 = dict(env)
                    e2[g.generators[0].target.id] = S({'comp', 'rel'})
                    e2 = self.refine(g.elt, e2, truth)
                    if e2 is not None and 'nodd' in e2[g.generators[0].target.id].f:
                        self.add(env, x, {'nodd'})
                return env
            # a predicate of the script: inline its return expression
            fv = self.ev(f, dict(env)) if isinstance(f, (ast.Name, ast.Attribute)) else None
            if isinstance(fv, F) and not isinstance(fv.node, ast.Lambda):
                return self.predicate(fv, c, env, truth)
            return env
        return env

    def from_parts(self, name, env):
        return True

    def predicate(self, f, c, env, truth):
        """Refines the arguments by the facts that hold whenever the called function returns the truth value."""
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.self_ is not None:
            names = names[1:]
        if any(isinstance(x, ast.Starred) for x in c.args) or len(c.args) > len(names) or len(self.stack) > 30:
            return env
        loc = {n: self.ev(x, dict(env)) for n, x in zip(names, c.args)}
        for k in c.keywords:
            if k.arg in names:
                loc[k.arg] = self.ev(k.value, dict(env))
        if f.self_ is not None:
            loc[f.node.args.args[0].arg] = f.self_
        ends = []

        def walk(body, e):
            for s in body:
                if e is None:
                    return None
                if isinstance(s, ast.Return):
                    r = self.refine(s.value, dict(e), truth) if s.value is not None else (None if truth else e)
                    if r is not None:
                        ends.append(r)
                    return None
                if isinstance(s, ast.If):
                    a = walk(s.body, self.refine(s.test, dict(e), True))
                    b = walk(s.orelse, self.refine(s.test, dict(e), False))
                    e = join_env(a, b)
                    continue
                if isinstance(s, (ast.For, ast.While, ast.Try, ast.With)):
                    return 'opaque'
                self.rets.append([])
                try:
                    e = self.stmt(s, e)
                finally:
                    self.rets.pop()
                if e == 'opaque':
                    return e
            return e
        self.stack.append(('predicate', id(f.node)))
        try:
            left = walk(f.node.body, dict(loc))
        finally:
            self.stack.pop()
        if left == 'opaque':
            return env
        if left is not None and not truth:
            ends.append(left)
        if not ends:
            return None
        fin = None
        for e in ends:
            fin = join_env(fin, e)
        pairs = list(zip(names, c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg in names]
        for n, x in pairs:
            if isinstance(fin.get(n), S) and isinstance(loc.get(n), S):
                gain = fin[n].f - loc[n].f
                if gain:
                    self.add(env, x, gain)
        return env

    # -------------------------------------------------- statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
            env.pop('#' + t.id, None)
            for k in [k for k, d in env.items() if k[0] == '#' and any(isinstance(n, ast.Name) and n.id == t.id for n in ast.walk(d))]:
                del env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = v.items if isinstance(v, T) and len(v.items) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, L(elem(v)), env)
                else:
                    self.bind(x, items[i] if items else (elem(v) or TOPS), env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(b, O):
                n = join(b.attrs.get(t.attr), v)
                if t.attr not in b.attrs or n.key() != b.attrs[t.attr].key():
                    self.dirty = True
                b.attrs[t.attr] = n
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env)

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            try:
                env = self.stmt(s, env)
            except Gone:
                return None
        return env

    def stmt(self, s, env):
        t = type(s)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            env[s.name] = F(s, env)
            return env
        if t is ast.ClassDef:
            env[s.name] = C(s)
            return env
        if t is ast.Import:
            for a in s.names:
                self.imports.add(a.name.split('.')[0])
                env[a.asname or a.name.split('.')[0]] = M(a.name if a.asname else a.name.split('.')[0])
            return env
        if t is ast.ImportFrom:
            for a in s.names:
                self.imports.add((s.module or '').split('.')[0])
                n = '%s.%s' % (s.module, a.name)
                env[a.asname or a.name] = const('/') if n in ('os.sep', 'os.path.sep') else M(n)
            return env
        if t is ast.Expr:
            self.ev(s.value, env)
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'relative_to' and s.value.args:
                x, b = self.ev(s.value.func.value, env), self.ev(s.value.args[0], env)
                if isinstance(b, S) and 'isout' in b.f and isinstance(x, S) and 'nodd' in x.f:
                    self.add(env, s.value.func.value, {'under'})
            elif isinstance(s.value, ast.Call):
                # a guard function that returns only when its argument is acceptable
                fv = self.ev(s.value.func, env) if isinstance(s.value.func, (ast.Name, ast.Attribute)) else None
                if isinstance(fv, F) and not isinstance(fv.node, ast.Lambda):
                    e1 = self.predicate(fv, s.value, dict(env), False)
                    if e1 is not None:
                        return e1
            return env
        if t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                self.bind(x, v, env)
                if isinstance(x, ast.Name) and not any(isinstance(n, ast.Name) and n.id == x.id for n in ast.walk(s.value)):
                    env['#' + x.id] = s.value
            return env
        if t is ast.AnnAssign:
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
                if isinstance(s.target, ast.Name):
                    env['#' + s.target.id] = s.value
            return env
        if t is ast.AugAssign:
            a, b = self.ev(s.target, env), self.ev(s.value, env)
            if isinstance(s.op, ast.Add):
                v = L(join(elem(a), elem(b))) if isinstance(a, (L, T)) else self.cat(a, b)
            elif isinstance(s.op, ast.Div) and isinstance(a, S):
                v = self.opath(a, [b])
            else:
                v = NONE if isinstance(a, N) else TOPS
            self.bind(s.target, v, env)
            return env
        if t is ast.If:
            self.ev(s.test, env)
            a = self.block(s.body, self.refine(s.test, dict(env), True))
            b = self.block(s.orelse, self.refine(s.test, dict(env), False))
            return join_env(a, b)
        if t in (ast.For, ast.AsyncFor, ast.While):
            v = self.ev(s.iter, env) if t is not ast.While else None
            cur = dict(env)
            self.loops.append({'break': None, 'continue': None})
            for _ in range(60):
                e = dict(cur)
                if t is ast.While:
                    self.ev(s.test, e)
                    e = self.refine(s.test, e, True)
                else:
                    x = elem(v) if not isinstance(v, S) and not isinstance(v, M) else TOPS
                    if x is None:
                        break
                    self.bind(s.target, x, e)
                self.loops[-1]['continue'] = None
                out = self.block(s.body, e)
                out = join_env(out, self.loops[-1]['continue'])
                new = join_env(dict(cur), out)
                if same_env(new, cur):
                    break
                cur = new
            brk = self.loops.pop()['break']
            after = dict(cur)
            if t is ast.While:
                after = self.refine(s.test, after, False)
            after = self.block(s.orelse, after) if s.orelse and after is not None else after
            return join_env(after, brk)
        if t is ast.Break:
            if self.loops:
                self.loops[-1]['break'] = join_env(self.loops[-1]['break'], env)
            return None
        if t is ast.Continue:
            if self.loops:
                self.loops[-1]['continue'] = join_env(self.loops[-1]['continue'], env)
            return None
        if t is ast.Return:
            if s.value is not None:
                v = self.ev(s.value, env)
            else:
                v = NONE
            if self.rets:
                self.rets[-1].append(v)
            return None
        if t is ast.Raise:
            return None
        if t in (ast.With, ast.AsyncWith):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(s.body, env)
        if t is ast.Try or t.__name__ == 'TryStar':
            start = dict(env)
            out = self.block(s.body, env)
            mid = join_env(start, out)
            res = self.block(s.orelse, out) if out is not None else None
            for h in s.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = TOPS
                res = join_env(res, self.block(h.body, e))
            if s.finalbody:
                res2 = self.block(s.finalbody, dict(res if res is not None else mid))
                res = res2 if res is not None else None
            return res
        if t is ast.Assert:
            self.ev(s.test, env)
            return env   # assertions can be switched off
        if t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
            return env
        if t.__name__ == 'Match':
            self.ev(s.subject, env)
            out = dict(env)
            for c in s.cases:
                e = dict(env)
                for n in ast.walk(c.pattern):
                    for a in ('name', 'rest'):
                        if isinstance(getattr(n, a, None), str):
                            e[getattr(n, a)] = TOPS
                out = join_env(out, self.block(c.body, e))
            return out
        return env

    def run(self):
        self.imports, self.aliases, self.objects, self.dirty = set(), {}, [], False
        self.toplevel = {n for n in self.tree.body}
        for n in self.tree.body:
            for m in getattr(n, 'body', []) if isinstance(n, ast.ClassDef) else []:
                self.toplevel.add(m)
        attrs = {}
        for _ in range(8):
            # attributes of objects are joined over all assignments: repeat until nothing changes
            self.sinks, self.unknown = {}, {}
            self.globals = {}
            for s in self.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    self.globals[s.name] = F(s, {}) if not isinstance(s, ast.ClassDef) else C(s)
            self.objects = []
            orig = O.__init__

            def init(o, cls, a):
                orig(o, cls, attrs.setdefault(id(cls), {}))
            O.__init__ = init
            self.dirty = False
            try:
                env = self.globals
                for s in self.tree.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        continue
                    try:
                        r = self.stmt(s, env)
                    except Gone:
                        break
                    if r is None:
                        break
                    if r is not env:
                        env.update(r)
            finally:
                O.__init__ = orig
            if not self.dirty:
                break
        return self
