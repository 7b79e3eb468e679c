"""C42: the developer scripts delete and write nothing but what they were told to."""
import ast
import os
from sa.core import FnJob, Broken, REPO
from sa.pypaths import Interp, S, TOPS, EMPTY, const, join

EXPLANATION = ('The scripts are interpreted abstractly over facts about path strings, with every function inlined and conditions refining the facts. The build and install directory arguments '
               'designate a directory only where they are known not to be empty; a default directory is designated when it is a single path component below the current directory '
               'whose name begins with "build" or "install". Each operation that deletes, creates, changes or writes a file must be shown to act at or below a designated directory; '
               'a deletion of what lies above one, or of the current directory for want of a name, is reported. The comparison script must write nothing at all.')
ASSUMPTIONS = ['the designated directories hold no symbolic links that lead out of them', 'POSIX paths', 'cmake and dot, which the script starts, are not analysed']
RULE = 'abstract interpretation (path-containment facts) of the Python syntax trees; every deletion and write is an obligation'
MIN = 5
PREFIXES = ('build', 'install')
NAMED = ('buildpath', 'installpath')


class Config(Interp):
    """Facts 'user': what the user gave for a directory, possibly nothing; 'pre': begins with one of PREFIXES."""

    def __init__(self, tree, path, choices):
        super().__init__(tree, [], [], path)
        self.choices = choices

    def known(self, v, facts):
        f = v.f | frozenset(facts)
        if 'user' in f and 'nonempty' in f:
            f |= {'under', 'isout'}
        return S(f, v.const)

    def argument(self, name):
        if name in NAMED:
            return S({'user'})
        r = None
        for c in self.choices.get(name, ()):
            r = join(r, const(c))
        return r or TOPS

    def cat(self, a, b):
        r = super().cat(a, b)
        if isinstance(a, S) and isinstance(r, S) and r is not b and r.const is None:
            if 'pre' in a.f or a.const is not None and a.const.startswith(PREFIXES):
                f = r.f | {'pre', 'nonempty', 'rel'}
                if 'comp' in f:
                    f |= {'under', 'isout', 'nodd'}
                return S(f)
        return r

    def modcall(self, name, args, kw, node, env):
        if name.startswith('subprocess.') or name in ('os.system', 'os.chdir'):
            for n in ast.walk(node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.split()[:1] and os.path.basename(n.value.split()[0]) in ('rm', 'rmdir', 'mv', 'find', 'git', 'unlink', 'truncate'):
                    self.sinks[(node.lineno, 'command %s' % n.value.split()[0])] = False
            return TOPS
        return super().modcall(name, args, kw, node, env)


def choices(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            long = [x for x in names if x.startswith('--')] or names
            dest = next((k.value.value for k in n.keywords if k.arg == 'dest' and isinstance(k.value, ast.Constant)), long[0].lstrip('-').replace('-', '_') if long else None)
            for k in n.keywords:
                if k.arg == 'choices' and isinstance(k.value, (ast.List, ast.Tuple)):
                    out[dest] = [c.value for c in k.value.elts if isinstance(c, ast.Constant)]
                if k.arg == 'default' and isinstance(k.value, ast.Constant) and dest in out and k.value.value not in out[dest]:
                    out[dest] = out[dest] + [k.value.value]
            if dest is not None:
                out.setdefault('*', []).append(dest)
    return out


def job(script, need):
    def fn(scratch, ctx):
        path = os.path.join(REPO, 'scripts', script)
        if not os.path.exists(path):
            raise Broken('scripts/%s is gone' % script)
        try:
            tree = ast.parse(open(path).read())
        except SyntaxError as e:
            raise Broken('cannot parse %s: %s' % (path, e))
        ch = choices(tree)
        if need and not set(NAMED) <= set(ch.get('*', ())):
            raise Broken('the command line of %s is not recognised: %s' % (script, ch))
        it = Config(tree, path, ch).run()
        for (line, what), ok in sorted(it.sinks.items()):
            ctx.ob(ok, '%s at or below the build or install directory' % what, 'the path can be another one: it is not what was named on the command line, nor build-... or install-... in the current directory', 'scripts/%s:%d' % (script, line))
        for (line, name) in sorted(it.unknown):
            raise Broken('scripts/%s:%d calls %s, whose effect on files is not modelled' % (script, line, name))
        ctx.functions |= {script + '.' + c for c in it.calls} | {script}
        ctx.instrs += it.steps
        ctx.count('abstract evaluation steps', it.steps)
        if not need:
            ctx.ob(True, 'no operation that deletes or writes a file', '', 'scripts/%s' % script)
        elif len(it.sinks) < need:
            raise Broken('only %d operations on files found in %s' % (len(it.sinks), path))
    return FnJob(script, fn)


def build(tier):
    return [job('config-build.py', 4), job('compare_uncrustify.py', 0)]
