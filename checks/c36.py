"""C36: the header splitter writes only below its output directory."""
import ast
import os
from sa.core import FnJob, Broken, REPO
from sa.pypaths import Interp

EXPLANATION = ('The script is interpreted abstractly, from its command line on, with every function inlined, over facts about path strings (at or below the output '
               'directory, absolute or relative, no parent components, a single component); file names read from files, and all other input, are arbitrary '
               'strings; conditions that test paths refine the facts; loops run to a fixed point. Each operation that creates, writes or removes a '
               'file must be shown to act at or below the output directory of the split command, or on the very output file of the aggregate command.')
ASSUMPTIONS = ['the output directory holds no symbolic links that lead out of it', 'POSIX paths', 'the output directory is not the file system root or a directory above the original headers']
RULE = 'abstract interpretation (path-containment facts) of the Python syntax tree; every write is an obligation'
MIN = 3


def command_line(tree, path):
    """Destinations of the positional arguments: (output directories of split, output files of aggregate)."""
    subs, pos = {}, {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'add_parser' and isinstance(n.targets[0], ast.Name):
            a = n.value.args[0] if n.value.args else None
            if isinstance(a, ast.Constant):
                subs[n.targets[0].id] = a.value
    calls = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument' and isinstance(n.func.value, ast.Name)]
    for n in sorted(calls, key=lambda n: (n.lineno, n.col_offset)):
        who = subs.get(n.func.value.id)
        if who and n.args and isinstance(n.args[0], ast.Constant) and not str(n.args[0].value).startswith('-'):
            pos.setdefault(who, []).append(n.args[0].value)
    if len(pos.get('split', [])) < 2 or len(pos.get('aggregate', [])) < 2:
        raise Broken('the command line of %s is not recognised: %s' % (path, pos))
    return [pos['split'][-1]], [pos['aggregate'][-1]]


def job():
    def fn(scratch, ctx):
        path = os.path.join(REPO, 'scripts/aggregateOrSplit.py')
        if not os.path.exists(path):
            raise Broken('scripts/aggregateOrSplit.py is gone')
        try:
            tree = ast.parse(open(path).read())
        except SyntaxError as e:
            raise Broken('cannot parse %s: %s' % (path, e))
        outdirs, outfiles = command_line(tree, path)
        it = Interp(tree, outdirs, outfiles, path).run()
        for (line, what), ok in sorted(it.sinks.items()):
            ctx.ob(ok, '%s at or below the output directory' % what, 'the path can lie elsewhere: it is built from names that are not confined', 'scripts/aggregateOrSplit.py:%d' % line)
        for (line, name) in sorted(it.unknown):
            raise Broken('scripts/aggregateOrSplit.py:%d calls %s, whose effect on files is not modelled' % (line, name))
        ctx.functions |= {'aggregateOrSplit.' + c for c in it.calls}
        ctx.instrs += it.steps
        ctx.count('functions interpreted', len(it.calls))
        ctx.count('abstract evaluation steps', it.steps)
        writes = [k for k in it.sinks if 'open' in k[1] or 'write' in k[1]]
        if len(writes) < 2:
            raise Broken('only %d writes found in %s' % (len(writes), path))
    return FnJob('splitter', fn)


def build(tier):
    return [job()]
