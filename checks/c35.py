"""C35: build options and the configuration header agree."""
import itertools
import os
import re
from sa.core import FnJob, Broken, run, first_errors, REPO, GXX, CLANG
from checks.c28 import STUB

EXPLANATION = ('The CMake files are interpreted abstractly (commands, conditions, variable scopes; unknown values stay symbolic and unknown conditions fork) for every '
               'setting of the feature options and of the generic backend switches; the values that reach the generation of the configuration header, its '
               'place among the include directories of the target and its text are derived. Each feature macro must be defined exactly when its '
               'option is on, the versions must be the components of the project version, conflicting backends must be refused. Every configuration macro '
               'the headers test must be one the template defines, and each option must change what the headers declare (type-level witnesses compiled with the derived header).')
ASSUMPTIONS = ['CMake commands other than those that set variables, branch, include or configure files do not change variables of the project',
               'camp and the device toolkits are replaced by declarations']
RULE = 'reaching definitions and constant propagation over the CMake files; agreement of tested and generated macros; type-level witnesses of the effect'
MIN = 5000
FEATURES = ('SHIVA_ENABLE_CUDA', 'SHIVA_ENABLE_HIP', 'SHIVA_ENABLE_CAMP', 'SHIVA_ENABLE_BOUNDS_CHECK')
TOP = '\x01?\x02'


# ---------------------------------------------------------------- CMake language

def parse(text, path):
    """[(command, [(arg, quoted)], line)]"""
    out, i, n, ln = [], 0, len(text), 1

    def skip(i):
        while i < n:
            if text[i] in ' \t\r\n':
                i += 1
            elif text.startswith('#[[', i) or re.match(r'#\[=*\[', text[i:]):
                m = re.match(r'#\[(=*)\[', text[i:])
                e = text.find(']' + m.group(1) + ']', i)
                i = n if e < 0 else e + 2 + len(m.group(1))
            elif text[i] == '#':
                e = text.find('\n', i)
                i = n if e < 0 else e
            else:
                break
        return i
    while True:
        i = skip(i)
        if i >= n:
            return out
        m = re.compile(r'([A-Za-z_]\w*)\s*\(').match(text, i)
        if not m:
            raise Broken('%s: cannot parse near %r' % (path, text[i:i + 40]))
        line = text.count('\n', 0, i) + 1
        name, i, args, depth = m.group(1).lower(), m.end(), [], 1
        while True:
            i = skip(i)
            if i >= n:
                raise Broken('%s: unterminated command %s' % (path, name))
            c = text[i]
            if c == '(':
                depth += 1
                args.append(('(', False))
                i += 1
            elif c == ')':
                depth -= 1
                i += 1
                if not depth:
                    break
                args.append((')', False))
            elif c == '"':
                m = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(text, i)
                args.append((m.group(1), True))
                i = m.end()
            elif re.match(r'\[=*\[', text[i:i + 12]):
                m = re.match(r'\[(=*)\[', text[i:])
                e = text.find(']' + m.group(1) + ']', i)
                args.append((text[i + m.end():e].replace('$', '\x03'), True))
                i = e + 2 + len(m.group(1))
            else:
                m = re.compile(r'(?:[^\s()#"\\]|\\.|"[^"]*")+').match(text, i)
                args.append((m.group(0), False))
                i = m.end()
        out.append((name, args, line))


class State:
    def __init__(self, env, cache):
        self.env, self.cache = env, cache
        self.configured, self.includes, self.fatal, self.stop = [], [], None, False
        self.options = set()

    def copy(self):
        s = State(dict(self.env), dict(self.cache))
        s.configured, s.includes, s.fatal, s.stop, s.options = list(self.configured), list(self.includes), self.fatal, self.stop, set(self.options)
        return s

    def get(self, v):
        return self.env.get(v, self.cache.get(v))


def expand(st, s):
    for _ in range(20):
        m = re.search(r'\$\{([^${}]*)\}', s)
        if not m:
            break
        s = s[:m.start()] + (st.get(m.group(1)) or '') + s[m.end():]
    s = re.sub(r'\$ENV\{[^{}]*\}', TOP, s)
    return s.replace('\\"', '"').replace('\x03', '$')


def arglist(st, args):
    out = []
    for a, q in args:
        e = expand(st, a)
        if q:
            out.append(e)
        else:
            out += [x for x in e.split(';') if x]
    return out


FALSE = re.compile(r'^(0|OFF|NO|FALSE|N|IGNORE|NOTFOUND||.*-NOTFOUND)$', re.I)
TRUE = re.compile(r'^(1|ON|YES|TRUE|Y|[1-9]\d*(\.\d+)?)$', re.I)


def truth(v):
    if v is None:
        return False
    if FALSE.match(v):
        return False
    if '\x01' in v:
        return None
    return True


def cond(st, args):
    """Three-valued truth of a condition."""
    toks = list(args)
    pos = [0]

    def peek(k=0):
        return toks[pos[0] + k] if pos[0] + k < len(toks) else (None, False)

    def nxt():
        t = peek()
        pos[0] += 1
        return t

    def val(t):
        """The string an operand of a comparison stands for."""
        s, q = t
        e = expand(st, s)
        if not q and st.get(e) is not None:
            return st.get(e)
        return e

    def primary():
        s, q = nxt()
        if s == '(' and not q:
            r = disj()
            nxt()
            return r
        if not q and s == 'NOT':
            r = primary()
            return None if r is None else not r
        if not q and s == 'DEFINED':
            v = nxt()[0]
            if v.startswith('ENV{'):
                return None
            r = st.get(expand(st, v))
            return r is not None and r != '' or r == '' and v in st.env
        if not q and s in ('EXISTS', 'IS_DIRECTORY', 'COMMAND', 'TARGET', 'POLICY', 'TEST', 'IS_ABSOLUTE'):
            p = expand(st, nxt()[0])
            return None if s != 'EXISTS' or '\x01' in p else os.path.exists(p.replace('<SRC>', REPO))
        o, oq = peek()
        if o in ('STREQUAL', 'EQUAL', 'VERSION_EQUAL', 'VERSION_LESS', 'VERSION_GREATER', 'VERSION_GREATER_EQUAL', 'VERSION_LESS_EQUAL', 'LESS', 'GREATER', 'LESS_EQUAL', 'GREATER_EQUAL', 'MATCHES', 'IN_LIST', 'STRLESS', 'STRGREATER') and not oq:
            nxt()
            a, b = val((s, q)), val(nxt())
            if '\x01' in a or '\x01' in b or o == 'IN_LIST' or o == 'MATCHES':
                if o in ('STREQUAL', 'EQUAL') and a == b and a != TOP and a.count('\x01') == 1:
                    return True
                return None
            if o == 'STREQUAL':
                return a == b
            try:
                x, y = [[int(p) for p in v.split('.')] for v in (a, b)]
            except ValueError:
                return False
            k = max(len(x), len(y))
            x, y = x + [0] * (k - len(x)), y + [0] * (k - len(y))
            return {'EQUAL': x == y, 'LESS': x < y, 'GREATER': x > y, 'GREATER_EQUAL': x >= y, 'LESS_EQUAL': x <= y}.get(o.replace('VERSION_', ''))
        e = expand(st, s)
        if FALSE.match(e) and (e or not q):
            return False
        if TRUE.match(e):
            return True
        if q:
            return None if '\x01' in e else False
        if e == s or True:
            if '\x01' in e:
                return None
            return truth(st.get(e))

    def conj():
        r = primary()
        while peek() == ('AND', False):
            nxt()
            x = primary()
            r = False if r is False or x is False else None if r is None or x is None else True
        return r

    def disj():
        r = conj()
        while peek() == ('OR', False):
            nxt()
            x = conj()
            r = True if r is True or x is True else None if r is None or x is None else False
        return r
    return disj()


def block(cmds, i, ends):
    """Index of the matching end of the block opened at i, and the positions of its branches."""
    opens = {'if': 'endif', 'foreach': 'endforeach', 'while': 'endwhile', 'function': 'endfunction', 'macro': 'endmacro', 'block': 'endblock'}
    depth, parts = 0, [i]
    for k in range(i, len(cmds)):
        n = cmds[k][0]
        if n in opens:
            depth += 1
        elif n in opens.values():
            depth -= 1
            if not depth:
                return k, parts + [k]
        elif n in ('elseif', 'else') and depth == 1:
            parts.append(k)
    raise Broken('unterminated block in the CMake files')


class Cmake:
    def __init__(self):
        self.files = {}
        self.lines = 0

    def load(self, path):
        if path not in self.files:
            self.files[path] = parse(open(path).read(), path)
        return self.files[path]

    def run_file(self, states, path, cur):
        cmds = self.load(path)
        return self.run(states, cmds, os.path.dirname(path))

    def run(self, states, cmds, lst):
        i = 0
        while i < len(cmds):
            name, args, line = cmds[i]
            self.lines += 1
            if name == 'if':
                end, parts = block(cmds, i, None)
                done, todo = [], states
                for a, b in zip(parts, parts[1:]):
                    n2, c2, _ = cmds[a]
                    taken, rest = [], []
                    for s in todo:
                        r = True if n2 == 'else' or s.fatal else cond(s, c2)
                        if s.fatal:
                            done.append(s)
                        elif r is True:
                            taken.append(s)
                        elif r is False:
                            rest.append(s)
                        else:
                            taken.append(s.copy())
                            rest.append(s)
                    done += self.run(taken, cmds[a + 1:b], lst) if taken else []
                    todo = rest
                states = done + todo
                i = end + 1
                if len(states) > 4096:
                    raise Broken('too many paths through the CMake files')
                continue
            if name in ('function', 'macro'):
                i = block(cmds, i, None)[0] + 1
                continue
            if name in ('foreach', 'while'):
                end, _ = block(cmds, i, None)
                # loops are not followed: whatever they set is unknown afterwards
                for n2, a2, _ in cmds[i + 1:end]:
                    if n2 in ('set', 'list', 'string', 'math', 'option', 'unset'):
                        for s in states:
                            for t, _ in a2[:3]:
                                if re.match(r'\w+$', t):
                                    s.env[t] = TOP
                i = end + 1
                continue
            nxt = []
            for s in states:
                nxt += [s] if s.fatal or s.stop else self.step(s, name, args, lst, line)
            states = nxt
            i += 1
        return states

    def step(self, s, name, args, lst, line):
        a = arglist(s, args)
        if name == 'project':
            pv = a[a.index('VERSION') + 1] if 'VERSION' in a else None
            s.env['PROJECT_NAME'] = a[0]
            for v in ('PROJECT', a[0]):
                for c in ('VERSION', 'VERSION_MAJOR', 'VERSION_MINOR', 'VERSION_PATCH'):
                    s.env['%s_%s' % (v, c)] = '\x01%s\x02' % c if pv else ''
                s.env[v + '_SOURCE_DIR'], s.env[v + '_BINARY_DIR'] = '<SRC>', '<BIN>'
        elif name == 'option':
            s.options.add(a[0])
            if a[0] not in s.env and a[0] not in s.cache:
                s.cache[a[0]] = a[2] if len(a) > 2 else 'OFF'
        elif name == 'set':
            v, vals = a[0], a[1:]
            if 'CACHE' in vals:
                k = vals.index('CACHE')
                if v not in s.cache or 'FORCE' in vals[k:]:
                    s.cache[v] = ';'.join(vals[:k])
                    s.env.pop(v, None)
            elif 'PARENT_SCOPE' not in vals:
                if vals or len(args) > 1:
                    s.env[v] = ';'.join(vals)
                else:
                    s.env.pop(v, None)
        elif name == 'unset':
            (s.cache if 'CACHE' in a else s.env).pop(a[0], None)
        elif name == 'string':
            if a[0] == 'REPLACE':
                out = a[3] if len(a) > 3 else None
                # the separator may have been dropped by list expansion: take the arguments as written
                raw = [expand(s, x) for x, _ in args]
                src = ';'.join(raw[4:])
                s.env[raw[3]] = src.replace(raw[1], raw[2]) if src != TOP else TOP
            else:
                for t, _ in args[1:]:
                    if re.match(r'[A-Za-z_]\w*$', t):
                        s.env[t] = TOP
        elif name == 'list':
            l = (s.get(a[1]) or '')
            el = l.split(';') if l else []
            if a[0] == 'GET' and '?' not in l and len(a) == 4:
                try:
                    s.env[a[3]] = el[int(a[2])]
                except (IndexError, ValueError):
                    s.env[a[3]] = TOP
            elif a[0] == 'LENGTH':
                s.env[a[2]] = TOP if TOP in l else str(len(el))
            elif a[0] == 'APPEND':
                s.env[a[1]] = ';'.join(el + a[2:])
            else:
                for t, _ in args[1:]:
                    if re.match(r'[A-Za-z_]\w*$', t):
                        s.env[t] = TOP
        elif name in ('math', 'cmake_parse_arguments', 'execute_process', 'get_filename_component', 'get_property', 'get_target_property', 'cmake_path', 'find_package', 'find_program', 'find_path', 'find_library', 'include_external_msproject', 'separate_arguments', 'try_compile', 'check_cxx_source_compiles'):
            for t, _ in args:
                if re.match(r'[A-Za-z_]\w*$', t) and not t.isupper():
                    s.env[t] = TOP
        elif name == 'include':
            p = a[0].replace('<SRC>', REPO)
            if not os.path.isabs(p):
                p = os.path.join(lst, p)
            if os.path.isfile(p) and os.path.realpath(p).startswith(os.path.realpath(REPO)):
                s.env['CMAKE_CURRENT_LIST_DIR'] = os.path.dirname(p).replace(REPO, '<SRC>', 1)
                out = self.run([s], self.load(p), os.path.dirname(p))
                for o in out:
                    o.env['CMAKE_CURRENT_LIST_DIR'] = lst.replace(REPO, '<SRC>', 1)
                    o.stop = False
                return out
        elif name == 'return':
            s.stop = True
        elif name == 'message':
            if a and a[0] == 'FATAL_ERROR':
                s.fatal = ' '.join(a[1:])
        elif name == 'configure_file':
            opts = [x for x in a[2:] if x.isupper()]
            s.configured.append((a[0], a[1], dict(s.cache, **s.env), opts))
        elif name == 'target_include_directories':
            s.includes += [re.sub(r'^\$<BUILD_INTERFACE:(.*)>$', r'\1', x) for x in a[1:]]
        return [s]


def generate(path, env):
    """configure_file."""
    out = []
    for l in open(path.replace('<SRC>', REPO)):
        m = re.match(r'\s*#\s*cmakedefine(01)?\s+(\w+)(.*)', l)
        if m:
            t = truth(env.get(m.group(2)))
            if t is None:
                out.append('?? %s' % m.group(2))
            elif m.group(1):
                out.append('#define %s %d' % (m.group(2), t))
            else:
                out.append('#define %s%s' % (m.group(2), m.group(3)) if t else '/* #undef %s */' % m.group(2))
            continue
        out.append(l.rstrip('\n'))
    text = '\n'.join(out) + '\n'
    text = re.sub(r'@(\w+)@', lambda m: env.get(m.group(1)) or '', text)
    return re.sub(r'\$\{(\w+)\}', lambda m: env.get(m.group(1)) or '', text)


def definitions(text):
    return {m.group(1): m.group(2).strip() for m in re.finditer(r'^[ \t]*#[ \t]*define[ \t]+(\w+)(?!\()([^\n]*)', re.sub(r'/\*.*?\*/', ' ', text, flags=re.S), re.M)}


def strip_comments(t):
    t = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), t, flags=re.S)
    return re.sub(r'//[^\n]*', '', t)


def tested_macros():
    """Macros of the library named in conditional directives, and macros the headers define."""
    tested, defined = {}, set()
    for d, _, fs in os.walk(os.path.join(REPO, 'include')):
        for f in sorted(fs):
            if not f.endswith(('.hpp', '.h', '.hh', '.in')):
                continue
            p = os.path.join(d, f)
            t = strip_comments(open(p).read()).replace('\\\n', ' ')
            for n, l in enumerate(t.split('\n'), 1):
                m = re.match(r'\s*#\s*(if|ifdef|ifndef|elif|elifdef|elifndef)\b(.*)', l)
                if m:
                    for x in re.findall(r'\bSHIVA_\w+', m.group(2)):
                        tested.setdefault(x, []).append('%s:%d' % (os.path.relpath(p, REPO), n))
                m = re.match(r'\s*#\s*define\s+(\w+)', l)
                if m and not f.endswith('.in'):
                    defined.add(m.group(1))
    return tested, defined


def options_job():
    def fn(scratch, ctx):
        top = os.path.join(REPO, 'CMakeLists.txt')
        if not os.path.exists(top):
            raise Broken('no CMakeLists.txt')
        cm = Cmake()
        texts = {}
        declared = None
        sw = (None, 'OFF', 'ON')
        for fv in itertools.product(('OFF', 'ON', None), repeat=4):
            for gc, gh in itertools.product(sw, sw):
                for cudaver in (None, '12.4', '11'):
                    for other in (None, 'OFF', 'ON'):
                        if other is not None and (cudaver or None in fv):
                            continue
                        if cudaver and fv[0] != 'ON' and gc != 'ON':
                            continue
                        cache = {k: v for k, v in zip(FEATURES, fv) if v}
                        if gc:
                            cache['ENABLE_CUDA'] = gc
                        if gh:
                            cache['ENABLE_HIP'] = gh
                        if cudaver:
                            cache['CMAKE_CUDA_COMPILER_VERSION'] = cudaver
                        for o in ('SHIVA_ENABLE_UNIT_TESTS', 'SHIVA_BUILD_OBJ_LIBS'):
                            if other:
                                cache[o] = other
                        env = {'CMAKE_CURRENT_SOURCE_DIR': '<SRC>', 'CMAKE_CURRENT_BINARY_DIR': '<BIN>', 'CMAKE_CURRENT_LIST_DIR': '<SRC>', 'CMAKE_SOURCE_DIR': '\x01TOPSRC\x02',
                               'CMAKE_BINARY_DIR': '\x01TOPBIN\x02', 'PROJECT_IS_TOP_LEVEL': TOP, 'CMAKE_INSTALL_INCLUDEDIR': 'include', 'CMAKE_INSTALL_LIBDIR': 'lib'}
                        what = ' '.join('%s=%s' % (k, v) for k, v in sorted(cache.items())) or 'defaults'
                        outs = cm.run([State(env, cache)], cm.load(top), REPO)
                        cuda = fv[0] == 'ON' or gc == 'ON'
                        hip = fv[1] == 'ON' or gh == 'ON'
                        if cuda and hip:
                            ctx.ob(all(o.fatal for o in outs), 'CUDA and HIP together are refused (%s)' % what, 'no fatal error on some path')
                            continue
                        for o in outs:
                            if not ctx.ob(not o.fatal, 'configuration is accepted (%s)' % what, o.fatal):
                                continue
                            declared = o.options
                            dst = [c for c in o.configured if c[1].endswith('/shiva/ShivaConfig.hpp') and any(c[1] == i + '/shiva/ShivaConfig.hpp' for i in o.includes)]
                            if not ctx.ob(len(dst) == 1, 'one configuration header is generated where the target\'s include directories find it (%s)' % what, repr([(c[0], c[1]) for c in o.configured]) + repr(o.includes)):
                                continue
                            if not os.path.exists(dst[0][0].replace('<SRC>', REPO)):
                                ctx.ob(False, 'the template exists (%s)' % what, dst[0][0])
                                continue
                            text = generate(dst[0][0], dst[0][2])
                            d = definitions(text)
                            on = dict(zip(FEATURES, (cuda, hip, fv[2] == 'ON', fv[3] == 'ON')))
                            for f in FEATURES:
                                ctx.ob((f in d) == on[f], '%s is %s in the generated header (%s)' % (f, 'defined' if on[f] else 'not defined', what), text, dst[0][0])
                            for mname, src in (('MAJOR', 'VERSION_MAJOR'), ('MINOR', 'VERSION_MINOR'), ('PATCHLEVEL', 'VERSION_PATCH')):
                                ctx.ob(d.get('SHIVA_VERSION_' + mname) == '\x01%s\x02' % src, 'SHIVA_VERSION_%s is the component of the project version (%s)' % (mname, what), repr(d.get('SHIVA_VERSION_' + mname)))
                            ver = (cudaver.split('.') + ['0'])[:2] if cudaver and cuda else ['0', '0']
                            for mname, v in zip(('MAJOR', 'MINOR'), ver):
                                ctx.ob(d.get('SHIVA_CUDA_' + mname) == v, 'SHIVA_CUDA_%s is the component of the compiler version (%s)' % (mname, what), repr(d.get('SHIVA_CUDA_' + mname)))
                            ctx.ob('@' not in text and '??' not in text, 'nothing in the template is left unresolved (%s)' % what, text)
        ctx.count('CMake commands interpreted', cm.lines)
        if declared is None:
            return
        for f in FEATURES:
            ctx.ob(f in declared, f + ' is a declared option')
        for o in sorted(x for x in declared if x.startswith('SHIVA_ENABLE')):
            if o not in ('SHIVA_ENABLE_BLT', 'SHIVA_ENABLE_UNIT_TESTS'):
                ctx.ob(o in FEATURES, 'feature option %s is known' % o) if o in FEATURES else ctx.count('other options')
        tpl = open(os.path.join(REPO, 'include/shiva/ShivaConfig.hpp.in')).read()
        cd = re.findall(r'^\s*#\s*cmakedefine(?:01)?\s+(\w+)', tpl, re.M)
        for c in cd:
            ctx.ob(c in declared, 'the template\'s %s is a declared option' % c, sorted(declared))
        tested, defined = tested_macros()
        known = set(cd) | set(definitions(tpl)) | defined
        for m, where in sorted(tested.items()):
            ctx.ob(m in known, 'macro %s, tested by the headers, is one that the template or a header can define' % m, 'tested at %s, never defined' % where, where[0])
        for f in FEATURES:
            ctx.ob(f in tested, 'some header tests ' + f)
        for d, _, fs in os.walk(os.path.join(REPO, 'hostconfigs')):
            for f in sorted(fs):
                if f.endswith('.cmake'):
                    for n, a, line in parse(open(os.path.join(d, f)).read(), f):
                        if n == 'set' and a[0][0].startswith('SHIVA_'):
                            ctx.ob(a[0][0] in declared, 'hostconfigs/%s sets a declared option: %s' % (f, a[0][0]), '', '%s:%d' % (f, line))
    return FnJob('options reach the configuration header', fn)


STUB_CAMP = '''#pragma once
#include <tuple>
#include <type_traits>
#include <utility>
namespace camp { template< typename ... T > struct tuple { std::tuple< T ... > t; }; template< typename ... T > constexpr tuple< std::decay_t< T > ... > make_tuple( T && ... t ) { return tuple< std::decay_t< T > ... >{ std::tuple< std::decay_t< T > ... >( std::forward< T >( t ) ... ) }; } }
'''
S = '#define STR_( ... ) #__VA_ARGS__\n#define STR( ... ) STR_( __VA_ARGS__ )\nconstexpr bool eq( char const * a, char const * b ) { while ( *a && *a == *b ) { ++a; ++b; } return *a == *b; }\n'


def effects_job(std, comp):
    name = 'effect of the options c++%s %s' % (std, 'g++' if comp else 'clang')

    def fn(scratch, ctx):
        tag = re.sub(r'\W+', '_', name)
        tplp = os.path.join(REPO, 'include/shiva/ShivaConfig.hpp.in')
        base = scratch.path(tag)
        os.makedirs(os.path.join(base, 'camp'))
        open(os.path.join(base, 'camp', 'camp.hpp'), 'w').write(STUB_CAMP)
        dev = '#define __host__\n#define __device__\n#define __global__\n#define __forceinline__ inline\n'

        def config(on):
            env = {f: 'ON' if f in on else 'OFF' for f in FEATURES}
            env.update({v: n for v, n in zip(re.findall(r'@(\w+)@', open(tplp).read()), itertools.cycle(['7']))})
            d = os.path.join(base, 'cfg_' + '_'.join(sorted(on)))
            os.makedirs(os.path.join(d, 'shiva'), exist_ok=True)
            open(os.path.join(d, 'shiva', 'ShivaConfig.hpp'), 'w').write(generate(tplp, env))
            return ['-std=c++' + std, '-w', '-I' + d, '-I' + os.path.join(REPO, 'include'), '-I' + STUB, '-I' + base]

        def check(on, pre, good, what):
            src = scratch.path(tag + '_w.cpp')
            open(src, 'w').write(pre + good)
            rc, _, err = run([comp or CLANG, '-fsyntax-only'] + config(on) + [src])
            ctx.ob(rc == 0, '%s (%s)' % (what, name), '\n'.join(first_errors(err)))

        def emit(on, text):
            src = scratch.path(tag + '_e.cpp')
            open(src, 'w').write(text)
            rc, _, err = run([CLANG, '-O0', '-S', '-emit-llvm', '-o', src + '.ll'] + config(on) + [src])
            return open(src + '.ll').read() if rc == 0 else None
        mac = '#include "shiva/common/ShivaMacros.hpp"\n' + S
        for f in FEATURES:
            on = {f}
            pre = dev if f in FEATURES[:2] else ''
            check(on, pre, '#include "shiva/common/ShivaMacros.hpp"\n#ifndef %s\n#error off\n#endif\n' % f, '%s on: the headers see it' % f)
            for g in FEATURES:
                if g != f:
                    check(on, pre, '#include "shiva/common/ShivaMacros.hpp"\n#ifdef %s\n#error on\n#endif\n' % g, '%s on: %s stays off' % (f, g))
        for f in FEATURES[:2]:
            for m, v in (('SHIVA_HOST', '__host__'), ('SHIVA_DEVICE', '__device__'), ('SHIVA_HOST_DEVICE', '__host__ __device__'), ('SHIVA_GLOBAL', '__global__'), ('SHIVA_FORCE_INLINE', '__forceinline__')):
                check({f}, '', mac.replace('#include', '#define __host__ __host__\n#define __device__ __device__\n#include', 1) .replace('#define __host__ __host__\n#define __device__ __device__\n', dev) +
                      '#undef __host__\n#undef __device__\n#undef __global__\n#undef __forceinline__\nstatic_assert( eq( STR( %s ), "%s" ), "" );' % (m, v), '%s on: %s is %s' % (f, m, v))
            check({f}, dev, '#include "shiva/common/ShivaMacros.hpp"\n#ifndef SHIVA_ENABLE_DEVICE\n#error none\n#endif\n', f + ' on: device code is enabled')
        for on in (set(), {FEATURES[2]}, {FEATURES[3]}):
            for m, v in (('SHIVA_HOST', ''), ('SHIVA_DEVICE', ''), ('SHIVA_HOST_DEVICE', ''), ('SHIVA_GLOBAL', ''), ('SHIVA_FORCE_INLINE', 'inline')):
                check(on, '', mac + 'static_assert( eq( STR( %s ), "%s" ), "" );' % (m, v), 'no device backend, %s: %s is "%s"' % (sorted(on), m, v))
            check(on, '', '#include "shiva/common/ShivaMacros.hpp"\n#ifdef SHIVA_ENABLE_DEVICE\n#error on\n#endif\n', 'no device backend, %s: device code is disabled' % sorted(on))
        ty = '#include "shiva/common/types.hpp"\n'
        same = 'static_assert( std::is_same< shiva::tuple< int, double >, %s::tuple< int, double > >::value && std::is_same< decltype( shiva::make_tuple( 1, 2.0 ) ), %s::tuple< int, double > >::value, "" );'
        check(set(), '', ty + same % ('std', 'std'), 'default: tuples are those of the standard library')
        check({FEATURES[3]}, '', ty + same % ('std', 'std'), 'bounds checking: tuples are those of the standard library')
        check({FEATURES[2]}, '', ty + same % ('camp', 'camp'), 'camp on: tuples are those of camp')
        check({FEATURES[2], FEATURES[0]}, dev, ty + same % ('camp', 'camp'), 'camp and CUDA on: tuples are those of camp')
        check({FEATURES[2], FEATURES[1]}, dev, ty + same % ('camp', 'camp'), 'camp and HIP on: tuples are those of camp')
        check({FEATURES[1]}, dev, ty + same % ('std', 'std'), 'HIP on: tuples are those of the standard library')
        check({FEATURES[0]}, dev, '#include <utility>\n' + ty + same % ('cuda::std', 'cuda::std'), 'CUDA on: tuples are those of CUDA')
        ca = '#include "shiva/common/CArray.hpp"\nusing namespace shiva;\n'
        # an access with run-time indices: with checking the generated code can end the program, without it calls nothing
        for on in (set(), {FEATURES[2]}, {FEATURES[3]}, {FEATURES[2], FEATURES[3]}):
            for what, e in (('()', 'a( i, j )'), ('[]', 'a[i][j]'), ('() of a view', 'CArrayViewNd< int const, 2, 3 >( a.data() )( i, j )'), ('() const', 'static_cast< CArrayNd< int, 2, 3 > const & >( a )( i, j )')):
                text = emit(on, ca + 'int f( CArrayNd< int, 2, 3 > & a, int i, int j ) { return %s; }\n' % e)
                if text is None:
                    ctx.ob(False, 'access with %s compiles with %s (%s)' % (what, sorted(on), name))
                    continue
                stops = re.findall(r'call .*@(abort|_ZSt9terminatev|exit|_exit|llvm\.trap)\(', text)
                if FEATURES[3] in on:
                    ctx.ob(bool(stops), 'bounds checking on (%s): a run-time access with %s can end the program (%s)' % (sorted(on), what, name), 'no call that ends the program is reachable')
                else:
                    calls = sorted(set(re.findall(r'^declare [^@]*@([-\w.$]+)', text, re.M)) - {'llvm.dbg.declare', 'llvm.dbg.value'})
                    calls = [c for c in calls if not c.startswith('llvm.')]
                    ctx.ob(not calls, 'bounds checking off (%s): a run-time access with %s calls nothing outside the library (%s)' % (sorted(on), what, name), repr(calls))
    return FnJob(name, fn)


def build(tier):
    jobs = [options_job()]
    for std in ('17', '20', '23'):
        for comp in (None, GXX):
            if tier == 'thorough' or (std == '17') == (comp is None):
                jobs.append(effects_job(std, comp))
    return jobs
