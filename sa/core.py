"""Common machinery of the checks: witness compilation, obligations, verdicts, evidence."""
import concurrent.futures as cf
import itertools
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SHIVA_REPO', '/repo')
CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'
OPT = shutil.which('opt-18') or shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'
GXX = shutil.which('g++') or 'g++'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


# set while the checks are repeated for a configuration that the library distinguishes by a macro of others (see variants)
INCLUDE = None
EXTRA_FLAGS = []


class Broken(Exception):
    """The analysis itself cannot give an answer (exit 2)."""


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='shiva-sa-')

    def path(self, n):
        return os.path.join(self.dir, n)

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def config_header(scratch, name, bounds=False, cuda=False, hip=False, camp=False):
    """Generates ShivaConfig.hpp from the repository's template, as CMake's configure_file would."""
    src = os.path.join(REPO, 'include/shiva/ShivaConfig.hpp.in')
    try:
        text = open(src).read()
    except OSError as e:
        raise Broken('cannot read %s: %s' % (src, e))
    on = {'SHIVA_ENABLE_BOUNDS_CHECK': bounds, 'SHIVA_ENABLE_CUDA': cuda, 'SHIVA_ENABLE_HIP': hip,
          'SHIVA_ENABLE_CAMP': camp}

    def cdef(m):
        return ('#define ' if on.get(m.group(1)) else '/* #undef ') + m.group(1) + ('' if on.get(m.group(1)) else ' */')
    text = re.sub(r'^[ \t]*#cmakedefine[ \t]+(\w+).*$', cdef, text, flags=re.M)
    text = re.sub(r'@(\w+)@', lambda m: {'SHIVA_CUDA_MAJOR': '12', 'SHIVA_CUDA_MINOR': '0'}.get(m.group(1), '0'), text)
    d = scratch.path('cfg-' + name)
    os.makedirs(os.path.join(d, 'shiva'), exist_ok=True)
    f = os.path.join(d, 'shiva', 'ShivaConfig.hpp')
    if not os.path.exists(f):
        # jobs run concurrently: the header appears complete or not at all
        tmp = '%s.%d' % (f, os.getpid())
        with open(tmp, 'w') as h:
            h.write(text)
        os.replace(tmp, f)
    return d


def incl(scratch, bounds):
    n = 'b1' if bounds else 'b0'
    d = scratch.path('cfg-' + n)
    if not os.path.isdir(d):
        config_header(scratch, n, bounds=bounds)
    return EXTRA_FLAGS + ['-I' + (INCLUDE or os.path.join(REPO, 'include')), '-I' + d]


def run(cmd, timeout=600, input=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=input)
    except FileNotFoundError as e:
        raise Broken(str(e))
    except subprocess.TimeoutExpired:
        raise Broken('timeout: ' + ' '.join(cmd)[:300])
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


class CompileError(Exception):
    def __init__(self, stderr, src):
        self.stderr, self.src = stderr, src


def first_errors(stderr, n=3):
    out = []
    lines = stderr.split('\n')
    for i, l in enumerate(lines):
        if re.search(r'\berror:', l):
            out.append(l.strip())
            for k in lines[i + 1:i + 40]:
                if re.search(r'\berror:', k):
                    break
                if 'in instantiation of' in k or 'in call to' in k:
                    out.append('   ' + k.strip())
                    if len(out) > 3 * n:
                        break
        if len(out) >= 3 * n:
            break
    return out or [l for l in lines if l.strip()][:n]


# diagnostics that mean that the interface the witness names is gone (an anchor vanished), not that it misbehaves
VANISHED = re.compile(r"error: (no (type|member|template) named|use of undeclared identifier|no template named|unknown type name|"
                      r"'[^']*' file not found|no namespace named|reference to unresolved)|fatal error: '.*' file not found")


def classify_compile_error(err, witness):
    """'vanished' when the first error sits in the witness itself and says that a name does not exist."""
    for l in err.split('\n'):
        m = re.match(r'(?:In file included from )?([^:\s]+):(\d+):\d+: (fatal )?error: ', l)
        if m:
            if os.path.basename(m.group(1)) == os.path.basename(witness) and VANISHED.search(l):
                return 'vanished'
            return 'rejected'
    return 'tool'


def narrowing_only(err):
    es = [l for l in err.split('\n') if re.search(r'\berror:', l)]
    return bool(es) and all('narrow' in l for l in es if 'too many errors' not in l)


def compile_ir(scratch, name, source, std='17', bounds=False, extra=(), passes='sroa'):
    """C++ witness text -> parsed IR module."""
    from . import ir
    src = scratch.path(name + '.cpp')
    with open(src, 'w') as f:
        f.write(source)
    bc = scratch.path(name + '.bc')
    cmd = [CLANG, '-std=c++' + std, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-c', '-emit-llvm',
           '-ffp-contract=off', '-fno-math-errno', '-w', '-ftemplate-depth=4096', '-fbracket-depth=4096',
           '-fconstexpr-steps=100000000', '-ferror-limit=20'] + incl(scratch, bounds) + list(extra) + [src, '-o', bc]
    rc, out, err = run(cmd)
    if rc != 0 and narrowing_only(err):
        # a brace that narrows an uncommon integer type: what is computed is judged instead
        rc, out, err = run(cmd[:1] + ['-Wno-c++11-narrowing'] + cmd[1:])
    if rc != 0:
        raise CompileError(err, src)
    rc, text, err = run([OPT, '-S', '-passes=' + passes, bc, '-o', '-'])
    if rc != 0:
        raise Broken('opt failed: ' + err[:500])
    os.unlink(bc)
    return ir.Module(text)


def compile_ok(scratch, name, source, std='17', bounds=False, compiler=None, extra=()):
    """(accepted, stderr) of -fsyntax-only."""
    src = scratch.path(name + '.cpp')
    with open(src, 'w') as f:
        f.write(source)
    cmd = [compiler or CLANG, '-std=c++' + std, '-fsyntax-only', '-w'] + incl(scratch, bounds) + list(extra) + [src]
    rc, out, err = run(cmd)
    if rc not in (0, 1):
        raise Broken('compiler crashed (%d): %s' % (rc, err[-400:]))
    return rc == 0, err


# ---------------------------------------------------------------- jobs

class Enough(Exception):
    """The unit has shown that the property does not hold; the rest of it would take long and add nothing."""


class Ctx:
    """Collects the obligations of one job."""

    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.violations = []
        self.samples = []
        self.functions = set()
        self.partitions = 0
        self.instrs = 0
        self.counts = {}
        self.broken = None
        self.t0 = time.time()

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ob(self, ok, what, detail='', where=''):
        self.obligations += 1
        if not ok:
            self.violations.append(dict(what=what, detail=str(detail)[:1500], where=where, job=self.name))
            n = len(self.violations)
            if n >= 300 or n >= 3 and time.time() - self.t0 > 60:
                raise Enough
        elif len(self.samples) < 2:
            self.samples.append(what)
        return ok

    def absorb(self, stats):
        self.functions |= stats.functions
        self.partitions += stats.partitions
        self.instrs += stats.instrs


class Job:
    """One witness unit: source text, configuration and the function that judges its IR."""

    alt = None   # the job to do instead where the library does not take the uncommon types that this one uses

    def __init__(self, name, source, verify, std='17', bounds=False, extra=(), passes='sroa'):
        self.name, self.source, self.verify = name, source, verify
        self.std, self.bounds, self.extra, self.passes = std, bounds, extra, passes


class FnJob:
    """A job that does its own work: fn(scratch, ctx)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


_JOBS = []
_SCRATCH = None
START = time.time()
PATIENCE = 90    # seconds for the other units once one has shown a violation
LIMIT = 840      # seconds for all units of a check of the quick tier


def _run_job(i):
    from . import absint, poly, ir
    job = _JOBS[i]
    ctx = Ctx(job.name)

    def body():
        nonlocal job
        poly.reset_vars()
        if isinstance(job, FnJob):
            job.fn(_SCRATCH, ctx)
            return
        try:
            try:
                mod = compile_ir(_SCRATCH, 'job%d' % i, job.source, job.std, job.bounds, job.extra, job.passes)
            except CompileError as e:
                if job.alt is None or classify_compile_error(e.stderr, e.src) != 'rejected':
                    raise
                job = job.alt()
                ctx.count('units reduced to common index types')
                mod = compile_ir(_SCRATCH, 'job%d' % i, job.source, job.std, job.bounds, job.extra, job.passes)
        except CompileError as e:
            kind = classify_compile_error(e.stderr, e.src)
            if kind == 'tool':
                raise Broken('compiler failed on witness %s: %s' % (job.name, e.stderr[-600:]))
            if kind == 'vanished':
                raise Broken('interface used by witness %s is gone: %s' % (job.name, '\n'.join(first_errors(e.stderr))))
            ctx.ob(False, 'witness program of the supported interface does not compile',
                   '\n'.join(first_errors(e.stderr)), job.name)
            return
        job.verify(mod, ctx)
    try:
        absint.in_thread(body)
    except Enough:
        pass
    except Broken as e:
        ctx.broken = str(e)
    except absint.Inconclusive as e:
        ctx.broken = 'inconclusive: %s' % e
    except Exception:
        ctx.broken = traceback.format_exc()
    return ctx


def run_jobs(jobs, scratch):
    global _JOBS, _SCRATCH
    _JOBS, _SCRATCH = jobs, scratch
    incl(scratch, False)
    incl(scratch, True)
    if len(jobs) == 1 or JOBS == 1:
        return [_run_job(i) for i in range(len(jobs))]
    with cf.ProcessPoolExecutor(max_workers=min(JOBS, len(jobs)), mp_context=mp.get_context('fork')) as ex:
        fs = [ex.submit(_run_job, i) for i in range(len(jobs))]
        found = None
        while True:
            done, left = cf.wait(fs, timeout=5)
            if any(f.exception() for f in done):
                raise Broken('a process of the analysis was ended')
            if not left:
                return [f.result() for f in fs]
            now = time.time()
            if found is None and any(f.result().violations for f in done):
                found = now
            if found is not None and now - found > PATIENCE or now - START > (LIMIT if '--thorough' not in sys.argv else 36000):
                break
        # a violation is shown and the other units take long, or nothing ends any more
        for p in list(ex._processes.values()):
            p.kill()
        out = []
        for f, j in zip(fs, jobs):
            if f in done:
                out.append(f.result())
            elif found is None:
                c = Ctx(j.name)
                c.broken = 'still being analysed after %d s' % (time.time() - START)
                out.append(c)
        ex.shutdown(wait=False, cancel_futures=True)
        return out


# ---------------------------------------------------------------- negative (compile-fail) witnesses

def precompiled(scratch, name, prelude, std, bounds):
    """(text to put before a witness, compiler options): the prelude as a precompiled header, or as it is when it does not
    compile alone (the witnesses then show why)."""
    h = scratch.path(name + '_pre.hpp')
    with open(h, 'w') as f:
        f.write(prelude)
    rc, out, err = run([CLANG, '-std=c++' + std, '-w', '-x', 'c++-header'] + incl(scratch, bounds) + [h, '-o', h + '.pch'])
    if rc != 0:
        return prelude, []
    return '', ['-include-pch', h + '.pch']


def compile_fail_job(name, prelude, cases, std='17', bounds=False, compiler=None):
    """cases: [(label, good code, bad code, expect)]: good must compile, bad must not.

    Every witness is its own translation unit; the bad one differs from the good one in the misuse only, so a rejection
    is caused by the misuse."""
    def fn(scratch, ctx):
        accepted = set()
        pre, extra = (prelude, []) if compiler or len(cases) < 4 else precompiled(scratch, re.sub(r'\W+', '_', name), prelude, std, bounds)
        for k, (label, good, bad) in enumerate(cases):
            base = re.sub(r'\W+', '_', name) + '_%d' % k
            ok, err = (True, '') if good in accepted else compile_ok(scratch, base + 'g', pre + good, std, bounds, compiler, extra)
            if not ok:
                src = scratch.path(base + 'g.cpp')
                if classify_compile_error(err, src) == 'vanished':
                    raise Broken('interface used by witness "%s" is gone: %s' % (label, '\n'.join(first_errors(err))))
                ctx.ob(False, 'correct program rejected: ' + label, '\n'.join(first_errors(err)) + '\n' + good, name)
                continue
            ctx.ob(True, 'accepted: ' + label)
            accepted.add(good)
            ctx.count('control programs accepted')
            ok, err = compile_ok(scratch, base + 'b', pre + bad, std, bounds, compiler, extra)
            ctx.count('misuse programs')
            ctx.ob(not ok, 'misuse accepted by the compiler: ' + label, bad, name)
    return FnJob(name, fn)


def static_facts_job(name, prelude, facts, std='17', bounds=False, compiler=None, chunk=None):
    """facts: [(label, constant boolean expression)]: type-level obligations discharged by the compiler's type checker."""
    def attempt(scratch, ctx, fs, tag):
        src = prelude + ''.join('static_assert( %s, "FACT%d" );\n' % (e, i) for i, (l, e) in fs)
        n = re.sub(r'\W+', '_', name) + tag
        ok, err = compile_ok(scratch, n, src, std, bounds, compiler, extra=['-ferror-limit=0'] if not compiler else [])
        if ok:
            for i, (l, e) in fs:
                ctx.ob(True, l)
            return
        failed = {int(x) for x in re.findall(r'error: static (?:assertion|_assert)[^\n]*?FACT(\d+)', err)}
        errors = len(re.findall(r'\berror:', err))
        if failed and errors == len(failed):
            for i, (l, e) in fs:
                ctx.ob(i not in failed, l, 'does not hold: ' + e, name)
            return
        if len(fs) > 1:
            h = len(fs) // 2
            attempt(scratch, ctx, fs[:h], tag + '0')
            attempt(scratch, ctx, fs[h:], tag + '1')
            return
        (i, (l, e)), = fs
        if classify_compile_error(err, scratch.path(n + '.cpp')) == 'vanished':
            raise Broken('interface used by "%s" is gone: %s' % (l, '\n'.join(first_errors(err))))
        ctx.ob(False, l, 'ill-formed: %s\n%s' % (e, '\n'.join(first_errors(err))), name)

    def fn(scratch, ctx):
        attempt(scratch, ctx, list(enumerate(facts)), '')
    return FnJob(name, fn)


# ---------------------------------------------------------------- configurations told apart by macros of others

OWN_MACRO = re.compile(r'SHIVA_|__CUDA|__HIP|__CPPCHECK__$|__cplusplus$|_MSC_VER$|__builtin_|_WIN32$|__APPLE__$|__has_|defined$|true$|false$|.*_HPP_?$')


def spikes(lo, hi, n, rest=2):
    """Shapes with one long extent in each position of each rank of lo .. hi."""
    return [tuple(n if k == q else rest for k in range(r)) for r in range(lo, hi + 1) for q in range(r)]


def every(rank, top):
    """Every shape of the rank with extents up to top."""
    return list(itertools.product(range(1, top + 1), repeat=rank))


def around(lo, hi, cap=8):
    """Sizes in [lo, hi] next to an integer constant of the library's code: where a formula may change its form. They are
    added to the fixed enumerations of template arguments."""
    found = set()
    for d, _, fs in os.walk(os.path.join(REPO, 'include', 'shiva')):
        for n in fs:
            if n.endswith('.hpp'):
                text = open(os.path.join(d, n), errors='replace').read()
                text = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|^[ \t]*#[^\n]*', ' ', text, flags=re.S | re.M)
                for m in re.finditer(r"(?<![\w.'])(0[xX][0-9a-fA-F']+|[0-9][0-9']*)[uUlL]*(?![\w.'])", text):
                    found.add(int(m.group(1).replace("'", ''), 16 if m.group(1)[:2] in ('0x', '0X') else 10))
    # a condition on an index beyond k shows from size k + 2 on
    out = []
    for e in (2, 1, 0, -1):
        out += [k + e for k in sorted(found, reverse=True) if lo <= k + e <= hi and k + e not in out]
    return sorted(out[:cap])


def conditional_macros():
    """macro -> [conditional directives of the library that test it], for macros that are neither the library's own (the
    documented options, judged in their own checks) nor marks of toolkits and platforms that are not here."""
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'include', 'shiva')):
        for n in fs:
            if not n.endswith('.hpp'):
                continue
            text = open(os.path.join(d, n), errors='replace').read()
            text = re.sub(r'\\\n', ' ', re.sub(r'//[^\n]*|/\*.*?\*/', ' ', text, flags=re.S))
            for m in re.finditer(r'^[ \t]*#[ \t]*(?:if|ifdef|ifndef|elif|elifdef|elifndef)\b(.*)$', text, re.M):
                for w in re.findall(r'\b[A-Za-z_]\w*', m.group(1)):
                    if not OWN_MACRO.match(w) and not re.search(r'^[ \t]*#[ \t]*define[ \t]+%s\b' % w, text, re.M):
                        out.setdefault(w, []).append(m.group(0).strip())
            if re.search(r'\bassert[ \t]*\(', text):
                out.setdefault('NDEBUG', []).append('assert()')
    return out


def variants(scratch):
    """[(label, include directory, flags)]: the library as it reads where such a macro is the other way round."""
    cm = conditional_macros()
    if not cm:
        return []
    rc, text, err = run([CLANG, '-std=c++20', '-dM', '-E', '-x', 'c++', '/dev/null'])
    predefined = set(re.findall(r'^#define (\w+)', text, re.M))
    out = []
    for k, (w, where) in enumerate(sorted(cm.items())):
        if w == 'NDEBUG':
            out.append(('with NDEBUG', None, ['-DNDEBUG']))
            continue
        inc = scratch.path('inc-%d' % k)
        shutil.copytree(os.path.join(REPO, 'include'), inc)
        for d, _, fs in os.walk(inc):
            for n in fs:
                p = os.path.join(d, n)
                if n.endswith('.hpp'):
                    t = open(p, errors='replace').read()
                    u = re.sub(r'^([ \t]*#[ \t]*(?:if|ifdef|ifndef|elif|elifdef|elifndef)\b(?:[^\n]*\\\n)*[^\n]*)$', lambda m: re.sub(r'\b%s\b' % w, 'SA_CFG_' + w, m.group(0)), t, flags=re.M)
                    if u != t:
                        with open(p, 'w') as f:
                            f.write(u)
        compared = any(re.search(r'[<>=]', x) for x in where)
        if w in predefined:
            out.append(('without ' + w, inc, []))
            if compared:
                out.append(('with a large ' + w, inc, ['-DSA_CFG_%s=99999999' % w]))
        else:
            out.append(('with ' + w, inc, ['-DSA_CFG_%s=%s' % (w, '99999999' if compared else '1')]))
    return out


# ---------------------------------------------------------------- verdict

def load_known(pid):
    known = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                known.append(m.group(2))
    return known


def finish(pid, tier, seed, ctxs, level, coverage_extra, assumptions, t0, technique, min_obligations):
    viol = [v for c in ctxs for v in c.violations]
    broken = [(c.name, c.broken) for c in ctxs if c.broken]
    obligations = sum(c.obligations for c in ctxs)
    functions = set()
    counts = {}
    for c in ctxs:
        functions |= c.functions
        for k, v in c.counts.items():
            counts[k] = counts.get(k, 0) + v
    known = load_known(pid)
    listed = [v for v in viol if any(k in v['what'] for k in known)]
    viol = [v for v in viol if v not in listed]
    cov = dict(explanation=coverage_extra.pop('explanation'), rule=technique, obligations=obligations,
               discharged=obligations - sum(len(c.violations) for c in ctxs),
               witness_units=len(ctxs), functions_analysed=len(functions), partitions=sum(c.partitions for c in ctxs),
               counts=counts, samples=[s for c in ctxs for s in c.samples][:12])
    cov.update(coverage_extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, v['what']))
    rp = os.path.join(VERIF, 'evidence', pid + '.replay.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    if viol:
        with open(rp, 'w') as f:
            for v in viol:
                f.write('property %s violated\n  unit: %s\n  rule instance: %s\n  where: %s\n  %s\n\n' % (
                    pid, v['job'], v['what'], v['where'], v['detail'].replace('\n', '\n  ')))
        for v in viol[:8]:
            print('  %s | %s | %s' % (v['what'], v['where'], v['detail'].replace('\n', ' / ')[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken:
        for n, b in broken[:5]:
            print('analysis gave no answer in %s: %s' % (n, b), file=sys.stderr)
        return 2
    if obligations < min_obligations:
        print('analysis broken: only %d obligations, at least %d expected' % (obligations, min_obligations), file=sys.stderr)
        return 2
    print('property %s holds: %d obligations over %d units, %d functions' % (pid, obligations, len(ctxs), len(functions)))
    return 0


def repeat(pid, build, tier, scratch, t0):
    """The same obligations for the configurations that the library tells apart by macros of others."""
    global INCLUDE, EXTRA_FLAGS
    if pid in ('C35', 'C36'):
        return []
    t1 = time.time() - t0
    more = []
    for label, inc, flags in variants(scratch):
        if time.time() - t0 + t1 > (420 if tier == 'quick' else 3600):
            print('note: no time for the configuration ' + label, file=sys.stderr)
            break
        INCLUDE, EXTRA_FLAGS = inc, flags
        try:
            hs = [os.path.relpath(os.path.join(d, f), inc or os.path.join(REPO, 'include')) for d, _, fs in os.walk(os.path.join(inc or os.path.join(REPO, 'include'), 'shiva'))
                  for f in fs if f.endswith('.hpp')]
            ok, err = compile_ok(scratch, 'variant', ''.join('#include "%s"\n' % h for h in sorted(hs) if not h.endswith('namespaceDocumentation.hpp')), '20')
            if not ok:
                print('note: the headers are not made for the configuration %s: %s' % (label, first_errors(err)[:1]), file=sys.stderr)
                continue
            res = run_jobs(build(tier), scratch)
        finally:
            INCLUDE, EXTRA_FLAGS = None, []
        for c in res:
            c.name += ' (%s)' % label
            for v in c.violations:
                v['job'] += ' (%s)' % label
        more += res
        if any(c.violations for c in res):
            break
    return more


def main(pid, build, level='other', explanation='', assumptions=(), technique='', min_obligations=1):
    """build(tier, scratch) -> [jobs]"""
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = Scratch()
    try:
        jobs = build(tier)
        ctxs = run_jobs(jobs, scratch)
        if not any(c.violations for c in ctxs):
            ctxs += repeat(pid, build, tier, scratch, t0)
        return finish(pid, tier, seed, ctxs, level, dict(explanation=explanation), list(assumptions), t0, technique,
                      min_obligations)
    except Broken as e:
        print('analysis broken: %s' % e, file=sys.stderr)
        return 2
    finally:
        scratch.remove()
