#!/usr/bin/env python3
"""seed.py [-c CHECKS|-a] ID...: confirms planted changes in scratch copies and runs checks on them.

For each /verif/seeded/ID: the patch applies, the build and the stable tests pass with it, demo.sh passes without and fails
with it; then the checks (default: the one of the change's property; -a: all) are run on the changed copy. The copy is bind-mounted over
/repo in a mount namespace of its own, so that nothing outside it changes."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def ns(d, cmd, timeout=900):
    """cmd with d/repo in the place of /repo and d/ev in that of /verif/evidence."""
    s = 'mount --bind %s/repo /repo && mount --bind %s/ev /verif/evidence && cd /repo && %s' % (d, d, cmd)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(sid, checks):
    src = os.path.join(V, 'seeded', sid)
    out = []
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        os.mkdir(d + '/ev')
        os.mkdir(d + '/seed')
        for n in os.listdir(src):
            if not n.endswith(('.diff', '.patch')) and n != 'meta.json':
                shutil.copy(os.path.join(src, n), d + '/seed')
        demo = 'timeout 300 bash %s/seed/demo.sh' % d
        r = ns(d, demo)
        if r.returncode:
            return sid, 'BAD: demo fails on the unchanged tree: ' + r.stdout[-1500:]
        r = subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.join(src, 'patch.diff')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return sid, 'BAD: patch does not apply: ' + r.stdout
        r = ns(d, 'bash /opt/vp/test.sh %s/out.json' % d)
        res = json.load(open(d + '/out.json'))
        if not BASE <= set(res['passed']):
            return sid, 'BAD: tests fail: %s %s' % (sorted(BASE - set(res['passed']))[:4], r.stdout[-1500:] if not res['passed'] else '')
        r = ns(d, demo)
        if r.returncode == 0:
            return sid, 'BAD: demo passes with the patch'
        out.append('demo: ' + r.stdout.strip()[-120:].replace('\n', ' | '))
        prop = json.load(open(src + '/meta.json'))['property']
        for c in checks or [prop]:
            r = ns(d, 'cd %s && python3 check.py %s' % (V, c))
            hit = 'VIOLATION property=%s ' % c in r.stdout
            if c == prop or r.returncode:
                out.append('%s%s rc=%d %s' % ('' if c == prop else '   also ', c, r.returncode, 'CAUGHT' if hit and r.returncode == 1 else '*** MISSED ***' if r.returncode == 0 else '*** ' + r.stdout[-600:]))
                if hit and c == prop:
                    out.append('      ' + ' / '.join(l.strip() for l in r.stdout.splitlines()[:4])[:300])
        return sid, '\n    '.join(out)
    except subprocess.TimeoutExpired:
        return sid, 'BAD: timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    checks = None
    if a and a[0] == '-a':
        checks = sorted(f[:-3].upper() for f in os.listdir(V + '/checks') if f.startswith('c') and f.endswith('.py'))
        a = a[1:]
    elif a and a[0] == '-c':
        checks = a[1].split(',')
        a = a[2:]
    ids = a or sorted(os.listdir(V + '/seeded'))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for sid, text in ex.map(lambda s: one(s, checks), ids):
            print('%s\n    %s' % (sid, text), flush=True)


main()
