#!/usr/bin/env python3
"""mut.py <file under the repository> <old> <new> CHECK...: runs checks against a scratch copy with one textual change."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='mut-')
try:
    for n in ('include', 'scripts', 'cmake', 'CMakeLists.txt', 'docs'):
        s = os.path.join('/repo', n)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, n))
    p = os.path.join(d, f)
    if not os.path.exists(p):
        p = os.path.join(d, 'include/shiva', f)
    t = open(p).read()
    assert t.count(old) >= 1, 'not found'
    open(p, 'w').write(t.replace(old, new))
    for c in sys.argv[4:]:
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), c], env=dict(os.environ, SHIVA_REPO=d), cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(c, 'rc', r.returncode, r.stdout.decode()[-700:])
finally:
    shutil.rmtree(d)
