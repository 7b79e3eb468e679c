#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
    'C37': 'rounding error bounds quantify over run-time floating-point values; the analyses here are exact over the reals, and no sound static '
           'rounding analysis of polynomials in unbounded inputs is in reach (the inputs have no range)',
    'C38': 'there is no device toolchain or device here, and agreement of device arithmetic with host arithmetic is a run-time fact of a device; '
           'what is static about device code is decided under C28 (callability) and C34 (launch protocol)',
    'C39': 'run-time overhead is a measured quantity of a compiler and machine, not a property of the source',
    'C43': 'what is written is decided by the text of the files read at run time and by a work list over sets of names whose order and end depend on '
           'them; no sound static argument in reach bounds that for every include graph (a dataflow over the script knows the graph only as unknown '
           'sets), and the paths it may write are decided under C36',
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        m = importlib.import_module('checks.' + p.lower())
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p,
                           technique='static analysis: ' + m.RULE, level=getattr(m, 'LEVEL', 'other'),
                           level_note=m.EXPLANATION + ' Assumed: ' + '; '.join(m.ASSUMPTIONS) + '.'))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Every check compiles witnesses against /repo\'s working tree and analyses the result; nothing of the '
                     'library is executed. SHIVA_REPO selects another tree.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
