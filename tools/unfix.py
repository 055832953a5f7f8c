#!/usr/bin/env python3
"""Undoes each repair in turn, in /repo's working tree, and runs the check of its
property: known-findings.json's "fixed" entries must be reported again.

unfix.py [COMMIT[=CHECK]...]
"""
import json
import subprocess
import sys

R = ['git', '-C', '/repo']
for e in json.load(open('/verif/known-findings.json'))['fixed']:
    prop, h = e.split('property=')[1].split()[:2]
    want = dict((a + '=' + prop).split('=')[:2] for a in sys.argv[1:])
    if want and h not in want:
        continue
    prop = want.get(h, prop)
    d = subprocess.check_output(R + ['diff', h, h + '~1'])
    p = subprocess.run(R + ['apply', '-C1', '--recount', '-'], input=d,
                       stderr=subprocess.PIPE)
    if p.returncode:
        print(h, prop, 'does not apply')
        continue
    try:
        p = subprocess.run(['/verif/check', prop, '--no-evidence'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        lines = [l for l in p.stdout.splitlines() if l.startswith(prop + ':')]
        print(h, prop, {1: 'reported', 0: 'MISSED'}.get(p.returncode, p.returncode),
              '|', e.split(h)[1][:60], '|', ' '.join(lines[1:2])[:110], flush=True)
    finally:
        subprocess.check_call(R + ['checkout', '-q', '--', '.'])
