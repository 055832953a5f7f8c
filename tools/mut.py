#!/usr/bin/env python3
"""Sensitivity of the checks: applies one-line changes to a copy of /repo in turn.

mut.py FILE [NAME...]: FILE has entries (name, path, old, new, [checks]); each is
applied to the copy, the checks run on it, and the change undone.
"""
import os
import shutil
import subprocess
import sys
import tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
scratch = tempfile.mkdtemp(prefix='mut-')
env = dict(os.environ, VERIF_REPO=scratch)
shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/pykrylov', scratch + '/pykrylov')
for name, path, old, new, checks in ns['MUTS']:
    if only and name not in only:
        continue
    full = scratch + '/pykrylov/' + path
    s = open(full).read()
    if s.count(old) < 1:
        print(name, 'NOT APPLICABLE')
        continue
    try:
        open(full, 'w').write(s.replace(old, new, 1))
        for c in checks:
            p = subprocess.run(['/verif/check', c, '--no-evidence', '--first'], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True,
                               env=env)
            lines = [l for l in p.stdout.splitlines() if l.startswith(c + ':')]
            print(name, c, 'caught' if p.returncode == 1 else 'MISSED (%d)' % p.returncode,
                  '|', ' '.join(lines[1:2])[:150], '|', (lines or ['?'])[-1][-30:], flush=True)
    finally:
        open(full, 'w').write(s)
shutil.rmtree(scratch)
