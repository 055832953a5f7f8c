#!/usr/bin/env python3
"""Makes the folders of seeded/ from descriptions of planted bugs, and tries them.

plant.py FILE [NAME...]: FILE has a list BUGS of dicts (id, property, edits: [(path
under pykrylov/, old, new)], demo: Python, needs, what_it_breaks).  Each change is
made in /repo's working tree, built, tested, demonstrated and undone; the folder is
written if it counts.  With --check, the property's check is run as well.
"""
import json
import os
import shutil
import subprocess
import sys

BASE = '585b027'
ROOT = '/verif/seeded/'
HEAD = '''import sys
sys.path.insert(0, '/opt/pykrylov-py3/build/lib')
import warnings
warnings.simplefilter('ignore')
import numpy as np


def need(ok, what):
    if not ok:
        print('BROKEN: ' + what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# Uses what the build left in /opt/pykrylov-py3/build/lib.
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **k)


def original(path, old):
    """Is some line that the change removes one of the original repository?"""
    out = sh('git', '-C', '/repo', 'blame', '-s', BASE + '..', '--', path).stdout
    diff = sh('git', '-C', '/repo', 'diff', '-U0', '--', path).stdout
    blame = out.splitlines()
    ok = bad = 0
    for l in diff.splitlines():
        if l.startswith('@@'):
            at, n = (l.split()[1][1:] + ',1').split(',')[:2]
            for i in range(int(at), int(at) + int(n)):
                if int(n):
                    ok += blame[i - 1].startswith('^')
                    bad += not blame[i - 1].startswith('^')
    return ok, bad


def main():
    ns = {}
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    exec(open(args[0]).read(), ns)
    for bug in ns['BUGS']:
        if args[1:] and bug['id'] not in args[1:]:
            continue
        print(bug['id'], bug['property'], end=': ', flush=True)
        d = ROOT + bug['id'] + '/'
        try:
            for path, old, new in bug['edits']:
                full = '/repo/pykrylov/' + path
                s = open(full).read()
                assert s.count(old) == 1, (path, s.count(old), old)
                open(full, 'w').write(s.replace(old, new))
            os.makedirs(d, exist_ok=True)
            diff = sh('git', '-C', '/repo', 'diff').stdout
            open(d + 'patch.diff', 'w').write(diff)
            open(d + 'demo.py', 'w').write(HEAD + bug['demo'].strip('\n') + '\n')
            open(d + 'demo.sh', 'w').write(SH)
            os.chmod(d + 'demo.sh', 0o755)
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['what_it_breaks']},
                      open(d + 'meta.json', 'w'), indent=1)
            lines = [original('pykrylov/' + p, o) for p, o, _ in bug['edits']]
            print('original/own lines', lines, end=' ')
            b = sh('bash', '/opt/vp/build.sh')
            with_ = sh('bash', d + 'demo.sh', cwd='/repo')
            t = sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
            print('build', b.returncode, 'demo', with_.returncode,
                  (with_.stdout.strip().splitlines() or [''])[-1][:100],
                  '| tests', t.stdout.strip().splitlines()[-1], end=' ', flush=True)
            good = b.returncode == 0 and with_.returncode == 1 \
                and '25 passed' in t.stdout.splitlines()[-1]
            if '--check' in sys.argv:
                c = sh('/verif/check', bug['property'], '--no-evidence')
                l = [x for x in c.stdout.splitlines() if x.startswith(bug['property'] + ':')]
                print('|', 'CAUGHT' if c.returncode == 1 else 'MISSED %d' % c.returncode,
                      ' '.join(l[1:2])[:130], end=' ', flush=True)
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        sh('bash', '/opt/vp/build.sh')
        without = sh('bash', d + 'demo.sh', cwd='/repo')
        good = good and without.returncode == 0 and all(o for o, _ in lines)
        print('| unchanged', without.returncode, without.stdout.strip()[-100:],
              '' if good else '*** DOES NOT COUNT', flush=True)
        if not good:
            shutil.rmtree(d)


main()
