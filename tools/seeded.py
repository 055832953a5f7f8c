#!/usr/bin/env python3
"""Which planted bugs of seeded/ the checks catch: seeded.py [-jN] [NAME...].

Each patch is applied to a scratch copy of /repo/pykrylov; the check of the bug's own
property runs on it.  /repo is not touched.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = '/verif/seeded/'


def one(name):
    d = tempfile.mkdtemp(prefix='seeded-')
    try:
        shutil.copytree('/repo/pykrylov', d + '/pykrylov')
        p = subprocess.run(['git', 'apply', '--directory=' + d.lstrip('/'), '--unsafe-paths',
                            ROOT + name + '/patch.diff'], cwd='/', stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode:
            return name, '?', 'DOES NOT APPLY ' + p.stdout.strip()[:100]
        c = json.load(open(ROOT + name + '/meta.json'))['property']
        env = dict(os.environ, VERIF_REPO=d)
        p = subprocess.run(['/verif/check', c, '--no-evidence', '--first'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, env=env)
        lines = [l for l in p.stdout.splitlines() if l.startswith(c + ':')]
        return name, c, ('caught' if p.returncode == 1 else 'MISSED (%d)' % p.returncode) \
            + ' | ' + ' '.join(lines[1:2])[:140]
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    par = 1
    if args and args[0].startswith('-j'):
        par = int(args.pop(0)[2:])
    names = args or sorted(os.listdir(ROOT))
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for r in ex.map(one, names):
            print(*r, flush=True)


main()
