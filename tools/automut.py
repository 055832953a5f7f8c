#!/usr/bin/env python3
"""Sensitivity of the checks to small random changes of the sources.

automut.py OUT N [SEED] [PATH...]: N seeded token-level mutants (operators, constants,
conditions, deleted statements, dropped copies) of the sources in a scratch copy of
/repo; each is built and given to the checks that concern its file, in short runs, until
one reports. OUT gets a line per mutant; those that survive are to be looked at by hand.
"""
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tokenize
from concurrent.futures import ThreadPoolExecutor

PAR, JOBS = int(os.environ.get('PAR', 4)), 2
SOLVERS = {'cg/cg.py': 'C17 C16 C14 C13 C15 C01 C02 C12 C05 C10 C03 C04 C06',
           'minres/minres.py': 'C17 C16 C14 C13 C15 C01 C02 C12 C05 C10 C03 C04 C06',
           'symmlq/symmlq.py': 'C17 C16 C14 C13 C15 C01 C02 C12 C05 C10 C03 C04 C06'}
REST = 'C17 C16 C14 C13 C01 C02 C12 C05 C10 C03 C04 C06'
for f in ('cgs/cgs.py', 'bicgstab/bicgstab.py', 'tfqmr/tfqmr.py', 'lls/lsqr.py',
          'lls/lsmr.py', 'lls/craig.py', 'lls/craigmr.py', 'generic/generic.py'):
    SOLVERS[f] = REST
SOLVERS['linop/linop.py'] = 'C09 C11 C08 C10 C07 C06 C02 C15 C13 C01 C04 C03 C05'
SOLVERS['linop/blkop.py'] = 'C08 C09 C11 C10 C04 C03'
SOLVERS['linop/lbfgs.py'] = 'C07 C09 C10 C11 C04 C03 C13'
SOLVERS['tools/utils.py'] = 'C06 C15 C02 C16 C07 C09'
SOLVERS['tools/types.py'] = 'C09 C08'
SWAP = {'+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '<': ['<=', '>'], '<=': ['<'],
        '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '+=': ['-='],
        '-=': ['+='], '*=': ['/='], '/=': ['*='], 'and': ['or'], 'or': ['and'],
        'True': ['False'], 'False': ['True'], 'is': ['is not'], 'max': ['min'],
        'min': ['max'], 'not': [''], 'self': [], 'None': [], 'break': ['pass'],
        'continue': ['pass']}
NUM = {'0': ['1'], '1': ['0', '2'], '2': ['1'], '0.0': ['1.0'], '1.0': ['0.0', '2.0'],
       '0.': ['1.'], '1.': ['2.']}
DULL = re.compile(r'logger|log\.|print|str\d|write|raise|hdr|head|format|%\s*\(|msg|fmt')


def mutants(path, text):
    lines = text.split('\n')
    got = []
    toks = subprocess.run(
        ['/opt/venv/bin/python', '-W', 'ignore', '-c',
         'import sys, json\n'
         'from lib2to3.pgen2 import tokenize as t\n'
         'import io\n'
         'L = io.StringIO(sys.stdin.read())\n'
         'print(json.dumps([(k, s, a, b) for k, s, a, b, l in '
         't.generate_tokens(L.readline)]))'],
        input=text, stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout
    strings = set()
    end = [i for i, l in enumerate(lines, 1) if l.startswith('if __name__')] + [len(lines)]
    for i, l in enumerate(lines, 1):
        if l.startswith('def roots_quadratic'):        # No property of ours.
            strings.update(range(i, i + 55))
    for kind, s, (r, c), (r2, c2) in json.loads(toks):
        line = lines[r - 1] if r <= len(lines) else ''
        if kind == 3 and r2 > r:
            strings.update(range(r, r2 + 1))
        if r in strings or r >= end[0] or DULL.search(line) or line.strip().startswith(
                ('import', 'from', 'def', 'class', '#')) or (s == 'is' and ' is not ' in line):
            continue
        for new in SWAP.get(s, []) + NUM.get(s, []):
            m = line[:c] + new + line[c2:]
            got.append((r, m))
    for i, line in enumerate(lines, 1):
        st = line.strip()
        if i in strings or i >= end[0] or DULL.search(line) or not st or st[0] == '#':
            continue
        for cut in ('.copy()', '.conjugate()', 'abs'):
            if cut in line:
                got.append((i, line.replace(cut, '', 1)))
        # A whole statement on one line: left out.
        if re.match(r'[\w.\[\], ]+ *[-+*/]?= ', st) or re.match(r'[\w.]+\(.*\)$', st):
            if st.count('(') == st.count(')') and st.count('[') == st.count(']') \
                    and not st.endswith(('\\', ',')):
                got.append((i, line[:len(line) - len(line.lstrip())] + 'pass'))
    return got


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    only = sys.argv[4:]
    here = os.environ.get('CHECKS', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    src = os.environ.get('VERIF_REPO', '/repo')
    todo = []
    for path in sorted(SOLVERS):
        if only and path not in only:
            continue
        text = open(os.path.join(src, 'pykrylov', path)).read()
        for r, m in mutants(path, text):
            todo.append((path, r, m))
    print(len(todo), 'mutants in all')
    todo = rng.sample(todo, min(n, len(todo)))
    free = list(range(PAR))
    sys.path.insert(0, here)
    from sim import registry

    def one(item):
        k, (path, r, m) = item
        w = free.pop()
        repo = '/tmp/automut/%d' % w
        try:
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree(src, repo, ignore=shutil.ignore_patterns('.git', 'build'))
            full = os.path.join(repo, 'pykrylov', path)
            lines = open(full).read().split('\n')
            old = lines[r - 1]
            lines[r - 1] = m
            open(full, 'w').write('\n'.join(lines))
            env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD='/tmp/automut/b%d' % w)
            what = 'SURVIVED'
            for c in SOLVERS[path].split():
                runs = max(40, registry.CHECKS[c]['quick'] // 4)
                try:
                    p = subprocess.run(
                        ['timeout', '500', os.path.join(here, 'check'), c, '--first',
                         '--no-evidence', '--jobs', str(JOBS), '--runs', str(runs)], env=env,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                        universal_newlines=True)
                except Exception as e:
                    what = 'error %s' % e
                    break
                if p.returncode == 1:
                    last = [l for l in p.stdout.splitlines() if l.startswith(c)][-1]
                    what = 'caught by %s' % last[:110]
                    break
                if p.returncode not in (0, 1):
                    what = 'EXIT %d %s %s' % (p.returncode, c, ' '.join(
                        p.stdout.splitlines()[-3:])[-300:])
                    break
            with open(out, 'a') as f:
                f.write('%s:%d: %s  =>  %s | %s\n' % (path, r, old.strip(), m.strip(), what))
        finally:
            free.append(w)
    with ThreadPoolExecutor(PAR) as ex:
        list(ex.map(one, enumerate(todo)))


if __name__ == '__main__':
    main()
