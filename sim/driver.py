"""Runs a check: python driver.py PROPERTY [--replay FILE] [--runs N] [--jobs N]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit 0: held on everything explored. Exit 1: a VIOLATION line. Exit 2: the
check itself failed.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from sim import build as builder         # noqa: E402

STUCK = 150.        # Seconds on one scenario before the watchdog looks.

ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           PYTHONDONTWRITEBYTECODE='1')
ENV.setdefault('PYTHONHASHSEED', '0')
ENV.pop('PYTHONPATH', None)


def dump(data, path):
    with open(path, 'w') as f:
        json.dump(data, f)


# Under PyPy's JIT the number of 'line' events of one and the same execution
# varies: the checks that interrupt or switch at a line run without it.
LINES = ('C03', 'C04', 'C07', 'C08', 'C09', 'C11', 'C13')


def worker(check, *args, **kw):
    env = dict(ENV, **kw.pop('env', {}))
    args = (check,) + args
    jit = ['--jit', 'off'] if check in LINES else []
    return subprocess.Popen([sys.executable] + jit + ['-W', 'ignore',
                             os.path.join(HERE, 'worker.py')] + [str(a) for a in args],
                            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, env=env, cwd=VERIF)


def finish(p, timeout):
    """Output of a worker, or None if it had to be killed."""
    try:
        out, _ = p.communicate(timeout=timeout)
        return out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None


def run_one(check, build, sc, tmp, env=None, timeout=240):
    """Runs one scenario in a fresh process."""
    a, b = os.path.join(tmp, 'one.json'), os.path.join(tmp, 'one.out')
    if os.path.exists(b):
        os.remove(b)
    dump(sc, a)
    text = finish(worker(check, build, '--one', a, b, env=env or {}), timeout)
    if text is None:
        return {'timeout': True}
    if not os.path.exists(b):
        return {'error': text}
    return json.load(open(b))


def second_look(check, build, sc, tmp):
    """A scenario that got stuck, again, with a budget of source lines."""
    return run_one(check, build, sc, tmp, env={'VERIF_LINECOUNT': '1'}, timeout=600)


def report(check, build, sc, violations, tmp, seconds=40):
    """Minimises, writes the replay file, verifies it and says VIOLATION."""
    kind = violations[0][0]
    a, b = os.path.join(tmp, 'min.json'), os.path.join(tmp, 'min.out')
    dump(sc, a)
    text = finish(worker(check, build, '--min', a, kind, seconds, b), seconds + 240)
    best = {'scenario': sc, 'violations': violations, 'tried': 0, 'kept': 0}
    if text is not None and os.path.exists(b):
        m = json.load(open(b))
        if any(k == kind for k, _ in m['violations']):
            best = m
    again = run_one(check, build, best['scenario'], tmp)
    if not any(k == kind for k, _ in again.get('violations', ())):
        # The minimised one does not stand alone: keep the original.
        best = {'scenario': sc, 'violations': violations, 'tried': 0, 'kept': 0}
        again = run_one(check, build, sc, tmp)
    reproduced = any(k == kind for k, _ in again.get('violations', ()))
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.json' % (check, sc.get('_seed'), sc.get('_index')))
    with open(path, 'w') as f:
        json.dump({'property': check, 'kind': kind, 'scenario': best['scenario'],
                   'violations': best['violations'], 'digest': again.get('digest'),
                   'reproduced_in_fresh_process': reproduced,
                   'minimiser': {'tried': best['tried'], 'kept': best['kept']}},
                  f, indent=1, sort_keys=True)
        f.write('\n')
    for k, msg in best['violations'][:4]:
        print('%s: %s: %s' % (check, k, msg))
    print('seed=%s index=%s reproduced_in_fresh_process=%s'
          % (sc.get('_seed'), sc.get('_index'), reproduced))
    print('VIOLATION property=%s replay=%s' % (check, path))
    sys.stdout.flush()
    return path


def replay(check, build, path, tmp):
    rec = json.load(open(path))
    got = run_one(check, build, rec['scenario'], tmp)
    if got.get('timeout'):
        got = second_look(check, build, rec['scenario'], tmp)
    if 'error' in got or 'violations' not in got:
        print('replay failed: %s' % got)
        return 2
    if rec.get('digest') == got['digest']:
        print('the execution is the recorded one (event digest %s...)' % got['digest'][:16])
    if got['violations']:
        for k, msg in got['violations'][:4]:
            print('%s: %s: %s' % (check, k, msg))
        print('VIOLATION property=%s replay=%s' % (check, path))
        return 1
    print('no violation')
    return 0


def known_findings(check):
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path)).get('findings', ())
            if e['property'] == check]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--digests')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--first', action='store_true',
                    help='name the violation found, without minimising it (no replay file)')
    a = ap.parse_args()
    t0 = time.time()
    check, tier = a.check.upper(), a.tier
    build = builder.build()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % check)
    try:
        if a.replay:
            return replay(check, build, os.path.abspath(a.replay), tmp)
        return explore(a, check, tier, build, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(a, check, tier, build, tmp, t0):
    from sim import registry
    reg = registry.CHECKS[check]
    runs = a.runs or reg[tier]
    jobs = a.jobs
    print('%s: tier %s, VERIF_SEED %d, %d simulated runs' % (check, tier, a.seed, runs))
    sys.stdout.flush()
    env = {'VERIF_DIGESTS': '1'} if a.digests else {}
    procs = {}

    def start(w, first):
        prog, out = os.path.join(tmp, 'p%d' % w), os.path.join(tmp, 'o%d-%d' % (w, first))
        if os.path.exists(prog):
            os.remove(prog)
        p = worker(check, build, a.seed, tier, first, jobs, runs, prog, out, env=env)
        procs[w] = [p, prog, out, None, time.time()]

    for w in range(jobs):
        start(w, w)
    parts, errors, stuck = [], [], []
    violation = None
    while procs:
        time.sleep(0.05)
        for w in sorted(procs):
            p, prog, out, last, since = procs[w]
            if p.poll() is not None:
                text = p.stdout.read().decode(errors='replace')
                p.stdout.close()
                del procs[w]
                if not os.path.exists(out):
                    errors.append('worker %d died (%s): %s' % (w, p.returncode, text[-3000:]))
                    continue
                part = json.load(open(out))
                parts.append(part)
                if part['error']:
                    errors.append('harness error at index %d:\n%s\n%s' % (
                        part['error']['index'], part['error']['text'],
                        json.dumps(part['error']['scenario'])))
                if part['violation'] and (violation is None
                                          or part['violation']['index'] < violation['index']):
                    violation = part['violation']
                continue
            try:
                cur = open(prog).read()
            except OSError:
                cur = ''
            if cur != last:
                procs[w][3], procs[w][4] = cur, time.time()
            elif time.time() - since > STUCK:
                p.kill()
                p.wait()
                p.stdout.close()
                del procs[w]
                if not cur:
                    errors.append('worker %d did not start' % w)
                    continue
                idx = int(cur)
                stuck.append(idx)
                r = scenario_in_process(check, build, a.seed, tier, idx, tmp)
                got = second_look(check, build, r, tmp)
                if got.get('violations'):
                    violation = {'index': idx, 'scenario': r,
                                 'violations': got['violations']}
                elif 'violations' in got:
                    start(w, idx + jobs)      # It does end: just slow here.
                else:
                    errors.append('index %d got stuck: %s' % (idx, got))
        if violation is not None or errors:
            # Enough: let the others go.
            for w in list(procs):
                procs[w][0].kill()
                procs[w][0].wait()
                procs[w][0].stdout.close()
                del procs[w]
    if a.digests:
        with open(a.digests, 'w') as f:
            for d in sorted(sum((p['digests'] for p in parts), [])):
                f.write(json.dumps(d) + '\n')
    code = 0
    known = known_findings(check)
    nviol = 0
    if violation is not None:
        nviol = 1
        if a.first:
            print('%s: %s (index %d)' % (check, violation['violations'][:2],
                                         violation['index']))
            return 1
        report(check, build, violation['scenario'], violation['violations'], tmp)
        code = 1
    elif errors:
        for e in errors:
            print('ERROR: ' + e)
        code = 2
    else:
        for k in known:
            if any(k['id'] in p['known'] for p in parts):
                print('KNOWN-FINDING: property=%s %s' % (check, k['what']))
    if not a.no_evidence:
        evidence(a, check, tier, reg, parts, known, nviol, stuck, t0)
    wall = time.time() - t0
    print('%s: %s, %d runs in %.1f s' % (
        check, ['held on everything explored', 'VIOLATED', 'the check failed'][code],
        sum(p['runs'] for p in parts), wall))
    return code


def scenario_in_process(check, build, seed, tier, idx, tmp):
    out = os.path.join(tmp, 'sc.json')
    code = ('import sys, json; sys.path.insert(0, %r)\n'
            'from sim import worker\n'
            'mod = worker.load(%r, %r)\n'
            'worker.dump(worker.scenario_of(mod, %d, %d, %r), %r)\n'
            % (VERIF, check, build, seed, idx, tier, out))
    subprocess.check_call([sys.executable, '-W', 'ignore', '-c', code], env=ENV)
    return json.load(open(out))


def evidence(a, check, tier, reg, parts, known, nviol, stuck, t0):
    def total(name):
        d = {}
        for p in parts:
            for k, v in p[name].items():
                d[k] = d.get(k, 0) + v
        return d
    wall = time.time() - t0
    runs = sum(p['runs'] for p in parts)
    orders = set().union(*[p['orders'] for p in parts]) if parts else set()
    nontrivial = set().union(*[p['nontrivial'] for p in parts]) if parts else set()
    samples = sum((p['samples'][:1] for p in parts), [])[:3]
    ev = {
        'property': check, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontrivial),
            'rule': reg['rule'],
            'samples': samples,
            'operations': sum(p['solves'] for p in parts),
            'runs_and_seeds_per_hour': int(runs / max(wall, 1e-9) * 3600),
            'simulated_time': round(sum(p['clock'] for p in parts), 2),
            'simulated_time_unit': 'one device call takes 1.0 unless its scenario says else',
            'faults_that_struck': total('fired'),
            'rare_conditions_met': total('probes'),
            'distinct_interleavings': len(orders),
            'interleaving_measure': 'digest of the sequence of (client, device or boundary) '
                                    'yield points and switches of a simulation',
            'real_components': reg['real'],
            'stub_components': reg['stub'],
            'known_findings_met': total('known'),
            'scenarios_the_watchdog_looked_at': stuck,
            'workers': len(parts),
        },
        'assumptions': reg['assumptions'],
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, check + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(tmp, os.path.join(d, check + '.json'))


if __name__ == '__main__':
    sys.exit(main())
