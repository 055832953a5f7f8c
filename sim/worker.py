"""Runs scenarios of one check in one process.

worker.py CHECK BUILD SEED TIER START STEP STOP PROGRESS OUT
worker.py CHECK BUILD --one SCENARIO OUT
worker.py CHECK BUILD --min SCENARIO KIND SECONDS OUT
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

import numpy as np

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import core                    # noqa: E402


def dump(data, path):
    with open(path, 'w') as f:
        json.dump(data, f)


def load(check, build):
    core.setup(build)
    return importlib.import_module('sim.checks.' + check.lower())


def scenario_of(mod, seed, idx, tier):
    rng = random.Random(core.seed_of(seed, mod.ID, idx))
    sc = mod.generate(rng, idx, tier)
    sc['_seed'], sc['_index'] = seed, idx
    return sc


def findings(check):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        'known-findings.json')
    return [e for e in json.load(open(path))['findings'] if e['property'] == check]


def run(mod, sc):
    """Runs a scenario: (result, harness error). Known findings are set aside."""
    r, err = run_raw(mod, sc)
    if r is not None:
        r.known = []
        for e in findings_of(mod):
            hit = [v for v in r.violations if v[0] == e['kind'] and e['match'] in v[1]]
            if hit:
                r.known.append(e['id'])
                r.violations = [v for v in r.violations if v not in hit]
    return r, err


_known = {}


def findings_of(mod):
    if mod.ID not in _known:
        _known[mod.ID] = findings(mod.ID)
    return _known[mod.ID]


def run_raw(mod, sc):
    """Runs a scenario: (result, harness error)."""
    try:
        return mod.run(sc), None
    except core.HarnessError:
        return None, traceback.format_exc()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not e.args:
            raise
        if core.from_library(e.__traceback__):
            from sim.result import Result
            r = Result()
            r.viol('unexpected-exception', traceback.format_exc()[-1500:])
            return r, None
        if isinstance(e, (ValueError, ArithmeticError, TypeError, LookupError,
                          AttributeError, np.linalg.LinAlgError)):
            # The oracles handle everything that the library may hand out.
            from sim.result import Result
            r = Result()
            r.viol('unjudgeable', 'what the library handed out is nothing that it could: '
                   + traceback.format_exc()[-1500:])
            return r, None
        return None, traceback.format_exc()


def main():
    a = sys.argv[1:]
    mod = load(a[0], a[1])
    if a[2] == '--one':
        sc = json.load(open(a[3]))
        r, err = run(mod, sc)
        out = {'error': err} if err else {
            'violations': r.violations, 'digest': r.digest, 'switches': r.switches}
        dump(out, a[4])
        return
    if a[2] == '--min':
        from sim import minimise
        sc = json.load(open(a[3]))
        dump(minimise.minimise(mod, run, sc, a[4], float(a[5])), a[6])
        return
    seed, tier = int(a[2]), a[3]
    start, step, stop = int(a[4]), int(a[5]), int(a[6])
    progress, outfile = a[7], a[8]
    digests = os.environ.get('VERIF_DIGESTS')
    tot = {'runs': 0, 'fired': {}, 'probes': {}, 'clock': 0.0, 'solves': 0,
           'orders': [], 'nontrivial': [], 'samples': [], 'violation': None,
           'error': None, 'digests': [], 'known': {}}
    orders, nontrivial = set(), set()
    t0 = time.time()
    for idx in range(start, stop, step):
        with open(progress, 'w') as f:
            f.write('%d' % idx)
        sc = scenario_of(mod, seed, idx, tier)
        r, err = run(mod, sc)
        if err:
            tot['error'] = {'index': idx, 'scenario': sc, 'text': err}
            break
        tot['runs'] += 1
        tot['solves'] += r.solves
        tot['clock'] += r.clock
        for name in ('fired', 'probes'):
            for k, v in getattr(r, name).items():
                tot[name][k] = tot[name].get(k, 0) + v
        for k in r.known:
            tot['known'][k] = tot['known'].get(k, 0) + 1
        orders.update(r.orders)
        if r.nontrivial:
            nontrivial.add(r.digest)
        if digests:
            tot['digests'].append([idx, r.digest, len(r.violations)])
        if len(tot['samples']) < 2:
            tot['samples'].append({'scenario': sc, 'info': r.info, 'digest': r.digest[:16]})
        if r.violations:
            if r.switches is not None:
                sc = dict(sc, sched={'mode': 'explicit', 'switches': r.switches})
            tot['violation'] = {'index': idx, 'scenario': sc,
                                'violations': r.violations}
            break
    tot['orders'], tot['nontrivial'] = sorted(orders), sorted(nontrivial)
    tot['wall'] = time.time() - t0
    with open(outfile + '.tmp', 'w') as f:
        json.dump(tot, f)
    os.rename(outfile + '.tmp', outfile)


if __name__ == '__main__':
    main()
