"""Writes MANIFEST.json from the registry: python3 tools/mkmanifest.py"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim import registry

NA = {
    'N01': 'result types are a pure function of two dtypes: no schedule, clock, I/O, fault or '
           'history for a simulator to control',
    'N02': 'roots_quadratic is a pure function of three numbers: nothing to schedule or to '
           'inject a fault into',
    'N03': 'the gallery products are pure functions of one vector: nothing to schedule or to '
           'inject a fault into',
    'N04': 'CHOLMOD and Pysparse are not installed and cannot be fetched; the operators over '
           'them run here over simulated matrices and factors (C09, C11)',
}
NOTE = ('Seeded search over simulated executions: the check vouches for the runs it made (see '
        'evidence), not for all. Trusted: the dense reference models and oracles in sim/, the '
        '2to3 translation (the one the repository is built with here), numpy and PyPy.')


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python sim/build.py',
         'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: callbacks, log handlers, sys.stdout and sys.settrace are '
                  'seams enough. ./check ID [--replay FILE] [--runs N] [--seed N]; see DESIGN.md.'}
    for i in ids:
        if i in registry.CHECKS:
            m['checks'].append({
                'property': i, 'quick_cmd': './check ' + i,
                'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'deterministic simulation with fault injection',
                'level': 'exploration', 'level_note': NOTE})
        else:
            m['not_applicable'].append({
                'property': i, 'reason': NA.get(i, 'planned; its simulation is not built yet')})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
