"""C05: watching a solve does not change it, and a quiet solve is silent."""
import copy
import logging

import numpy as np

from sim import core, gen, truth
from sim import exec_ as X
from sim import world as W
from sim.devices import SimHandler
from sim.result import Result

ID = 'C05'
STORED = ('iterates', 'iterates_p', 'iterates_d', 'resids', 'norms', 'normal_eqns_resids')
WATCH = ['info', 'debug', 'error', 'shared', 'oplog', 'root', 'show', 'store', 'resids',
         'everything', 'mute-shared']
OUTPUT = ['IOError', 'ValueError', 'none', 'closed']


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)]
    y = gen.system(rng, mth, 9, precon_p=.45)
    if gen.chance(rng, .12) and mth in ('cg', 'symmlq', 'minres'):
        y['A'].update(kind=rng.choice(['nonspd', 'unsym']), form='leaf')
        if y['A']['kind'] == 'unsym':
            y['A']['symflag'] = False
    if gen.chance(rng, .15) and mth in ('symmlq', 'minres'):
        y['P'] = {'kind': rng.choice(['indef', 'unsym']), 'seed': rng.randrange(10**6)}
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        op = gen.solve(rng, 0, mth, y, budget_p=.35, store_p=.3)
        r = rng.random()
        if r < .12:
            op['faults'] = [gen.value_fault(rng, y)]
        elif r < .18:
            op['faults'] = [gen.crash(rng, y)]
        op['watch'] = sorted(rng.sample(WATCH, 3))
        op['output'] = rng.choice(OUTPUT)
        op['steps'] = gen.chance(rng, .35)
        ops.append(op)
    return {'systems': [y], 'ops': ops,
            'solvers': [{'method': mth, 'system': 0, 'ctor': gen.ctor(rng, mth)}]}


class Closed(core.io.TextIOBase):
    """A closed stream: every use of it is an error."""

    def __init__(self, sim):
        self.sim = sim

    def __getattribute__(self, name):
        if name in ('sim', '__class__'):
            return core.io.TextIOBase.__getattribute__(self, name)
        self.sim.fire('output:closed')
        raise ValueError('I/O operation on closed file')


def solve(sc, op, key, watch=None, kw=None, output=None):
    """One solve alone, watched in some way. Returns (outcome, written, sim)."""
    spec = copy.deepcopy(X.world_spec(sc))
    op = copy.deepcopy(op)
    op['kw'].update(kw or {})
    op['kw'] = dict((k, v) for k, v in op['kw'].items() if v != 'default')
    mth = spec['solvers'][0]['method']
    sim = core.Sim()
    root, level, handler = logging.getLogger(), logging.getLogger().level, None
    named = [logging.getLogger(), logging.getLogger('krylov')]
    state = [(l, l.level, list(l.handlers), l.propagate, l.disabled) for l in named]
    every = watch == 'everything'
    if watch in ('info', 'debug', 'error'):
        spec['solvers'][0]['logger'] = watch
    if watch in ('shared', 'oplog') or every:
        spec['solvers'][0]['logger'] = 'x:all'
    if watch == 'mute-shared':
        spec['solvers'][0]['logger'] = 'x:error'
    if watch in ('shared', 'oplog', 'mute-shared') or every:
        from sim.devices import make_logger
        lg = make_logger(sim, 'x', 1 if watch != 'mute-shared' else logging.ERROR)
        for k in ('A', 'P', 'M', 'N'):
            if spec['systems'][0].get(k):
                spec['systems'][0][k]['oplog'] = lg
    if (watch == 'show' or every) and (mth in W.LSS or mth == 'minres'):
        op['kw']['show'] = True
    if (watch == 'store' or every) and mth not in ('cgs', 'bicgstab', 'tfqmr'):
        op['kw']['store_iterates'] = True
    if (watch == 'resids' or every) and mth in ['cg'] + W.LSS:
        op['kw']['store_resids'] = True
    out = []
    try:
        if watch == 'root' or every:
            handler = SimHandler(sim, 'rootlog')
            root.addHandler(handler)
            root.setLevel(1)
        fault = {None: None, 'IOError': OSError(28, 'No space left on device'),
                 'ValueError': ValueError('I/O operation on closed file')}.get(output)
        with core.Streams(sim, fault) as st:
            import sys
            if output == 'none':
                sys.stdout = sys.stderr = None
            elif output == 'closed':
                sys.stdout = sys.stderr = Closed(sim)
            # Objects are made under the same conditions as the solve.
            world = W.World(sim, spec)
            sim.run([lambda c: out.append(
                W.do_solve(world, c, key, op, op.get('faults') or ()))])
    finally:
        if handler is not None:
            root.removeHandler(handler)
            root.setLevel(level)
    now = [(l, l.level, list(l.handlers), l.propagate, l.disabled) for l in named]
    changed = [s[0].name for s, t in zip(state, now) if s != t]
    o = out[0]
    o.written = st.written
    o.logging_changed = changed
    return o, sim


def same(a, b, skip=()):
    """Differences of two outcomes but for the fields to skip."""
    a2, b2 = copy.copy(a), copy.copy(b)
    a2.fields = dict((k, v) for k, v in a.fields.items() if k not in skip)
    b2.fields = dict((k, v) for k, v in b.fields.items() if k not in skip)
    return X.differs(a2, b2), (a2, b2)


def run(sc):
    r = Result()
    import pykrylov.linop                       # noqa: F401
    W.method_class(sc['solvers'][0]['method'])   # (Imports set up their loggers.)
    mth = sc['solvers'][0]['method']
    for i, op in enumerate(sc['ops']):
        key = 'o%d' % i
        base, sim = solve(sc, op, key)
        r.absorb(sim)
        r.solves += 1
        name = 'solve %d, %s' % (i, mth)
        quiet_ok = True
        if base.written and quiet_ok:
            r.viol('not-silent', '%s wrote %r' % (name, base.written[:120]))
        if base.logging_changed:
            r.viol('logging-changed', '%s: configuration of %s' % (name, base.logging_changed))
        # With an output that cannot be written.
        o, sim = solve(sc, op, key, output=op['output'])
        r.absorb(sim)
        r.solves += 1
        r.probe('broken output: ' + op['output'])
        d, (a, b) = same(o, base)
        if d:
            r.viol('needs-output', '%s with output %s: %s'
                   % (name, op['output'], X.diff_text(a, b)))
        for w in op['watch']:
            o, sim = solve(sc, op, key, watch=w)
            r.absorb(sim)
            r.solves += 1
            r.nontrivial = True
            r.probe('watched: ' + w)
            skip = STORED if w in ('store', 'resids', 'everything') else ()
            d, (a, b) = same(o, base, skip)
            if d:
                r.viol('watching-changes', '%s watched (%s): %s'
                       % (name, w, X.diff_text(a, b)))
            shows = w in ('show', 'everything') and (mth in W.LSS or mth == 'minres')
            if not shows and o.written:
                r.viol('not-silent', '%s watched (%s) wrote %r' % (name, w, o.written[:120]))
            if o.logging_changed:
                r.viol('logging-changed', '%s: configuration of %s'
                       % (name, o.logging_changed))
        if base.exc is None:
            stored(r, sc, op, key, name, mth, base)
    return r


def dedupe(seq):
    out = []
    for x in seq:
        c = core.canon(x)
        if not out or out[-1] != c:
            out.append(c)
    return out


def stored(r, sc, op, key, name, mth, base):
    """What the storing options record."""
    can_resids = mth in ['cg'] + W.LSS
    if mth in ('cgs', 'bicgstab', 'tfqmr') or truth.well_formed(base) \
            or base.fields['x'] is None:
        return
    it, sim = solve(sc, op, key, kw={'store_iterates': True, 'store_resids': False})
    both, sim2 = solve(sc, op, key, kw={'store_iterates': True, 'store_resids': can_resids})
    none, sim3 = solve(sc, op, key, kw={'store_iterates': 'default', 'store_resids': 'default'})
    for s in (sim, sim2, sim3):
        r.absorb(s)
    names = [f for f in ('iterates', 'iterates_p', 'iterates_d') if f in it.fields]
    if mth == 'craig':
        names = ['iterates_p', 'iterates_d']
    for f in names:
        if core.canon(it.fields[f]) != core.canon(both.fields[f]):
            r.viol('stored-differs', '%s: %s depends on store_resids' % (name, f))
        if len(none.fields[f]):
            r.viol('stored-differs', '%s: %s stored unasked' % (name, f))
        if not isinstance(it.fields[f], list) or not all(
                isinstance(x, np.ndarray) for x in it.fields[f]):
            r.viol('stored-differs', '%s: %s is no list of arrays' % (name, f))
            return
    for f in ('resids', 'normal_eqns_resids'):
        if f in none.fields and len(none.fields[f]):
            r.viol('stored-differs', '%s: %s stored unasked' % (name, f))
    if not op.get('steps') or op.get('faults'):
        return
    # The iterates, one by one, from solves that stop there.
    bname = W.METHODS[mth]['budget']
    lo = 1 if mth in W.LSS else 0
    top = base.fields['itn'] if mth in W.LSS + ['minres'] else base.fields['nMatvec']
    xs, ps, ds = [], [], []
    for b in range(lo, int(top) + 1):
        p, sim = solve(sc, op, key, kw={bname: b, 'store_iterates': False,
                                        'store_resids': False})
        r.absorb(sim)
        if p.exc is not None:
            r.viol('stored-differs', '%s: fails with limit %d: %s'
                   % (name, b, W.kind_of_exc(p)))
            return
        xs.append(p.fields['x'])
        if mth == 'craig':
            ds.append(p.fields['r'])
    got = it.fields[names[0]]
    if mth == 'symmlq':
        return                    # Its points are moved when the solve ends.
    start = [] if mth not in W.LSS else [got[0]] if got else []
    if dedupe(start + xs) != dedupe(got):
        r.viol('stored-differs', '%s: the %d stored iterates are not those of the solves '
               'that stop there' % (name, len(got)))
    if mth == 'craig':
        got = it.fields['iterates_d']
        if dedupe(got[:1] + ds) != dedupe(got):
            r.viol('stored-differs', '%s: the stored dual iterates are not those of the '
                   'solves that stop there' % name)
    r.probe('iterates compared one by one')
