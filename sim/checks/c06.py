"""C06: the library neither disturbs nor depends on the global random state."""
import random

import numpy as np

from sim import core, gen
from sim import exec_ as X
from sim import world as W
from sim.result import Result

ID = 'C06'


def generate(rng, idx, tier):
    ncl = rng.choice([1, 1, 2, 3])
    systems, methods, solvers, clients = [], [], [], []
    for i in range(rng.choice([1, 2])):
        mth = rng.choice(W.ALL)
        y = gen.system(rng, mth, 9, pre='s%d' % i if i else '', precon_p=.6)
        r = rng.random()
        kind = W.METHODS[mth]['kind']
        if r < .35 and kind != 'ls':
            y['A'].update(kind=rng.choice(['nearsym', 'nonspd', 'unsym', 'nearsym', 'negdef']),
                          form=rng.choice(['leaf', 'neg', 'scaled', 'array']))
            # (What an operator says of itself is no verdict.)
            y['A']['symflag'] = y['A']['kind'] in ('nonspd', 'negdef') or gen.chance(rng, .3)
            if y['A']['kind'] == 'negdef':
                y['A']['scale'] = rng.choice([1., 1., 1e-6, 1e-20, 1e12])
            if y['P'] and y['P']['kind'] == 'inv':
                y['P'] = None
        elif r < .45 and kind in ('gen', 'sym'):
            # Methods break down on these, some of them at once.
            y['A']['kind'] = rng.choice(['skew', 'saddle', 'saddle'])
            if y['P'] and (y['P']['kind'] == 'inv' or gen.chance(rng, .7)):
                y['P'] = None
            y['broken'] = True
        elif r < .6:
            y['A']['scale'] = rng.choice([1e-2, 1e2, 1e-9, 1e-18, 1e12])
            if y['P'] and y['P']['kind'] == 'inv':
                y['P'] = None
        systems.append(y)
        methods.append(mth)
    for c in range(ncl):
        ops = []
        base = len(solvers)                       # Every client has solvers of its own.
        for i, mth in enumerate(methods):
            solvers.append({'method': mth, 'system': i, 'ctor': gen.ctor(rng, mth)})
        for _ in range(rng.choice([2, 3, 4, 6])):
            i = rng.randrange(len(systems))
            r = rng.random()
            if r < .3:
                op = gen.solve(rng, base + i, methods[i], systems[i], budget_p=.2)
                for k, ms in (('check', ('minres', 'symmlq')), ('check_symmetric', ('cg',))):
                    if methods[i] in ms:
                        op['kw'][k] = gen.chance(rng, .8)
                if systems[i].get('broken') and gen.chance(rng, .7):
                    op.pop('guess', None)
                    op['rhs']['kind'] = rng.choice(['unit', 'half', 'half'])
            elif r < .5:
                op = {'op': 'check', 'y': i, 'fn': rng.choice(
                    ['check_symmetric', 'check_positive_definite']),
                    'times': rng.choice([1, 3, 6]), 'of': rng.choice(['A', 'A', 'A', 'P']),
                    'kw': rng.choice([{}, {}, {'repeats': 1}, {'repeats': 3}])}
                if op['fn'] == 'check_positive_definite' and gen.chance(rng, .35):
                    op['kw'] = dict(op['kw'], semi=True)
            elif r < .6:
                op = {'op': 'product', 'y': i, 'vec': {'seed': rng.randrange(10**6)},
                      'which': rng.choice(['op', 'T', 'P', 'M', 'N'])}
            elif r < .9:
                op = {'op': 'draw', 'k': rng.choice([1, 2, 5])}
            else:
                op = {'op': 'reseed', 'seed': rng.choice([0, 1, 1, 17])}
            if op['op'] in ('solve', 'product') and gen.chance(rng, .1):
                op['faults'] = [gen.crash(rng, systems[i])]
            ops.append(op)
        clients.append(ops)
    return {'systems': systems, 'solvers': solvers, 'clients': clients,
            'seed': rng.choice([0, 1, 2, 12345]),
            'hook': rng.choice([None, None, 'draw', 'draw', 'reseed', 'set_state']),
            'sched': {'mode': 'rand', 'seed': rng.randrange(10**9),
                      'p': rng.choice([.1, .4, .8])}}


class Shadow(object):
    """The streams that the clients must see, drawn from private generators."""

    def __init__(self, r, seed):
        self.r = r
        self.n = 0
        self.reseed(seed)

    def reseed(self, seed):
        np.random.seed(seed)
        random.seed(seed)
        self.np, self.py = np.random.RandomState(seed), random.Random(seed)

    def draw(self, k, where):
        for _ in range(k):
            self.n += 1
            a = (np.random.random_sample(), np.random.standard_normal(),
                 np.random.randint(10**6))
            b = (self.np.random_sample(), self.np.standard_normal(),
                 self.np.randint(10**6))
            c, d = (random.random(), random.gauss(0, 1)), (self.py.random(),
                                                          self.py.gauss(0, 1))
            if a != b:
                self.r.viol('stream-disturbed', 'numpy stream, %s, draw %d' % (where, self.n))
                self.np.set_state(np.random.get_state())
            if c != d:
                self.r.viol('stream-disturbed', 'random stream, %s, draw %d'
                            % (where, self.n))
                self.py.setstate(random.getstate())

    def check(self, where):
        a, b = np.random.get_state(), self.np.get_state()
        if not (a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]):
            self.r.viol('state-disturbed', 'state of numpy.random after %s' % where)
            self.np.set_state(a)
        if random.getstate() != self.py.getstate():
            self.r.viol('state-disturbed', 'state of random after %s' % where)
            self.py.setstate(random.getstate())


def check_op(world, c, key, op):
    from pykrylov.tools import utils
    y = world.systems[op['y']]
    tgt = y.precon if op['of'] == 'P' and y.precon is not None else y.op
    fn = getattr(utils, op['fn'])
    o = W.run_session(world.sim, c, key, lambda: fn(tgt, **op['kw']), (), 1000)
    o.fields = {}
    return o


def verdict(world, op):
    """The right verdict, or None where it is a matter of taste."""
    y = world.systems[op['y']]
    a = y.P if op['of'] == 'P' and y.precon is not None else y.A
    if a.shape[0] != a.shape[1]:
        return False
    size = np.abs(a).max()
    if op['fn'] == 'check_symmetric':
        if not 1e-4 < size < 1e6:
            return None
        skew = np.linalg.norm(a - a.T, 2) / np.linalg.norm(a, 2)
        if skew < 1e-13:
            return True
        # The check draws nonnegative vectors: ask those it might draw.
        return False if clearly_unsymmetric(a, op['kw'].get('repeats', 10)) else None
    w = np.linalg.eigvalsh((a + a.T) / 2)
    if w[0] > 1e-8 * w[-1]:
        return True
    if w[-1] < -1e-8 * abs(w[0]):
        return False
    return None


def clearly_unsymmetric(a, repeats):
    """Whether hardly a vector fails to show that the matrix is unsymmetric."""
    n = a.shape[0]
    rs = np.random.RandomState(99)
    hits = 0
    for _ in range(200):
        x = rs.random_sample(n)
        w = np.dot(a, x)
        s, t = np.dot(w, w), np.dot(x, np.dot(a, w))
        hits += abs(s - t) > 1e-4 * (s + 1e-12)
    return (1 - hits / 200.) ** repeats < 1e-9


def run(sc):
    r = Result()
    sim = core.Sim(sc['sched'])
    sh = Shadow(r, sc['seed'])
    world = W.World(sim, X.world_spec(sc))
    sh.check('building operators and solvers')
    outs = []
    state = {'inside': 0}

    def hook(dev, k):
        if sim.session is None:
            return
        state['inside'] += 1
        if sc['hook'] == 'draw' and k % 2 == 0:
            sh.draw(1, 'inside a callback')
        elif sc['hook'] == 'reseed' and k == 1:
            sh.reseed(7)
        elif sc['hook'] == 'set_state' and k % 3 == 1:
            sh.draw(3, 'inside a callback')
            np.random.set_state(np.random.RandomState(k).get_state())
            sh.np.set_state(np.random.RandomState(k).get_state())

    if sc['hook']:
        for y in world.systems:
            for nm in sorted(y.devices):
                y.devices[nm].hooks.append(hook)

    def body(no, ops):
        def client(c):
            for i, op in enumerate(ops):
                key = 'c%do%d' % (no, i)
                sim.point('op')
                if op['op'] == 'draw':
                    sh.draw(op['k'], 'client %d' % no)
                    if r.solves:
                        r.nontrivial = True
                    r.probe('draws')
                elif op['op'] == 'reseed':
                    sh.reseed(op['seed'])
                    r.probe('reseeded')
                elif op['op'] == 'check':
                    for t in range(op['times']):
                        o = check_op(world, c, '%st%d' % (key, t), op)
                        outs.append((key, op, o))
                        r.solves += 1
                        sh.check(key)
                else:
                    o = X.do_op(world, c, key, op, op.get('faults') or ())
                    outs.append((key, op, o))
                    r.solves += 1
                    sh.check(key)
        return client

    sim.run([body(i, ops) for i, ops in enumerate(sc['clients'])])
    r.absorb(sim)
    # Results under other global states, alone.
    verdicts = {}
    for key, op, o in outs:
        if op['op'] == 'check':
            name = '%s(%s of system %d, %s)' % (op['fn'], op['of'], op['y'],
                                               sorted(op['kw'].items()))
            if o.exc is not None:
                r.viol('internal-error', '%s: %s' % (name, W.kind_of_exc(o)))
                continue
            if not isinstance(o.result, (bool, np.bool_)):
                r.viol('wrong-verdict', '%s says %r' % (name, o.result))
                continue
            v = bool(o.result)
            if verdicts.setdefault(name, v) != v:
                r.viol('verdict-changes', '%s says %s and %s' % (name, v, not v))
            right = verdict(world, op)
            if right is not None and v != right:
                r.viol('wrong-verdict', '%s says %s' % (name, v))
            r.probe('check: %s, %s' % (v, 'clear' if right is not None else 'borderline'))
            continue
        for seed in (987,):
            np.random.seed(seed)
            random.seed(seed)
            base, _ = X.alone(sc, op, key, op.get('faults') or ())
            d = X.differs(o, base)
            if d:
                r.viol('depends-on-state', '%s %s: %s' % (key, op['op'], X.diff_text(o, base)))
    return r
