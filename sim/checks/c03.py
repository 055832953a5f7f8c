"""C03: a failure or interruption inside a solve is transparent and harmless."""
import numpy as np

from sim import core, gen
from sim import exec_ as X
from sim import world as W
from sim.result import Result

ID = 'C03'


def sweep(rng):
    """One small solve after the other, with every type of exception once."""
    mth = rng.choice(W.ALL)
    y = gen.system(rng, mth, 4)
    solver = {'method': mth, 'system': 0, 'ctor': gen.ctor(rng, mth),
              'logger': rng.choice(['info', 'debug'])}
    ops, excs = [], list(gen.EXCS)
    rng.shuffle(excs)
    plain = gen.solve(rng, 0, mth, y)
    k = min(int(rng.expovariate(.2)), 16)
    dev = rng.choice(['log', 'log'] + gen.device_names(y))
    for e in excs:
        if gen.chance(rng, .5):
            k = min(int(rng.expovariate(.2)), 16)
        ops.append(dict(plain, faults=[{'dev': dev, 'k': k, 'kind': 'raise:' + e}]))
    return {'systems': [y], 'solvers': [solver], 'ops': ops + [plain]}


def generate(rng, idx, tier):
    if gen.chance(rng, .2):
        return sweep(rng)
    nsys = rng.choice([1, 1, 2])
    methods = [rng.choice(W.ALL) for _ in range(nsys)]
    systems, solvers = [], []
    for i, mth in enumerate(methods):
        y = gen.system(rng, mth, 9, pre='s%d' % i if i else '')
        systems.append(y)
        for _ in range(rng.choice([1, 1, 2])):
            solvers.append({'method': mth, 'system': i, 'ctor': gen.ctor(rng, mth),
                            'logger': rng.choice([None, None, 'info', 'debug'])})
    ops = []
    for _ in range(rng.randrange(2, 6)):
        s = rng.randrange(len(solvers))
        y = systems[solvers[s]['system']]
        if gen.chance(rng, .15):
            op = {'op': 'product', 'y': solvers[s]['system'],
                  'which': rng.choice(['op', 'op', 'T', 'P', 'M', 'N']),
                  'vec': {'seed': rng.randrange(10**6)}}
        else:
            op = gen.solve(rng, s, solvers[s]['method'], y)
        r = rng.random()
        if r < .45:
            op['faults'] = [gen.crash(rng, y, bool(solvers[s]['logger']))]
            if gen.chance(rng, .2):
                op['faults'].append(gen.value_fault(rng, y))
        elif r < .65:
            op['interrupt'] = {'frac': rng.random(), 'exc': rng.choice(
                ['KeyboardInterrupt', 'MemoryError', 'InjectedBase', 'SystemExit'])}
        ops.append(op)
    # After the failures, the same objects must still be as good as new.
    for s in range(len(solvers)):
        y = systems[solvers[s]['system']]
        ops.append(gen.solve(rng, s, solvers[s]['method'], y))
    return {'systems': systems, 'solvers': solvers, 'ops': ops}


def run(sc):
    r = Result()
    plan = []
    for i, op in enumerate(sc['ops']):
        key = 'o%d' % i
        it = None
        if op.get('interrupt'):
            it = X.interrupt_of(sc, op, key, op['interrupt'], op.get('faults') or ())
        plan.append((key, op, op.get('faults') or (), it))
    sim = core.Sim(None, trace_lines='count' if any(p[3] for p in plan) else False)
    world = W.World(sim, X.world_spec(sc))
    outs = []
    claims = {}           # solver -> (claim, solution) before the operation

    def client(c):
        for key, op, faults, it in plan:
            o = X.do_op(world, c, key, op, faults, it)
            outs.append(o)
            struck = o.raised
            r.solves += 1
            if o.exc is not None and not any(o.exc is e for e in o.raised):
                if not o.raised:
                    base, _ = X.alone(sc, op, key, faults)
                    if base.exc is not None and type(base.exc) is type(o.exc):
                        r.probe('fails alone too')       # C02's business.
                    else:
                        r.viol('internal-error', '%s: %s' % (key, W.kind_of_exc(o)))
                else:
                    r.viol('changed-exception', '%s: injected %r, the caller got %s' % (
                        key, o.raised, W.kind_of_exc(o)))
            if o.exc is None and struck:
                r.viol('swallowed', '%s: injected %r, the caller got none' % (key, struck))
            bad = world.changed_vectors()
            if bad:
                r.viol('argument-changed', '%s changed %s' % (key, bad))
            if op['op'] == 'solve':
                claim = W.METHODS[o.method]['claim']
                if o.exc is not None and it is None:
                    now = o.fields[claim]
                    if now:
                        old = claims.get(op['s'])
                        if old is None or not old[0] or \
                                core.canon(o.fields['x']) != old[1]:
                            r.viol('false-claim', '%s: failed with %r, yet %s is %r' % (
                                key, o.exc, claim, now))
                    r.probe('failed solve')
                claims[op['s']] = (o.fields[claim], core.canon(o.fields['x']))
            if o.exc is not None:
                r.nontrivial = True

    sim.run([client])
    r.absorb(sim)
    for (key, op, faults, it), o in zip(plan, outs):
        if o.exc is not None:
            continue
        base, _ = X.alone(sc, op, key, [f for f in faults])
        d = X.differs(o, base)
        if d:
            r.viol('not-as-new', '%s %s: %s' % (key, op['op'], X.diff_text(o, base)))
        r.probe('operation after a failure' if r.nontrivial else 'operation')
    # The shared operators, afterwards.
    fresh_sim = core.Sim()
    fresh = W.World(fresh_sim, X.world_spec(sc))
    for i, (a, b) in enumerate(zip(world.systems, fresh.systems)):
        for nm in ('op', 'precon', 'Mop', 'Nop'):
            p, q = getattr(a, nm), getattr(b, nm)
            if p is None:
                continue
            x = np.linspace(-1, 1, p.shape[1])
            if core.canon(p * x) != core.canon(q * x):
                r.viol('operator-changed', 'system %d, %s' % (i, nm))
    return r

