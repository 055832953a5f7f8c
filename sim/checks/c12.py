"""C12: a used solver object behaves like a new one."""
from sim import core, gen
from sim import exec_ as X
from sim import world as W
from sim.result import Result

ID = 'C12'


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)] if gen.chance(rng, .8) else rng.choice(W.ALL)
    y = gen.system(rng, mth, 9, precon_p=.4)
    if gen.chance(rng, .15) and mth in ('cg', 'symmlq', 'minres'):
        # A system that gets a diagnosis rather than a solution.
        y['A']['kind'] = rng.choice(['nonspd', 'unsym'])
        y['A']['form'] = 'leaf'
        if y['A']['kind'] == 'unsym':
            y['A']['symflag'] = False
    if gen.chance(rng, .1) and mth in ('symmlq', 'minres'):
        y['P'] = {'kind': rng.choice(['indef', 'unsym']), 'seed': rng.randrange(10**6)}
    solvers = [{'method': mth, 'system': 0, 'ctor': gen.ctor(rng, mth),
                'logger': rng.choice([None, None, None, 'info']),
                'noprecon': mth == 'minres' and gen.chance(rng, .3)}]
    ops = []
    pool = [gen.rhs(rng) for _ in range(3)]
    for i in range(rng.randrange(2, 8)):
        op = gen.solve(rng, 0, mth, y, budget_p=.4, store_p=.4)
        op['rhs'] = rng.choice(pool) if gen.chance(rng, .6) else op['rhs']
        if gen.chance(rng, .12):
            op['rhs'] = {'seed': 0, 'kind': 'zero'}
        if gen.chance(rng, .2):
            # A guess that solves the system already.
            if W.METHODS[mth]['guess']:
                op['guess'] = {'seed': 1, 'kind': 'zero'}
        r = rng.random()
        if r < .15:
            op['faults'] = [gen.crash(rng, y, bool(solvers[0]['logger']))]
        elif r < .35:
            op['faults'] = [gen.value_fault(rng, y)]
        elif r < .4:
            op['again'] = True        # The caller repeats the same call.
        if mth == 'minres' and gen.chance(rng, .5):
            op['precon'] = rng.choice(['given', 'none', 'again'])
        ops.append(op)
    ops.append(gen.solve(rng, 0, mth, y, budget_p=.2, store_p=.3))
    return {'systems': [y], 'solvers': solvers, 'ops': ops}


def run(sc):
    r = Result()
    sim = core.Sim()
    world = W.World(sim, X.world_spec(sc))
    outs = []

    def client(c):
        for i, op in enumerate(sc['ops']):
            for rep in range(2 if op.get('again') else 1):
                key = 'o%d' % i
                outs.append((i, key, op, X.do_op(world, c, key, op, op.get('faults') or ())))
                r.solves += 1

    sim.run([client])
    r.absorb(sim)
    for n, (i, key, op, o) in enumerate(outs):
        base, _ = X.alone(sc, op, key, op.get('faults') or ())
        if o.exc is not None or base.exc is not None:
            if (o.exc is None) != (base.exc is None) or type(o.exc) is not type(base.exc):
                r.viol('not-as-new', 'solve %d (%s): %s' % (n, o.method, X.diff_text(o, base)))
            r.probe('failed solve in the history')
            continue
        d = X.differs(o, base)
        if d:
            r.viol('not-as-new', 'solve %d of %s: %s' % (n, o.method, X.diff_text(o, base)))
        if n:
            r.nontrivial = True
            r.probe('reused, claimed' if o.claim else 'reused, not claimed')
    if world.changed_vectors():
        r.viol('argument-changed', repr(world.changed_vectors()))
    return r
