"""C04: interleaved solves that share operators do not influence one another."""
from sim import core, gen
from sim import exec_ as X
from sim import world as W
from sim.result import Result

ID = 'C04'


def generate(rng, idx, tier):
    lines = gen.chance(rng, .35)
    # Under preemption at lines, callbacks that reuse one buffer for all their
    # callers are not safe in threads by themselves: that is the user's fault.
    aliases = ['fresh', 'readonly', 'view', 'strided'] if lines else gen.ALIASES
    nsys = rng.choice([1, 1, 2])
    ncl = rng.choice([2, 2, 2, 3, 4])
    systems, solvers, clients = [], [], []
    base = rng.choice(W.ALL)
    fam = {'spd': ['cg', 'minres', 'symmlq', 'bicgstab', 'cgs', 'tfqmr'],
           'sym': ['minres', 'symmlq'], 'gen': ['cgs', 'bicgstab', 'tfqmr'],
           'ls': W.LSS, 'identity': ['cg', 'minres'], 'diag': ['cg']}
    for i in range(nsys):
        y = gen.system(rng, base, 8, aliases=aliases, pre='s%d' % i if i else '',
                       precon_p=.7)
        if y['P'] and y['P']['kind'] not in ('lbfgs', 'blockdiag') and gen.chance(rng, .3):
            y['P'] = {'kind': 'lbfgs', 'seed': rng.randrange(10**6), 'pairs': rng.choice([2, 4, 4]),
                      'cls': rng.choice(['Inverse', 'Forward', 'Compact']),
                      'scaling': gen.chance(rng, .5)}
        y['A']['latency'] = rng.choice([1., 1., 5.])
        systems.append(y)
    for c in range(ncl):
        ops = []
        si = rng.randrange(nsys)
        kind = systems[si]['A']['kind']
        mth = rng.choice(fam[kind] if gen.chance(rng, .6) else [base])
        if W.METHODS[base]['kind'] == 'ls':
            mth = rng.choice(W.LSS)
        solvers.append({'method': mth, 'system': si, 'ctor': gen.ctor(rng, mth),
                        'logger': rng.choice([None, None, 'shared:info', 'shared:debug'])})
        vecs = [gen.rhs(rng)]
        for _ in range(rng.choice([1, 1, 2])):
            if gen.chance(rng, .3):
                op = {'op': 'product', 'y': si,
                      'which': rng.choice(['op', 'op', 'P', 'P', 'T', 'M', 'N']),
                      'vec': {'seed': 5}}
            else:
                op = gen.solve(rng, c, mth, systems[si], budget_p=.2)
                if gen.chance(rng, .5):
                    op['rhs'] = {'seed': 4}       # the same array for everybody
            if gen.chance(rng, .12):
                op['faults'] = [gen.crash(rng, systems[si])]
            elif gen.chance(rng, .1):
                op['faults'] = [gen.value_fault(rng, systems[si])]
            ops.append(op)
        clients.append(ops)
    sc = {'systems': systems, 'solvers': solvers, 'clients': clients, 'lines': lines,
          'sched': {'mode': 'rand', 'seed': rng.randrange(10**9),
                    'p': rng.choice([.1, .3, .5, .8]),
                    'p_line': rng.choice([.003, .02, .1, .4])}}
    if not lines and gen.chance(rng, .1):
        sc['sched'] = {'mode': 'rr'}
    if gen.chance(rng, .25):
        # A solve started from inside another one's callback.
        c = rng.randrange(ncl)
        inner = rng.randrange(ncl)
        si = solvers[inner]['system']
        new = len(solvers)
        solvers.append(dict(solvers[inner]))
        sc['nest'] = {'client': c, 'op': 0, 'total': rng.randrange(0, 6),
                      'inner': gen.solve(rng, new, solvers[inner]['method'], systems[si])}
    return sc


def repair(sc):
    if sc.get('nest') and (sc['nest']['client'] >= len(sc['clients'])):
        sc['nest'] = None
    return sc


def run(sc):
    r = Result()
    sim = core.Sim(sc['sched'], trace_lines=sc['lines'])
    world = W.World(sim, X.world_spec(sc))
    outs = []
    nest = sc.get('nest')
    nested = []

    def body(no, ops):
        def client(c):
            for i, op in enumerate(ops):
                key = 'c%do%d' % (no, i)
                sim.point('op', 'begin')
                o = X.do_op(world, c, key, op, op.get('faults') or ())
                outs.append((key, op, o))
                r.solves += 1
        return client

    if nest:
        def hook(dev, k):
            c = sim.current
            s = c.session
            if s is None or s.key != 'c%do%d' % (nest['client'], nest['op']) or nested:
                return
            if s.total - 1 != nest['total']:
                return
            nested.append(None)
            nested[0] = X.do_op(world, c, 'nested', nest['inner'])
            sim.fire('nested solve')
        for y in world.systems:
            for d in y.devices.values():
                d.hooks.append(hook)
    sim.run([body(i, ops) for i, ops in enumerate(sc['clients'])])
    r.absorb(sim)
    if sc['sched']['mode'] == 'rand':
        r.switches = sim.switches
    r.nontrivial = sim.handoffs > 1 or bool(nested)
    if world.changed_vectors():
        r.viol('argument-changed', repr(world.changed_vectors()))
    todo = list(outs)
    if nested:
        todo.append(('nested', nest['inner'], nested[0]))
    for key, op, o in todo:
        base, _ = X.alone(sc, op, key, op.get('faults') or ())
        d = X.differs(o, base)
        if d:
            r.viol('influenced', '%s %s: %s' % (key, getattr(o, 'method', op['op']),
                                               X.diff_text(o, base)))
    return r
