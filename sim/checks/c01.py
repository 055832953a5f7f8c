"""C01: a convergence claim is true of the solution that is handed back."""
from sim import core, gen, truth
from sim import exec_ as X
from sim import world as W
from sim.result import Result

ID = 'C01'
NONFINITE = ['nan', 'nan1', 'inf', 'ninf1']


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)]
    scale = rng.choice([1., 1., 1., 1., 1e6, 1e-6, 1e40, 1e-40])
    y = gen.system(rng, mth, 11, precon_p=.45, scales=(scale,),
                   cond=(1.5, 4., 10., 30., 100.))
    for k in ('P', 'M', 'N'):
        if y[k] and y[k]['kind'] in ('dense', 'blockdiag', 'diag') and gen.chance(rng, .3):
            y[k]['scale'] = rng.choice([1e-4, 1e4])
    if mth in W.LSS and gen.chance(rng, .15):
        y['A']['rank'] = rng.randrange(1, 4)
    if gen.chance(rng, .08):
        y['A']['noise'] = 1e-13
    solvers = [{'method': mth, 'system': 0, 'ctor': gen.ctor(rng, mth)}]
    if solvers[0]['ctor'].get('abstol') is None and scale < 1 and mth not in W.LSS:
        solvers[0]['ctor']['abstol'] = 0.0
    bscale = rng.choice([1., 1., 1., 1., 1e8, 1e-8, 1e40, 1e-40])
    ops = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        op = gen.solve(rng, 0, mth, y, budget_p=.3, store_p=.2)
        if 'kind' not in op['rhs']:
            op['rhs']['scale'] = bscale
            if gen.chance(rng, .1) and mth in W.LSS:
                op['rhs']['kind'] = 'range'
            elif gen.chance(rng, .08) and mth in W.LSS and y['A']['m'] > y['A']['n']:
                op['rhs']['kind'] = 'null'
            elif gen.chance(rng, .1) and y['A']['kind'] in ('spd', 'sym'):
                op['rhs']['kind'] = 'eig'
        if mth in W.LSS:
            # Exercise each criterion: loose and tight tolerances.
            r = rng.random()
            if r < .3:
                op['kw']['etol'] = 0.0
            elif r < .4:
                op['kw'].update(etol=0.0, atol=rng.choice([1e-1, 1e-2]), btol=0.0)
            elif r < .6:
                # The documented defaults.
                for t in ('etol', 'atol', 'btol', 'conlim', 'window', 'itnlim'):
                    op['kw'].pop(t, None)
            if gen.chance(rng, .5) and mth in ('lsmr', 'craigmr') \
                    and 'itnlim' not in op['kw']:
                op['kw']['itnlim'] = 3 * y['A']['n'] + 6
        if mth == 'minres':
            r = rng.random()
            if r < .5:
                op['kw']['etol'] = 0.0
            elif r < .7:
                for t in ('etol', 'rtol', 'window', 'itnlim'):
                    op['kw'].pop(t, None)
        if gen.chance(rng, .25):
            op['faults'] = [gen.value_fault(rng, y)]
            op['faults'][0]['kind'] = rng.choice(NONFINITE)
        elif gen.chance(rng, .1):
            op['faults'] = [gen.crash(rng, y)]
        if op.get('guess') and gen.chance(rng, .3):
            op['guess']['scale'] = rng.choice([bscale, 1e3, 1e-3])
        ops.append(op)
    return gen.late_precon(rng, {'systems': [y], 'solvers': solvers, 'ops': ops})


class More(object):
    """The iterates of a solve, from runs of it alone (as asked for)."""

    def __init__(self, sc, op, key):
        self.sc, self.op, self.key = sc, op, key
        self.out = None

    def rerun(self, **kw):
        op = dict(self.op, kw=dict(self.op['kw'], **kw))
        o, _ = X.alone(self.sc, op, self.key, self.op.get('faults') or ())
        return o

    def __call__(self):
        if self.out is not None:
            return self.out
        mth = self.sc['solvers'][self.op['s']]['method']
        if mth in ('cgs', 'bicgstab', 'tfqmr'):
            o = self.rerun()
            self.out = []
            for b in range(0, (o.fields['nMatvec'] or 0) + 1):
                p = self.rerun(matvec_max=b)
                if p.exc is None and p.fields['x'] is not None:
                    self.out.append(p.fields['x'])
            return self.out
        o = self.rerun(store_iterates=True)
        self.o = o
        if mth == 'craig':
            self.out = list(o.fields['iterates_p'])
        else:
            self.out = list(o.fields['iterates'])
        return self.out

    def pairs(self):
        self()
        return list(zip(self.o.fields['iterates_p'], self.o.fields['iterates_d']))


def run(sc):
    r = Result()
    sim = core.Sim()
    world = W.World(sim, X.world_spec(sc))
    outs = []
    noise = sc['systems'][0]['A'].get('noise') or 0.0

    def client(c):
        for i, op in enumerate(sc['ops']):
            key = 'o%d' % i
            outs.append((key, op, X.do_op(world, c, key, op, op.get('faults') or ())))

    sim.run([client])
    r.absorb(sim)
    for key, op, o in outs:
        r.solves += 1
        if o.exc is not None:
            r.probe('raised')
            continue
        name = '%s %s' % (key, o.method)
        bad = truth.well_formed(o)
        for b in bad:
            r.viol('malformed', '%s: %s' % (name, b))
        if bad:
            continue
        f = o.fields
        if f['x'] is None:
            continue
        code = f.get('istop')
        r.probe('%s: %s%s' % (o.method, 'claimed' if o.claim else 'not claimed',
                              '' if code is None else ', istop %d' % code))
        limit = {'minres': 6, 'symmlq': 5}.get(o.method, 7)
        if code == limit:
            done = f['nMatvec'] if o.method == 'symmlq' else f['itn']
            if done < o.budget:
                r.viol('wrong-limit', '%s: istop %d after %d of %d'
                       % (name, code, done, o.budget))
            if o.claim:
                r.viol('false-claim', '%s: claims convergence at the limit (istop %d)'
                       % (name, code))
        if not o.claim:
            if code == 0 and o.method in W.LSS:
                r.viol('inconsistent', '%s: istop 0 without a claim' % name)
            continue
        if any(q['kind'] in NONFINITE for q in op.get('faults') or ()):
            r.probe('claimed although a product was not finite')
        r.nontrivial = True
        for b in truth.claim_problems(o, More(sc, op, key), noise):
            r.viol('false-claim', '%s: %s' % (name, b))
    return r
