"""C02: every solve ends within its budget, whatever the operator returns."""
import numpy as np

from sim import core, gen, truth
from sim import exec_ as X
from sim import world as W
from sim.result import Result

ID = 'C02'
ARITH = (ArithmeticError, ValueError, np.linalg.LinAlgError)
HOSTILE = gen.VALUES


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)]
    friendly = gen.chance(rng, .4)
    scale = rng.choice([1., 1., 1., 1e20, 1e-20, 1e100, 1e-100])
    y = gen.system(rng, mth, 11, precon_p=.45, scales=(scale,),
                   cond=(1.5, 10., 100., 1e8, 1e14),
                   forms=('leaf', 'leaf', 'sum', 'scaled', 'neg'))
    a = y['A']
    r = rng.random()
    if mth in W.LSS:
        if r < .3:
            a['rank'] = rng.randrange(0, 4)
    elif r < .12:
        a['kind'] = rng.choice(['nonspd', 'unsym', 'gen', 'sym'])
        a['form'] = 'leaf'
        a['symflag'] = gen.chance(rng, .5)
    elif r < .25:
        a.update(kind='ls', m=a['n'], rank=rng.randrange(0, max(1, a['n'])), form='leaf')
    if gen.chance(rng, .1) and W.METHODS[mth]['precon']:
        y['P'] = {'kind': rng.choice(['indef', 'unsym']), 'seed': rng.randrange(10**6)}
    if gen.chance(rng, .1):
        a['noise'] = rng.choice([1e-13, 1e-6, 1e-2, 1.0])
    solvers = [{'method': mth, 'system': 0, 'ctor': gen.ctor(rng, mth),
                'logger': rng.choice([None, None, None, 'debug'])}]
    if gen.chance(rng, .2) and solvers[0]['ctor']:
        solvers[0]['ctor'] = {'reltol': 0.0, 'abstol': 0.0}
    ops = []
    for i in range(rng.choice([1, 1, 2, 3])):
        op = gen.solve(rng, 0, mth, y, budget_p=.5, store_p=.2)
        # Checks make products of their own, which no documentation counts.
        for k in ('check', 'check_symmetric'):
            if k in op['kw']:
                op['kw'][k] = False
        if mth in ('minres', 'symmlq'):
            op['kw']['check'] = False
        if gen.chance(rng, .25):
            # A solve that cannot but run into its limit.
            if mth in W.LSS:
                op['kw'].update(etol=0.0, atol=0.0, btol=0.0, conlim=0.0)
            elif mth in ('minres', 'symmlq'):
                op['kw']['rtol'] = 0.0
                if mth == 'minres':
                    op['kw']['etol'] = 0.0
        if op.get('guess') and gen.chance(rng, .3):
            op['guess']['scale'] = rng.choice([1e50, 1e-50])
        if gen.chance(rng, .1):
            op['kw'][W.METHODS[mth]['budget']] = rng.choice([0, 0, 1, 2, 200])
        if not friendly:
            names = gen.device_names(y)
            op['faults'] = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                f = {'dev': rng.choice(names + ['*']), 'kind': rng.choice(HOSTILE),
                     'k': rng.choice([-1, 0, 1, 2, 3, 4, 5, 7, 10, 15])}
                if f['k'] == -1 and f['dev'] == '*':
                    f['dev'] = rng.choice(names)
                op['faults'].append(f)
        ops.append(op)
    return {'systems': [y], 'solvers': solvers, 'ops': ops}


def repair(sc):
    for op in sc['ops']:
        if sc['solvers'][0]['method'] in ('minres', 'symmlq'):
            op['kw'] = dict(op.get('kw') or {}, check=False)
    return sc


def counts(world):
    d = world.systems[0].devices['A']
    return dict(d.count)


def run(sc):
    r = Result()
    sim = core.Sim()
    world = W.World(sim, X.world_spec(sc))
    mth = sc['solvers'][0]['method']
    outs = []

    def client(c):
        for i, op in enumerate(sc['ops']):
            before = counts(world)
            o = X.do_op(world, c, 'o%d' % i, op, op.get('faults') or ())
            after = counts(world)
            outs.append((i, op, o, dict((k, after[k] - before[k]) for k in after)))

    sim.run([client])
    r.absorb(sim)
    for i, op, o, n in outs:
        r.solves += 1
        judge(r, sc, mth, i, op, o, n)
    return r


def judge(r, sc, mth, i, op, o, n):
    name = 'solve %d, %s' % (i, mth)
    kw = op['kw']
    hostile = bool(o.session.faults) or sc['systems'][0]['A'].get('noise')
    total = n['v'] + n['t'] + n['a']
    budget = max(int(o.budget), 0)
    if total >= budget and budget > 0:
        r.probe('budget used up')
        r.nontrivial = True
    if budget == 0:
        r.probe('budget of zero')
    if hostile:
        r.nontrivial = True
    # The limit.
    if mth in W.LSS:
        cap = 2 * budget + 1
    elif mth == 'minres':
        cap = budget
    elif mth == 'symmlq':
        cap = max(budget, 2)
    else:
        cap = max(budget, 1 if op.get('guess') is not None else 0)
    if isinstance(o.exc, core.Hang):
        r.viol('over-budget', '%s: does not end (%s)' % (name, o.exc))
        return
    if total > cap:
        r.viol('over-budget', '%s: %d products, limit %d (budget %d)'
               % (name, total, cap, budget))
    if o.exc is not None:
        if hostile and isinstance(o.exc, ARITH):
            r.probe('arithmetic error on garbage: ' + type(o.exc).__name__)
        else:
            r.viol('internal-error', '%s: %s' % (name, W.kind_of_exc(o)))
        return
    bad = truth.well_formed(o)
    for b in bad:
        r.viol('malformed', '%s: %s' % (name, b))
    if bad:
        return
    f = o.fields
    if f['nMatvec'] != total:
        r.viol('wrong-count', '%s: reports %d products, made %d'
               % (name, f['nMatvec'], total))
    if f.get('itn') is not None:
        if mth != 'symmlq' and f['itn'] > budget:
            r.viol('over-budget', '%s: reports %d iterations, limit %d'
                   % (name, f['itn'], budget))
        if mth in W.LSS and f['itn'] != n['v']:
            r.viol('wrong-count', '%s: reports %d iterations, made %d'
                   % (name, f['itn'], n['v']))
        if mth == 'symmlq' and f['itn'] != max(total - 1, 0) \
                and not (f['istop'] == 8 and f['itn'] == max(total - 2, 0)):
            # (A diagnosis ends the step that it is made in.)
            r.viol('wrong-count', '%s: reports %d iterations, but made %d products'
                   % (name, f['itn'], total))
        if mth == 'minres' and f['itn'] != total:
            r.viol('wrong-count', '%s: reports %d iterations, made %d'
                   % (name, f['itn'], total))
    r.probe('%s: within its budget' % mth)

