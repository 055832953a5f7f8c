"""C13: well-posed systems are solved, and a restart finishes what a fault cut short."""
import numpy as np

from sim import core, gen, truth
from sim import exec_ as X
from sim import textbook
from sim import world as W
from sim.result import Result

ID = 'C13'
NORM = np.linalg.norm
BARE = ('cgs', 'bicgstab', 'tfqmr')
# Methods whose default limit is less than rounding may need.
MULTIPLE = ('lsmr', 'craigmr')


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)]
    kind = W.METHODS[mth]['kind']
    scale = rng.choice([1., 1., 1., 100., .01])
    y = gen.system(rng, mth, 12, precon_p=.45, cond=(1.5, 4., 10., 30.), scales=(scale,))
    if kind == 'sym' and gen.chance(rng, .15):
        y['A']['kind'] = 'saddle'
        if y['P'] and y['P']['kind'] == 'inv':
            y['P']['kind'] = 'dense'
    n, m = y['A']['n'], y['A'].get('m', y['A']['n'])
    solvers, clients = [], []
    for i in range(rng.choice([1, 1, 1, 2])):
        m2 = mth if i == 0 else rng.choice([k for k in W.ALL if W.METHODS[k]['kind'] == kind])
        c = {}
        if m2 in BARE + ('cg',):
            if gen.chance(rng, .5):
                c['reltol'] = rng.choice([1e-2, 1e-4, 1e-9])
            if gen.chance(rng, .3):
                c['abstol'] = rng.choice([0.0, 1e-12, 1e-4])
        solvers.append({'method': m2, 'system': 0, 'ctor': c,
                        'logger': rng.choice([None, None, None, 'debug'])})
        clean = gen.solve(rng, i, m2, y, budget_p=0, store_p=.3)
        tune(rng, m2, n, m, clean)
        if y['A']['kind'] == 'saddle':
            if m2 == 'minres':
                # (It stagnates at every other step: no window sees the error.)
                clean['kw']['etol'] = 0.0
            if gen.chance(rng, .5):
                clean['rhs']['kind'] = 'half'
        attempts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            op = {'op': 'solve', 's': i, 'rhs': clean['rhs'], 'kw': dict(clean['kw'])}
            r = rng.random()
            if r < .3:
                op['faults'] = [gen.crash(rng, y, bool(solvers[-1]['logger']))]
            elif r < .6:
                op['faults'] = [gen.value_fault(rng, y)
                                for _ in range(rng.choice([1, 1, 3]))]
            elif r < .75:
                op['interrupt'] = {'line': 1 + int(rng.expovariate(.005)),
                                   'exc': rng.choice(['KeyboardInterrupt', 'InjectedBase'])}
            else:
                lo = 1 if m2 in ('lsqr', 'craig') else 0
                op['kw'][W.METHODS[m2]['budget']] = rng.randrange(lo, n + 2)
            op['from'] = rng.choice(['last', 'last', 'afresh'])
            attempts.append(op)
        clean['from'] = rng.choice(['last', 'last', 'last', 'afresh'])
        clients.append({'attempts': attempts, 'clean': clean})
    return {'systems': [y], 'solvers': solvers, 'clients': clients,
            'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .3}}


def tune(rng, mth, n, m, op):
    """Tolerances within reach, and a limit where the default is no guarantee."""
    kw = op['kw']
    for k in ('rtol', 'atol', 'btol', 'etol', 'conlim', 'check_symmetric'):
        kw.pop(k, None)
    if mth in BARE:
        kw['matvec_max'] = 8 * n + 20
    if mth == 'symmlq' and gen.chance(rng, .5):
        kw['rtol'] = rng.choice([1e-3, 1e-6, 1e-10])
    if mth == 'minres':
        if gen.chance(rng, .5):
            kw['rtol'] = rng.choice([1e-3, 1e-6, 1e-9])
        if gen.chance(rng, .5):
            kw['etol'] = rng.choice([0.0, 0.0, 1e-8])
    if mth in W.LSS:
        if mth in ('lsqr', 'lsmr'):
            if gen.chance(rng, .5):
                kw['atol'] = kw['btol'] = rng.choice([1e-3, 1e-6, 1e-11])
            if gen.chance(rng, .5):
                kw['etol'] = rng.choice([0.0, 0.0, 1e-8])
        else:
            if gen.chance(rng, .3):
                kw['etol'] = rng.choice([1e-2, 1e-4])
        if mth in MULTIPLE:
            kw['itnlim'] = 4 * min(m, n) + kw.get('window', 5) + 10


def repair(sc):
    if sc['systems'][0]['A']['kind'] == 'saddle' and any(
            s['method'] == 'minres' and c['clean']['kw'].get('etol') != 0.0
            for c, s in zip(sc['clients'], sc['solvers'])):
        raise ValueError('etol')
    for i, c in enumerate(sc['clients']):
        for op in c['attempts'] + [c['clean']]:
            if op['s'] != i or i >= len(sc['solvers']):
                raise ValueError('no such solver')
    for c, s in zip(sc['clients'], sc['solvers']):
        n, m = sc['systems'][0]['A']['n'], sc['systems'][0]['A'].get('m')
        kw, mth = c['clean']['kw'], s['method']
        if mth in BARE and kw.get('matvec_max') != 8 * n + 20:
            raise ValueError('limit')
        if mth in MULTIPLE and kw.get('itnlim') != 4 * min(m, n) + kw.get('window', 5) + 10:
            raise ValueError('limit')
        if mth not in BARE + MULTIPLE and W.METHODS[mth]['budget'] in kw:
            raise ValueError('limit')
    return sc


def put_guess(world, op, name, x):
    op = dict(op, guess={'seed': name})
    key = repr((sorted(op['guess'].items()), len(x)))
    world.vectors[key] = x
    world.pristine[key] = x.tobytes()
    return op


def run(sc):
    r = Result()
    traced = any('interrupt' in op for c in sc['clients'] for op in c['attempts'])
    sim = core.Sim(sc['sched'], trace_lines='count' if traced else False)
    world = W.World(sim, X.world_spec(sc))
    outs = []

    def client(i):
        def body(c):
            e = world.solvers[i]
            last, cut = None, 0
            todo = sc['clients'][i]
            for k, op in enumerate(todo['attempts'] + [todo['clean']]):
                key = 'c%d.%d' % (i, k)
                if op['from'] == 'last' and last is not None:
                    op = put_guess(world, op, 'restart ' + key, last)
                final = k == len(todo['attempts'])
                it = op.get('interrupt')
                o = X.do_op(world, c, key, op, op.get('faults') or (), it)
                r.solves += 1
                if final:
                    outs.append((i, o, cut))
                    break
                cut += o.exc is not None or not o.claim
                x = o.fields.get('x')
                if W.METHODS[e['method']]['guess'] and isinstance(x, np.ndarray) \
                        and x.shape == (e['system'].n,) and reasonable(world, e, op, x):
                    last = x
        return body

    sim.run([client(i) for i in range(len(sc['clients']))])
    r.absorb(sim)
    if len(sc['clients']) > 1:
        r.switches = sim.switches
    for i, o, cut in outs:
        judge(r, o, '%s after %d attempts, %d of them cut short'
              % (o.method, len(sc['clients'][i]['attempts']), cut))
        if cut:
            r.nontrivial = True
            r.probe('restarted')
        if o.kw.get('guess') is not None:
            r.probe('restarted from the last iterate')
    return r


def reasonable(world, e, op, x):
    """An iterate to go on from."""
    if not np.all(np.isfinite(x)):
        return False
    y = e['system']
    rhs = world.vector(op['rhs'], y.m, y.A)
    return NORM(x) <= 1e3 * NORM(np.linalg.solve(y.A, rhs)) + 1e-300


def exact(h, mth):
    """The solution in hat variables."""
    A, b = h.Ah, h.bh
    if mth == 'craig':
        return np.linalg.solve(np.dot(A.T, A) + np.eye(A.shape[1]), np.dot(A.T, b))
    if mth == 'craigmr':
        return np.linalg.solve(np.eye(A.shape[0]) + np.dot(A, A.T), b)
    if mth in ('lsqr', 'lsmr'):
        if h.damp:
            n = A.shape[1]
            A = np.vstack([A, h.damp * np.eye(n)])
            b = np.concatenate([b, np.zeros(n)])
        return np.linalg.lstsq(A, b, rcond=1e-10)[0]
    return np.linalg.solve(A, b)


def judge(r, o, what):
    mth, f, kw = o.method, o.fields, o.kw
    if o.exc is not None:
        r.viol('internal-error', '%s: %s' % (what, W.kind_of_exc(o)))
        return
    for b in truth.well_formed(o):
        r.viol('malformed', '%s: %s' % (what, b))
        return
    h = truth.Hat(o)
    sing = np.linalg.svd(h.Ah, compute_uv=False)
    cond = sing[0] / sing[-1] if sing[-1] > 0 else np.inf
    if not cond <= 200:
        r.probe('skipped: ill-conditioned')
        return
    x = f['x']
    want = exact(h, mth)
    if mth in BARE + ('cg',):
        x0 = kw.get('guess')
        x0 = np.zeros(o.system.n) if x0 is None else x0
        r0 = NORM(h.resid(x0))
        thr = max(o.ctor.get('abstol', 1e-8), o.ctor.get('reltol', 1e-6) * r0)
        big = max(NORM(h.xh(x0)), NORM(want)) * h.sigma
        if thr < 1e-11 * big:
            r.probe('skipped: tolerance out of reach')
            return
        if mth in BARE and not textbook.converges(mth, h, o.system.P, o.rhs, x0, thr, kw['matvec_max']):
            r.probe('skipped: the textbook method converges too slowly')
            return
        bound = thr / sing[-1] * 1.001 + 1e-11 * NORM(want) * cond
        bound += 1e-12 * NORM(h.xh(x0)) * cond
    if not o.claim:
        r.viol('not-solved', '%s: does not converge (%s steps, istop %s; order %s, condition '
               '%.3g)' % (what, f.get('itn', f['nMatvec']), f.get('istop'), h.Ah.shape, cond))
        return
    if not np.all(np.isfinite(x)):
        r.viol('wrong-solution', '%s: the solution is not finite' % what)
        return
    e = NORM(h.xh(x) - want)
    if mth in BARE + ('cg',):
        pass
    elif mth == 'craig' or mth == 'craigmr':
        etol = kw.get('etol', 1e-6)
        bound = 1e-9 * cond * h.normb + 1e3 * etol * NORM(want) * (1 + sing[0] ** 2)
        if mth == 'craig':
            bound += 1e3 * etol * h.normb * (1 + sing[0])
    else:
        d = h.damp
        low = np.sqrt(sing[-1] ** 2 + d * d)
        top = np.sqrt(sing[0] ** 2 + d * d)
        rtol = kw.get('rtol', 1e-12 if mth == 'minres' else 1e-9)
        if mth in ('lsqr', 'lsmr'):
            rtol = max(kw.get('atol', 1e-9), kw.get('btol', 1e-9))
        etol = kw.get('etol', 1e-6) if mth != 'symmlq' else 0.
        size = max(NORM(want), h.normb / low)
        bound = (rtol * 20 * (1 + cond) * np.sqrt(f['itn'] + 2) + 1e-11) * size * (top / low)
        bound += 1e3 * etol * NORM(want) * top / low
    # In the norm of x itself, a fault in the scaling of the answer shows too.
    r.probe('%s: solved' % mth)
    if not e <= bound:
        r.viol('wrong-solution', '%s: differs from the exact solution by %.3g (limit %.3g, '
               'size %.3g, istop %s)' % (what, e, bound, NORM(want), f.get('istop')))
