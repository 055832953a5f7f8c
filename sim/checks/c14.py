"""C14: reported norms and histories describe the iterates, step by step."""
import numpy as np

from sim import core, gen, textbook, truth
from sim import exec_ as X
from sim import world as W
from sim.result import Result

ID = 'C14'
NORM = np.linalg.norm
# Of the estimates that hold as far as the Lanczos vectors stay orthogonal.
LOOSE = 1e-2
EARLY = 7
BARE = ('cgs', 'bicgstab', 'tfqmr')      # They store no iterates.


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)]
    scale = rng.choice([1., 1., 1., 1e6, 1e-6])
    y = gen.system(rng, mth, 11, precon_p=.45, scales=(scale,), cond=(1.5, 4., 10., 30.))
    n = y['A']['n']
    small = min(n, y['A'].get('m', n))
    base = {'method': mth, 'system': 0}
    tight = {'reltol': rng.choice([1e-9, 1e-12, 0.0]), 'abstol': 0.0} \
        if 'abstol' in gen_ctor(mth) else {}
    solvers = [dict(base, ctor=tight, logger=rng.choice([None, None, None, 'debug']))]
    name = W.METHODS[mth]['budget']
    main = {'op': 'solve', 's': 0, 'rhs': gen.rhs(rng), 'kw': gen.kw(rng, mth, n, n, 0)}
    if 'kind' not in main['rhs'] and gen.chance(rng, .3):
        main['rhs']['scale'] = rng.choice([1e3, 1e-3, 1e8])
    if W.METHODS[mth]['guess'] and gen.chance(rng, .4):
        main['guess'] = {'seed': rng.randrange(10**6)}
        if gen.chance(rng, .3):
            main['guess']['scale'] = rng.choice([1e3, 1e-3])
    kw = main['kw']
    kw.update(store_iterates=True, store_resids=True)
    loose = {}
    if mth in BARE:
        kw.clear()
    if mth == 'symmlq':
        kw.pop('store_resids')
        kw['rtol'] = rng.choice([1e-9, 1e-12])
        kw[name] = rng.randrange(1, 2 * n + 3)
        loose = {'rtol': rng.choice([1e-1, 1e-2, 1e-4])}
    elif mth == 'minres':
        kw.pop('store_resids')
        kw.update(etol=0.0, rtol=rng.choice([1e-9, 1e-12]))
        loose = rng.choice([{'rtol': 1e-1}, {'rtol': 1e-3}, {'etol': 1e-1}, {'etol': 1e-3}])
        if gen.chance(rng, .7):
            kw[name] = rng.randrange(0, n + 4)
    elif mth in W.LSS:
        kw.update(etol=0.0, atol=rng.choice([1e-9, 1e-12]), btol=rng.choice([1e-9, 1e-12]),
                  conlim=0.0)
        loose = rng.choice([{'atol': 1e-1}, {'btol': 1e-1}, {'atol': 1e-3, 'btol': 1e-3},
                            {'etol': 1e-1}, {'etol': 1e-3}])
        kw[name] = rng.randrange(1, small + 8)
    else:
        kw[name] = rng.randrange(0, 2 * n + 3)
    if gen.chance(rng, .4) and mth in ('minres',) + tuple(W.LSS):
        kw['window'] = rng.choice([1, 2, 3, 8])
    if 'abstol' in gen_ctor(mth):
        solvers.append(dict(base, ctor={'reltol': rng.choice([1e-1, 1e-2, 1e-4]),
                                        'abstol': 0.0}))
    sc = {'systems': [y], 'solvers': solvers, 'main': main, 'loose': loose,
          'cuts': [rng.random() for _ in range(rng.choice([1, 2, 3]))], 'prior': [],
          'other': [], 'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .4}}
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = gen.solve(rng, 0, mth, y, budget_p=.4, store_p=.5)
        r = rng.random()
        if r < .5:
            op['faults'] = [gen.crash(rng, y)]
        elif r < .8:
            op['faults'] = [gen.value_fault(rng, y)]
        sc['prior'].append(op)
    if gen.chance(rng, .3):
        kind = W.METHODS[mth]['kind']
        m2 = rng.choice([k for k in W.ALL if W.METHODS[k]['kind'] == kind])
        solvers.append({'method': m2, 'system': 0, 'ctor': gen.ctor(rng, m2)})
        for _ in range(2):
            op = gen.solve(rng, len(solvers) - 1, m2, y, store_p=.5)
            if gen.chance(rng, .3):
                op['faults'] = [gen.crash(rng, y)]
            sc['other'].append(op)
    return gen.late_precon(rng, sc)


def gen_ctor(mth):
    return ('reltol', 'abstol') if mth in BARE + ('cg',) else ()


def repair(sc):
    if not all(op['s'] < len(sc['solvers']) for op in sc['prior'] + sc['other']):
        raise ValueError('no such solver')
    if any(sc['solvers'][op['s']]['method'] != sc['solvers'][0]['method']
           for op in sc['prior']):
        raise ValueError('another method')
    return sc


def run(sc):
    r = Result()
    sim = core.Sim(sc['sched'])
    world = W.World(sim, {'systems': sc['systems'], 'solvers': sc['solvers']})
    mth = sc['solvers'][0]['method']
    name = W.METHODS[mth]['budget']
    out = {}

    def solve(c, key, op):
        r.solves += 1
        return X.do_op(world, c, key, op, op.get('faults') or ())

    def main(c):
        for i, op in enumerate(sc['prior']):
            solve(c, 'p%d' % i, op)
        o = out['main'] = solve(c, 'main', sc['main'])
        if o.exc is not None or truth.well_formed(o) or steps(o) is None:
            return
        if mth in BARE:
            out['each'] = []
            for k in range(o.fields['nMatvec'] + 1):
                op = dict(sc['main'], kw=dict(sc['main']['kw'], **{name: k}))
                out['each'].append(solve(c, 'each%d' % k, op))
        op = dict(sc['main'], kw=dict(sc['main']['kw']))
        for k in [k for k in op['kw'] if k.startswith('store_')]:
            del op['kw'][k]
        out['bare'] = solve(c, 'bare', op)
        # Stopping earlier, by budget.
        out['cuts'] = []
        for i, frac in enumerate(sc['cuts']):
            k = int(frac * (steps(o) + 1))
            if k < 1 and mth in ('lsqr', 'craig'):
                continue
            op = dict(sc['main'], kw=dict(sc['main']['kw'], **{name: k}))
            out['cuts'].append((k, solve(c, 'cut%d' % i, op)))
        # Stopping earlier, by tolerance, and at the same step by budget.
        op = dict(sc['main'], kw=dict(sc['main']['kw'], **sc['loose']))
        if mth in gen_ctor_methods():
            op['s'] = 1
        t = out['loose'] = solve(c, 'loose', op)
        if t.exc is None and not truth.well_formed(t) and steps(t) is not None:
            k = steps(t)
            if k >= 1 or mth not in ('lsqr', 'craig'):
                op = dict(sc['main'], kw=dict(sc['main']['kw'], **{name: k}))
                out['same'] = solve(c, 'same', op)

    def other(c):
        for i, op in enumerate(sc['other']):
            solve(c, 'other%d' % i, op)

    sim.run([main, other] if sc['other'] else [main])
    r.absorb(sim)
    if sc['other']:
        r.switches = sim.switches
    judge(r, sc, mth, out)
    return r


def gen_ctor_methods():
    return BARE + ('cg',)


def steps(o):
    """The budget that stops a solve where this one stopped."""
    v = o.fields.get('nMatvec' if o.method in ITN_LESS else 'itn')
    return v if truth.is_int(v) else None


ITN_LESS = ('cg', 'cgs', 'bicgstab', 'tfqmr', 'symmlq')


def fine(r, what, o):
    if o.exc is not None:
        r.viol('solve-fails', '%s: %s' % (what, W.kind_of_exc(o)))
        return False
    for b in truth.well_formed(o):
        r.viol('malformed', '%s: %s' % (what, b))
        return False
    return True


def lists(o):
    """The histories that an outcome has, by name."""
    f = o.fields
    names = {'cg': ['iterates', 'resids', 'residHistory'],
             'minres': ['iterates', 'residHistory', 'dir_errors_window'],
             'symmlq': ['iterates'],
             'lsqr': ['iterates', 'resids', 'normal_eqns_resids', 'dir_errors_window'],
             'lsmr': ['iterates', 'resids', 'normal_eqns_resids', 'norms',
                      'dir_errors_window'],
             'craig': ['iterates_p', 'iterates_d', 'resids', 'normal_eqns_resids', 'norms',
                       'dir_errors_d_window'],
             'craigmr': ['iterates', 'norms', 'normal_eqns_resids', 'dir_errors_window'],
             }.get(o.method, [])
    return dict((k, f[k]) for k in names)


def lengths(o):
    """How many entries every history should have."""
    m = o.method
    k = o.fields['itn'] if m in ('minres',) + tuple(W.LSS) else None
    if m == 'cg':
        k = o.fields['nMatvec'] - (1 if o.kw.get('guess') is not None else 0)
        if o.fields['definite'] is False:
            k -= 1
        return {'iterates': k + 1, 'resids': k + 1, 'residHistory': k + 1}
    w = max(0, k - o.kw.get('window', 5)) if k is not None else 0
    if m == 'minres':
        return {'iterates': k + 1, 'residHistory': k, 'dir_errors_window': w}
    if m == 'lsqr':
        return {'iterates': k + 1, 'resids': k + 1, 'normal_eqns_resids': k + 1,
                'dir_errors_window': w}
    if m == 'lsmr':
        return {'iterates': k + 1, 'resids': k + 1, 'normal_eqns_resids': k + 1, 'norms': k,
                'dir_errors_window': w}
    if m == 'craig':
        return {'iterates_p': k + 1, 'iterates_d': k + 1, 'resids': k + 1, 'norms': k + 1}
    if m == 'craigmr':
        return {'iterates': k + 1, 'norms': k + 1, 'dir_errors_window': w}
    return {}


def same(a, b):
    return core.canon(a) == core.canon(b)


def judge(r, sc, mth, out):
    o = out['main']
    if not fine(r, mth, o):
        return
    if not np.all(np.isfinite(o.fields['x'])):
        if mth in BARE:
            # A breakdown past the attainable accuracy.
            r.probe('breakdown')
            return
        r.viol('not-finite', '%s: the solution of a finite system is not finite' % mth)
        return
    hist = lists(o)
    want = lengths(o)
    for k, v in hist.items():
        if not isinstance(v, list):
            r.viol('malformed', '%s: %s is %s' % (mth, k, type(v).__name__))
            return
        if k in want and len(v) != want[k]:
            r.viol('wrong-length', '%s: %d entries in %s after %s steps, not %d'
                   % (mth, len(v), k, steps(o), want[k]))
            return
        for e in v:
            ok = isinstance(e, np.ndarray) and e.ndim == 1 if k.startswith('iterates') \
                or (k == 'resids' and mth == 'cg') else truth.is_num(e)
            if not ok:
                r.viol('malformed', '%s: %s has %r' % (mth, k, type(e).__name__))
                return
    x = o.fields['x']
    if mth in ('cg', 'minres', 'lsqr', 'lsmr', 'craigmr') and not same(hist['iterates'][-1], x):
        r.viol('last-iterate', '%s: the last stored iterate is not the solution' % mth)
    if mth == 'craig' and not (same(hist['iterates_p'][-1], x)
                               and same(hist['iterates_d'][-1], o.fields['r'])):
        r.viol('last-iterate', 'craig: the last stored iterates are not the solution')
    if r.violations:
        return
    r.nontrivial = (steps(o) or 0) > 1
    numbers(r, o)
    if r.violations:
        return
    if mth in BARE:
        for k, e in enumerate(out['each']):
            if not fine(r, '%s, budget %d' % (mth, k), e):
                return
            numbers(r, e)
            if r.violations:
                return
        last = out['each'][-1]
        if not same(last.fields['x'], x):
            r.viol('not-a-prefix', '%s: budget %d gives another solution than budget %s'
                   % (mth, o.fields['nMatvec'], o.budget))
    b = out['bare']
    if not fine(r, '%s without storing' % mth, b):
        return
    for k in sorted(o.fields):
        if truth.is_num(o.fields[k]) and not same(b.fields.get(k), o.fields[k]):
            r.viol('wrong-number', '%s: %s is %s without storing and %s with it'
                   % (mth, k, b.fields.get(k), o.fields[k]))
            return
    for k, c in out['cuts']:
        if not fine(r, '%s cut after %d' % (mth, k), c):
            return
        prefix(r, '%s cut after %d of %s' % (mth, k, steps(o)), c, o)
        numbers(r, c)
        r.probe('cut by budget')
    t = out['loose']
    if r.violations or not fine(r, '%s, loose tolerances' % mth, t):
        return
    prefix(r, '%s with %s' % (mth, sc['loose'] or sc['solvers'][1].get('ctor')), t, o)
    if 'same' in out and fine(r, '%s, as many steps' % mth, out['same']):
        s = out['same']
        what = '%s stopped after %s steps by tolerance and by budget' % (mth, steps(t))
        if not same(s.fields['x'], t.fields['x']):
            r.viol('not-a-prefix', what + ': the solutions differ')
        for k, v in lists(t).items():
            if not same(v, lists(s)[k]):
                r.viol('not-a-prefix', what + ': %s differ' % k)
        if t.fields.get('residNorm') is not None \
                and not same(t.fields.get('residNorm'), s.fields.get('residNorm')):
            r.viol('not-a-prefix', what + ': residNorm differ')
        r.probe('stopped by tolerance')


def prefix(r, what, c, o):
    long = lists(o)
    for k, v in lists(c).items():
        if not isinstance(v, list) or len(v) > len(long[k]):
            if steps(c) is not None and steps(c) <= steps(o):
                r.viol('not-a-prefix', '%s: %s has %s entries' % (what, k, len(v)))
            return
        for i, e in enumerate(v):
            if not same(e, long[k][i]):
                r.viol('not-a-prefix', '%s: entry %d of %s is not the one of the longer run'
                       % (what, i, k))
                return


class Judge(object):
    """Compares reported numbers with those of the iterates."""

    def __init__(self, r, o, xs):
        self.r, self.o = r, o
        self.h = truth.Hat(o)
        self.fl = truth.floor_of(self.h, xs)
        self.big = max(self.h.sigma, self.h.damp)

    def near(self, name, got, want, floor, rel=1e-6):
        ok = truth.is_num(got) and abs(got - want) <= rel * abs(want) + floor
        if not ok:
            self.r.viol('wrong-number', '%s: %s is %s, but of the iterate it is %.15g '
                        '(rounding %.1e)' % (self.o.method, name, got, want, floor))

    def falls(self, name, values, floor):
        """Never increases."""
        for k in range(1, len(values)):
            if values[k] > values[k - 1] * (1 + 1e-6) + floor:
                self.r.viol('not-monotone', '%s: the %s grows from %.15g to %.15g at step %d'
                            % (self.o.method, name, values[k - 1], values[k], k))
                return


def numbers(r, o):
    f, mth = o.fields, o.method
    if f['x'] is None:
        return
    hist = lists(o)
    its = hist.get('iterates') or []
    if mth == 'craig':
        its = hist['iterates_p']
    xs = list(its) + [f['x']]
    j = Judge(r, o, xs)
    h, fl, near = j.h, j.fl, j.near
    resid = lambda z: NORM(h.resid(z))
    if mth in gen_ctor_methods():
        x0 = o.kw.get('guess')
        x0 = np.zeros(o.system.n) if x0 is None else x0
        fl = max(fl, truth.floor_of(h, xs + [x0])) * 10
        near('residNorm0', f['residNorm0'], resid(x0), fl)
    if mth in BARE and not np.isfinite(f['residNorm']) and resid(f['x']) <= fl * 1e3:
        r.probe('breakdown')
        return
    if mth in BARE:
        # Intermediate residuals may be larger than the first and the last.
        fl = fl * 1e3 + 2e-14 * textbook.peak(mth, h, o.system.P, o.rhs, x0,
                                              f['nMatvec'] + 2)
    if mth == 'cg':
        for k, z in enumerate(its):
            near('residHistory[%d]' % k, f['residHistory'][k], resid(z), fl)
            v = h.b - np.dot(h.A, z)
            v = -(v if o.system.P is None else np.dot(o.system.P, v))
            size = fl * NORM(h.L, 2) * 10
            if not NORM(f['resids'][k] - v) <= 1e-6 * NORM(v) + size:
                r.viol('wrong-number', 'cg: resids[%d] is not the residual' % k)
        near('residNorm', f['residNorm'], resid(f['x']), fl)
        xs = np.linalg.solve(h.A, h.b)
        e = [h.xh(z - xs) for z in its]
        e = [np.sqrt(max(np.dot(v, np.dot(h.Ah, v)), 0)) for v in e]
        j.falls('energy error', e, fl / np.sqrt(h.sigma) * 10 * np.linalg.cond(h.Ah))
    elif mth in ('cgs', 'bicgstab'):
        near('residNorm', f['residNorm'], resid(f['x']), fl, 1e-4)
    elif mth == 'tfqmr':
        got, true = f['residNorm'], resid(f['x'])
        if not (truth.is_num(got)
                and true <= got * np.sqrt(f['nMatvec'] + 2) * (1 + 1e-4) + fl):
            r.viol('wrong-number', 'tfqmr: residNorm %s bounds no residual norm of %g'
                   % (got, true))
    elif mth == 'minres':
        fl *= 100
        near('residNorm0', f['residNorm0'], h.normb, fl)
        rs = [resid(z) for z in its]
        for k in range(1, len(its)):
            near('residHistory[%d]' % (k - 1), f['residHistory'][k - 1], rs[k], fl)
        near('rnorm', f['rnorm'], rs[-1], fl)
        near('residNorm', f['residNorm'], rs[-1], fl)
        near('ynorm', f['ynorm'], NORM(f['x']), 0, 1e-9)
        if len(its) > 1:
            near('Arnorm', f['Arnorm'], NORM(np.dot(h.Ah, h.resid(its[-2]))), fl * h.sigma)
        j.falls('residual norm', rs, fl)
        ratios(r, j, f['dir_errors_window'], its)
    elif mth == 'symmlq':
        v = h.b - np.dot(h.A, f['x'])
        size = truth.floor_of(h, xs) * max(1., np.linalg.cond(h.L))
        size += 1e-13 * (NORM(h.b) + NORM(h.A, 2) * NORM(f['x']))
        near('residNorm', f['residNorm'], NORM(v), size)
        near('xNorm', f['xNorm'], NORM(f['x']), 0, 1e-9)
        near('solutionNorm', f['solutionNorm'], NORM(f['x']), 0, 1e-9)
        # Its LQ points: the shortest in their spaces, nearer and nearer the solution.
        xs = [h.xh(z) for z in its]
        e = [v - np.linalg.solve(h.Ah, h.bh) for v in xs]
        fl = truth.floor_of(h, its + [f['x']]) * 100 * np.linalg.norm(np.linalg.inv(h.Ah), 2) \
            * np.linalg.cond(h.Ah)
        j.falls('error of the LQ points', [NORM(v) for v in e], fl)
        for k, v in enumerate(textbook.lq_points(h.Ah, h.bh, min(len(its), EARLY + 1))):
            if not NORM(xs[k] - v) <= LOOSE * NORM(v) + fl:
                r.viol('wrong-number', 'symmlq: iterates[%d] is not the LQ point' % k)
                break
    elif mth in ('lsqr', 'lsmr'):
        fl *= 100
        d = h.damp
        r1 = [resid(z) for z in its]
        xn = [NORM(h.xh(z)) for z in its]
        r2 = [np.sqrt(a * a + (d * b) ** 2) for a, b in zip(r1, xn)]
        an = [NORM(np.dot(h.Ah.T, h.resid(z)) - d * d * h.xh(z)) for z in its]
        for k in range(len(its)):
            near('resids[%d]' % k, f['resids'][k], r2[k], fl)
            near('normal_eqns_resids[%d]' % k, f['normal_eqns_resids'][k], an[k], fl * j.big)
        near('r2norm', f['r2norm'], r2[-1], fl)
        near('residNorm', f['residNorm'], r2[-1], fl)
        near('Arnorm', f['Arnorm'], an[-1], fl * j.big)
        if mth == 'lsqr':
            if len(its) <= EARLY + 1:
                # A difference of squares.
                got = f['r1norm']
                if not (truth.is_num(got) and abs(got * abs(got) - r1[-1] ** 2)
                        <= LOOSE * r2[-1] ** 2 + fl ** 2):
                    near('r1norm', got, r1[-1], fl, LOOSE)
                near('xnorm', f['xnorm'], xn[-1], fl / h.sigma * np.linalg.cond(h.Ah) ** 2
                     if h.sigma else 0, LOOSE)
            j.falls('residual', r2, fl)
        else:
            near('xnorm', f['xnorm'], NORM(f['x']), 0, 1e-9)
            j.falls('residual of the normal equations', an, fl * j.big)
            for k in range(1, min(len(its), EARLY + 1)):
                near('norms[%d]' % (k - 1), f['norms'][k - 1], energy(j, its[k]) ** 2,
                     fl * j.big * (1 + energy(j, its[k])), LOOSE)
        ratios(r, j, f['dir_errors_window'], its)
    elif mth == 'craig':
        fl *= 100
        ds = hist['iterates_d']
        hats = [np.linalg.solve(h.lm, v) for v in ds]
        r2 = [np.sqrt(NORM(a) ** 2 + NORM(h.xh(z)) ** 2) for a, z in zip(hats, its)]
        fl += truth.floor_of(h, xs) * 10 * (1 + h.sigma)
        for k in range(len(its)):
            if k <= EARLY:
                near('resids[%d]' % k, f['resids'][k], r2[k] ** 2, fl * (r2[k] + fl), LOOSE)
            gap = NORM(np.dot(h.Ah.T, hats[k]) - h.xh(its[k]))
            if gap > 1e-6 * NORM(h.xh(its[k])) + fl * (1 + h.sigma):
                r.viol('wrong-number', 'craig: r and x differ by %g at step %d' % (gap, k))
        if len(its) <= EARLY + 1:
            near('r2norm', f['r2norm'], r2[-1], fl, LOOSE)
        ratios(r, j, f['dir_errors_d_window'], ds)
        k = np.eye(len(h.bh)) + np.dot(h.Ah, h.Ah.T)
        e = [v - np.linalg.solve(k, h.bh) for v in hats]
        j.falls('energy error', [np.sqrt(max(np.dot(v, np.dot(k, v)), 0)) for v in e],
                fl * (1 + h.sigma))
        xnorm, r1 = NORM(h.xh(f['x'])), NORM(hats[-1])
        for name, want in (('xnorm', xnorm), ('r1norm', r1)):
            if truth.is_num(f[name]) and not abs(f[name] - want) <= 1e-6 * want + fl:
                r.viol('craig-norms', "CRAIG's %s is not the norm it is documented to be: "
                       '%s, not %.15g' % (name, f[name], want))
    elif mth == 'craigmr':
        fl *= 100 * (1 + h.sigma)
        res = [NORM(h.bh - h.xh(z) - np.dot(h.Ah, np.dot(h.Ah.T, h.xh(z)))) for z in its]
        j.falls('residual', res, fl * (1 + h.sigma))
        for k, z in enumerate(its[:EARLY + 1]):
            e = energy(j, z)
            near('norms[%d]' % k, f['norms'][k], e ** 2, fl * (1 + h.sigma) * (e + fl),
                 LOOSE)
        ratios(r, j, f['dir_errors_window'], its)


def energy(j, x):
    h, mth, d = j.h, j.o.method, j.h.damp
    if mth == 'craig':
        # Of the dual iterates.
        v = np.linalg.solve(h.lm, x)
        return np.sqrt(NORM(v) ** 2 + NORM(np.dot(h.Ah.T, v)) ** 2)
    v = h.xh(x)
    if mth == 'craigmr':
        return NORM(v + np.dot(h.Ah, np.dot(h.Ah.T, v)))
    if mth == 'lsmr':
        return NORM(np.dot(h.Ah.T, np.dot(h.Ah, v)) + d * d * v)
    return np.sqrt(NORM(np.dot(h.Ah, v)) ** 2 + (d * NORM(v)) ** 2)


def ratios(r, j, errs, its):
    w = j.o.kw.get('window', 5)
    for i, e in enumerate(errs):
        k = w + 1 + i
        if k > EARLY:
            return
        full = energy(j, its[k])
        want = energy(j, its[k] - its[k - w]) / full if full > 0 else 0.
        # Energies of differences of nearly equal iterates.
        fl = 1e-6 + 1e3 * j.fl * j.big / max(full, 1e-300) if j.o.method == 'lsmr' \
            else 1e-6 + 1e3 * j.fl * (1 + j.h.sigma if j.o.method in ('craig', 'craigmr') else 1) \
            / max(full, 1e-300)
        if not (truth.is_num(e) and abs(e - want) <= LOOSE * want + fl):
            r.viol('wrong-number', '%s: dir_errors_window[%d] is %s, but of the iterates it '
                   'is %.6g' % (j.o.method, i, e, want))
            return
