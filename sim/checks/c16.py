"""C16: a solve stops at the first step that satisfies one of its criteria, not before
and not later, and gives up for no other reason than its limits."""
import numpy as np

from sim import core, gen, textbook, truth
from sim import exec_ as X
from sim import world as W
from sim.checks import c01
from sim.result import Result

ID = 'C16'
NORM = np.linalg.norm
BARE = ('cgs', 'bicgstab', 'tfqmr')
ITN = ('minres',) + tuple(W.LSS)
# A criterion is certainly satisfied when it is by this margin.
SURE = .98
# Of window sums, once the basis may not be orthogonal.
WINDOW = .5
EARLY = 7
TOLS = [1e-1, 1e-1, 1e-2, 1e-3, 1e-5, 1e-8]


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)]
    scale = rng.choice([1., 1., 1., 1e6, 1e-6, 1e30, 1e-30])
    y = gen.system(rng, mth, 12, precon_p=.4, scales=(scale,), cond=(1.5, 4., 10., 30., 100.))
    if mth == 'minres' and gen.chance(rng, .15):
        y['A']['null'] = rng.choice([1, 1, 2])
        if y['P'] and y['P']['kind'] == 'inv':
            y['P']['kind'] = 'dense'
    if mth in ('minres', 'symmlq') and not y['A'].get('null') and gen.chance(rng, .2):
        y['A']['kind'] = 'saddle'
        if y['P'] and y['P']['kind'] == 'inv':
            y['P']['kind'] = 'dense'
    if mth in W.LSS and gen.chance(rng, .15):
        y['A']['rank'] = rng.randrange(1, 4)
    ct = {}
    if mth in BARE + ('cg',):
        ct = {'reltol': rng.choice([.5] + TOLS), 'abstol': rng.choice([0., 0., 0., 1e-8, 1e-3])}
        if gen.chance(rng, .15):
            ct.pop('abstol')
        if gen.chance(rng, .1):
            ct.pop('reltol', None)
    solvers = [{'method': mth, 'system': 0, 'ctor': ct,
                'logger': rng.choice([None, None, None, 'debug'])}]
    name = W.METHODS[mth]['budget']
    n = y['A']['n']
    main = {'op': 'solve', 's': 0, 'rhs': gen.rhs(rng), 'kw': gen.kw(rng, mth, n, n, 0, 0)}
    kw = main['kw']
    if 'kind' not in main['rhs']:
        main['rhs']['scale'] = rng.choice([1., 1., 1., 1e3, 1e-3, 1e20, 1e-20])
        if mth in W.LSS and gen.chance(rng, .15):
            main['rhs']['kind'] = 'range'
        elif y['A']['kind'] in ('spd', 'sym') and gen.chance(rng, .07):
            main['rhs']['kind'] = 'eig'
        elif y['A']['kind'] == 'saddle' and gen.chance(rng, .6):
            main['rhs']['kind'] = rng.choice(['half', 'half', 'unit'])
    if W.METHODS[mth]['guess'] and gen.chance(rng, .4):
        main['guess'] = {'seed': rng.randrange(10**6),
                         'scale': main['rhs'].get('scale', 1.) / scale
                         * rng.choice([1., 1., 1e3, 1e-3])}
    if mth == 'symmlq':
        kw['rtol'] = rng.choice(TOLS)
    elif mth == 'minres':
        kw['rtol'] = rng.choice(TOLS)
        kw['etol'] = rng.choice([0., 0., .3, 1e-1, 1e-2, 1e-4])
    elif mth in W.LSS:
        kw.update(atol=rng.choice([0.] + TOLS), btol=rng.choice([0.] + TOLS))
        kw['etol'] = rng.choice([0., 0., .3, 1e-1, 1e-2, 1e-4])
        kw['conlim'] = rng.choice([0., 0., 1.5, 4., 20., 1e3, 1e8])
    if 'etol' in kw and kw['etol'] and gen.chance(rng, .7):
        kw['window'] = rng.choice([1, 2, 3, 5])
    if gen.chance(rng, .25):
        # The documented defaults.
        for t in ('rtol', 'atol', 'btol', 'etol', 'conlim', 'window'):
            if gen.chance(rng, .7):
                kw.pop(t, None)
    shift = kw.get('shift')
    if shift:
        kw['shift'] = shift * scale
    if kw.get('damp'):
        kw['damp'] *= scale
    r = rng.random()
    if r < .3:
        kw[name] = rng.randrange(1 if mth in ('lsqr', 'craig') else 0, 2 * n + 3)
    elif r < .6:
        kw[name] = 4 * n + 20
    sc = {'systems': [y], 'solvers': solvers, 'main': main, 'prior': [], 'other': [],
          'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .4}}
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = gen.solve(rng, 0, mth, y, budget_p=.4, store_p=.5)
        r = rng.random()
        if r < .5:
            op['faults'] = [gen.crash(rng, y)]
        elif r < .8:
            op['faults'] = [gen.value_fault(rng, y)]
        sc['prior'].append(op)
    if gen.chance(rng, .2):
        kind = W.METHODS[mth]['kind']
        m2 = rng.choice([k for k in W.ALL if W.METHODS[k]['kind'] == kind])
        solvers.append({'method': m2, 'system': 0, 'ctor': gen.ctor(rng, m2)})
        op = gen.solve(rng, 1, m2, y, store_p=.5)
        if gen.chance(rng, .3):
            op['faults'] = [gen.crash(rng, y)]
        sc['other'].append(op)
    return sc


def repair(sc):
    if not all(op['s'] < len(sc['solvers']) for op in sc['prior'] + sc['other']):
        raise ValueError('no such solver')
    return sc


def run(sc):
    r = Result()
    sim = core.Sim(sc['sched'])
    world = W.World(sim, {'systems': sc['systems'], 'solvers': sc['solvers']})
    out = []

    def main(c):
        for i, op in enumerate(sc['prior']):
            X.do_op(world, c, 'p%d' % i, op, op.get('faults') or ())
            r.solves += 1
        out.append(X.do_op(world, c, 'main', sc['main']))
        r.solves += 1

    def other(c):
        for i, op in enumerate(sc['other']):
            X.do_op(world, c, 'other%d' % i, op, op.get('faults') or ())

    sim.run([main, other] if sc['other'] else [main])
    r.absorb(sim)
    if sc['other']:
        r.switches = sim.switches
    o = out[0]
    if o.exc is not None:
        r.viol('solve-fails', W.kind_of_exc(o))
        return r
    for b in truth.well_formed(o):
        r.viol('malformed', '%s: %s' % (o.method, b))
        return r
    judge(r, sc, o)
    return r


def steps(o):
    return o.fields['itn' if o.method in ITN else 'nMatvec']


def judge(r, sc, o):
    f, mth = o.fields, o.method
    h = truth.Hat(o)
    if f['x'] is None or not np.all(np.isfinite(f['x'])):
        r.probe('nothing to judge')
        return
    more = c01.More({'systems': sc['systems'], 'solvers': sc['solvers'][:1]}, sc['main'],
                    'main')
    if not np.any(o.rhs) and o.kw.get('guess') is None:
        r.probe('zero right-hand side')
        if not o.claim or np.any(f['x']):
            r.viol('unclaimed', '%s: does not claim the zero solution of a zero right-hand '
                   'side' % mth)
        return
    r.nontrivial = True
    sure = {}           # Criteria that certainly hold, by the step at which they do.

    def met(k, what, value, bound, slack):
        if value + slack <= SURE * bound and np.isfinite(bound):
            sure.setdefault(int(k), []).append('%s (%.4g against %.4g)' % (what, value, bound))

    if mth in BARE + ('cg',):
        products(o, h, more, met)
    elif mth == 'minres':
        minres(o, h, more, met)
    elif mth == 'symmlq':
        symmlq(o, h, more, met)
    elif mth in ('lsqr', 'lsmr'):
        lsqr(o, h, more, met)
    elif mth == 'craig':
        craig(o, h, more, met)
    else:
        windows(o, h, more()[:], met)
    k = steps(o)
    code = f.get('istop')
    for i in sorted(sure):
        if i < k:
            r.viol('late', '%s: goes on to step %d (istop %s), but at step %d %s is satisfied'
                   % (mth, k, code, i, ' and '.join(sure[i])))
            return
    here = [w for w in sure.get(k, []) if not w.startswith('conlim')
            and not (w.startswith('etol') and mth in W.LSS)]
    if here and not o.claim:
        r.viol('unclaimed', '%s: ends at step %d with istop %s and no claim, but %s is '
               'satisfied' % (mth, k, code, ' and '.join(here)))
        return
    if sure.get(k):
        r.probe('%s: stops on time' % mth)
    gives_up(r, o, h, sure)


def gives_up(r, o, h, sure):
    f, mth = o.fields, o.method
    if o.claim:
        return
    code, k = f.get('istop'), steps(o)
    if mth in BARE + ('cg',):
        left = o.budget - k - (1 if mth == 'cgs' else 0)
        if left > 0 and not (mth == 'cg' and not f['definite']):
            r.viol('gives-up', '%s: ends without a claim after %d of %s products'
                   % (mth, k, o.budget))
        return
    s = np.linalg.svd(h.Ah, compute_uv=False)
    if h.damp:
        s = np.sqrt(s ** 2 + h.damp ** 2)
    s = s[s > 1e-9 * s[0]] if s[0] > 0 else s[:1]
    size = np.sqrt(np.sum(s ** 2)) * np.sqrt(np.sum(s ** -2.)) if s[0] > 0 else np.inf
    limit = {'minres': 6, 'symmlq': 5}.get(mth, 7)
    if code == limit:
        r.probe('%s: the limit' % mth)
        return
    if not code:
        r.viol('gives-up', '%s: ends after %d of %s steps without a claim or a reason (istop '
               '%s)' % (mth, k, o.budget, code))
        return
    whole = len(s) == min(h.Ah.shape)
    if mth == 'minres' and code == 5 and whole and size < 1e6:
        r.viol('gives-up', 'minres: istop 5 with a condition number below %.2g' % size)
    if mth == 'symmlq' and code == 4 and whole and size < 1e6:
        r.viol('gives-up', 'symmlq: istop 4 with a condition number below %.2g' % size)
    if mth in ('lsqr', 'lsmr') and code in (3, 6):
        con = o.kw.get('conlim', 1e8)
        con = 1e15 if code == 6 else con
        if not con > 0:
            r.viol('gives-up', '%s: istop 3 without a limit' % mth)
        elif whole and con > 1e2 * size * np.sqrt(k + 1.):
            r.viol('gives-up', '%s: istop %d (limit %.2g), but the condition number is below '
                   '%.2g' % (mth, code, con, size))
        elif code == 3 and k <= EARLY:
            c = condition(o, h, k)
            if c is not None and c < con * .98:
                r.viol('gives-up', '%s: istop 3 (limit %.6g), but the estimate is %.6g'
                       % (mth, con, c))
            r.probe('%s: condition limit' % mth)


def products(o, h, more, met):
    f, mth = o.fields, o.method
    x0 = o.kw.get('guess')
    x0 = np.zeros(o.system.n) if x0 is None else x0
    g = 0 if o.kw.get('guess') is None else 1
    r0 = NORM(np.dot(h.L.T, h.b - np.dot(h.A, x0)))
    thr = max(o.ctor.get('abstol', 1e-8), o.ctor.get('reltol', 1e-6) * r0)
    if mth == 'cg':
        its = more()
        fl = truth.floor_of(h, list(its) + [x0]) * 10
        if not f['definite']:
            return
        for k, z in enumerate(its):
            met(k + g, 'the tolerance', NORM(h.resid(z)), thr, fl)
        return
    A = h.A if o.system.P is None else np.dot(h.A, o.system.P)
    b0 = np.array(h.b - np.dot(h.A, x0))
    last = f['nMatvec']
    if mth == 'tfqmr':
        fl = truth.floor_of(h, [x0, f['x']]) * 10
        if r0 <= thr * SURE - fl:
            met(g, 'the tolerance', r0, thr, fl)
            return
        with np.errstate(all='ignore'):
            for k, v in textbook.tfqmr(A, b0, last + 1):
                met(k + g, 'the tolerance', v, thr, fl + 1e-3 * v)
        return
    its = more()
    fl = (truth.floor_of(h, list(its) + [x0]) * 10
          + 1e-14 * textbook.peak(mth, h, o.system.P, o.rhs, x0, last + 2))
    for b, z in enumerate(its):
        # (The iterate of a budget is also the one of the products it leaves unused.)
        b = max(b, g)
        if mth == 'cgs' and (b - g) % 2:
            continue
        if np.all(np.isfinite(z)):
            met(b, 'the tolerance', NORM(h.resid(z)), thr, fl)


def windows(o, h, its, met):
    # (LSQR and its relatives let the code of a limit take the place of this one's.)
    etol, w = o.kw.get('etol', 1e-6), o.kw.get('window', 5)
    if not etol:
        return
    d = h.damp

    def energy(v):
        if o.method == 'craig':
            v = np.linalg.solve(h.lm, v)
            return np.sqrt(NORM(v) ** 2 + NORM(np.dot(h.Ah.T, v)) ** 2)
        v = h.xh(v)
        if o.method == 'craigmr':
            return NORM(v + np.dot(h.Ah, np.dot(h.Ah.T, v)))
        if o.method == 'lsmr':
            return NORM(np.dot(h.Ah.T, np.dot(h.Ah, v)) + d * d * v)
        return np.sqrt(NORM(np.dot(h.Ah, v)) ** 2 + (d * NORM(v)) ** 2)

    for k in range(w + 1, len(its)):
        full = energy(its[k])
        fl = 1e-6 * full
        if o.method in ('craig', 'craigmr'):
            # (As for the claims.)
            q = max(NORM(np.linalg.solve(h.lm, v)) for v in its)
            fl += 100 * truth.EPS * (1 + h.sigma) ** (2 if o.method == 'craigmr' else 1) \
                * (h.normb + q)
        e = energy(its[k] - its[k - w])
        met(k, 'etol over %d steps' % w, e if k <= EARLY else e / WINDOW, etol * full, fl)


def minres(o, h, more, met):
    rtol = o.kw.get('rtol', 1e-12)
    its = more()
    al, be = textbook.lanczos(h.Ah, h.bh)
    fl = truth.floor_of(h, its) * 100
    rs = [NORM(h.resid(z)) for z in its]
    for k in range(1, len(its)):
        anorm = textbook.tnorm(al, be, k)
        x = its[k]
        met(k, 'rtol', rs[k], rtol * anorm * min(NORM(x), NORM(h.xh(x))), fl)
        if rs[k - 1] > 1e4 * fl:
            v = h.resid(its[k - 1])
            met(k, 'rtol (least squares)', NORM(np.dot(h.Ah, v)) / NORM(v), rtol * anorm,
                1e-3 * rtol * anorm)
    windows(o, h, its, met)


def symmlq(o, h, more, met):
    """Of solves with smaller budgets: they return their CG point."""
    rtol = o.kw.get('rtol', 1e-9)
    al, be = textbook.lanczos(h.Ah, h.bh)
    last = o.fields['nMatvec']
    for b in sorted(set(range(2, last))):
        if 4 < b < last - 4:
            continue
        c = more.rerun(matvec_max=b, store_iterates=True)
        if c.exc is not None or truth.well_formed(c):
            continue
        k = c.fields['nMatvec']
        if k < last and c.claim:
            met(k, 'a criterion (with that budget)', 0., 1., 0.)
        symmlq_point(c, h, rtol, al, be, k, met)
    c = more.rerun(store_iterates=True)
    if c.exc is None and not truth.well_formed(c):
        symmlq_point(c, h, rtol, al, be, last, met)


def symmlq_point(c, h, rtol, al, be, k, met):
    its = c.fields['iterates']
    x = c.fields['x']
    if len(its) < 1 or k < 3 or not np.all(np.isfinite(x)):
        return
    if NORM(x - its[-1]) <= 1e-9 * NORM(x):
        return          # Its LQ point was better.
    fl = truth.floor_of(h, list(its) + [x]) * 100
    # nMatvec counts the product of the final residual.
    met(k, 'rtol', NORM(h.resid(x)), rtol * textbook.tnorm(al, be, k - 1)
        * NORM(h.xh(its[-1])), fl)


def lsqr(o, h, more, met):
    kw = o.kw
    atol, btol = kw.get('atol', 1e-9), kw.get('btol', 1e-9)
    con = kw.get('conlim', 1e8)
    its = more()
    al, be, _ = textbook.golub_kahan(h.Ah, h.bh)
    fl = truth.floor_of(h, its) * 100
    d = h.damp
    for k in range(1, len(its)):
        x = h.xh(its[k])
        rh = h.resid(its[k])
        rn = np.sqrt(NORM(rh) ** 2 + (d * NORM(x)) ** 2)
        an = NORM(np.dot(h.Ah.T, rh) - d * d * x)
        j = min(k, len(al))
        F = np.sqrt(np.sum(al[:j] ** 2) + np.sum(be[:j] ** 2))
        size = NORM(x) if o.method == 'lsqr' else min(NORM(x), NORM(its[k]))
        if k <= EARLY:
            met(k, 'atol, btol', rn, btol * h.normb + atol * F * size, fl)
        else:
            met(k, 'atol, btol', rn, btol * h.normb + .9 * atol * F * size, fl)
        if rn > 1e2 * fl:
            met(k, 'atol (least squares)', an, atol * F * rn, fl * max(h.sigma, d))
        if con > 0 and k <= min(EARLY, len(al)):
            c = condition(o, h, k)
            if c is not None:
                met(k, 'conlim', con, c, 0.)
    windows(o, h, its, met)


def condition(o, h, k):
    return getattr(textbook, o.method + '_condition')(h, k)


def craig(o, h, more, met):
    btol = o.kw.get('btol', 1e-9)
    pairs = more.pairs()
    fl = truth.floor_of(h, [x for x, _ in pairs]) * 100 * (1 + h.sigma)
    fl += truth.EPS * 1e3 * (1 + h.sigma) * max(NORM(np.linalg.solve(h.lm, z))
                                                for _, z in pairs)
    for k, (x, z) in enumerate(pairs):
        gap = NORM(h.bh - np.linalg.solve(h.lm, z) - np.dot(h.Ah, h.xh(x)))
        # Measured one step later.
        met(k + 1, 'btol', gap, btol * h.normb, fl)
    windows(o, h, [z for _, z in pairs], met)
