"""C17: each iterate is the one of its Krylov subspace that defines the method."""
import numpy as np

from sim import core, gen, textbook, truth
from sim import exec_ as X
from sim import world as W
from sim.checks import c01, c14, c16
from sim.result import Result

ID = 'C17'
NORM = np.linalg.norm
BARE = c14.BARE
# How far an iterate may be from the best one: orthogonality is lost slowly.
LOOSE = 1e-3
EARLY = 8
# (The methods that have no long-term optimality: products.)
PRODUCTS = 14


def generate(rng, idx, tier):
    mth = W.ALL[idx % len(W.ALL)]
    scale = rng.choice([1., 1., 1., 1e6, 1e-6, 1e30, 1e-30])
    y = gen.system(rng, mth, 12, precon_p=.5, scales=(scale,), cond=(1.5, 4., 10., 30.))
    if y['A'].get('cond', 1.) <= 4. and gen.chance(rng, .2):
        y['A']['cond'] = 100.
    if mth == 'minres' and gen.chance(rng, .15):
        y['A']['null'] = rng.choice([1, 1, 2])
        if y['P'] and y['P']['kind'] == 'inv':
            y['P']['kind'] = 'dense'
    if mth in ('minres', 'symmlq') and not y['A'].get('null') and gen.chance(rng, .15):
        y['A']['kind'] = 'saddle'
        if y['P'] and y['P']['kind'] == 'inv':
            y['P']['kind'] = 'dense'
    if mth in W.LSS and gen.chance(rng, .15):
        y['A']['rank'] = rng.randrange(1, 4)
    n = y['A']['n']
    ct = {'reltol': rng.choice([1e-2, 1e-6, 1e-10, 0.]), 'abstol': 0.} \
        if mth in BARE + ('cg',) else {}
    solvers = [{'method': mth, 'system': 0, 'ctor': ct,
                'logger': rng.choice([None, None, None, 'debug'])}]
    main = {'op': 'solve', 's': 0, 'rhs': gen.rhs(rng, (1., 1e3, 1e-3, 1e20, 1e-20)),
            'kw': gen.kw(rng, mth, n, n, .5, 0)}
    if 'kind' not in main['rhs']:
        if mth in W.LSS and gen.chance(rng, .15):
            main['rhs']['kind'] = 'range'
        elif y['A']['kind'] == 'saddle' and gen.chance(rng, .4):
            main['rhs']['kind'] = rng.choice(['half', 'unit'])
    if W.METHODS[mth]['guess'] and gen.chance(rng, .4):
        main['guess'] = {'seed': rng.randrange(10**6),
                         'scale': main['rhs'].get('scale', 1.) / scale}
    kw = main['kw']
    if kw.get('shift'):
        kw['shift'] *= scale
    if kw.get('damp'):
        kw['damp'] *= scale
    sc = {'systems': [y], 'solvers': solvers, 'main': main, 'prior': [], 'other': [],
          'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .4}}
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = gen.solve(rng, 0, mth, y, budget_p=.4, store_p=.5)
        r = rng.random()
        if r < .5:
            op['faults'] = [gen.crash(rng, y)]
        elif r < .8:
            op['faults'] = [gen.value_fault(rng, y)]
        sc['prior'].append(op)
    if gen.chance(rng, .25):
        kind = W.METHODS[mth]['kind']
        m2 = rng.choice([k for k in W.ALL if W.METHODS[k]['kind'] == kind])
        solvers.append({'method': m2, 'system': 0, 'ctor': gen.ctor(rng, m2)})
        op = gen.solve(rng, 1, m2, y, store_p=.5)
        if gen.chance(rng, .3):
            op['faults'] = [gen.crash(rng, y)]
        sc['other'].append(op)
    return gen.late_precon(rng, sc)


repair = c16.repair


def run(sc):
    r = Result()
    sim = core.Sim(sc['sched'])
    world = W.World(sim, {'systems': sc['systems'], 'solvers': sc['solvers']})
    mth = sc['solvers'][0]['method']
    name = W.METHODS[mth]['budget']
    out, each = [], []

    def main(c):
        for i, op in enumerate(sc['prior']):
            X.do_op(world, c, 'p%d' % i, op, op.get('faults') or ())
            r.solves += 1
        kw = {} if mth in BARE else {'store_iterates': True}
        o = X.do_op(world, c, 'main', dict(sc['main'], kw=dict(sc['main']['kw'], **kw)))
        out.append(o)
        r.solves += 1
        if o.exc is None and not truth.well_formed(o) and mth in BARE + ('symmlq',):
            # (They keep no iterates, or not those they return.)
            for b in range(1, min(o.fields['nMatvec'], PRODUCTS) + 1):
                op = dict(sc['main'], kw=dict(sc['main']['kw'], **{name: b}))
                each.append((b, X.do_op(world, c, 'each%d' % b, op)))
                r.solves += 1

    def other(c):
        for i, op in enumerate(sc['other']):
            X.do_op(world, c, 'other%d' % i, op, op.get('faults') or ())

    sim.run([main, other] if sc['other'] else [main])
    r.absorb(sim)
    if sc['other']:
        r.switches = sim.switches
    o = out[0]
    for what, c in [('', o)] + [(', budget %d' % b, c) for b, c in each]:
        if c.exc is not None:
            r.viol('solve-fails', '%s%s: %s' % (mth, what, W.kind_of_exc(c)))
            return r
        for p in truth.well_formed(c):
            r.viol('malformed', '%s%s: %s' % (mth, what, p))
            return r
    if o.fields['x'] is None or not np.all(np.isfinite(o.fields['x'])):
        r.probe('nothing to judge')
        return r
    h = truth.Hat(o)
    if mth in BARE:
        bare(r, o, h, each)
    elif mth == 'symmlq':
        galerkin(r, o, h, each + [(None, o)])
    else:
        best(r, o, h)
    return r


def differs(r, o, k, got, want, floor, what):
    """Whether an iterate is not the one it should be."""
    e = NORM(got - want)
    r.nontrivial = True
    if not e <= LOOSE * NORM(want) + floor:
        r.viol('not-the-iterate', '%s: iterate %d is not %s: off by %.3g of %.3g (rounding '
               '%.1e)' % (o.method, k, what, e, NORM(want), floor))
        return True
    r.probe('%s: an iterate as defined' % o.method)
    return False


def space(h, r0):
    """An orthonormal basis of the Krylov subspaces, in order."""
    if not NORM(r0) > 0:
        return None
    if W.METHODS[h.mth]['kind'] != 'ls':
        return np.array(textbook.lanczos(h.Ah, r0, True)[2]).T
    U, V = textbook.golub_kahan(h.Ah, r0, True)[3:]
    W_ = U if h.mth in ('craig', 'craigmr') else V
    return np.array(W_).T if len(W_) else None


def best(r, o, h):
    """The iterates of methods that minimise something, from the basis of the space."""
    f, mth = o.fields, o.method
    its = f['iterates_d' if mth == 'craig' else 'iterates']
    what = {'cg': 'the one of least energy error', 'minres': 'the one of least residual',
            'lsqr': 'the one of least residual',
            'lsmr': 'the one of least normal-equation residual',
            'craig': 'the one of least energy error', 'craigmr': 'the one of least residual'}
    if mth == 'cg' and not f['definite']:
        r.probe('nothing to judge')
        return
    if mth == 'craig':
        # (Its first step is made before the loop.)
        xs = [np.zeros(len(h.bh))] + [np.linalg.solve(h.lm, z) for z in its]
    else:
        xs = [h.xh(z) for z in its]
    x0 = xs[0]
    A, d = h.Ah, h.damp
    if mth in ('craig', 'craigmr'):
        A = np.eye(len(h.bh)) + np.dot(h.Ah, h.Ah.T)
    r0 = h.bh - np.dot(h.Ah, x0) if mth in ('cg', 'minres') else h.bh
    if mth not in ('cg', 'minres') and np.any(x0):
        r.viol('not-the-iterate', '%s: iterate 0 is not zero' % mth)
        return
    V = space(h, r0)
    if V is None:
        r.probe('nothing to judge')
        return
    lasts = textbook.lasting(h.Ah, r0, mth not in ('cg', 'minres'))
    for k in range(1, min(len(xs), EARLY + 1, V.shape[1] + 1, lasts + 1)):
        Q = V[:, :k]
        if mth in ('cg', 'craig'):
            y = np.linalg.solve(np.dot(Q.T, np.dot(A, Q)), np.dot(Q.T, r0))
        elif mth in ('minres', 'craigmr'):
            y = np.linalg.lstsq(np.dot(A, Q), r0, rcond=None)[0]
        elif mth == 'lsqr':
            B = np.vstack([np.dot(A, Q), d * np.eye(k)])
            y = np.linalg.lstsq(B, np.concatenate([r0, np.zeros(k)]), rcond=None)[0]
        else:
            N = np.dot(A.T, np.dot(A, Q)) + d * d * Q
            y = np.linalg.lstsq(N, np.dot(A.T, r0), rcond=None)[0]
        s = np.linalg.svd(np.dot(A, Q), compute_uv=False)
        if s[-1] <= 1e-3 * s[0]:
            # Hardly determined by its space.
            r.probe('nothing to judge')
            return
        want = x0 + np.dot(Q, y)
        fl = 1e-9 * (s[0] / s[-1]) * (NORM(x0) + NORM(y))
        if differs(r, o, k, xs[k], want, fl, what[mth] + ' over its Krylov subspace'):
            return
        if mth == 'craig':
            p = h.xh(f['iterates_p'][k - 1])
            want = np.dot(h.Ah.T, want)
            if differs(r, o, k, p, want, h.sigma * (fl + LOOSE * NORM(y)),
                       'the primal one of its dual iterate'):
                return


def galerkin(r, o, h, runs):
    """SYMMLQ returns its LQ point, or that at which the residual is orthogonal."""
    if not NORM(h.bh) > 0:
        r.probe('nothing to judge')
        return
    V = space(h, h.bh)
    lasts = textbook.lasting(h.Ah, h.bh, False)
    points = textbook.lq_points(h.Ah, h.bh, EARLY + 2)
    for b, c in runs:
        k = c.fields['itn']
        if not 1 <= k <= min(EARLY, V.shape[1], len(points), lasts):
            continue
        if c.fields['istop'] in (6, 7, 8):
            continue
        Q = V[:, :k]
        T = np.dot(Q.T, np.dot(h.Ah, Q))
        s = np.linalg.svd(T, compute_uv=False)
        lq = points[k - 1]
        x = h.xh(c.fields['x'])
        fl = 1e-9 * NORM(h.bh) / h.sigma * np.linalg.cond(h.Ah)
        size = lambda z: NORM(h.bh - np.dot(h.Ah, z))
        if s[-1] > 1e-6 * h.sigma:
            cg = np.dot(Q, np.linalg.solve(T, np.dot(Q.T, h.bh)))
            near = size(cg) < size(lq) * .99
            far = size(cg) > size(lq) * 1.01
            slack = fl + LOOSE * h.sigma / s[-1] * NORM(cg) * .1
        else:
            cg, near, far, slack = None, False, True, 0.
        isl = NORM(x - lq) <= LOOSE * NORM(lq) + fl
        isc = cg is not None and NORM(x - cg) <= LOOSE * NORM(cg) + slack
        r.nontrivial = True
        if not (isl and not near or isc and not far):
            r.viol('not-the-iterate', 'symmlq%s: the solution of step %d is not the better '
                   'of the LQ point and the CG point: residual %.6g, of the LQ point %.6g, '
                   'of the CG point %s' % ('' if b is None else ', budget %d' % b, k, size(x),
                                           size(lq), cg is not None and '%.6g' % size(cg)))
            return
        r.probe('symmlq: an iterate as defined')


def bare(r, o, h, each):
    """CGS, Bi-CGSTAB and TFQMR: the recurrences of the textbooks, while they are safe."""
    g = 0 if o.kw.get('guess') is None else 1
    x0 = o.kw.get('guess')
    x0 = np.zeros(o.system.n) if x0 is None else x0
    P = o.system.P
    A = h.A if P is None else np.dot(h.A, P)
    r0 = np.array(h.b - np.dot(h.A, x0))
    if not NORM(r0) > 0:
        r.probe('nothing to judge')
        return
    with np.errstate(all='ignore'):
        recur = getattr(textbook, o.method + '_points')
        points = recur(A, r0, PRODUCTS)
        # What a relative error of 1e-11 would grow to.
        noise = np.random.RandomState(1).standard_normal((2,) + A.shape)
        others = recur(A * (1. + 1e-11 * noise[0]), r0 * (1. + 1e-11 * noise[1][0]), PRODUCTS)
    biggest = 0.
    for m, (z, z2) in enumerate(zip(points, others)):
        if not NORM(z - z2) <= 1e-4 * NORM(z):
            r.probe('%s: an iterate too sensitive to judge' % o.method)
            break
        z = z if P is None else np.dot(P, z)
        biggest = max(biggest, NORM(z))
        for b, c in each:
            if b - g == m and c.fields['nMatvec'] == b:
                fl = 1e-6 * biggest + truth.EPS * 1e4 * NORM(x0)
                if differs(r, c, m, c.fields['x'] - x0, z, fl,
                           "the textbook's after %d products" % m):
                    return
