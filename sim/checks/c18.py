"""C18: the estimates of norm, condition and variances are those of the steps made."""
import numpy as np

from sim import core, textbook, truth
from sim import exec_ as X
from sim import gen
from sim import world as W
from sim.checks import c16, c17
from sim.result import Result

ID = 'C18'
NORM = np.linalg.norm
METHODS = ('lsqr', 'lsmr', 'minres', 'symmlq')
NAMES = {'symmlq': ('anorm', 'acond')}
LOOSE = 1e-5
# Estimates of nearly singular matrices of the process lose all their digits.
HARD = 1e5
MOST = 9

repair = c16.repair


def generate(rng, idx, tier):
    mth = METHODS[idx % len(METHODS)]
    sc = c17.generate(rng, W.ALL.index(mth), tier)
    main = sc['main']
    n = sc['systems'][0]['A']['n']
    if mth == 'lsqr' and gen.chance(rng, .7):
        main['kw']['wantvar'] = True
    for k in ('store_iterates', 'store_resids'):
        main['kw'].pop(k, None)
        if gen.chance(rng, .2) and not (k == 'store_resids' and mth in ('minres', 'symmlq')):
            main['kw'][k] = True
    sc['budgets'] = sorted(rng.sample(range(1, n + 4), min(rng.choice([1, 2, 3, 3]), n + 3)))
    return sc


def run(sc):
    r = Result()
    sim = core.Sim(sc['sched'])
    world = W.World(sim, {'systems': sc['systems'], 'solvers': sc['solvers']})
    mth = sc['solvers'][0]['method']
    name = W.METHODS[mth]['budget']
    runs = []

    def main(c):
        for i, op in enumerate(sc['prior']):
            X.do_op(world, c, 'p%d' % i, op, op.get('faults') or ())
            r.solves += 1
        runs.append(X.do_op(world, c, 'main', sc['main']))
        r.solves += 1
        for b in sc.get('budgets') or ():
            op = dict(sc['main'], kw=dict(sc['main']['kw'], **{name: b}))
            runs.append(X.do_op(world, c, 'cut%d' % b, op))
            r.solves += 1

    def other(c):
        for i, op in enumerate(sc['other']):
            X.do_op(world, c, 'other%d' % i, op, op.get('faults') or ())

    sim.run([main, other] if sc['other'] else [main])
    r.absorb(sim)
    if sc['other']:
        r.switches = sim.switches
    for o in runs:
        if o.exc is not None:
            r.viol('solve-fails', '%s: %s' % (mth, W.kind_of_exc(o)))
            return r
        for p in truth.well_formed(o):
            r.viol('malformed', '%s: %s' % (mth, p))
            return r
    h = truth.Hat(runs[0])
    if not NORM(h.bh) > 0:
        r.probe('nothing to judge')
        return r
    lasts = textbook.lasting(h.Ah, h.bh, mth in W.LSS)
    p = textbook.golub_kahan(h.Ah, h.bh) if mth in W.LSS else textbook.lanczos(h.Ah, h.bh)
    for o in runs:
        if not judge(r, o, h, p[0], p[1], lasts):
            return r
    return r


def judge(r, o, h, al, be, lasts):
    """Compares the estimates of one outcome with those of its steps."""
    f, mth = o.fields, o.method
    k = f['itn']
    an, ac = [f.get(x) for x in NAMES.get(mth, ('Anorm', 'Acond'))]
    if not (truth.is_num(an) and truth.is_num(ac)):
        r.viol('malformed', '%s: the estimates are %r and %r' % (mth, an, ac))
        return False
    var = f.get('var')
    if mth == 'lsqr':
        if o.kw.get('wantvar'):
            if not (isinstance(var, np.ndarray) and var.shape == (o.system.n,)):
                r.viol('malformed', 'lsqr: var is %r' % type(var).__name__)
                return False
        elif var is not None:
            r.viol('malformed', 'lsqr: var is given without being asked for')
            return False
    broke = {'minres': (7, 8, 9), 'symmlq': (6, 7, 8)}.get(mth, ())
    if not 1 <= k <= min(lasts, len(al), len(be), MOST) or f['istop'] in broke:
        r.probe('nothing to judge')
        return True
    norm, conds, sens, wvar = expect(h, al, be, k)
    r.nontrivial = True

    def off(what, got, wants, tol):
        if any(abs(got - w) <= tol * w for w in wants):
            r.probe('%s: %s as the steps have it' % (mth, what))
            return False
        r.viol('wrong-estimate', '%s: %s after %d steps is %.8g, not %s'
               % (mth, what, k, got, ' or '.join('%.8g' % w for w in wants)))
        return True

    if off('norm', an, [norm], LOOSE):
        return False
    if sens > HARD:
        r.probe('too ill-conditioned to judge')
        return True
    tol = LOOSE * sens
    if conds and tol <= .1 and off('condition', ac, conds, tol):
        return False
    if wvar is not None and o.kw.get('wantvar') and tol <= .1:
        top = wvar.max()
        for i, w in enumerate(wvar):
            if not abs(var[i] - w) <= tol * top:
                r.viol('wrong-estimate', 'lsqr: var[%d] after %d steps is %.8g, not %.8g'
                       % (i, k, var[i], w))
                return False
        r.probe('lsqr: variances as the steps have them')
    return True


def expect(h, al, be, k):
    """The norm, the possible conditions, how sensitive those are, and the variances."""
    d = h.damp
    a, b = al[:k], be[:k]
    if h.mth in W.LSS:
        B = np.zeros((k + 1, k))
        for i in range(k):
            B[i, i], B[i + 1, i] = a[i], b[i]
        s = np.sqrt(np.linalg.svd(B, compute_uv=False) ** 2 + d * d)
        if h.mth == 'lsmr':
            c = textbook.lsmr_condition(h, k)
            return np.sqrt(np.sum(a ** 2) + np.sum(b ** 2)), [c] if c else None, \
                s[0] / s[-1], None
        V = np.array(textbook.golub_kahan(h.Ah, h.bh, True)[4][:k]).T
        inv = np.linalg.inv(np.dot(B.T, B) + d * d * np.eye(k))
        Z = np.dot(h.ln, V)
        var = np.sum(np.dot(Z, inv) * Z, axis=1)
        norm = np.sqrt(np.sum(a ** 2) + np.sum(b ** 2) + k * d * d)
        return norm, [norm * np.sqrt(np.sum(var))], (s[0] / s[-1]) ** 2, var
    norm = textbook.tnorm(al, be, k)
    T = np.zeros((k + 1, k))
    for i in range(k):
        T[i, i], T[i + 1, i] = a[i], b[i]
        if i:
            T[i - 1, i] = b[i - 1]
    if h.mth == 'minres':
        g = np.abs(np.diag(np.linalg.qr(T)[1]))
        s = np.linalg.svd(T, compute_uv=False)
        return norm, [g.max() / g.min()] if g.min() > 0 else None, s[0] / max(s[-1], 1e-300), \
            None
    g = np.abs(np.diag(np.linalg.qr(T[:k])[1]))
    conds = []
    # (Without the last one where that made the LQ point the better one.)
    conds.append(g[:-1].max() / g[:-1].min() if k > 1 else 1.)
    if g[-1] > 0:
        conds.append(g.max() / g.min())
    lq = textbook.lq_points(h.Ah, h.bh, k + 1)
    if len(lq) >= k and g[-1] > 1e-6 * g.max():
        size = lambda z: NORM(h.bh - np.dot(h.Ah, z))
        V = np.array(textbook.lanczos(h.Ah, h.bh, True)[2][:k]).T
        cg = size(np.dot(V, np.linalg.solve(T[:k], np.dot(V.T, h.bh))))
        q = size(lq[k - 1])
        if max(q, cg) < 1e-6 * NORM(h.bh):
            pass
        elif q < .99 * cg:
            conds = conds[:1]
        elif cg < .99 * q:
            conds = conds[-1:]
    return norm, conds or None, h.sigma / g[:max(1, k - 1)].min(), None
