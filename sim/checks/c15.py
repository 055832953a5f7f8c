"""C15: diagnoses of unsuitable operators are correct and end the solve."""
import numpy as np

from sim import core, gen, truth
from sim import exec_ as X
from sim import systems
from sim import world as W
from sim.result import Result

ID = 'C15'
METHODS = ['cg', 'minres', 'symmlq']
NORM = np.linalg.norm
EPS3 = (2.0 ** -52) ** (1. / 3)
KINDS = {'cg': ['spd', 'spd', 'nonspd', 'negdef', 'barely', 'semi', 'late', 'exact'],
         'minres': ['sym', 'sym', 'spd', 'unsym', 'nearly', 'gen', 'late', 'multiple'],
         'symmlq': ['sym', 'sym', 'spd', 'unsym', 'nearly', 'gen', 'late', 'multiple']}
PKINDS = ['spd', 'spd', 'indef', 'negdef', 'barely', 'unsym', 'nearly']
FAULTS = ['neg', 'neg', 'unsym', 'corrupt', 'garbage']


def generate(rng, idx, tier):
    mth = METHODS[idx % 3]
    n = gen.size(rng, 11)
    y = {'A': {'kind': W.METHODS[mth]['kind'], 'n': n, 'seed': rng.randrange(10**6),
               'cond': rng.choice([1.5, 4., 10., 30.]), 'alias': rng.choice(gen.ALIASES),
               'symflag': True},
         'P': None, 'M': None, 'N': None, 'pre': ''}
    if gen.chance(rng, .45):
        y['P'] = {'kind': 'dense', 'seed': rng.randrange(10**6),
                  'cond': rng.choice([1.5, 4., 10.]), 'alias': rng.choice(gen.ALIASES)}
    clients = rng.choice([1, 1, 1, 2])
    solvers = []
    for i in range(clients):
        m = mth if gen.chance(rng, .7) else rng.choice(METHODS)
        solvers.append({'method': m, 'system': 0, 'logger': rng.choice([None, None, 'all'])})
        if m == 'cg':
            solvers[-1]['ctor'] = {'reltol': rng.choice([1e-3, 1e-6, 1e-12]),
                                   'abstol': rng.choice([0.0, 1e-8])}
    out = []
    for i in range(clients):
        ops = []
        for _ in range(rng.randrange(1, 5)):
            op = gen.solve(rng, i, solvers[i]['method'], y, budget_p=.3, store_p=.3)
            op['rhs'].pop('scale', None)
            if solvers[i]['method'] == 'cg':
                if gen.chance(rng, .5):
                    op['kw'].pop('check_curvature', None)
                if gen.chance(rng, .2):
                    op['kw']['check_symmetric'] = True
            else:
                op['kw']['check'] = gen.chance(rng, .7)
            r = rng.random()
            if r < .5:
                op['A'] = mat(rng, KINDS[solvers[i]['method']], n)
                if op['A']['kind'] == 'exact' and gen.chance(rng, .8):
                    op['rhs']['kind'] = 'signs'
                    op.pop('guess', None)
            elif gen.chance(rng, .1):
                op['rhs']['kind'] = 'eig'
            if y['P'] and gen.chance(rng, .5) and solvers[i]['method'] != 'cg':
                op['P'] = mat(rng, PKINDS, n)
            if gen.chance(rng, .25):
                # The operator changes in the middle of the solve.
                op['switch'] = {'k': rng.randrange(1, 2 + n),
                                'A': mat(rng, KINDS[solvers[i]['method']], n)}
            if gen.chance(rng, .3):
                op['faults'] = [{'dev': rng.choice(['A', 'A', 'P'] if y['P'] else ['A']),
                                 'k': min(int(rng.expovariate(.3)), 30),
                                 'kind': rng.choice(FAULTS)}
                                for _ in range(rng.choice([1, 1, 2]))]
            elif gen.chance(rng, .1):
                op['faults'] = [gen.crash(rng, y)]
            ops.append(op)
        out.append(ops)
    return {'systems': [y], 'solvers': solvers, 'clients': out,
            'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .4}}


def mat(rng, kinds, n):
    return {'kind': rng.choice(kinds), 'n': n, 'seed': rng.randrange(10**6),
            'cond': rng.choice([1.5, 4., 10., 30.]), 'scale': rng.choice([1., 1., 100., .01])}


def repair(sc):
    for ops in sc['clients']:
        for op in ops:
            if op['s'] >= len(sc['solvers']):
                raise ValueError('no such solver')
            if op.get('P') and not sc['systems'][0]['P']:
                raise ValueError('no preconditioner')
    return sc


def matrix(spec):
    """A dense matrix, suitable or not."""
    kind = spec['kind']
    if kind in ('spd', 'sym', 'nonspd', 'unsym', 'gen'):
        return systems.matrix(spec)
    if kind == 'indef':
        return systems.matrix(dict(spec, kind='nonspd'))
    r = systems.rs(core.seed_of('unsuitable', spec['seed']))
    n = spec['n']
    a = systems.spd(r, n, spec['cond'], spec['scale'])
    if kind == 'negdef':
        return -a
    if kind == 'exact':
        # Of small integers; the curvature along signs is zero, without rounding.
        if n > 1 and r.randint(2):
            return systems.matrix(dict(spec, kind='skew', scale=1.))
        d = [r.randint(-3, 4) for _ in range(n - 1)]
        return np.diag([float(v) for v in d + [-sum(d)]])
    if kind == 'multiple':
        # Every vector is an eigenvector: the process ends in one step.
        return np.eye(n) * spec['scale'] * r.uniform(.5, 2.) * (1 - 2 * r.randint(2))
    if kind == 'nearly':
        # Unsymmetric, from far below what a check can see to far above.
        k = r.standard_normal((n, n))
        return a + (k - k.T) * spec['scale'] * 10 ** r.uniform(-9., -1.)
    w, q = np.linalg.eigh(a)
    if kind == 'barely':
        w[0] = -w[0] * 10 ** r.uniform(-6., 0.)
    elif kind == 'semi':
        w[0] = 0.
    elif kind == 'late':
        # One bad direction among many good ones.
        w[r.randint(n)] *= -1
    a = np.dot(q * w, q.T)
    return (a + a.T) / 2


def reflection(x, y):
    """Symmetric and orthogonal, and takes x to a multiple of y."""
    if not NORM(x) > 0 or not NORM(y) > 0:
        return np.eye(len(x))
    w = x / NORM(x) - y / NORM(y)
    if not NORM(w) > 1e-8:
        return np.eye(len(x))
    w = w / NORM(w)
    return np.eye(len(x)) - 2 * np.outer(w, w)


class Recorder(object):
    """An operator that passes its products on and keeps them, by session."""

    def __init__(self, sim, inner, name, n, sym):
        from pykrylov.linop import LinearOperator
        self.sim, self.inner, self.name = sim, inner, name
        self.log = {}
        self.base = inner.mat
        self.plan = {}
        inner.hooks.append(self.choose)
        kw = {'symmetric': True} if sym else {'matvec_transp': self.mt}
        self.op = LinearOperator(n, n, matvec=self.mv, **kw)

    def current(self):
        """The matrix of the next product of the session."""
        key = self.sim.session.key if self.sim.session is not None else None
        mats = self.plan.get(key, {})
        k = len(self.log.get(key, []))
        m = self.base
        for at in sorted(mats):
            if k >= at:
                m = mats[at]
        return m

    def choose(self, dev, k):
        # (Called when the product is made, after other clients may have run.)
        dev.mat = self.current()

    def mv(self, x):
        x = np.array(x)
        y = np.array(self.inner.mv(x)).reshape(-1)
        s = self.sim.session
        self.log.setdefault(s.key if s is not None else None, []).append((x, y.copy()))
        return y

    def mt(self, x):
        return np.dot(self.current().T, x)


def build(sim, sc):
    world = W.World(sim, {'systems': sc['systems'], 'solvers': []})
    y = world.systems[0]
    y.recA = Recorder(sim, y.devices['A'], 'A', y.n, True)
    y.op = y.recA.op
    y.recP = None
    if y.precon is not None:
        y.recP = Recorder(sim, y.devices['P'], 'P', y.n, True)
        y.precon = y.recP.op
    world.solvers = [world.make_solver(s) for s in sc['solvers']]
    return world


def solve(world, c, key, op):
    y = world.systems[0]
    plan = {0: matrix(op['A']) if op.get('A') else y.recA.base}
    if op.get('A') and op['A']['kind'] == 'multiple' and y.precon is not None:
        # A reflection that takes P b back to b: the process ends in one step here too.
        p = matrix(op['P']) if op.get('P') else y.recP.base
        plan[0] = NORM(plan[0], 2) * reflection(np.dot(p, world.solve_args(op)[0]),
                                                world.solve_args(op)[0])
    if op.get('switch'):
        plan[op['switch']['k']] = matrix(op['switch']['A'])
    y.recA.plan[key] = plan
    if y.recP is not None:
        y.recP.plan[key] = {0: matrix(op['P']) if op.get('P') else y.recP.base}
    o = X.do_op(world, c, key, op, op.get('faults') or ())
    o.A = y.recA.log.pop(key, [])
    o.P = y.recP.log.pop(key, []) if y.recP is not None else []
    o.matA = plan[0]
    o.matP = y.recP.plan[key][0] if y.recP is not None else None
    return o


def alone(sc, op, key):
    sim = core.Sim()
    world = build(sim, sc)
    out = []
    sim.run([lambda c: out.append(solve(world, c, key, op))])
    return out[0]


def run(sc):
    r = Result()
    sim = core.Sim(sc['sched'])
    world = build(sim, sc)
    outs = []

    def client(i):
        def body(c):
            for k, op in enumerate(sc['clients'][i]):
                o = solve(world, c, 'c%d.%d' % (i, k), op)
                outs.append((i, k, op, o))
        return body

    sim.run([client(i) for i in range(len(sc['clients']))])
    r.absorb(sim)
    if len(sc['clients']) > 1:
        r.switches = sim.switches
    for i, k, op, o in outs:
        r.solves += 1
        what = 'solve %d of client %d, %s' % (k, i, o.method)
        if o.exc is not None:
            if not o.raised and not isinstance(o.exc, (ArithmeticError, ValueError)):
                r.viol('internal-error', '%s: %s' % (what, W.kind_of_exc(o)))
            continue
        bad = truth.well_formed(o)
        for b in bad:
            r.viol('malformed', '%s: %s' % (what, b))
        if bad:
            continue
        if o.method == 'cg':
            judge_cg(r, sc, op, o, what)
        else:
            judge_lanczos(r, sc, op, o, what)
    return r


def plain(op, o):
    """Nothing but a fixed matrix answered the solve."""
    return not op.get('faults') and not op.get('switch')


def asymmetry(mat, vectors):
    """How far a check exceeds its limit, at least, for any of many vectors."""
    out = []
    for x in vectors:
        w = np.dot(mat, x)
        s = np.dot(w, w)
        z = abs(s - np.dot(x, np.dot(mat, w)))
        out.append(z / ((s + 2.0 ** -52) * EPS3))
    return out


def samples(n, seed):
    rs = systems.rs(seed)
    return [rs.uniform(0., 1., n) for _ in range(12)] \
        + [rs.standard_normal(n) for _ in range(12)]


def clearly_unsymmetric(mat, more=()):
    v = asymmetry(mat, samples(len(mat), 5) + [x for x in more if NORM(x) > 0])
    return min(v) > 10


def symmetric(mat):
    return NORM(mat - mat.T) <= 1e-13 * NORM(mat)


def definite(mat):
    """Positive definite by a margin."""
    w = np.linalg.eigvalsh((mat + mat.T) / 2)
    return symmetric(mat) and w[0] > 1e-8 * abs(w).max()


def product(x, y):
    """The sign of x'y, and how far it is from zero."""
    v = np.dot(x, y)
    size = NORM(x) * NORM(y)
    return v / size if size > 0 else 0.


def exact(x, y):
    """Whether x'y is computed without rounding, of some x that is not zero."""
    return np.any(x) and not np.any(x != np.round(x)) and not np.any(y != np.round(y)) \
        and np.dot(abs(x), abs(y)) < 2.0 ** 50


# -- Conjugate gradients ---------------------------------------------------------

def judge_cg(r, sc, op, o, what):
    f, kw = o.fields, o.kw
    check = kw.get('check_curvature', True)
    refused = f['x'] is None
    if kw.get('check_symmetric'):
        if plain(op, o) and clearly_unsymmetric(o.matA) and f['converged']:
            r.viol('undiagnosed', '%s: claims convergence for a clearly unsymmetric '
                   'operator that it was asked to check' % what)
        if plain(op, o) and symmetric(o.matA):
            if refused:
                r.viol('wrong-diagnosis', '%s: refuses a symmetric operator' % what)
            else:
                # The check itself leaves no trace.
                op2 = dict(op, kw=dict(op['kw'], check_symmetric=False))
                same(r, what, o, alone(sc, op2, o.key), 'check_symmetric')
        if refused:
            if f['converged']:
                r.viol('claims', '%s: refused, and yet converged' % what)
            r.probe('cg refused')
            r.nontrivial = True
            return
    if not isinstance(f['definite'], (bool, np.bool_)):
        r.viol('malformed', '%s: definite is %r' % (what, f['definite']))
        return
    reported = not f['definite']
    d = f['infiniteDescent']
    prods = [] if kw.get('check_symmetric') else o.A[1 if kw.get('guess') is not None else 0:]
    curv = [product(x, y) for x, y in prods]
    if not reported:
        if d is not None:
            r.viol('stale-diagnosis', '%s: a descent direction, but no report' % what)
        if check:
            for i, c in enumerate(curv):
                if c < -1e-10 or (c == 0 and exact(*prods[i])):
                    r.viol('undiagnosed', '%s: meets curvature %.3g at product %d and goes on'
                           % (what, c, i))
                    return
        if curv:
            r.probe('cg, nothing to report')
        return
    r.nontrivial = True
    r.probe('cg reports')
    if f['converged']:
        r.viol('claims', '%s: reports an operator that is not definite, and convergence'
               % what)
    if not check:
        r.viol('wrong-diagnosis', '%s: reports what it was told not to check' % what)
        return
    if plain(op, o) and definite(o.matA):
        r.viol('wrong-diagnosis', '%s: reports a positive definite operator' % what)
        return
    if not isinstance(d, np.ndarray) or d.shape != (o.system.n,) or d.dtype != float \
            or not NORM(d) > 0:
        r.viol('malformed', '%s: the descent direction is %r' % (what, d))
        return
    if prods:
        x, y = prods[-1]
        if not curv[-1] <= 1e-12:
            r.viol('wrong-diagnosis', '%s: the last product has curvature %.3g'
                   % (what, curv[-1]))
        if any(c < -1e-10 for c in curv[:-1]):
            r.viol('undiagnosed', '%s: reports one product late' % what)
        if not abs(product(x, d)) >= 1 - 1e-9:
            r.viol('wrong-direction', '%s: the direction is not the one that was found'
                   % what)
    if plain(op, o):
        c = product(d, np.dot(o.matA, d))
        if not c <= 1e-12:
            r.viol('wrong-direction', '%s: the direction has curvature %.3g' % (what, c))
    if plain(op, o) and symmetric(o.matA):
        # A way down: the slope of the quadratic at the solution along +-d.
        g = np.dot(o.matA, f['x']) - o.rhs
        slope = np.dot(g, d)
        lim = 1e-8 * (NORM(o.matA, 2) * NORM(f['x']) + NORM(o.rhs)) * NORM(d)
        if slope > lim:
            r.viol('wrong-direction', '%s: the direction leads up (slope %.3g)'
                   % (what, slope))
    # The solution is the one of the solve that stops before that product.
    if kw.get('check_symmetric'):
        return
    op2 = dict(op, kw=dict(op['kw'], matvec_max=f['nMatvec'] - 1))
    o2 = alone(sc, op2, o.key)
    if o2.exc is None and o2.fields['x'] is not None \
            and core.canon(o2.fields['x']) != core.canon(f['x']):
        r.viol('wrong-solution', '%s: the solution is not the last iterate before the '
               'product that was reported' % what)
    if kw.get('store_iterates') and f['iterates'] \
            and core.canon(f['iterates'][-1]) != core.canon(f['x']):
        r.viol('wrong-solution', '%s: the solution is not the last stored iterate' % what)


def same(r, what, o, base, name):
    d = X.differs(o, base)
    if d:
        r.viol('check-disturbs', '%s: differs from the solve without %s: %s'
               % (what, name, X.diff_text(o, base)))


# -- MINRES and SYMMLQ -----------------------------------------------------------

BAD_A = {'minres': 7, 'symmlq': 6}
BAD_P = {'minres': 8, 'symmlq': 7}
INDEF_P = {'minres': 9, 'symmlq': 8}


def judge_lanczos(r, sc, op, o, what):
    f, kw, mth = o.fields, o.kw, o.method
    ia, ip, ii = BAD_A[mth], BAD_P[mth], INDEF_P[mth]
    istop = f['istop']
    check = kw.get('check', mth == 'minres')
    A, P = o.matA, o.matP
    zero = not np.any(o.rhs)
    clean = plain(op, o)
    if istop in (ia, ip, ii):
        r.nontrivial = True
        r.probe('%s: istop %d' % (mth, istop))
        if f['converged']:
            r.viol('claims', '%s: claims convergence with istop %d' % (what, istop))
    if istop in (ia, ip) and not check:
        r.viol('wrong-diagnosis', '%s: istop %d without a check' % (what, istop))
    if istop in (ip, ii) and P is None:
        r.viol('wrong-diagnosis', '%s: istop %d without a preconditioner' % (what, istop))
        return
    if clean:
        if istop == ia and symmetric(A):
            r.viol('wrong-diagnosis', '%s: istop %d for a symmetric operator' % (what, istop))
        if istop == ip and symmetric(P):
            r.viol('wrong-diagnosis', '%s: istop %d for a symmetric preconditioner'
                   % (what, istop))
        if istop == ii and definite(P):
            r.viol('wrong-diagnosis', '%s: istop %d for a positive definite preconditioner'
                   % (what, istop))
    # Diagnoses that are due.
    bPb = 0.
    if P is not None and o.P and not zero:
        bPb = product(o.rhs, np.dot(P, o.rhs)) if clean else 0.
    due = []
    if clean and check and not zero:
        vectors = [o.rhs] if P is None else [o.rhs, np.dot(P, o.rhs)]
        if clearly_unsymmetric(A, vectors):
            due.append(ia)
        if P is not None and clearly_unsymmetric(P, vectors):
            due.append(ip)
    if bPb < -1e-10:
        due.append(ii)
    allowed = set(due)
    if due:
        r.nontrivial = True
        if f['converged']:
            r.viol('undiagnosed', '%s: claims convergence (istop %d), but should report %s'
                   % (what, istop, due))
        else:
            # A check that could go either way may come first.
            if check and clean and not symmetric(A):
                allowed.add(ia)
            if check and clean and P is not None and not symmetric(P):
                allowed.add(ip)
            if P is not None and not definite(P):
                allowed.add(ii)
            if istop not in allowed:
                r.viol('undiagnosed', '%s: istop %d, but should report %s'
                       % (what, istop, due))
        return
    # The products that the method itself made with the preconditioner.
    if not check and P is not None:
        neg = []
        for i, (x, y) in enumerate(o.P):
            if mth == 'symmlq' and i and np.array_equal(x, o.rhs):
                continue          # The last step, along the right-hand side.
            neg.append(product(x, y))
        if any(c < -1e-10 for c in neg):
            if istop != ii:
                r.viol('undiagnosed', '%s: istop %d, having met an indefinite '
                       'preconditioner (%.3g)' % (what, istop, min(neg)))
        elif istop == ii and not any(c <= 1e-10 for c in neg):
            r.viol('wrong-diagnosis', '%s: istop %d, but nothing negative was met'
                   % (what, istop))
        if any(c < -1e-10 for c in neg[:-1]):
            r.viol('undiagnosed', '%s: goes on after an indefinite preconditioner' % what)
    if check and clean and istop not in (ia, ip, ii):
        # The check itself leaves no trace.
        op2 = dict(op, kw=dict(op['kw'], check=False))
        same(r, what, o, alone(sc, op2, o.key), 'check')
    if clean and symmetric(A) and (P is None or definite(P)):
        r.probe('%s: suitable' % mth)
