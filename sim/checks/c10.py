"""C10: products and solves own their memory."""
import copy

import numpy as np

from sim import core, gen, ops, systems
from sim import exec_ as X
from sim import world as W
from sim.checks import c09
from sim.result import Result

ID = 'C10'
STORED = ['x', 'bestSolution', 'iterates', 'iterates_p', 'iterates_d', 'resids', 'r', 'var',
          'residHistory', 'norms', 'normal_eqns_resids', 'dir_errors_window',
          'infiniteDescent']
OWN = ['x', 'bestSolution', 'iterates', 'iterates_p', 'iterates_d', 'resids']
ALIAS = ['self', 'flip', 'buffer', 'buffer', 'readonly', 'view', 'strided', 'column', 'fresh',
         'input']


def generate(rng, idx, tier):
    if idx % 2:
        return generate_solve(rng, idx // 2)
    return generate_products(rng)


# -- Products --------------------------------------------------------------------

def leaf(rng, n, c):
    """A leaf whose callback hands out memory that is not its own to give."""
    a = rng.choice(ALIAS)
    s = {'k': 'leaf', 'm': n, 'n': n, 'seed': rng.randrange(10**6), 'alias': a,
         'give': rng.choice(['T', 'TH']), 'flag': ''}
    if c:
        s['c'] = True
    if a in ('self', 'flip'):
        s['flag'] = 'sym' if gen.chance(rng, .7) else ''
    return s


def part(rng, n, c):
    r = rng.random()
    if r < .5:
        return leaf(rng, n, c)
    s = {'m': n, 'n': n, 'seed': rng.randrange(10**6)}
    if r < .6:
        return dict(s, k='diag', c=c) if c else dict(s, k='diag')
    if r < .66:
        return {'k': 'ident', 'm': n, 'n': n}
    if r < .7:
        return {'k': 'zero', 'm': n, 'n': n}
    if r < .75:
        return dict(s, k='array')
    if r < .9 and not c:
        return {'k': 'lbfgs', 'form': rng.choice(c09.LBFGS), 'm': n, 'n': n,
                'stored': rng.randrange(0, 4), 'npairs': rng.randrange(1, 4),
                'scaling': gen.chance(rng, .3), 'seed': rng.randrange(10**6)}
    return leaf(rng, n, c)


def expr(rng, n, c, depth):
    if depth <= 0 or gen.chance(rng, .2):
        return part(rng, n, c)
    d = {'m': n, 'n': n}
    k = rng.choice(['sum', 'sub', 'mul', 'scal', 'neg', 'pow', 'T', 'H', 'bar', 'block',
                    'bdiag', 'red', 'sred'])
    if k in ('sum', 'sub', 'mul'):
        return dict(d, k=k, of=[expr(rng, n, c, depth - 1), expr(rng, n, c, depth - 1)])
    if k == 'scal':
        return dict(d, k=k, c=rng.choice([1, 1.0, 2.0, -1, 0]), of=[expr(rng, n, c, depth - 1)])
    if k == 'pow':
        return dict(d, k=k, p=rng.choice([0, 1, 2]), of=[expr(rng, n, c, depth - 1)])
    if k in ('block', 'bdiag'):
        if n < 2:
            return part(rng, n, c)
        i = rng.randrange(1, n)
        if k == 'bdiag':
            return dict(d, k=k, rows=[part(rng, i, c), part(rng, n - i, c)])
        if n % 2:
            return dict(d, k='block', rows=[[expr(rng, n, c, depth - 1)]])
        i = n // 2
        return dict(d, k='block', rows=[[part(rng, i, c), part(rng, i, c)],
                                        [part(rng, i, c), part(rng, i, c)]])
    if k == 'red':
        return dict(d, k=k, rows=rng.sample(range(n), n), cols=rng.sample(range(n), n),
                    of=[expr(rng, n, c, depth - 1)])
    if k == 'sred':
        return dict(d, k=k, idx=list(range(n)), of=[expr(rng, n, c, depth - 1)])
    return dict(d, k=k, of=[expr(rng, n, c, depth - 1)])


def generate_products(rng):
    n = rng.choice([1, 2, 2, 3, 4, 4])
    c = gen.chance(rng, .3)
    prog = []
    for _ in range(rng.choice([2, 4, 6, 10])):
        r = rng.random()
        st = {'do': 'product', 'chain': [] if r < .5 else [rng.choice(['T', 'H', 'bar'])],
              'arg': rng.choice(['new', 'new', 'same', 'result', 'readonly', 'int', 'float32',
                                 'column', 'view']),
              'after': rng.choice(['result', 'argument', 'buffers', 'caller', 'all', 'none'])}
        st['seed'] = rng.randrange(10**6)
        prog.append(st)
    return {'what': 'products', 'spec': expr(rng, n, c, rng.choice([0, 0, 1, 1, 2, 3])),
            'program': prog}


def repair(sc):
    if sc['what'] == 'products':
        ops.declared(sc['spec'])
    return sc


def run_products(r, sc):
    sim = core.Sim(None)
    maker = Maker(sim)
    results, args = [], []

    def client(c):
        node = maker.make(sc['spec'])
        name = c09.text(sc['spec'])
        r.info = name
        r.nontrivial = True
        n = node.op.shape[1]
        lb = any(x.pairs is not None for x in node.all())
        shared = ops.vector(5, n)
        for i, st in enumerate(sc['program']):
            what = 'step %d: %s%s' % (i, name, ''.join('.' + q for q in st['chain']))
            op = ops.chain_op(node.op, st['chain'])
            m = ops.chain_mat(node.mat(), st['chain'])
            kind = st['arg']
            if kind == 'same':
                v = shared
            elif kind == 'result' and results and results[-1][0].flags.writeable \
                    and results[-1][0].ndim == 1 and len(results[-1][0]) == n and \
                    np.isfinite(results[-1][1]).all() and np.abs(results[-1][1]).max() < 1e6:
                v = results[-1][0]
            elif kind == 'view':
                w = np.zeros((3, n + 2))
                w[1, 1:-1] = ops.vector(st['seed'], n)
                v = w[1, 1:-1]
            else:
                v = ops.vector(st['seed'], n, np.iscomplexobj(m) and not lb)
                if kind == 'int' and not lb:
                    v = np.round(v.real * 4).astype(int)
                elif kind == 'float32' and not lb:
                    v = v.real.astype(np.float32)
                elif kind == 'column':
                    v = v.reshape(-1, 1)
                elif kind == 'readonly':
                    v.flags.writeable = False
            if lb and np.iscomplexobj(v):
                v = v.real.copy()
            v0 = v.copy()
            o = W.run_session(sim, c, 'p%d' % i, lambda: op * v)
            r.solves += 1
            if o.exc is not None:
                r.viol('product-fails', '%s: %s' % (what, W.kind_of_exc(o)))
                return
            y = o.result
            if core.canon(v) != core.canon(v0):
                r.viol('argument-changed', '%s changed its argument' % what)
                return
            if not isinstance(y, np.ndarray) or y.shape != (m.shape[0],):
                r.viol('wrong-product', '%s gives no vector of its size' % what)
                return
            want = np.dot(m, v0.ravel())
            tol = 1e-5 if v0.dtype == np.float32 else 1e-9
            size = tol * (1 + node.bound() * (1 + np.abs(v0).astype(float).max()) * n)
            if not np.abs(y - want).max() <= size:
                r.viol('wrong-product', '%s of a %s argument is off by %.2g after memory that '
                       'is not its own changed' % (what, kind, np.abs(y - want).max()))
                return
            if overlaps(y, v):
                r.viol('shared-memory', '%s shares memory with its argument' % what)
            for d in maker.devices:
                if any(overlaps(y, b) for b in [d.mat] + d.handed):
                    r.viol('shared-memory', '%s hands out memory of a callback' % what)
                    break
            for k, (q, q0, a) in enumerate(results):
                if overlaps(y, q):
                    r.viol('shared-memory', '%s shares memory with an earlier result' % what)
                    break
                if core.canon(q) != core.canon(q0):
                    r.viol('result-changed', '%s: an earlier result changed' % what)
                    break
            for a in maker.given:
                if overlaps(y, a):
                    r.viol('shared-memory', '%s shares memory with the array it was made '
                           'from' % what)
                    break
            if r.violations:
                return
            results.append([y, y.copy(), v])
            r.probe('argument: ' + kind)
            spoil(r, st['after'], y, v, maker, results)
            if overlaps(shared, v) and core.canon(shared) != core.canon(ops.vector(5, n)):
                shared[:] = ops.vector(5, n)

    sim.run([client])
    r.absorb(sim)


def spoil(r, after, y, v, maker, results):
    """What the owner of the memory may do with it."""
    if after in ('result', 'all'):
        if not y.flags.writeable:
            r.viol('readonly-result', 'a product is read-only')
            return
        y[:] = 7
        results[-1][1] = y.copy()
    if after in ('argument', 'all') and v.flags.writeable and not any(
            overlaps(v, q[0]) for q in results):
        v[:] = -3
    if after in ('buffers', 'all'):
        for d in maker.devices:
            d.clobber()
    if after in ('caller', 'all'):
        for a in maker.given:
            a[...] = 5e55
    r.probe('memory changed: ' + after)


def overlaps(a, b):
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return False
    return bool(a.size and b.size and np.may_share_memory(a, b) and np.shares_memory(a, b))


class Maker(ops.Maker):
    """Keeps the arrays that copying operators were given, and special leaves."""

    def __init__(self, sim):
        ops.Maker.__init__(self, sim)
        self.given = []

    def make_leaf(self, spec):
        node = ops.Maker.make_leaf(self, spec)
        d = node.devices[0]
        n = spec['n']
        if spec['alias'] == 'self':
            d.mat = np.eye(n)
        elif spec['alias'] == 'flip':
            d.mat = np.eye(n)[::-1]
        return node

    def device(self, mat, alias):
        d = ops.Maker.device(self, mat, alias)
        d.handed = []
        inner = d.call

        def call(which, x):
            if d.alias in ('self', 'flip'):
                keep, d.alias = d.alias, 'fresh'
                try:
                    inner(which, x)
                finally:
                    d.alias = keep
                return x if keep == 'self' else x[::-1]
            if d.alias == 'input':
                d.alias = 'fresh'
                try:
                    y = inner(which, x)
                finally:
                    d.alias = 'input'
                if len(d.handed) < 40:
                    d.handed.append(y)
                return y
            y = inner(which, x)
            if d.alias in ('buffer', 'view', 'strided', 'readonly') and len(d.handed) < 40:
                d.handed.append(y)
            return y

        d.call = call
        return d

    def make_diag(self, spec):
        from pykrylov import linop as L
        d = ops.small(systems.rs(core.seed_of('diag', spec['seed'])), spec['n'], spec.get('c'))
        keep = d.copy()
        node = self.fixed(spec, L.DiagonalOperator(d), np.diag(keep))
        self.given.append(d)
        return node

    def store(self, node, seed):
        s, y = W.lbfgs_pairs(seed, node.spec['n'], 1)[0]
        node.pairs.append((s.copy(), y.copy()))
        node.op.store(s, y)
        self.given += [s, y]


# -- Solves ----------------------------------------------------------------------

def generate_solve(rng, idx):
    mth = W.ALL[idx % len(W.ALL)]
    y = gen.system(rng, mth, 9, precon_p=.6,
                   aliases=['buffer', 'buffer', 'readonly', 'view', 'strided', 'column'])
    if gen.chance(rng, .25) and W.METHODS[mth]['precon']:
        y['P'] = {'kind': 'ident', 'seed': 1}
    program = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        op = gen.solve(rng, 0, mth, y, budget_p=.25, store_p=.6)
        op['guess_is_rhs'] = gen.chance(rng, .1)
        op['after'] = rng.choice(['rhs', 'guess', 'buffers', 'all', 'solution', 'none'])
        op['readonly'] = gen.chance(rng, .3)
        program.append(op)
    return {'what': 'solves', 'systems': [y], 'program': program,
            'solvers': [{'method': mth, 'system': 0, 'ctor': gen.ctor(rng, mth)}]}


def fresh_spec(sc):
    """The same world with callbacks that return new arrays."""
    spec = copy.deepcopy(X.world_spec(sc))
    for s in spec['systems']:
        for k in ('A', 'P', 'M', 'N'):
            if s.get(k) and 'alias' in s[k]:
                if s[k]['alias'] != 'identity':
                    s[k]['alias'] = 'fresh'
    return spec


def solve(world, c, key, op, rhs, kw):
    e = world.solvers[op['s']]
    o = W.run_session(world.sim, c, key, lambda: e['obj'].solve(rhs, **kw), (),
                      3000)
    o.method, o.obj = e['method'], e['obj']
    o.fields = W.read_fields(e['obj'], e['method'])
    return o


def arguments(world, op):
    """New arrays for one solve."""
    rhs, kw = world.solve_args(op)
    rhs = rhs.copy()
    if kw.get('guess') is not None:
        kw['guess'] = kw['guess'].copy()
        if op.get('guess_is_rhs') and len(rhs) == len(kw['guess']):
            kw['guess'] = rhs
    return rhs, kw


def reference(sc, i, op):
    """The same solve with well-behaved callbacks and writeable, separate arrays."""
    sim = core.Sim(None)
    world = W.World(sim, fresh_spec(sc))
    out = []

    def client(c):
        rhs, kw = arguments(world, op)
        if kw.get('guess') is rhs:
            kw['guess'] = rhs.copy()
        out.append(solve(world, c, 'r', op, rhs, kw))

    sim.run([client])
    return out[0]


def arrays_of(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays_of(x)]
    return []


def run_solves(r, sc):
    sim = core.Sim(None)
    world = W.World(sim, X.world_spec(sc))
    kept = []                 # (field, the very object, what it was)

    def client(c):
        for i, op in enumerate(sc['program']):
            rhs, kw = arguments(world, op)
            guess = kw.get('guess')
            pure = rhs.copy(), None if guess is None else guess.copy()
            if op.get('readonly'):
                rhs.flags.writeable = False
                if guess is not None:
                    guess.flags.writeable = False
            what = 'solve %d (%s)' % (i, sc['solvers'][0]['method'])
            o = solve(world, c, 's%d' % i, op, rhs, kw)
            r.solves += 1
            if o.exc is not None:
                ref = reference(sc, i, op)
                if ref.exc is None:
                    r.viol('solve-fails', '%s: only with these callbacks: %s'
                           % (what, W.kind_of_exc(o)))
                    return
                continue
            r.nontrivial = True
            if core.canon(rhs) != core.canon(pure[0]):
                r.viol('rhs-changed', '%s changed the right-hand side' % what)
            if guess is not None and core.canon(guess) != core.canon(pure[1]):
                r.viol('guess-changed', '%s changed the guess' % what)
            ref = reference(sc, i, op)
            d = X.differs(ref, o)
            if d:
                r.viol('callback-matters', '%s: %s' % (what, X.diff_text(ref, o)))
            for f, v, v0 in kept:
                if core.canon(v) != core.canon(v0):
                    r.viol('snapshot-changed', '%s changed %s of an earlier solve' % (what, f))
                    return
            owned(r, world, o, what, rhs, guess, kept)
            if r.violations:
                return
            for f in STORED:
                v = getattr(o.obj, f, None)
                if isinstance(v, (list, np.ndarray)):
                    kept.append(('%d.%s' % (i, f), v, W.snapshot(v)))
            spoil_solve(r, world, op['after'], rhs, guess, o, kept)
            for f, v, v0 in kept:
                if core.canon(v) != core.canon(v0):
                    r.viol('snapshot-changed', '%s: %s follows what the caller does to %s'
                           % (what, f, op['after']))
                    return
            r.probe('solve, then changed: ' + op['after'])

    sim.run([client])
    r.absorb(sim)


def owned(r, world, o, what, rhs, guess, kept):
    """Nothing that a solve leaves behind is somebody else's memory."""
    foreign = [('the right-hand side', rhs)]
    if guess is not None:
        foreign.append(('the guess', guess))
    for d in world.systems[0].devices.values():
        for b in d.buffers.values():
            foreign.append(('a buffer of a callback', b))
    for op in (world.systems[0].precon, world.systems[0].Mop, world.systems[0].Nop):
        if hasattr(op, 'diag'):
            foreign.append(('a diagonal', op.diag))
    for f in OWN:
        v = getattr(o.obj, f, None)
        arrays = arrays_of(v)
        for k, a in enumerate(arrays):
            for name, b in foreign:
                if overlaps(a, b):
                    r.viol('shared-memory', '%s: %s shares memory with %s' % (what, f, name))
                    return
            for name, b, _ in kept:
                if any(overlaps(a, q) for q in arrays_of(b)):
                    r.viol('shared-memory', '%s: %s shares memory with %s'
                           % (what, f, name))
                    return
            if isinstance(v, list) and any(overlaps(a, b) for b in arrays[:k]):
                r.viol('shared-memory', '%s: entries of %s share memory' % (what, f))
                return
        if isinstance(v, list):
            for g in ('x', 'bestSolution'):
                if any(overlaps(a, b) for a in arrays for b in arrays_of(getattr(o.obj, g, None))):
                    r.viol('shared-memory', '%s: %s shares memory with %s' % (what, f, g))
                    return


def spoil_solve(r, world, after, rhs, guess, o, kept):
    if after in ('rhs', 'all') and rhs.flags.writeable:
        rhs[:] = 7e77 if rhs.dtype.kind == 'f' else 12345
    if after in ('guess', 'all') and guess is not None and guess.flags.writeable:
        guess[:] = -7e77 if guess.dtype.kind == 'f' else -12345
    if after in ('buffers', 'all'):
        for d in world.systems[0].devices.values():
            d.clobber()
    if after == 'solution':
        x = getattr(o.obj, 'x', None)
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[:] = 3e33
            kept[:] = [(f, v, W.snapshot(v) if overlaps(v, x) else v0) for f, v, v0 in kept]


def run(sc):
    r = Result()
    if sc['what'] == 'products':
        run_products(r, sc)
    else:
        run_solves(r, sc)
    return r
