"""C07: limited-memory BFGS operators equal the BFGS matrix of the pairs they hold."""
import numpy as np

from sim import core, gen, systems
from sim import world as W
from sim.devices import make_logger
from sim.result import Result

ID = 'C07'
KINDS = ['InverseLBFGSOperator', 'LBFGSOperator', 'CompactLBFGSOperator']
REJECT = ['neg', 'zero', 'zeros', 'below', 'equal', 'nan-s', 'nan-y', 'infinf']
FAIL = ['long-s', 'long-y', 'long-both', 'short-both', 'none', 'object', 'list', 'matrix']
LAYOUT = ['plain', 'strided', 'readonly', 'reversed', 'same', 'row', 'view']


def generate(rng, idx, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    m = rng.choice([1, 1, 2, 3, 4, 5, 6])
    prog = []
    for _ in range(rng.choice([2, 4, 6, 9, 14])):
        r = rng.random()
        if r < .5:
            st = {'do': 'store', 'seed': rng.randrange(10**6), 'layout': rng.choice(LAYOUT),
                  'scale': rng.choice([1., 1., 1., 1., 1e3, 1e-3, 1e-9]),
                  'b': rng.choice([0, 0, 0, 1, 2])}
            if gen.chance(rng, .3):
                st['mutate'] = True
            q = rng.random()
            if q < .1:
                st['interrupt'] = rng.randrange(1, 12)
                st['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'InjectedBase'])
        elif r < .66:
            st = {'do': 'reject', 'seed': rng.randrange(10**6), 'how': rng.choice(REJECT),
                  'layout': 'plain'}
            if gen.chance(rng, .3):
                st['log'] = rng.choice(['RuntimeError', 'KeyboardInterrupt', 'IOError'])
            if gen.chance(rng, .1):
                st['interrupt'] = rng.randrange(1, 5)
                st['exc'] = 'KeyboardInterrupt'
        elif r < .72:
            st = {'do': 'fail', 'seed': rng.randrange(10**6), 'how': rng.choice(FAIL)}
        elif r < .78:
            st = {'do': 'restart'}
        elif r < .82:
            st = {'do': 'threshold', 'value': rng.choice([0.5, 1e-20, 0.0, 1e-6])}
        elif r < .92:
            st = {'do': 'product', 'seed': rng.randrange(10**6),
                  'which': rng.choice(['op', 'call', 'T', 'H', 'neg', 'sum', 'matvec',
                                       'bar', 'inside'])}
            if gen.chance(rng, .3):
                st['interrupt'] = rng.randrange(1, 60)
                st['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        else:
            st = {'do': 'parallel', 'seed': rng.randrange(10**6),
                  'clients': rng.choice([2, 3]),
                  'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .5,
                            'p_line': rng.choice([.05, .2, .5])}}
        prog.append(st)
    return {'n': n, 'npairs': m, 'scaling': gen.chance(rng, .5), 'program': prog,
            'logger': gen.chance(rng, .4), 'cond': rng.choice([2., 4., 30., 100.]), 'seed': rng.randrange(10**6)}


def pair(sc, st):
    """The pair of a step: s and y = B s for one of a few matrices B."""
    n = sc['n']
    r = systems.rs(core.seed_of('bpair', st['seed']))
    b = systems.spd(systems.rs(core.seed_of('bmat', sc['seed'], st.get('b', 0))), n,
                    sc.get('cond', 4.))
    s = r.standard_normal(n) * st.get('scale', 1.)
    if not np.dot(s, s) > 0:
        s = np.ones(n)
    y = np.dot(b, s)
    how = st.get('how')
    if how == 'neg':
        y = -y
    elif how in ('zero', 'zeros'):
        y = np.zeros(n)
        if how == 'zeros':
            s = np.zeros(n)
    elif how == 'below':
        y = s * (5e-21 / np.dot(s, s))
    elif how == 'equal':
        s, y = np.zeros(n), np.zeros(n)
        s[-1], y[-1] = 1.0, 1e-20
    elif how == 'nan-s':
        s[r.randint(n)] = np.nan
    elif how == 'nan-y':
        y[r.randint(n)] = np.nan
    elif how == 'infinf':
        y[:] = np.inf
        s[0] = 0.0
    return s, y


def lay_out(v, layout, other=None):
    if layout == 'strided':
        w = np.full(3 * len(v), 1e300)
        w[::3] = v
        return w[::3]
    if layout == 'readonly':
        w = v.copy()
        w.flags.writeable = False
        return w
    if layout == 'reversed':
        return v[::-1].copy()[::-1]
    if layout == 'view':
        w = np.full(len(v) + 2, 1e300)
        w[1:-1] = v
        return w[1:-1]
    if layout == 'row':
        w = np.zeros((2, len(v)))
        w[1] = v
        return w[1]
    return v.copy()


def dense(op, which='op'):
    n = op.shape[0]
    return np.array([op * e for e in np.eye(n)]).T


class Model(object):
    """The pairs that an operator holds, by the definition."""

    def __init__(self, sc):
        self.n, self.m, self.scaling = sc['n'], sc['npairs'], sc['scaling']
        self.pairs = []
        self.threshold = 1e-20
        self.dense = None          # What the operator applied after this step.

    def inverse(self, pairs=None):
        return W.bfgs_inverse(self.n, self.pairs if pairs is None else pairs, self.scaling)

    def store(self, s, y):
        with_new = (self.pairs + [(s, y)])[-self.m:]
        return with_new

    def accepts(self, s, y):
        return bool(np.dot(s, y) > self.threshold)


def gap(mat, h, inverse):
    """Relative error of a forward or inverse matrix, and its tolerance."""
    cond = np.linalg.cond(h)
    want = h if inverse else np.linalg.inv(h)
    size = np.linalg.norm(want, 2)
    if not np.all(np.isfinite(mat)):
        return np.inf, 1e-10 * cond, cond
    err = np.linalg.norm(mat - want, 2) / size
    return err, 1e-10 * cond, cond


def run(sc):
    from pykrylov import linop as L
    r = Result()
    sim = core.Sim(None, trace_lines='count')
    ops, models = [], []
    logs = []

    def client(c):
        for k in KINDS:
            kw = {}
            lg = None
            if sc['logger']:
                lg = kw['logger'] = make_logger(sim, k, 1)
            logs.append(lg)
            ops.append(getattr(L, k)(sc['n'], npairs=sc['npairs'],
                                     scaling=sc['scaling'], **kw))
            models.append(Model(sc))
        alive = [True] * 3
        for i, st in enumerate(sc['program']):
            for m in models:
                m.dense = None
            for j, k in enumerate(KINDS):
                if alive[j]:
                    alive[j] = step(r, sim, c, sc, i, st, k, ops[j], models[j], logs[j])
            if all(alive) and [len(m.pairs) for m in models] == [len(models[0].pairs)] * 3:
                agree(r, sc, i, ops, models)

    try:
        sim.run([client])
    except AttributeError as e:
        if core.from_library(e.__traceback__):
            raise
        raise
    r.absorb(sim)
    parallel(r, sc, ops, models)
    structured(r)
    return r


def structured(r):
    from pykrylov import linop as L
    n, s = 3, np.array([1., 2., 3.])
    try:
        op = getattr(L, 'StructuredLBFGSOperator', None)
        if op is None:
            from pykrylov.linop import lbfgs
            op = lbfgs.StructuredLBFGSOperator
        op = op(n)
        if not np.allclose(op * s, s):
            r.viol('structured-wrong', 'a structured operator without pairs is no identity')
    except Exception as e:
        r.viol('structured-unusable', 'StructuredLBFGSOperator(n) cannot be built: %s'
               % type(e).__name__)


def compare(r, name, kind, op, model, what=''):
    """The operator against its model; False if the model cannot judge it."""
    h = model.inverse()
    ok, msg = matches(op, h, kind, model)
    if not ok:
        r.viol('wrong-matrix', '%s: %s%s with %d pairs' % (name, msg, what,
                                                        len(model.pairs)))


def matches(op, h, kind, model=None):
    inverse = kind == KINDS[0]
    try:
        a = dense(op)
        if model is not None:
            model.dense = a
        # Vectors need not be of doubles.
        v = 1 + np.arange(len(a)) % 5
        for dt in (int, 'int8', 'float32'):
            w = op * v.astype(dt)
            if not np.linalg.norm(w - np.dot(a, v)) <= 1e-6 * np.linalg.norm(a, 2) \
                    * np.linalg.norm(v):
                return False, 'a product with a vector of %s is %s' % (dt, w)
    except Exception as e:
        return False, 'product fails with %r' % e
    if a.shape != h.shape or a.dtype != np.float64:
        return False, 'shape %s %s' % (a.shape, a.dtype)
    err, tol, cond = gap(a, h, inverse)
    if cond > 1e6:
        return True, 'not judged'
    if not err <= tol:
        return False, 'relative error %.2g, tolerance %.2g, condition %.1e' % (err, tol, cond)
    if cond < 1e5:
        size = np.linalg.norm(a, 2)
        if np.linalg.norm(a - a.T, 2) > 1e-7 * size * (1 + 1e-3 * cond):
            return False, 'not symmetric'
        if not np.linalg.eigvalsh((a + a.T) / 2)[0] > 0:
            return False, 'not positive definite'
    return True, ''


def step(r, sim, c, sc, i, st, kind, op, model, log):
    name = '%s, step %d (%s)' % (kind, i, st['do'])
    key = 'p%d%s' % (i, kind[0])
    it = None
    if st.get('interrupt'):
        it = {'line': st['interrupt'], 'exc': st['exc']}
    do = st['do']
    if do == 'restart':
        op.restart()
        model.pairs = []
        r.probe('restarted')
    elif do == 'threshold':
        op.accept_threshold = model.threshold = st['value']
    elif do in ('store', 'reject'):
        return store(r, sim, c, sc, st, kind, op, model, name, key, it, log)
    elif do == 'fail':
        n = sc['n']
        s, y = pair(sc, dict(st, how=None))
        how = st['how']
        if how == 'long-s':
            s = np.append(s, 1.)
        elif how == 'long-y':
            y = np.append(y, 1.)
        elif how == 'long-both':
            s, y = np.append(s, 1.), np.append(y, 1.)
        elif how == 'short-both' and n > 2:
            s, y = s[:-1], y[:-1]
        elif how == 'none':
            y = None
        elif how == 'object':
            s = object()
        elif how == 'list':
            y = ['a'] * n
        elif how == 'matrix':
            s = np.ones((n + 1, n))
        o = W.run_session(sim, c, key, lambda: op.store(s, y), ())
        r.probe('malformed pair: ' + how)
        if o.exc is None:
            # A length that numpy broadcasts: whatever it means, not judged further.
            if how in ('short-both',) and n <= 2:
                model.pairs = model.store(np.array(s), np.array(y)) \
                    if model.accepts(s, y) else model.pairs
                return True
            return False
        return adopt(r, name, kind, op, model, [model.pairs, model.pairs[1:]
                                                if len(model.pairs) == model.m else None])
    elif do == 'product':
        product(r, sim, c, sc, st, kind, op, model, name, key, it)
    compare(r, name, kind, op, model)
    return True


def store(r, sim, c, sc, st, kind, op, model, name, key, it, log):
    s0, y0 = pair(sc, st)
    if st['layout'] == 'same':
        y0 = s0.copy()
    s = lay_out(s0, st['layout'])
    y = s if st['layout'] == 'same' else lay_out(y0, st['layout'])
    accept = model.accepts(s0, y0)
    if accept and st['do'] == 'reject':
        return True            # Below no threshold, and of no use as a pair.
    faults = []
    if st.get('log') and log is not None and not accept:
        faults = [{'dev': 'log', 'k': 0, 'kind': 'raise:' + st['log']}]
    o = W.run_session(sim, c, key, lambda: op.store(s, y), faults, None, it)
    if core.canon(np.array(s)) != core.canon(s0) or core.canon(np.array(y)) != core.canon(y0):
        r.viol('argument-changed', '%s changed its arguments' % name)
    if st.get('mutate') and s.flags.writeable and y.flags.writeable:
        s[:], y[:] = 7e77, -3.
        r.probe('arrays changed after the store')
    r.nontrivial = True
    if o.exc is None:
        if accept:
            model.pairs = model.store(s0, y0)
            r.probe('accepted')
            if len(model.pairs) == model.m:
                r.probe('memory full')
        else:
            r.probe('rejected')
        compare(r, name, kind, op, model, ' (%s)' % (
            'accepted' if accept else 'rejected: %s' % st.get('how')))
        return True
    if not any(o.exc is e for e in o.raised):
        r.viol('internal-error', '%s: %s' % (name, W.kind_of_exc(o)))
        return False
    r.probe('store cut short')
    if not accept:
        compare(r, name, kind, op, model, ' (rejected, then failed)')
        return True
    cands = [model.pairs, model.store(s0, y0)]
    if len(model.pairs) == model.m:
        cands.append(model.pairs[1:])
    return adopt(r, name, kind, op, model, cands)


def adopt(r, name, kind, op, model, cands):
    """After a failed store: one of these sets of whole pairs."""
    msgs = []
    for p in cands:
        if p is None:
            continue
        ok, msg = matches(op, model.inverse(p), kind)
        if ok:
            model.pairs = list(p)
            return True
        msgs.append(msg)
    r.viol('torn-store', '%s: holds something else than whole pairs (%s)' % (name, msgs[0]))
    return False


def product(r, sim, c, sc, st, kind, op, model, name, key, it):
    v = systems.vector(st['seed'], sc['n'])
    v0 = v.copy()
    which = st['which']
    expr = {'op': lambda: op * v, 'call': lambda: op(v), 'T': lambda: op.T * v,
            'H': lambda: op.H * v, 'neg': lambda: -((-op) * v),
            'sum': lambda: (op + op) * v / 2, 'matvec': lambda: op.lbfgs_matvec(v),
            'bar': lambda: op.bar * v,
            'inside': lambda: (op * op) * v}[which]
    o = W.run_session(sim, c, key, expr, (), None, it)
    if v.tobytes() != v0.tobytes():
        r.viol('argument-changed', '%s changed its argument' % name)
    if o.exc is not None:
        if not any(o.exc is e for e in o.raised):
            r.viol('internal-error', '%s: %s' % (name, W.kind_of_exc(o)))
        r.probe('product cut short')
        return
    h = model.inverse()
    cond = np.linalg.cond(h)
    if cond > 1e6:
        return
    a = h if kind == KINDS[0] else np.linalg.inv(h)
    want = np.dot(a, v)
    if which == 'inside':
        want = np.dot(a, want)
    got = o.result
    if not isinstance(got, np.ndarray) or got.shape != v.shape:
        r.viol('wrong-matrix', '%s (%s) gives %r' % (name, which, type(got)))
        return
    scale = np.linalg.norm(a, 2) ** (2 if which == 'inside' else 1) * np.linalg.norm(v)
    if not np.linalg.norm(got - want) <= 1e-10 * cond * scale:
        r.viol('wrong-matrix', '%s (%s): error %.2g of %.2g' % (
            name, which, np.linalg.norm(got - want), scale))


def agree(r, sc, i, ops, models):
    """The forms agree and invert one another."""
    h, b, k = [m.dense if m.dense is not None else dense(op) for m, op in zip(models, ops)]
    cond = np.linalg.cond(models[0].inverse())
    if not cond < 1e5:
        return
    same = all(core.canon([list(p) for p in m.pairs]) == core.canon(
        [list(p) for p in models[0].pairs]) for m in models)
    if not same:
        return
    if not all(np.isfinite(a).all() for a in (h, b, k)):
        r.viol('forms-differ', 'step %d: a form is not finite' % i)
        return
    size = np.linalg.norm(b, 2)
    tol = 1e-8 * cond
    if not np.linalg.norm(b - k, 2) <= tol * size:
        r.viol('forms-differ', 'step %d: forward and compact differ by %.2g of %.2g'
               % (i, np.linalg.norm(b - k, 2), size))
    if not np.linalg.norm(np.dot(h, b) - np.eye(len(h)), 2) <= tol:
        r.viol('forms-differ', 'step %d: forward does not invert inverse' % i)
    if not np.linalg.norm(np.dot(h, k) - np.eye(len(h)), 2) <= tol:
        r.viol('forms-differ', 'step %d: compact does not invert inverse' % i)


def parallel(r, sc, ops, models):
    """Products by several clients at once, preempted at source lines."""
    for i, st in enumerate(sc['program']):
        if st['do'] != 'parallel' or len(ops) < 3:
            continue
        for op, kind in zip(ops, KINDS):
            vs = [systems.vector(st['seed'] + q, sc['n']) for q in range(st['clients'])]
            want = [core.canon(op * v) for v in vs]
            sim = core.Sim(st['sched'], trace_lines=True)
            got = [None] * len(vs)

            def body(q):
                def client(c):
                    o = W.run_session(sim, c, 'q%d' % q, lambda: op * vs[q])
                    got[q] = core.canon(o.result) if o.exc is None else repr(o.exc)
                return client

            sim.run([body(q) for q in range(len(vs))])
            r.absorb(sim)
            if got != want:
                r.viol('products-interfere', '%s: %d clients, preempted at lines'
                       % (kind, len(vs)))
            r.probe('products in parallel')
