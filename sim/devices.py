"""Simulated devices: the callbacks behind operators and preconditioners, the
log handlers, and the faults they inject."""
import logging

import numpy as np

from . import core
from . import systems


class Device(object):
    """The callbacks of one leaf operator over a dense matrix.

    A call yields to the scheduler, takes simulated time, is counted and
    logged, and is where the faults of the current session strike. Faults are
    addressed by the number of the call within its session (one operation of
    one client), so that they do not move when the interleaving does.
    """

    def __init__(self, sim, name, mat, alias='fresh', latency=1.0, noise=None):
        self.sim, self.name, self.mat = sim, name, mat
        self.alias = alias
        self.latency = latency
        self.noise = noise              # relative size of unrepeatable noise
        self.count = {'v': 0, 't': 0, 'a': 0}
        self.buffers = {}
        self.hooks = []                 # run before each product (nesting)
        self.inputs_changed = 0
        self.escaped = []               # what buffers were handed out

    def mv(self, x):
        return self.call('v', x)

    def mt(self, x):
        return self.call('t', x)

    def ma(self, x):
        return self.call('a', x)

    def call(self, which, x):
        sim = self.sim
        s = sim.session
        self.count[which] += 1
        k = 0
        f = None
        if s is not None:
            k = s.calls.get(self.name, 0)
            s.calls[self.name] = k + 1
            s.total += 1
            if s.max_calls is not None and s.total > s.max_calls:
                raise core.Hang('more than %d products in %s' % (s.max_calls, s.key))
            f = s.faults.get(self.name, {}).get(k) or s.faults.get('*', {}).get(s.total - 1)
            if f is None:
                f = s.faults.get(self.name, {}).get(-1)     # every call
            sim.log(s.key, self.name, which, k, float(np.dot(np.abs(x), np.ones(len(x))))
                    if isinstance(x, np.ndarray) and x.ndim == 1 else 'odd')
        sim.clock += self.latency
        sim.point('dev', self.name + which)
        for hook in self.hooks:
            hook(self, k)
        if which == 'v':
            m = self.mat
        elif which == 't':
            m = self.mat.T
        else:
            m = self.mat.conjugate().T
        if self.alias == 'identity':
            y = x
        else:
            y = np.dot(m, x)
        if self.noise and s is not None:
            rs = systems.rs(core.seed_of(self.name, which, k, s.key))
            y = y * (1 + self.noise * rs.standard_normal(y.shape))
        if f is not None:
            y = self.fault(f, k, s, x, y)
        return self.hand_out(which, y)

    def fault(self, f, k, s, x, y):
        kind = f['kind']
        sim = self.sim
        sim.fire(kind.split(':')[0] if not kind.startswith('raise') else kind)
        sim.log(s.key, 'fault', self.name, k, kind)
        if kind.startswith('raise:'):
            e = core.make_exc(kind[6:], '%s/%s/%d' % (s.key, self.name, k))
            s.raised.append(e)
            raise e
        y = np.array(y)
        if kind == 'nan':
            y[:] = np.nan
        elif kind == 'nan1':
            y[k % len(y)] = np.nan
        elif kind == 'inf':
            y[:] = np.inf
        elif kind == 'ninf1':
            y[k % len(y)] = -np.inf
        elif kind == 'zero':
            y[:] = 0
        elif kind == 'huge':
            y = y * 1e200
        elif kind == 'tiny':
            y = y * 1e-200
        elif kind == 'neg':
            y = -y
        elif kind == 'unsym':
            y = y + np.roll(y, 1) * 0.7
        elif kind == 'garbage':
            rs = systems.rs(core.seed_of(self.name, k, s.key))
            y = rs.standard_normal(y.shape) * 10.0 ** rs.randint(-3, 4)
        elif kind == 'shape':
            y = np.zeros(len(y) + 1)
        elif kind == 'stall':
            sim.clock += 1000.0 * self.latency
        elif kind == 'corrupt':
            y[k % len(y)] *= 1 + 1e-3
        else:
            raise core.HarnessError('fault ' + kind)
        return y

    def hand_out(self, which, y):
        """The array handed to the library, with the device's own aliasing."""
        a = self.alias
        if a in ('fresh', 'identity'):
            return y
        if a == 'buffer':
            # The same buffer at every call, clobbered by the next one.
            b = self.buffers.get(which)
            if b is None or b.shape != y.shape or b.dtype != y.dtype:
                b = self.buffers[which] = np.empty_like(y)
            b[:] = y
            return b
        if a == 'readonly':
            y = np.array(y)
            y.flags.writeable = False
            return y
        if a == 'view':
            b = np.full(len(y) + 4, 1e300, dtype=y.dtype)
            b[2:-2] = y
            return b[2:-2]
        if a == 'strided':
            b = np.full(2 * len(y), 1e300, dtype=y.dtype)
            b[::2] = y
            return b[::2]
        if a == 'column':
            return np.array(y).reshape(-1, 1)
        raise core.HarnessError('alias ' + a)

    def clobber(self):
        """Overwrite every buffer that was ever handed out."""
        for b in self.buffers.values():
            b[:] = 7e77


class SparseMatrix(object):
    """A simulated sparse matrix of Pysparse, in the styles of its versions."""
    __array_ufunc__ = None          # so that Numpy leaves vector * matrix to it

    def __init__(self, dev, symmetric, style):
        self.dev, self.shape = dev, dev.mat.shape
        if style % 2:
            self.issym = symmetric
        else:
            self.isSymmetric = lambda: symmetric


class MatrixWithProducts(SparseMatrix):
    def __mul__(self, x):
        return self.dev.mv(x)

    def __rmul__(self, x):
        return self.dev.mt(x)


class MatrixWithMatvec(SparseMatrix):
    def matvec(self, x, y):
        y[:] = np.ravel(self.dev.mv(x))

    def matvec_transp(self, x, y):
        y[:] = np.ravel(self.dev.mt(x))


def sparse_matrix(dev, symmetric, style):
    return (MatrixWithProducts if style < 2 else MatrixWithMatvec)(dev, symmetric, style)


def cholesky_operator(dev):
    """The operator over a simulated factorisation (CHOLMOD itself is a stub here)."""
    import importlib
    import sys
    import types
    names = ['scikits', 'scikits.sparse', 'scikits.sparse.cholmod']
    name = 'pykrylov.linop.cholesky'
    if name not in sys.modules:
        for n in names:
            sys.modules[n] = types.ModuleType(n)
        sys.modules[names[-1]].cholesky = lambda a: a.factor
        try:
            importlib.import_module(name)
        finally:
            for n in names:
                del sys.modules[n]
    a = types.SimpleNamespace(shape=dev.mat.shape, factor=dev.mv)
    return sys.modules[name].CholeskyOperator(a)


class SimHandler(logging.Handler):
    """A log handler that is a simulated device (and holds no real lock)."""

    def __init__(self, sim, name='log'):
        self.sim, self.dev = sim, name
        self.records = []
        logging.Handler.__init__(self)

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    def handle(self, record):
        self.emit(record)
        return True

    def emit(self, record):
        sim = self.sim
        s = sim.session
        text = record.getMessage()
        self.records.append((record.levelname, text))
        if s is not None:
            k = s.calls.get(self.dev, 0)
            s.calls[self.dev] = k + 1
            f = s.faults.get(self.dev, {}).get(k)
            sim.log(s.key, self.dev, k)
        else:
            f = None
        sim.clock += 0.01
        sim.point('dev', self.dev)
        if f is not None:
            kind = f['kind']
            if kind.startswith('raise:'):
                sim.fire('log:' + kind)
                e = core.make_exc(kind[6:], '%s/%s/%d' % (s.key, self.dev, k))
                s.raised.append(e)
                raise e
            sim.fire('log:stall')
            sim.clock += 1000.0


def make_logger(sim, name, level):
    """A logger of its own, outside logging's global tree."""
    log = logging.Logger(name)
    log.propagate = False
    log.setLevel(level)
    h = SimHandler(sim)
    log.addHandler(h)
    log.sim_handler = h
    return log
