"""Builds the objects of a scenario (real solvers and operators over simulated
devices) and runs operations on them."""
import copy
import logging
import sys

import numpy as np

from . import core
from . import systems
from .devices import Device, make_logger, sparse_matrix

BASE = ['converged', 'nMatvec', 'x', 'bestSolution', 'residNorm', 'residNorm0',
        'residHistory']
LS = ['status', 'optimal', 'x', 'bestSolution', 'istop', 'itn', 'nMatvec',
      'iterates', 'norms', 'resids', 'normal_eqns_resids', 'dir_errors_window']

METHODS = {
    'cg': dict(mod='cg', cls='CG', kind='spd', budget='matvec_max', claim='converged',
               guess=True, precon='left',
               fields=BASE + ['definite', 'infiniteDescent', 'resids', 'iterates']),
    'cgs': dict(mod='cgs', cls='CGS', kind='gen', budget='matvec_max',
                claim='converged', guess=True, precon='right', fields=BASE),
    'bicgstab': dict(mod='bicgstab', cls='BiCGSTAB', kind='gen', budget='matvec_max',
                     claim='converged', guess=True, precon='right', fields=BASE),
    'tfqmr': dict(mod='tfqmr', cls='TFQMR', kind='gen', budget='matvec_max',
                  claim='converged', guess=True, precon='right', fields=BASE),
    'symmlq': dict(mod='symmlq', cls='Symmlq', kind='sym', budget='matvec_max',
                   claim='converged', guess=False, precon='left',
                   fields=['converged', 'nMatvec', 'x', 'bestSolution', 'residNorm',
                           'istop', 'itn', 'solutionNorm', 'xNorm', 'acond', 'anorm',
                           'iterates']),
    'minres': dict(mod='minres', cls='Minres', kind='sym', budget='itnlim',
                   claim='converged', guess=False, precon='left',
                   fields=BASE + ['istop', 'itn', 'rnorm', 'Arnorm', 'Anorm', 'Acond',
                                  'ynorm', 'dir_errors_window', 'iterates']),
    'lsqr': dict(mod='lls', cls='LSQRFramework', kind='ls', budget='itnlim',
                 claim='optimal', guess=False, precon=None,
                 fields=LS + ['r1norm', 'r2norm', 'residNorm', 'Anorm', 'Acond',
                              'Arnorm', 'xnorm', 'var']),
    'lsmr': dict(mod='lls', cls='LSMRFramework', kind='ls', budget='itnlim',
                 claim='optimal', guess=False, precon=None,
                 fields=LS + ['r2norm', 'residNorm', 'Anorm', 'Acond', 'Arnorm',
                              'xnorm']),
    'craig': dict(mod='lls', cls='CRAIGFramework', kind='ls', budget='itnlim',
                  claim='optimal', guess=False, precon=None,
                  fields=LS + ['r', 'r1norm', 'r2norm', 'Arnorm', 'xnorm',
                               'dir_errors_p_window', 'dir_errors_d_window',
                               'iterates_p', 'iterates_d']),
    'craigmr': dict(mod='lls', cls='CRAIGMRFramework', kind='ls', budget='itnlim',
                    claim='optimal', guess=False, precon=None, fields=LS),
}
ITER = ['cg', 'cgs', 'bicgstab', 'tfqmr', 'symmlq', 'minres']
LSS = ['lsqr', 'lsmr', 'craig', 'craigmr']
ALL = ITER + LSS


def method_class(name):
    import importlib
    m = METHODS[name]
    return getattr(importlib.import_module('pykrylov.' + m['mod']), m['cls'])


# -- Operators -----------------------------------------------------------------

def bfgs_inverse(n, pairs, scaling=False):
    """The inverse BFGS matrix of a list of pairs, by its definition."""
    h = np.eye(n)
    if scaling and pairs:
        s, y = pairs[-1]
        h = h * (np.dot(s, y) / np.dot(y, y))
    for s, y in pairs:
        rho = 1.0 / np.dot(s, y)
        v = np.eye(n) - rho * np.outer(y, s)
        h = np.dot(v.T, np.dot(h, v)) + rho * np.outer(s, s)
    return h


def lbfgs_pairs(seed, n, npairs):
    r = systems.rs(core.seed_of('pairs', seed))
    b = systems.spd(r, n, 5.)
    out = []
    for _ in range(npairs):
        s = r.standard_normal(n)
        out.append((s, np.dot(b, s)))
    return out


class Built(object):
    """An operator, its dense matrix, and its devices by name."""

    def __init__(self, op, mat, devices):
        self.op, self.mat, self.devices = op, mat, devices


def build_op(sim, name, mat, spec, symmetric, world=None):
    """A pykrylov operator for a dense matrix, in one of several forms."""
    from pykrylov import linop as L
    form = spec.get('form', 'leaf')
    alias = spec.get('alias', 'fresh')
    noise = spec.get('noise')
    m, n = mat.shape
    devs = {}

    def leaf(nm, a, sym):
        d = devs[nm] = Device(sim, nm, a, alias=alias, noise=noise,
                              latency=spec.get('latency', 1.0))
        kw = {}
        if spec.get('oplog'):
            kw['logger'] = spec['oplog']
        if sym:
            return L.LinearOperator(a.shape[1], a.shape[0], matvec=d.mv,
                                    symmetric=True, **kw)
        return L.LinearOperator(a.shape[1], a.shape[0], matvec=d.mv,
                                matvec_transp=d.mt, **kw)

    if alias == 'identity':
        mat = np.eye(n)
        return Built(leaf(name, mat, True), mat, devs)
    if form == 'block' and min(m, n) < 2:
        form = 'leaf'
    if form == 'leaf':
        op = leaf(name, mat, symmetric)
    elif form == 'sum':
        b = np.diag(np.arange(1., min(m, n) + 1)) if m == n else np.ones((m, n))
        b = b * (np.abs(mat).max() if mat.size else 1.)
        a1 = mat - b
        op = leaf(name, a1, symmetric) + leaf(name + '1', b, symmetric)
        mat = a1 + b
    elif form == 'scaled':
        op = 2.0 * leaf(name, mat / 2, symmetric)
    elif form == 'neg':
        op = -leaf(name, -mat, symmetric)
    elif form == 'minus':
        b = np.ones((m, n)) * (np.abs(mat).max() if mat.size else 1.)
        a1 = mat + b
        op = leaf(name, a1, symmetric) - leaf(name + '1', b, symmetric)
        mat = a1 - b
    elif form == 'shifted' and m == n:
        c = np.abs(mat).max()
        a1 = mat - c * np.eye(n)
        op = leaf(name, a1, symmetric) + c * L.IdentityOperator(n)
        mat = a1 + c * np.eye(n)
    elif form == 'array':
        op = L.linop_from_ndarray(mat.copy(), symmetric=symmetric)
    elif form == 'sparse':
        d = devs[name] = Device(sim, name, mat, alias=alias, noise=noise,
                                latency=spec.get('latency', 1.0))
        op = L.PysparseLinearOperator(sparse_matrix(d, symmetric, n % 4))
    elif form == 'coord' and mat.size <= 144:       # its product is a loop in Python
        i, j = np.nonzero(np.triu(mat) if symmetric else mat)
        op = L.CoordLinearOperator(mat[i, j], i, j, nargin=n, nargout=m,
                                   symmetric=symmetric)
    elif form == 'reduced':
        # Rows and columns of a larger operator, in another order.
        r = systems.rs(core.seed_of('reduced', m, n))
        junk = np.abs(mat).max() if mat.size else 1.
        big = np.ones((m + 2, n + 2)) * junk
        rows = r.permutation(m + 2)[:m]
        cols = r.permutation(n + 2)[:n]
        if symmetric:
            cols = rows
        big[np.ix_(rows, cols)] = mat
        inner = leaf(name, big, symmetric)
        op = L.SymmetricallyReducedLinearOperator(inner, rows) if symmetric \
            else L.ReducedLinearOperator(inner, rows, cols)
    elif form in ('shifted', 'coord'):
        op = leaf(name, mat, symmetric)
    elif form == 'block':
        i, j = m // 2, n // 2
        if symmetric:
            i = j
            op = L.BlockLinearOperator(
                [[leaf(name, mat[:i, :j], True), leaf(name + '1', mat[:i, j:], False)],
                 [leaf(name + '2', mat[i:, j:], True)]], symmetric=True)
        else:
            op = L.BlockLinearOperator(
                [[leaf(name, mat[:i, :j], False), leaf(name + '1', mat[:i, j:], False)],
                 [leaf(name + '2', mat[i:, :j], False), leaf(name + '3', mat[i:, j:], False)]])
    else:
        raise core.HarnessError('form ' + form)
    return Built(op, mat, devs)


def build_spd_op(sim, name, spec, n, near=None, general=False):
    """A preconditioner or metric: positive definite unless spec says else."""
    from pykrylov import linop as L
    kind = spec['kind']
    r = systems.rs(core.seed_of('spdop', spec['seed']))
    scale = spec.get('scale', 1.0)
    if kind == 'ident':
        return build_op(sim, name, np.eye(n), dict(spec, alias='identity'), True)
    if kind == 'diag':
        d = r.uniform(0.3, 3.0, n) * scale
        return Built(L.DiagonalOperator(d), np.diag(d), {})
    if kind == 'lbfgs':
        pairs = lbfgs_pairs(spec['seed'], n, spec.get('pairs', 3))
        cls = spec.get('cls', 'Inverse')
        op = getattr(L, cls + 'LBFGSOperator' if cls != 'Forward' else 'LBFGSOperator')(
            n, npairs=max(1, len(pairs)), scaling=spec.get('scaling', False))
        for s, y in pairs:
            op.store(s, y)
        mat = bfgs_inverse(n, pairs, spec.get('scaling', False))
        return Built(op, mat if cls == 'Inverse' else np.linalg.inv(mat), {})
    if kind == 'inv' and near is not None:
        e = r.standard_normal((n, n))
        e = e * (0.2 * np.linalg.norm(near, 2) / max(np.linalg.norm(e, 2), 1e-300)
                 / np.linalg.cond(near))
        if general:
            mat = np.linalg.inv(near + e)
            return build_op(sim, name, mat, dict(spec, form='leaf'), False)
        w, q = np.linalg.eigh((near + near.T) / 2)
        d = 1.0 / np.abs(w) * np.exp(r.uniform(-.3, .3, n))
        mat = np.dot(q * d, q.T)
        return build_op(sim, name, (mat + mat.T) / 2, dict(spec, form='leaf'), True)
    if kind == 'blockdiag' and n >= 2:
        a = systems.spd(r, n // 2, 4., scale)
        b = systems.spd(r, n - n // 2, 4., scale)
        mat = np.zeros((n, n))
        mat[:n // 2, :n // 2] = a
        mat[n // 2:, n // 2:] = b
        d1 = Device(sim, name, a, alias=spec.get('alias', 'fresh'))
        d2 = Device(sim, name + '1', b, alias=spec.get('alias', 'fresh'))
        op = L.BlockDiagonalPreconditioner(
            [L.LinearOperator(len(a), len(a), matvec=d1.mv, symmetric=True),
             L.LinearOperator(len(b), len(b), matvec=d2.mv, symmetric=True)])
        return Built(op, mat, {name: d1, name + '1': d2})
    if kind == 'indef':
        mat = systems.matrix({'kind': 'nonspd', 'n': n, 'seed': spec['seed'],
                              'cond': 3., 'scale': scale})
        return build_op(sim, name, mat, dict(spec, form='leaf'), True)
    if kind == 'unsym':
        mat = systems.matrix({'kind': 'unsym', 'n': n, 'seed': spec['seed'],
                              'cond': 3., 'scale': scale})
        return build_op(sim, name, mat, dict(spec, form='leaf'), False)
    mat = systems.spd(r, n, spec.get('cond', 5.), scale)
    return build_op(sim, name, mat, dict(spec, form='leaf'), True)


class System(object):
    """A: the true matrix; P, M, N: true preconditioner and metrics or None."""

    def __init__(self, sim, spec, no):
        self.spec = spec
        method_kind = spec['A']['kind']
        sym = method_kind in ('spd', 'sym', 'saddle', 'nonspd', 'negdef', 'identity',
                              'diag')
        aspec = spec['A']
        raw = systems.matrix(aspec)
        pre = spec.get('pre', '')
        b = build_op(sim, pre + 'A', raw, aspec,
                     aspec.get('symflag', sym))
        self.A, self.op = b.mat, b.op
        self.devices = dict(b.devices)
        m, n = self.A.shape
        self.m, self.n = m, n
        self.P = self.M = self.N = self.precon = self.Mop = self.Nop = None
        if spec.get('P'):
            p = build_spd_op(sim, pre + 'P', spec['P'], n,
                             near=self.A, general=method_kind == 'gen')
            self.P, self.precon = p.mat, p.op
            self.devices.update(p.devices)
        if spec.get('M'):
            p = build_spd_op(sim, pre + 'M', spec['M'], m)
            self.M, self.Mop = p.mat, p.op
            self.devices.update(p.devices)
        if spec.get('N'):
            p = build_spd_op(sim, pre + 'N', spec['N'], n)
            self.N, self.Nop = p.mat, p.op
            self.devices.update(p.devices)


def cast(x, dtype):
    """A vector of another type, with no entry that it cannot hold."""
    big = np.abs(x).max() if x.size else 0.
    if dtype is None or not big < 1e15 or 0 < big < 1e-15:
        return x
    if dtype.startswith('int'):
        if dtype != 'int64' and big > 1e8:
            return x
        y = np.rint(5 * x)
        if np.any(x) and not np.any(y):
            y[0] = 1
        return y.astype(dtype)
    return x.astype(dtype)


def laid_out(x, how):
    """The same vector in another memory layout."""
    if how == 'readonly':
        x.flags.writeable = False
    elif how == 'view':
        b = np.full(len(x) + 4, 77, dtype=x.dtype)
        b[2:-2] = x
        x = b[2:-2]
    elif how == 'strided':
        b = np.full(3 * len(x), 77, dtype=x.dtype)
        b[1::3] = x
        x = b[1::3]
    elif how == 'reversed':
        x = x[::-1].copy()[::-1]
    return x


class World(object):
    """All the objects of a scenario."""

    def __init__(self, sim, spec):
        self.sim, self.spec = sim, spec
        self.systems = [System(sim, s, i) for i, s in enumerate(spec['systems'])]
        self.loggers = {}
        self.vectors = {}
        self.pristine = {}
        self.solvers = [self.make_solver(s) for s in spec['solvers']]

    def logger(self, name):
        """name: 'info', 'debug' or 'x:level' ('x' shared between solvers)."""
        if name not in self.loggers:
            level = {'info': logging.INFO, 'debug': logging.DEBUG,
                     'error': logging.ERROR, 'all': 1}[name.split(':')[-1]]
            self.loggers[name] = make_logger(self.sim, name, level)
        return self.loggers[name]

    def make_solver(self, s):
        system = self.systems[s['system']]
        kw = dict(s.get('ctor', {}))
        if s.get('logger'):
            kw['logger'] = self.logger(s['logger'])
        if METHODS[s['method']]['precon'] and system.precon is not None \
                and not s.get('noprecon'):
            kw['precon'] = system.precon
        obj = method_class(s['method'])(system.op, **kw)
        return dict(obj=obj, method=s['method'], system=system, spec=s)

    def vector(self, v, n, mat=None):
        """A vector by its specification; the same array for the same one."""
        key = repr((sorted(v.items()), n))
        if key not in self.vectors:
            x = systems.vector(v['seed'], n, v.get('scale', 1.), v.get('kind', 'normal'),
                               mat)
            x = cast(x, v.get('dtype'))
            x = laid_out(x, v.get('layout'))
            self.vectors[key] = x
            self.pristine[key] = x.tobytes()
        return self.vectors[key]

    def changed_vectors(self):
        return [k for k in self.vectors if self.vectors[k].tobytes() != self.pristine[k]]

    def again(self, y):
        """Twice the preconditioner."""
        if not hasattr(y, 'again'):
            y.again = 2. * y.precon if y.precon is not None else None
        return y.again

    def solve_args(self, op):
        """(rhs, kwargs) of a solve operation."""
        e = self.solvers[op['s']]
        y = e['system']
        rhs = self.vector(op['rhs'], y.m, y.A)
        kw = dict(op.get('kw', {}))
        if op.get('precon') and e['method'] == 'minres':
            # In place of the one given to the constructor.
            kw['precon'] = {'given': y.precon, 'none': None, 'again': self.again(y)}[op['precon']]
        if op.get('guess') is not None:
            kw['guess'] = self.vector(op['guess'], y.n)
        if METHODS[e['method']]['kind'] == 'ls':
            if y.Mop is not None:
                kw['M'] = y.Mop
            if y.Nop is not None:
                kw['N'] = y.Nop
        return rhs, kw


class Outcome(object):
    """What a solve or product gave."""
    exc = None
    fields = None
    result = None
    products = 0
    raised = ()
    key = None

    def digest(self):
        if self.exc is not None:
            return 'exc:%s:%s' % (type(self.exc).__name__, self.exc)
        return core.canon([self.fields, self.result])

    def __getitem__(self, k):
        return self.fields[k]

    @property
    def claim(self):
        return bool(self.fields.get('converged', self.fields.get('optimal')))


def snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return v


def read_fields(obj, method):
    return dict((f, snapshot(getattr(obj, f, '<missing>')))
                for f in METHODS[method]['fields'])


def budget_of(method, n, m, kw):
    b = kw.get(METHODS[method]['budget'])
    if b is None or (b == 0 and method in ('lsqr', 'craig')):
        b = {'cg': 2 * n, 'cgs': 2 * n, 'bicgstab': 2 * n, 'tfqmr': 2 * n,
             'symmlq': 2 * n + 2, 'minres': 5 * n, 'lsqr': 3 * n, 'lsmr': min(m, n),
             'craig': 3 * n, 'craigmr': min(m, n)}[method]
    return b


def run_session(sim, client, key, fn, faults=(), max_calls=None, interrupt=None):
    """Run fn() as one session of a client. Returns (Outcome, Session)."""
    s = core.Session(key, faults, max_calls)
    outer, outer_lines = client.session, client.lines
    outer_interrupt = client.interrupt_at
    client.session = s
    client.lines = 0
    client.interrupt_at = None
    if interrupt is not None:
        e = core.make_exc(interrupt['exc'], 'interrupt in %s' % key)
        client.interrupt_at = (interrupt['line'], e)
    o = Outcome()
    o.key = key
    sim.log(key, 'begin')
    if sim.trace_lines:
        sys.settrace(sim.tracer)
    try:
        o.result = fn()
    except core.HarnessError:
        raise
    except BaseException as e:
        if sim.stop is not None and e is sim.stop:
            raise
        o.exc = e
    finally:
        sys.settrace(None)
        o.lines = client.lines
        client.session, client.lines = outer, outer_lines
        client.interrupt_at = outer_interrupt
        if outer is not None and sim.trace_lines:
            sys.settrace(sim.tracer)
    o.raised = s.raised
    o.session = s
    o.products = dict(s.calls)
    sim.log(key, 'end', 'exc ' + type(o.exc).__name__ if o.exc is not None else 'ok')
    return o


def do_solve(world, client, key, op, faults=(), interrupt=None, solver=None):
    """Run one solve operation; the outcome has the solver's public members."""
    sim = world.sim
    e = world.solvers[op['s']] if solver is None else solver
    rhs, kw = world.solve_args(op)
    b = budget_of(e['method'], e['system'].n, e['system'].m, kw)
    cap = 80 + 12 * (max(int(b), 0) + 5)
    o = run_session(sim, client, key, lambda: e['obj'].solve(rhs, **kw), faults,
                    cap, interrupt)
    o.method, o.system, o.obj = e['method'], e['system'], e['obj']
    o.rhs, o.kw = np.asarray(rhs, dtype=float), dict(kw)
    if kw.get('guess') is not None:
        o.kw['guess'] = np.asarray(kw['guess'], dtype=float)
    o.fields = read_fields(e['obj'], e['method'])
    if isinstance(o.result, tuple):
        o.result = [snapshot(v) for v in o.result]
    o.budget = b
    o.ctor = e['spec'].get('ctor', {})
    sim.log(key, core.canon(o.fields) if o.exc is None else 'x')
    return o


def kind_of_exc(o):
    """Where an exception came from, for reports."""
    import traceback
    tb = traceback.extract_tb(o.exc.__traceback__)
    last = [f for f in tb if f.filename.startswith(core.BUILD or '?')]
    where = '%s:%s' % (last[-1].filename.split('/pykrylov/')[-1], last[-1].name) if last else '?'
    return '%s(%s) in %s' % (type(o.exc).__name__, o.exc, where)
