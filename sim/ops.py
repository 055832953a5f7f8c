"""Operators of every kind beside the dense matrices they should apply.

A node holds a pykrylov operator (op) and can tell the matrix that it should
apply at this moment (mat), computed from its parts as they are now.
"""
import numpy as np

from . import core
from . import systems
from . import world as W
from .devices import Device, cholesky_operator, sparse_matrix


def small(r, shape, cplx=False):
    """An array of small dyadic numbers: sums and products of them are exact."""
    if not isinstance(shape, tuple):
        shape = (shape,)
    n = 1
    for k in shape:
        n *= k

    def draw():
        return np.array([r.randint(-8, 9) for _ in range(n)], dtype=float).reshape(shape) / 4
    a = draw()
    return a + 1j * draw() if cplx else a


def leaf_matrix(spec):
    r = systems.rs(core.seed_of('leaf', spec['seed']))
    m, n, c = spec['m'], spec['n'], spec.get('c', False)
    a = small(r, (m, n), c)
    flag = spec.get('flag', '')
    if flag == 'sym':
        a = np.triu(a) + np.triu(a, 1).T
    elif flag == 'herm':
        a = np.triu(a) + np.triu(a, 1).conj().T
        if c:
            a[np.diag_indices(m)] = a.diagonal().real
    return a


class Node(object):
    """kids: the nodes of its parts; parts that may be edited live in them."""

    def __init__(self, spec, op, kids=()):
        self.spec, self.op, self.kids = spec, op, list(kids)
        self.pairs = None           # of an L-BFGS operator
        self.grid = None            # of a block operator: the nodes, row by row
        self.devices = []
        self.fixed = None

    def mat(self):
        s, k = self.spec, self.kids
        kind = s['k']
        if self.grid is not None:
            return self.grid_mat()
        if self.pairs is not None:
            h = W.bfgs_inverse(s['n'], self.pairs[-s['npairs']:], s.get('scaling', False))
            return h if s['form'] == 'InverseLBFGSOperator' else np.linalg.inv(h)
        if self.devices:
            return self.devices[0].mat
        if self.fixed is not None:
            return self.fixed
        if kind == 'sum':
            return k[0].mat() + k[1].mat()
        if kind == 'sub':
            return k[0].mat() - k[1].mat()
        if kind == 'mul':
            return np.dot(k[0].mat(), k[1].mat())
        if kind in ('scal', 'rscal'):
            return k[0].mat() * scalar(s['c'])
        if kind == 'div':
            return k[0].mat() / scalar(s['c'])
        if kind == 'neg':
            return -k[0].mat()
        if kind == 'pow':
            return np.linalg.matrix_power(k[0].mat(), s['p'])
        if kind == 'red':
            return k[0].mat()[np.ix_(s['rows'], s['cols'])]
        if kind == 'sred':
            return k[0].mat()[np.ix_(s['idx'], s['idx'])]
        if kind == 'T':
            return k[0].mat().T
        if kind == 'H':
            return k[0].mat().conj().T
        if kind == 'bar':
            return k[0].mat().conj()
        raise core.HarnessError('node ' + kind)

    def grid_mat(self):
        if self.spec['k'] == 'bdiag':
            ms = [b.mat() for b in self.grid]
            out = np.zeros((sum(a.shape[0] for a in ms), sum(a.shape[1] for a in ms)),
                           dtype=np.result_type(*ms))
            i = j = 0
            for a in ms:
                out[i:i + a.shape[0], j:j + a.shape[1]] = a
                i, j = i + a.shape[0], j + a.shape[1]
            return out
        flag = self.spec.get('flag', '')
        rows = []
        for i, row in enumerate(self.grid):
            r = []
            for j in range(len(self.grid[0]) if not flag else len(self.grid)):
                if flag and j < i:
                    a = self.grid[j][i - j].mat().T
                    r.append(a.conj() if flag == 'herm' else a)
                else:
                    r.append(row[j - i if flag else j].mat())
            rows.append(np.concatenate(r, axis=1))
        return np.concatenate(rows, axis=0)

    def bound(self):
        """A number that products with unit vectors stay below."""
        s, k = self.spec['k'], self.kids
        if s in ('sum', 'sub'):
            return k[0].bound() + k[1].bound()
        if s == 'mul':
            return k[0].bound() * k[1].bound()
        if s == 'pow':
            return max(1., k[0].bound()) ** self.spec['p']
        if s in ('scal', 'rscal'):
            return abs(scalar(self.spec['c'])) * k[0].bound()
        if s == 'div':
            return k[0].bound() / abs(scalar(self.spec['c']))
        if k:
            return k[0].bound()
        a = self.mat()
        b = float(np.sqrt(np.sum(np.abs(a) ** 2)))
        if self.pairs is not None:
            b *= 1e3
        return b

    def all(self):
        yield self
        if self.grid is not None:
            for row in self.grid:
                for b in (row if isinstance(row, list) else [row]):
                    for x in b.all():
                        yield x
        for k in self.kids:
            for x in k.all():
                yield x


def scalar(c):
    """Scalars as JSON: a number, or [type, ...]."""
    if isinstance(c, list):
        if c[0] == 'complex':
            return complex(c[1], c[2])
        return {'float64': np.float64, 'int64': np.int64, 'float32': np.float32}[c[0]](c[1])
    return c


class Maker(object):
    """Makes nodes from their specifications, with devices of unique names."""

    def __init__(self, sim):
        self.sim = sim
        self.count = 0
        self.devices = []

    def device(self, mat, alias):
        d = Device(self.sim, 'D%d' % self.count, mat, alias=alias)
        self.count += 1
        self.devices.append(d)
        return d

    def make(self, spec):
        n = getattr(self, 'make_' + spec['k'], self.make_composite)(spec)
        return n

    def make_leaf(self, spec):
        from pykrylov import linop as L
        a = leaf_matrix(spec)
        d = self.device(a, spec.get('alias', 'fresh'))
        kw = {}
        if np.iscomplexobj(a):
            kw['dtype'] = np.complex128
        flag, give = spec.get('flag', ''), spec.get('give', 'T')
        if 'wrap' in spec:
            sym = flag == 'sym'
            if spec['wrap'] == 'cholesky' and sym:
                op = cholesky_operator(d)
            else:
                style = spec['wrap'] if spec['wrap'] != 'cholesky' else 0
                op = L.PysparseLinearOperator(sparse_matrix(d, sym, style))
            node = Node(spec, op)
            node.devices = [d]
            return node
        if flag == 'sym':
            kw['symmetric'] = True
            if not spec.get('c') and give == 'TH':
                kw['hermitian'] = True
        elif flag == 'herm':
            kw['hermitian'] = True
            if not spec.get('c'):
                kw['symmetric'] = True
        if 'T' in give:
            kw['matvec_transp'] = d.mt
        if 'H' in give:
            kw['matvec_adj'] = d.ma
        node = Node(spec, L.LinearOperator(spec['n'], spec['m'], matvec=d.mv, **kw))
        node.devices = [d]
        return node

    def fixed(self, spec, op, mat):
        node = Node(spec, op)
        node.fixed = mat
        return node

    def make_array(self, spec):
        from pykrylov import linop as L
        a = leaf_matrix(spec)
        if spec.get('int'):
            a = np.round(a * 4).astype(int)
        flag = spec.get('flag', '')
        kw = {'symmetric': flag == 'sym' or (flag == 'herm' and not spec.get('c'))}
        if flag == 'herm':
            kw['hermitian'] = True
        return self.fixed(spec, L.linop_from_ndarray(a.copy(), **kw), a)

    def make_diag(self, spec):
        from pykrylov import linop as L
        d = small(systems.rs(core.seed_of('diag', spec['seed'])), spec['n'], spec.get('c'))
        if spec.get('int'):
            d = np.round(d * 4).astype(int)
        if spec.get('abs'):
            op = abs(L.DiagonalOperator(d))
            d = np.abs(d)
        elif spec.get('sqrt'):
            d = np.abs(d)
            op, d = L.sqrt(L.DiagonalOperator(d)), np.sqrt(d)
        else:
            op = L.DiagonalOperator(d.copy())
        return self.fixed(spec, op, np.diag(d))

    def make_ident(self, spec):
        from pykrylov import linop as L
        return self.fixed(spec, L.IdentityOperator(spec['n']), np.eye(spec['n']))

    def make_zero(self, spec):
        from pykrylov import linop as L
        return self.fixed(spec, L.ZeroOperator(spec['n'], spec['m']),
                          np.zeros((spec['m'], spec['n'])))

    def make_coord(self, spec):
        """Coordinates, with repeated and unsorted entries."""
        from pykrylov import linop as L
        r = systems.rs(core.seed_of('coord', spec['seed']))
        m, n, c, sym = spec['m'], spec['n'], spec.get('c', False), spec.get('flag') == 'sym'
        nnz = spec.get('nnz', 5)
        rows = np.array([r.randint(m) for _ in range(nnz)] + [m - 1], dtype=int)
        cols = np.array([r.randint(n) for _ in range(nnz)] + [n - 1], dtype=int)
        vals = small(r, nnz + 1, c)
        if sym:
            tri = spec.get('lower', False)
            lo, hi = np.minimum(rows, cols), np.maximum(rows, cols)
            rows, cols = (hi, lo) if tri else (lo, hi)
        a = np.zeros((m, n), dtype=vals.dtype)
        for i, j, v in zip(rows, cols, vals):
            a[i, j] += v
            if sym and i != j:
                a[j, i] += v
        kw = {} if spec.get('infer') else {'nargin': n, 'nargout': m}
        op = L.CoordLinearOperator(vals, rows, cols, symmetric=sym, **kw)
        return self.fixed(spec, op, a)

    def make_lbfgs(self, spec):
        from pykrylov import linop as L
        op = getattr(L, spec['form'])(spec['n'], npairs=spec['npairs'],
                                      scaling=spec.get('scaling', False))
        node = Node(spec, op)
        node.pairs = []
        for i in range(spec.get('stored', 2)):
            self.store(node, spec['seed'] + i)
        return node

    def store(self, node, seed):
        s, y = W.lbfgs_pairs(seed, node.spec['n'], 1)[0]
        node.pairs.append((s.copy(), y.copy()))
        node.op.store(s, y)

    def make_block(self, spec):
        from pykrylov import linop as L
        grid = [[self.make(b) for b in row] for row in spec['rows']]
        kw = {'sym': {'symmetric': True}, 'herm': {'hermitian': True}}.get(
            spec.get('flag', ''), {})
        if spec.get('flag') and not spec.get('c'):
            kw = {'symmetric': True, 'hermitian': spec['flag'] == 'herm'}
            if not kw['hermitian']:
                kw.pop('hermitian')
        node = Node(spec, None)
        node.lists = [[b.op for b in row] for row in grid]
        node.op = getattr(L, spec.get('cls', 'BlockLinearOperator'))(node.lists, **kw)
        node.grid = grid
        return node

    def make_bdiag(self, spec):
        from pykrylov import linop as L
        grid = [self.make(b) for b in spec['rows']]
        node = Node(spec, None)
        node.lists = [b.op for b in grid]
        node.op = getattr(L, spec.get('cls', 'BlockDiagonalLinearOperator'))(node.lists)
        node.grid = grid
        return node

    def make_composite(self, spec):
        from pykrylov import linop as L
        k = [self.make(s) for s in spec['of']]
        o = [x.op for x in k]
        kind = spec['k']
        if kind == 'sum':
            op = o[0] + o[1]
        elif kind == 'sub':
            op = o[0] - o[1]
        elif kind == 'mul':
            op = o[0] * o[1]
        elif kind == 'scal':
            op = o[0] * scalar(spec['c'])
        elif kind == 'rscal':
            op = scalar(spec['c']) * o[0]
        elif kind == 'div':
            op = o[0] / scalar(spec['c'])
        elif kind == 'neg':
            op = -o[0]
        elif kind == 'pow':
            op = o[0] ** spec['p']
        elif kind == 'red':
            op = L.ReducedLinearOperator(o[0], spec['rows'], spec['cols'])
        elif kind == 'sred':
            op = L.SymmetricallyReducedLinearOperator(o[0], spec['idx'])
        elif kind == 'T':
            op = o[0].T
        elif kind == 'H':
            op = o[0].H
        elif kind == 'bar':
            op = o[0].bar
        else:
            raise core.HarnessError('node ' + kind)
        return Node(spec, op, k)


def chain_mat(mat, chain):
    for c in chain:
        mat = {'T': lambda a: a.T, 'H': lambda a: a.conj().T, 'bar': lambda a: a.conj()}[c](mat)
    return mat


def chain_op(op, chain):
    for c in chain:
        op = getattr(op, c)
    return op


def vector(seed, n, cplx=False):
    return small(systems.rs(core.seed_of('ovec', seed)), n, cplx)


def shape(spec):
    """The shape that a specification makes; an error if its parts do not fit."""
    k = spec['k']
    if k in ('block', 'bdiag'):
        rows = [[shape(b) for b in (r if isinstance(r, list) else [r])] for r in spec['rows']]
        if k == 'bdiag':
            return (sum(r[0][0] for r in rows), sum(r[0][1] for r in rows))
        flag = spec.get('flag', '')
        for i, r in enumerate(rows):
            first = rows[0][i:] if flag else rows[0]
            fit([b[1] for b in r] == [b[1] for b in first])
            fit(all(b[0] == r[0][0] for b in r))
            if flag:
                fit(r[0][0] == r[0][1])
        fit(not flag or len(rows) == len(rows[0]))
        return (sum(r[0][0] for r in rows), sum(b[1] for b in rows[0]))
    if 'of' in spec:
        o = [shape(b) for b in spec['of']]
        if k in ('sum', 'sub'):
            fit(o[0] == o[1])
        elif k == 'mul':
            fit(o[0][1] == o[1][0])
            return (o[0][0], o[1][1])
        elif k in ('T', 'H'):
            return (o[0][1], o[0][0])
        elif k == 'pow':
            fit(o[0][0] == o[0][1])
        elif k == 'red':
            fit(max(spec['rows']) < o[0][0] and max(spec['cols']) < o[0][1])
            return (len(spec['rows']), len(spec['cols']))
        elif k == 'sred':
            fit(o[0][0] == o[0][1] and max(spec['idx']) < o[0][0])
            return (len(spec['idx']), len(spec['idx']))
        return o[0]
    m = spec.get('m', spec['n'])
    fit(m >= 1 and spec['n'] >= 1)
    if k in ('diag', 'ident', 'lbfgs') or spec.get('flag'):
        fit(m == spec['n'])
    return (m, spec['n'])


def fit(ok):
    if not ok:
        raise ValueError('the parts do not fit')


def declared(spec):
    """The shape that a specification says, which its parts must agree with."""
    s = shape(spec)
    if 'm' in spec and 'n' in spec:
        fit(s == (spec['m'], spec['n']))
    for part in spec.get('of', []):
        declared(part)
    for row in spec['rows'] if spec['k'] in ('block', 'bdiag') else ():
        for b in (row if isinstance(row, list) else [row]):
            declared(b)
    return s


def real(spec):
    """The same without complex parts."""
    if isinstance(spec, dict):
        return dict((k, real(v)) for k, v in spec.items() if not (k == 'c' and v is True))
    if isinstance(spec, list):
        return [real(v) for v in spec]
    return spec
