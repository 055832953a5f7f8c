"""Linear systems with known properties, from seeds."""
import random

import numpy as np

from . import core


class Rs(object):
    """Random arrays from Python's generator (numpy's takes milliseconds to seed here)."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def fill(self, shape, draw):
        if shape is None:
            return draw()
        if not isinstance(shape, tuple):
            shape = (shape,)
        n = 1
        for k in shape:
            n *= k
        return np.array([draw() for _ in range(n)], dtype=float).reshape(shape)

    def standard_normal(self, shape=None):
        return self.fill(shape, lambda: self.r.gauss(0., 1.))

    def uniform(self, lo=0., hi=1., size=None):
        return self.fill(size, lambda: lo + (hi - lo) * self.r.random())

    def randint(self, lo, hi=None):
        return self.r.randrange(lo) if hi is None else self.r.randrange(lo, hi)

    def permutation(self, n):
        p = list(range(n))
        self.r.shuffle(p)
        return np.array(p, dtype=int)


def rs(seed):
    return Rs(seed)


_cache = {}


def matrix(spec):
    """The dense matrix of a system: {'kind','m','n','cond','scale','seed'}."""
    key = repr(sorted((k, v) for k, v in spec.items() if k in (
        'kind', 'm', 'n', 'cond', 'scale', 'seed', 'distinct', 'skew', 'rank', 'null')))
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        _cache[key] = make_matrix(spec)
    return _cache[key].copy()


def orth(r, n):
    q, t = np.linalg.qr(r.standard_normal((n, n)))
    return q * np.sign(np.where(np.diag(t) == 0, 1, np.diag(t)))


def spectrum(r, n, cond):
    if n == 1:
        return np.ones(1)
    d = np.exp(r.uniform(0, np.log(max(cond, 1.0 + 1e-12)), n))
    d[0], d[-1] = 1.0, cond
    return d


def spd(r, n, cond=10., scale=1., distinct=None):
    q = orth(r, n)
    d = spectrum(r, n, cond)
    if distinct:
        d = d[np.arange(n) % max(1, min(distinct, n))]
    a = np.dot(q * d, q.T) * scale
    return (a + a.T) / 2


def symind(r, n, cond=10., scale=1., distinct=None):
    q = orth(r, n)
    d = spectrum(r, n, cond)
    if distinct:
        d = d[np.arange(n) % max(1, min(distinct, n))]
    d = d * np.where(r.uniform(size=n) < 0.5, -1, 1)
    a = np.dot(q * d, q.T) * scale
    return (a + a.T) / 2


def posreal(r, n, cond=5., scale=1., skew=0.5):
    """Nonsymmetric, with a positive definite symmetric part."""
    s = spd(r, n, cond)
    k = r.standard_normal((n, n))
    k = k - k.T
    nk = np.linalg.norm(k, 2) if n > 1 else 0
    if nk > 0:
        k = k * (skew / nk)
    return (s + k) * scale


def rect(r, m, n, cond=10., scale=1., rank=None):
    u, v = orth(r, m), orth(r, n)
    p = min(m, n)
    d = spectrum(r, p, cond)
    if rank is not None and rank < p:
        d[rank:] = 0
    return np.dot(u[:, :p] * d, v[:, :p].T) * scale


def make_matrix(spec):
    if spec.get('null'):
        # Singular: the eigenvalues nearest to zero, moved there.
        w, q = np.linalg.eigh(make_matrix(dict(spec, null=0)))
        w[np.argsort(abs(w))[:min(spec['null'], len(w) - 1)]] = 0.
        a = np.dot(q * w, q.T)
        return (a + a.T) / 2
    r = rs(core.seed_of('matrix', spec['seed']))
    n = spec['n']
    m = spec.get('m', n)
    cond = spec.get('cond', 10.)
    scale = spec.get('scale', 1.)
    kind = spec['kind']
    if kind == 'spd':
        return spd(r, n, cond, scale, spec.get('distinct'))
    if kind == 'sym':
        return symind(r, n, cond, scale, spec.get('distinct'))
    if kind == 'gen':
        return posreal(r, n, cond, scale, spec.get('skew', 0.5))
    if kind == 'ls':
        return rect(r, m, n, cond, scale, spec.get('rank'))
    if kind == 'identity':
        return np.eye(n)
    if kind == 'diag':
        return np.diag(spectrum(r, n, cond)[r.permutation(n)] * scale)
    if kind == 'saddle':
        # Zero diagonal blocks, indefinite and as well-conditioned as its blocks.
        k = n // 2
        a = np.zeros((n, n))
        if k:
            a[:k, k:2 * k] = rect(r, k, k, cond)
        a = a + a.T
        if n % 2:
            a[-1, -1] = 1.
        return a * scale
    if kind == 'skew':
        # Quarter turns: b'Ab = 0 for every b.
        a = np.zeros((n, n))
        for i in range(0, n - 1, 2):
            a[i, i + 1], a[i + 1, i] = 1., -1.
        if n % 2:
            a[-1, -1] = 1.
        return a * scale
    if kind == 'negdef':
        return -spd(r, n, cond, scale)
    if kind == 'nonspd':
        a = symind(r, n, cond, scale)
        d = np.linalg.eigvalsh(a)
        if d[0] > 0:
            a = a - 1.5 * d[0] * np.eye(n) if n > 1 else -a
        return a
    if kind == 'nearsym':
        # Unsymmetric by about as much as a check can see.
        a = spd(r, n, cond, scale)
        k = r.standard_normal((n, n))
        return a + (k - k.T) * scale * 10 ** r.uniform(-6.5, -4.)
    if kind == 'unsym':
        a = posreal(r, n, cond, scale, skew=2.0)
        return a
    raise core.HarnessError('matrix ' + kind)


def vector(seed, n, scale=1., kind='normal', mat=None):
    r = rs(core.seed_of('vector', seed))
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'unit':
        v = np.zeros(n)
        v[r.randint(n)] = 1.
        return v * scale
    if kind == 'signs':
        return np.array([1. - 2. * r.randint(2) for _ in range(n)])
    if kind == 'half':
        # As of a saddle-point system: the second half is zero.
        v = r.standard_normal(n) * scale
        v[max(n // 2, 1):] = 0.
        return v
    if kind == 'eig' and mat is not None:
        w, q = np.linalg.eigh((mat + mat.T) / 2)
        return q[:, r.randint(n)] * scale
    if kind == 'range' and mat is not None:
        return np.dot(mat, r.standard_normal(mat.shape[1])) * scale
    if kind == 'null' and mat is not None:
        # Orthogonal to the range of a tall matrix.
        u, s, vt = np.linalg.svd(mat)
        p = int(np.sum(s > 1e-10 * s[0]))
        if p < n:
            return np.dot(u[:, p:], r.standard_normal(n - p)) * scale
    return r.standard_normal(n) * scale
