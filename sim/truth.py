"""What is true of the outcome of a solve, measured with dense linear algebra on
the true operator, preconditioner or metrics, shift or damping, and data."""
import numpy as np

from . import textbook
from . import world as W

EPS = 2.0 ** -52
NORM = np.linalg.norm

CODES = {'minres': range(-1, 11), 'symmlq': range(-1, 9), 'lsqr': range(0, 9),
         'lsmr': range(0, 9), 'craig': range(0, 9), 'craigmr': range(0, 9)}


# The stopping codes that stand for a solution, and those that stand for none.
SOLVED = {'minres': (-1, 1, 2, 10), 'symmlq': (-1, 1, 2)}
GIVEN_UP = {'minres': (5, 6, 7, 8, 9), 'symmlq': (4, 5, 6, 7, 8)}
for _k in W.LSS:
    SOLVED[_k], GIVEN_UP[_k] = (1, 2, 4, 5, 8), (3, 6, 7)


def is_int(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))


def is_num(v):
    return isinstance(v, (int, float, np.integer, np.floating)) \
        and not isinstance(v, (bool, np.bool_))


def solution_size(o):
    return o.system.m if o.method == 'craigmr' else o.system.n


def well_formed(o):
    """Problems with the shape of the outcome of a solve that returned."""
    bad = []
    f, mth = o.fields, o.method
    claim = f.get(W.METHODS[mth]['claim'])
    if not isinstance(claim, (bool, np.bool_)):
        bad.append('%s is %r' % (W.METHODS[mth]['claim'], claim))
    x = f.get('x')
    refused = mth == 'cg' and o.kw.get('check_symmetric') and x is None
    if refused:
        if claim:
            bad.append('converged without a solution')
        return bad
    if not isinstance(x, np.ndarray) or x.shape != (solution_size(o),) \
            or x.dtype != np.float64:
        bad.append('x is %s' % (getattr(x, 'shape', None) or type(x).__name__,))
        return bad
    if not (isinstance(f['bestSolution'], np.ndarray)
            and f['bestSolution'].tobytes() == x.tobytes()):
        bad.append('bestSolution is not x')
    if not is_int(f.get('nMatvec')) or f['nMatvec'] < 0:
        bad.append('nMatvec is %r' % (f.get('nMatvec'),))
    if mth in CODES:
        if not is_int(f.get('istop')) or f['istop'] not in CODES[mth]:
            bad.append('istop is %r' % (f.get('istop'),))
        if not is_int(f.get('itn')) or f['itn'] < 0:
            bad.append('itn is %r' % (f.get('itn'),))
        elif np.isfinite(NORM(x)) and isinstance(claim, (bool, np.bool_)) \
                and (f['istop'] in SOLVED[mth] and not claim
                     or f['istop'] in GIVEN_UP[mth] and claim):
            bad.append('%s is %s with istop %r' % (W.METHODS[mth]['claim'], claim, f['istop']))
    if mth == 'craig' and not (isinstance(f['r'], np.ndarray)
                               and f['r'].shape == (o.system.m,)):
        bad.append('r is %s' % type(f['r']).__name__)
    if mth == 'lsmr':
        t = o.result
        if not isinstance(t, list) or len(t) != 8:
            bad.append('returned %s' % type(t).__name__)
        elif not (np.array_equal(t[0], x, equal_nan=True) and t[1] == f['istop']
                  and t[2] == f['itn']):
            bad.append('the return value differs from the members')
    return bad


class Hat(object):
    """The problem in the variables in which the method needs no metric.

    A symmetric system with shift and left preconditioner P = L L' becomes
    L'(A - shift I)L xh = L'b, x = L xh. A least-squares problem with metrics
    M = Lm Lm', N = Ln Ln' becomes min |Lm'b - Lm'A Ln xh|, x = Ln xh.
    """

    def __init__(self, o):
        y, mth = o.system, o.method
        self.o, self.mth = o, mth
        n, m = y.n, y.m
        self.b = np.array(o.rhs, dtype=float)
        self.damp = 0.0
        if W.METHODS[mth]['kind'] == 'ls':
            lm = chol(y.M, m)
            ln = chol(y.N, n)
            self.Ah = np.dot(lm.T, np.dot(y.A, ln))
            self.bh = np.dot(lm.T, self.b)
            self.lm, self.ln = lm, ln
            if mth in ('lsqr', 'lsmr'):
                self.damp = float(o.kw.get('damp') or 0.0)
        else:
            A = y.A - float(o.kw.get('shift') or 0.0) * np.eye(n)
            self.A = A
            self.L = chol(y.P if W.METHODS[mth]['precon'] == 'left' else None, n)
            self.Ah = np.dot(self.L.T, np.dot(A, self.L))
            self.bh = np.dot(self.L.T, self.b)
        self.sigma = NORM(self.Ah, 2) if self.Ah.size else 0.0
        self.fro = NORM(self.Ah)
        self.normb = NORM(self.bh)

    def xh(self, x):
        if self.mth == 'craigmr':
            return np.linalg.solve(self.lm, x)
        if W.METHODS[self.mth]['kind'] == 'ls':
            return np.linalg.solve(self.ln, x)
        return np.linalg.solve(self.L, x)

    def resid(self, x):
        """The residual in hat variables (without the damping part)."""
        return self.bh - np.dot(self.Ah, self.xh(x))

    def fro_bound(self, itn):
        """A bound of the running estimate of the Frobenius norm."""
        # (No tighter: once the basis is no longer orthogonal, the process meets
        # the same large singular value again and counts it twice.)
        return np.sqrt(itn + 1.0) * np.sqrt(self.sigma ** 2 + self.damp ** 2) * 1.5


def chol(p, n):
    if p is None:
        return np.eye(n)
    return np.linalg.cholesky((p + p.T) / 2)


def floor_of(h, xs, noise=0.0):
    """The part of a residual that rounding may make up."""
    big = max([NORM(h.xh(x)) for x in xs if np.all(np.isfinite(x))] or [0.0])
    n = sum(h.Ah.shape)
    cond = 1.0
    if h.mth in ('cg', 'minres', 'symmlq'):
        cond = np.linalg.cond(h.L)
    elif W.METHODS[h.mth]['kind'] == 'ls':
        cond = np.linalg.cond(h.lm) * np.linalg.cond(h.ln)
    return (20 * EPS + 20 * noise) * n * cond * (max(h.sigma, h.damp) * big + h.normb)


def claim_problems(o, more=None, noise=0.0):
    """Whether the claim of an outcome is true. more(): all the iterates."""
    h = Hat(o)
    f, mth = o.fields, o.method
    x = f['x']
    bad = []
    if not np.all(np.isfinite(x)):
        return ['claims convergence with a solution that is not finite']

    def tight(value, bound, what, factor=1.0001, at=None):
        """value(x) <= bound, up to rounding; the floor is sharpened lazily."""
        if value <= bound * factor:
            return
        fl = floor_of(h, [x], noise)
        if value <= bound * factor + fl:
            return
        its = more() if more is not None else []
        fl = floor_of(h, list(its) + [x], noise)
        if value <= bound * factor + 10 * fl:
            return
        if mth in textbook.METHODS:
            # A near breakdown on the way costs accuracy, in any implementation.
            x0 = o.kw.get('guess')
            x0 = np.zeros(o.system.n) if x0 is None else x0
            fl += (EPS + noise) * 100 * textbook.peak(mth, h, o.system.P, o.rhs, x0,
                                                      o.fields['nMatvec'] + 2)
            if value <= bound * factor + fl:
                return
        bad.append('%s: %.6g exceeds %.6g (rounding %.1e)' % (what, value, bound, fl))

    if mth in ('cg', 'cgs', 'bicgstab', 'tfqmr'):
        x0 = o.kw.get('guess')
        x0 = np.zeros(o.system.n) if x0 is None else x0
        r0 = NORM(np.dot(h.L.T, h.b - np.dot(h.A, x0)))
        obj = o.obj
        ctor = o.ctor
        bound = max(ctor.get('abstol', 1e-8), ctor.get('reltol', 1e-6) * r0)
        tight(NORM(h.resid(x)), bound, 'residual norm against its threshold')
        return bad

    istop = f['istop']
    if istop == 0 and not (mth in ('lsqr', 'lsmr')):
        if np.any(x) or h.normb > 1e-150:
            bad.append('istop 0 (zero solution), but |b| is %g and |x| %g'
                       % (h.normb, NORM(x)))
        return bad
    if mth in ('minres', 'symmlq'):
        r = NORM(h.resid(x))
        itn = f['itn']
        if istop == -1:
            tight(r, 1e-10 * h.normb, 'istop -1: residual')
        elif istop in (1, 2) and (istop == 1 or mth == 'symmlq'):
            rtol = o.kw.get('rtol', 1e-12 if mth == 'minres' else 1e-9)
            if istop == 2:
                rtol = EPS
            size = NORM(h.xh(x))
            # MINRES takes the norm of x itself, in the norm without preconditioner.
            if mth == 'minres':
                size = max(size, NORM(x))
            tight(r, rtol * h.fro_bound(itn + 1) * size, 'istop %d: residual' % istop, 1.01)
        elif istop == 2:
            rtol = o.kw.get('rtol', 1e-12)
            ok = False
            its = list(more())[-2:] if more is not None else []
            worst = []
            for z in its + [x]:
                rz = h.resid(z)
                q = NORM(np.dot(h.Ah, rz)) / max(NORM(rz), 1e-300)
                worst.append(q)
                if q <= max(rtol, 10 * EPS) * h.fro_bound(itn) * 1.01 \
                        or NORM(rz) <= floor_of(h, its + [x], noise):
                    ok = True
            if not ok:
                bad.append('istop 2: |Ar|/|r| is %s, |A| %g' % (worst, h.fro))
        elif istop == 3:
            if h.fro_bound(itn) * NORM(h.xh(x)) * EPS * 100 < h.normb:
                bad.append('istop 3 on a well-conditioned system')
        elif istop == 10:
            direct_error(o, h, more, bad, noise)
        else:
            bad.append('claims convergence with istop %r' % istop)
        return bad

    # Least squares.
    d = h.damp
    if istop == 8:
        direct_error(o, h, more, bad, noise)
        return bad
    if mth in ('lsqr', 'lsmr'):
        xh = h.xh(x)
        rh = h.resid(x)
        rn = np.sqrt(NORM(rh) ** 2 + (d * NORM(xh)) ** 2)
        an = NORM(np.dot(h.Ah.T, rh) - d * d * xh)
        F = h.fro_bound(f['itn'] + 1)
        if istop == 0:
            if np.any(x):
                bad.append('istop 0, but x is not zero')
            tight(an, 1e-12 * h.sigma * h.normb, 'istop 0: normal residual of zero')
        elif istop in (1, 4):
            atol, btol = (o.kw.get('atol', 1e-9), o.kw.get('btol', 1e-9)) \
                if istop == 1 else (2 * EPS, 2 * EPS)
            size = NORM(xh)
            if mth == 'lsmr':
                size = max(size, NORM(x))
            tight(rn, btol * h.normb + atol * F * size, 'istop %d: residual' % istop, 1.01)
        elif istop in (2, 5):
            atol = o.kw.get('atol', 1e-9) if istop == 2 else 2 * EPS
            fl = floor_of(h, [x], noise) * np.sqrt(h.sigma ** 2 + d * d)
            if an > atol * F * rn * 1.01 + 10 * fl:
                its = list(more()) if more is not None else []
                fl = floor_of(h, its + [x], noise) * np.sqrt(h.sigma ** 2 + d * d)
                if an > atol * F * rn * 1.01 + 100 * fl:
                    bad.append('istop %d: normal residual %g exceeds %g'
                               % (istop, an, atol * F * rn))
        else:
            bad.append('claims to be optimal with istop %r' % istop)
        return bad
    if mth == 'craig' and istop in (1, 4):
        btol = o.kw.get('btol', 1e-9) if istop == 1 else 2 * EPS
        vals = []
        pairs = [(f['x'], f['r'])]
        if more is not None:
            pairs += more.pairs()[-2:]
        for z, r in pairs:
            rh = np.linalg.solve(h.lm, r)
            vals.append(NORM(h.bh - rh - np.dot(h.Ah, h.xh(z))))
        tight(min(vals), btol * h.normb, 'istop %d: residual of the system' % istop, 1.01)
        rh = np.linalg.solve(h.lm, f['r'])
        gap = NORM(np.dot(h.Ah.T, rh) - h.xh(x))
        if gap > 1e-6 * (NORM(h.xh(x)) + h.sigma * NORM(rh)) + 1e-300:
            bad.append("istop %d: A'r and x differ by %g" % (istop, gap))
        return bad
    bad.append('claims to be optimal with istop %r' % istop)
    return bad


def direct_error(o, h, more, bad, noise):
    """The truncated direct error is small relative to the solution."""
    window = o.kw.get('window', 5)
    etol = o.kw.get('etol', 1e-6)
    its = list(more()) if more is not None else None
    if its is None:
        return
    if o.method == 'craig':
        its = [r for _, r in more.pairs()]
    if len(its) < window + 1 or o.fields['itn'] <= window:
        bad.append('a direct error claim after %d iterations, window %d'
                   % (o.fields['itn'], window))
        return
    new, old = its[-1], its[-1 - window]
    d = h.damp

    def energy(v):
        if o.method == 'craig':
            v = np.linalg.solve(h.lm, v)
            return np.sqrt(NORM(v) ** 2 + NORM(np.dot(h.Ah.T, v)) ** 2)
        v = h.xh(v)
        if o.method == 'craigmr':
            return NORM(v + np.dot(h.Ah, np.dot(h.Ah.T, v)))
        if o.method == 'lsmr':
            return NORM(np.dot(h.Ah.T, np.dot(h.Ah, v)) + d * d * v)
        return np.sqrt(NORM(np.dot(h.Ah, v)) ** 2 + (d * NORM(v)) ** 2)

    e, full = energy(new - old), energy(new)
    fl = (1e-13 + noise) * full * 100
    if o.method in ('craig', 'craigmr'):
        # Rounding in an iterate is relative to b, not to the iterate, wherever
        # I + AA' leaves b as it is; the energy norm then multiplies it.
        q = max(NORM(np.linalg.solve(h.lm, v)) for v in its)
        fl += 100 * EPS * (1 + h.sigma) ** (2 if o.method == 'craigmr' else 1) \
            * (h.normb + q)
    if e > 1.02 * etol * full + fl:
        bad.append('direct error %g of the last %d steps exceeds %g * %g'
                   % (e, window, etol, full))
