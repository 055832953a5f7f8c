"""The methods that guarantee nothing, as textbooks give them."""
import numpy as np

NORM = np.linalg.norm


def converges(mth, h, P, b, x0, thr, limit):
    """Whether the textbook method converges with ease."""
    A = h.A if P is None else np.dot(h.A, P)
    r0 = np.array(b - np.dot(h.A, x0))
    if NORM(r0) <= thr:
        return True
    # The quasi-minimal residual of TFQMR is below that of CGS, up to a root of
    # the steps.
    goal = thr * (.005 if mth == 'tfqmr' else .1)
    with np.errstate(all='ignore'):
        peak, steps = METHODS[mth](A, r0, goal, limit // 4)
    return steps is not None and peak <= 1e4 * NORM(r0)


def peak(mth, h, P, b, x0, steps):
    """The largest vector that the method adds up: it sets its attainable accuracy."""
    A = h.A if P is None else np.dot(h.A, P)
    r0 = np.array(b - np.dot(h.A, x0))
    with np.errstate(all='ignore'):
        v = METHODS[mth](A, r0, 0., steps, 0.)[0]
    return v if np.isfinite(v) else np.inf


def stuck(v, a, b, least):
    return not abs(v) > least * NORM(a) * NORM(b)


def cgs(A, r0, thr, steps, least=1e-6):
    r, p, q = r0.copy(), np.zeros(len(r0)), np.zeros(len(r0))
    rho, peak = 1., NORM(r0)
    size = NORM(A, 2)
    for k in range(steps):
        rho1 = np.dot(r0, r)
        beta = rho1 / rho if k else 0.
        u = r + beta * q
        p = u + beta * (q + beta * p)
        v = np.dot(A, p)
        s = np.dot(r0, v)
        if stuck(s, r0, v, least) or stuck(rho1, r0, r, least):
            return peak, None
        q = u - rho1 / s * v
        r = r - rho1 / s * np.dot(A, u + q)
        peak = max(peak, NORM(r), abs(rho1 / s) * size * (NORM(u) + NORM(q)))
        rho = rho1
        if NORM(r) <= thr:
            return peak, k
    return peak, None


def bicgstab(A, r0, thr, steps, least=1e-6):
    r, p, v = r0.copy(), np.zeros(len(r0)), np.zeros(len(r0))
    rho = alpha = omega = 1.
    peak = NORM(r0)
    size = NORM(A, 2)
    for k in range(steps):
        rho1 = np.dot(r0, r)
        beta = rho1 / rho * alpha / omega if k else 0.
        p = r + beta * (p - omega * v)
        v = np.dot(A, p)
        s0 = np.dot(r0, v)
        if stuck(s0, r0, v, least) or stuck(rho1, r0, r, least):
            return peak, None
        alpha = rho1 / s0
        s = r - alpha * v
        peak = max(peak, NORM(s), abs(alpha) * size * NORM(p))
        if NORM(s) <= thr:
            return peak, k
        t = np.dot(A, s)
        omega = np.dot(t, s) / np.dot(t, t)
        if abs(omega) <= least:
            return peak, None
        r = s - omega * t
        rho = rho1
        peak = max(peak, NORM(r), abs(omega) * size * NORM(s))
        if NORM(r) <= thr:
            return peak, k
    return peak, None


METHODS = {'cgs': cgs, 'tfqmr': cgs, 'bicgstab': bicgstab}


def tfqmr(A, r0, steps, least=1e-2):
    """(products, bound of the residual) of each half step, while it is reliable."""
    w, y, d = r0.copy(), r0.copy(), np.zeros(len(r0))
    v = u = np.dot(A, y)
    tau, theta, rho, m, made = NORM(r0), 0., np.dot(r0, r0), 0, 1
    out = []
    while made <= min(steps, 8):
        sigma = np.dot(r0, v)
        if stuck(sigma, r0, v, least):
            return out
        alpha = rho / sigma
        for half in (0, 1):
            if half:
                y = y - alpha * v
                u = np.dot(A, y)
                made += 1
            m += 1
            w = w - alpha * u
            theta = NORM(w) / tau
            c = 1. / np.sqrt(1. + theta ** 2)
            tau = tau * theta * c
            out.append((made, tau * np.sqrt(m + 1.)))
            if NORM(w) > 1e3 * NORM(r0) or not tau > 1e-4 * NORM(r0):
                return out
        rho1 = np.dot(r0, w)
        if stuck(rho1, r0, w, least):
            return out
        beta = rho1 / rho
        rho = rho1
        v = u * beta + beta * beta * v
        y = w + beta * y
        u = np.dot(A, y)
        made += 1
        v = u + v
    return out


def lanczos(A, b, vectors=False):
    """The tridiagonal matrix, with vectors kept orthogonal: diagonal, subdiagonal."""
    al, be, V = [], [], []
    size = NORM(A, 2)
    v = b / NORM(b)
    while True:
        V.append(v)
        w = np.dot(A, v)
        al.append(np.dot(v, w))
        for _ in (0, 1):
            for q in V:
                w = w - np.dot(q, w) * q
        n = NORM(w)
        if not n > 1e-9 * size or len(V) == len(b):
            be.append(0.)
            return (np.array(al), np.array(be)) + ((V,) if vectors else ())
        be.append(n)
        v = w / n


def tnorm(al, be, k):
    """The norm of the tridiagonal matrix of k steps and one more row."""
    k = min(k, len(al))
    return np.sqrt(np.sum(al[:k] ** 2) + np.sum(be[:k] ** 2) + np.sum(be[:k - 1] ** 2))


def lq_points(A, b, count):
    """The first LQ points, as long as the Lanczos process lasts."""
    if not NORM(b) > 0:
        return [np.zeros(len(b))]
    al, be, V = lanczos(A, b, True)
    out = [np.zeros(len(b))]
    for k in range(1, min(count, len(al))):
        T = np.zeros((k, k + 1))
        for i in range(k):
            T[i, i], T[i, i + 1] = al[i], be[i]
            if i:
                T[i, i - 1] = be[i - 1]
        e = np.zeros(k)
        e[0] = NORM(b)
        y = np.linalg.lstsq(T, e, rcond=None)[0]
        out.append(np.dot(np.array(V[:k + 1]).T, y))
    return out


def golub_kahan(A, b, vectors=False):
    """The bidiagonal matrix: its diagonal, its subdiagonal, |b|, and the vectors."""
    al, be, U, V = [], [], [], []
    size = NORM(A, 2)
    u = b / NORM(b)
    v = np.zeros(A.shape[1])
    while True:
        U.append(u)
        v = np.dot(A.T, u)
        for _ in (0, 1):
            for q in V:
                v = v - np.dot(q, v) * q
        n = NORM(v)
        if not n > 1e-9 * size:
            break
        al.append(n)
        v = v / n
        V.append(v)
        u = np.dot(A, v)
        for _ in (0, 1):
            for q in U:
                u = u - np.dot(q, u) * q
        n = NORM(u)
        if not n > 1e-9 * size or len(U) == len(b):
            be.append(0.)
            break
        be.append(n)
        u = u / n
    return (np.array(al), np.array(be), NORM(b)) + ((U, V) if vectors else ())


def lsqr_condition(h, k):
    """What LSQR takes for the condition number after k steps (without a metric N)."""
    if h.o.system.N is not None:
        return None
    al, be, _ = golub_kahan(h.Ah, h.bh)
    if k > len(al):
        return None
    d = h.damp
    B = np.zeros((k + 1, k))
    for i in range(k):
        B[i, i], B[i + 1, i] = al[i], be[i]
    s = np.sqrt(np.linalg.svd(B, compute_uv=False) ** 2 + d * d)
    return np.sqrt(np.sum(al[:k] ** 2) + np.sum(be[:k] ** 2) + k * d * d) \
        * np.sqrt(np.sum(s ** -2.))


def lsmr_condition(h, k):
    """What LSMR takes for the condition number after k steps."""
    al, be, _ = golub_kahan(h.Ah, h.bh)
    if k > len(al):
        return None
    B = np.zeros((2 * k + 1, k))
    for i in range(k):
        B[i, i], B[i + 1, i], B[k + 1 + i, i] = al[i], be[i], h.damp
    d = np.abs(np.diag(np.linalg.qr(np.linalg.qr(B)[1].T)[1]))
    return d.max() / d.min() if d.min() > 0 else None


def lasting(A, b, ls, most=1e-8):
    """For how many steps the plain process keeps its vectors orthogonal."""
    V = []
    v, beta = b / NORM(b), 0.
    u, old = v, np.zeros(len(v))
    if ls:
        v, old, alpha = None, None, 0.
        U = []
        while True:
            U.append(u)
            w = np.dot(A.T, u) - (beta * v if v is not None else 0.)
            alpha = NORM(w)
            if not alpha > 0:
                return len(V)
            v = w / alpha
            V.append(v)
            w = np.dot(A, v) - alpha * u
            beta = NORM(w)
            for Q in (np.array(V).T, np.array(U).T):
                if np.abs(np.dot(Q.T, Q) - np.eye(Q.shape[1])).max() > most:
                    return len(V) - 1
            if not beta > 0 or len(V) > len(b):
                return len(V)
            u = w / beta
    while True:
        V.append(v)
        Q = np.array(V).T
        if np.abs(np.dot(Q.T, Q) - np.eye(len(V))).max() > most:
            return len(V) - 1
        w = np.dot(A, v) - beta * old
        w = w - np.dot(v, w) * v
        beta = NORM(w)
        if not beta > 0 or len(V) > len(b):
            return len(V)
        old, v = v, w / beta


# The iterates of the methods without guarantees, from zero, by products made, as long
# as no division is by nearly nothing and no residual grows much.

def safe(r0, r):
    return 1e-5 * NORM(r0) < NORM(r) < 1e2 * NORM(r0)


def cgs_points(A, r0, products, least=1e-2):
    x, r, u, p = np.zeros(len(r0)), r0, r0, r0
    rho, out = np.dot(r0, r0), [np.zeros(len(r0))]
    while len(out) <= products:
        v = np.dot(A, p)
        s = np.dot(r0, v)
        if stuck(s, r0, v, least):
            break
        q = u - rho / s * v
        x = x + rho / s * (u + q)
        r = r - rho / s * np.dot(A, u + q)
        out += [None, x]
        new = np.dot(r0, r)
        if not safe(r0, r) or stuck(new, r0, r, least):
            break
        u = r + new / rho * q
        p = u + new / rho * (q + new / rho * p)
        rho = new
    return [out[i] if out[i] is not None else out[i - 1] for i in range(len(out))]


def bicgstab_points(A, r0, products, least=1e-2):
    x, r, p = np.zeros(len(r0)), r0, r0
    rho, out = np.dot(r0, r0), [np.zeros(len(r0))]
    while len(out) <= products:
        v = np.dot(A, p)
        if stuck(np.dot(r0, v), r0, v, least):
            break
        alpha = rho / np.dot(r0, v)
        s = r - alpha * v
        out.append(x + alpha * p)
        if not safe(r0, s):
            break
        t = np.dot(A, s)
        if stuck(np.dot(t, s), t, s, least):
            break
        omega = np.dot(t, s) / np.dot(t, t)
        x = x + alpha * p + omega * s
        r = s - omega * t
        out.append(x)
        new = np.dot(r0, r)
        if not safe(r0, r) or stuck(new, r0, r, least):
            break
        p = r + new / rho * alpha / omega * (p - omega * v)
        rho = new
    return out


def tfqmr_points(A, r0, products, least=1e-2):
    x, w, y, d = np.zeros(len(r0)), r0, r0, np.zeros(len(r0))
    v = u = np.dot(A, y)
    tau, theta, eta, rho = NORM(r0), 0., 0., np.dot(r0, r0)
    out = [x]
    while len(out) <= products:
        if stuck(np.dot(r0, v), r0, v, least):
            break
        alpha = rho / np.dot(r0, v)
        for half in (0, 1):
            if half:
                y = y - alpha * v
                u = np.dot(A, y)
            w = w - alpha * u
            d = y + theta ** 2 * eta / alpha * d
            theta = NORM(w) / tau
            c2 = 1. / (1. + theta ** 2)
            tau, eta = tau * theta * np.sqrt(c2), c2 * alpha
            x = x + eta * d
            out.append(x)
            if not safe(r0, w):
                return out
        new = np.dot(r0, w)
        if stuck(new, r0, w, least):
            break
        y2 = w + new / rho * y
        u2 = np.dot(A, y2)
        v = u2 + new / rho * (u + new / rho * v)
        y, u, rho = y2, u2, new
    return out
