"""Shrinks a failing scenario while it still fails in the same way."""
import copy
import json
import time

# Lists from which elements may be dropped, and numbers that may be lowered.
LISTS = ('clients', 'ops', 'faults', 'switches', 'steps', 'history', 'pairs_ops',
         'program', 'edits')
OPTIONAL = ('P', 'M', 'N', 'guess', 'logger', 'kw', 'ctor', 'interrupt', 'noise',
            'distinct', 'kind_rhs')
LOWER = {'n': 1, 'm': 1, 'matvec_max': 0, 'itnlim': 1, 'npairs': 1, 'k': 0}
SIMPLE = {'alias': 'fresh', 'form': 'leaf', 'scale': 1.0, 'cond': 2.0}


def paths(node, at=()):
    yield at, node
    if isinstance(node, dict):
        for k in sorted(node, key=str):
            for p in paths(node[k], at + (k,)):
                yield p
    elif isinstance(node, list):
        for i, v in enumerate(node):
            for p in paths(v, at + (i,)):
                yield p


def edit(sc, at, fn):
    c = copy.deepcopy(sc)
    node = c
    for k in at[:-1]:
        node = node[k]
    fn(node, at[-1])
    return c


def candidates(sc):
    """Simpler scenarios, the boldest first."""
    for at, node in list(paths(sc)):
        if not at:
            continue
        key = at[-1]
        if isinstance(node, list) and key in LISTS and node:
            n = len(node)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    def cut(par, k, i=i, size=size):
                        par[k] = par[k][:i] + par[k][i + size:]
                    yield edit(sc, at, cut)
                if size == 1:
                    break
                size = (size + 1) // 2
            if key == 'clients':
                for i in range(len(node)):
                    if isinstance(node[i], list):
                        for j in range(len(node[i])):
                            yield edit(sc, at + (i,), lambda par, k, j=j:
                                       par.__setitem__(k, par[k][:j] + par[k][j + 1:]))
    for at, node in list(paths(sc)):
        if not at:
            continue
        key = at[-1]
        if key in OPTIONAL and node not in (None, {}, []):
            if isinstance(node, dict) and key in ('kw', 'ctor'):
                for k2 in sorted(node):
                    yield edit(sc, at, lambda par, k, k2=k2: par[k].pop(k2))
            else:
                yield edit(sc, at, lambda par, k: par.__setitem__(k, None))
        if key in SIMPLE and node != SIMPLE[key] and node is not None:
            yield edit(sc, at, lambda par, k: par.__setitem__(k, SIMPLE[k]))
        if key in LOWER and isinstance(node, int) and not isinstance(node, bool) \
                and node > LOWER[key]:
            for v in sorted({LOWER[key], (node + LOWER[key]) // 2, node - 1}):
                if v < node:
                    yield edit(sc, at, lambda par, k, v=v: par.__setitem__(k, v))


def size(sc):
    return len(json.dumps(sc))


def minimise(mod, run, sc, kind, seconds):
    t0 = time.time()
    best, tried, kept = sc, 0, 0
    repair = getattr(mod, 'repair', lambda s: s)
    again = True
    while again and time.time() - t0 < seconds:
        again = False
        for c in candidates(best):
            if time.time() - t0 > seconds:
                break
            tried += 1
            try:
                c = repair(c)
                r, err = run(mod, c)
            except Exception:
                continue
            if err or r is None:
                continue
            if any(k == kind for k, _ in r.violations):
                best, kept, again = c, kept + 1, True
                break
    r, err = run(mod, best)
    return {'scenario': best, 'tried': tried, 'kept': kept,
            'violations': r.violations if r else [], 'digest': r.digest if r else ''}
