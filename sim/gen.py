"""Seeded generation of scenario parts."""
from . import world as W

EXCS = ['RuntimeError', 'ValueError', 'IOError', 'MemoryError', 'KeyboardInterrupt',
        'KeyError', 'ZeroDivisionError', 'TypeError', 'AttributeError',
        'IndexError', 'AssertionError', 'FloatingPointError', 'LinAlgError', 'SystemExit',
        'NotImplementedError', 'Injected', 'InjectedBase']
VALUES = ['nan', 'nan1', 'inf', 'ninf1', 'zero', 'huge', 'tiny', 'neg', 'garbage',
          'unsym', 'corrupt']
ALIASES = ['fresh', 'fresh', 'fresh', 'buffer', 'readonly', 'view', 'strided', 'column']


# How often an order is one that the library treats as large.
LARGE = .03


def chance(rng, p):
    return rng.random() < p


def size(rng, nmax=10):
    if nmax >= 9 and chance(rng, LARGE):
        return rng.choice([20, 30, 45, 60] if chance(rng, .9) else [64, 90, 128])
    return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16][:max(1, nmax)])


def precon(rng, p=0.5, kinds=('dense', 'diag', 'lbfgs', 'inv', 'blockdiag', 'ident'),
           aliases=ALIASES):
    if not chance(rng, p):
        return None
    k = rng.choice(kinds)
    d = {'kind': k, 'seed': rng.randrange(10**6)}
    if k in ('dense', 'inv', 'blockdiag'):
        d['alias'] = rng.choice(aliases)
    if k == 'dense':
        d['cond'] = rng.choice([1.5, 4., 10.])
    if k == 'lbfgs':
        d['pairs'] = rng.randrange(0, 5)
        d['scaling'] = chance(rng, .3)
        d['cls'] = rng.choice(['Inverse', 'Inverse', 'Forward', 'Compact'])
    return d


def system(rng, method, nmax=10, aliases=ALIASES, precon_p=0.5, cond=(1.5, 4., 10., 30.),
           scales=(1.,), forms=('leaf', 'leaf', 'leaf', 'leaf', 'sum', 'scaled', 'neg',
                                'block', 'array', 'coord', 'minus', 'shifted', 'reduced',
                                'sparse'),
           pre=''):
    kind = W.METHODS[method]['kind']
    a = {'kind': kind, 'n': size(rng, nmax), 'seed': rng.randrange(10**6),
         'cond': rng.choice(cond), 'scale': rng.choice(scales),
         'alias': rng.choice(aliases), 'form': rng.choice(forms)}
    if kind == 'gen':
        a['skew'] = rng.choice([0.2, 0.5, 1.0])
        if chance(rng, .2):
            a['kind'] = 'spd'
    if kind == 'sym' and chance(rng, .3):
        a['kind'] = 'spd'
    if chance(rng, .12):
        a['distinct'] = rng.choice([1, 2, 3])
    if kind == 'ls':
        a['m'] = size(rng, nmax)
    if chance(rng, .04) and kind != 'ls':
        a.update(kind='identity', alias=rng.choice(['identity', 'fresh']))
    y = {'A': a, 'P': None, 'M': None, 'N': None, 'pre': pre}
    if W.METHODS[method]['precon']:
        y['P'] = precon(rng, precon_p, aliases=aliases)
        if y['P'] and y['P']['kind'] == 'inv' and a.get('scale', 1.) != 1.:
            y['P']['kind'] = 'dense'
    if kind == 'ls':
        k = ('dense', 'diag', 'ident', 'lbfgs', 'blockdiag')
        y['M'] = precon(rng, .35, k, aliases)
        y['N'] = precon(rng, .35, k, aliases)
    return y


def ctor(rng, method):
    c = {}
    if method in W.LSS or method in ('symmlq', 'minres'):
        return c
    if chance(rng, .5):
        c['reltol'] = rng.choice([1e-2, 1e-4, 1e-9, 1e-12])
    if chance(rng, .4):
        c['abstol'] = rng.choice([0.0, 1e-12, 1e-4])
    return c


def rhs(rng, scales=(1., 1., 1., 1e3, 1e-3)):
    v = {'seed': rng.randrange(10**6)}
    if chance(rng, .3):
        v['scale'] = rng.choice(scales)
    if chance(rng, .07):
        v['kind'] = rng.choice(['zero', 'unit', 'unit'])
    dtype(rng, v)
    return v


def dtype(rng, v):
    """Vectors need not be of doubles."""
    if chance(rng, .08) and v.get('scale', 1.) >= 1:
        v['dtype'] = rng.choice(['int64', 'int64', 'int32', 'float32'])
    if chance(rng, .12):
        v['layout'] = rng.choice(['readonly', 'view', 'strided', 'reversed'])
    return v


def guess(rng):
    return dtype(rng, {'seed': rng.randrange(10**6)})


def kw(rng, method, n, m, budget_p=0.3, store_p=0.25, small=True):
    """Keyword arguments of a solve."""
    k = {}
    if chance(rng, budget_p):
        name = W.METHODS[method]['budget']
        lo = 0 if method not in ('lsqr', 'craig') else 1
        k[name] = rng.randrange(lo, 2 * n + 4)
    if method == 'minres':
        k['show'] = False
        k['check'] = chance(rng, .4)
        if chance(rng, .3):
            k['shift'] = rng.choice([0.3, -0.7, 1e-3])
        if chance(rng, .4):
            k['rtol'] = rng.choice([1e-2, 1e-5, 1e-9, 0.])
        if chance(rng, .4):
            k['etol'] = rng.choice([0.0, 1e-2, 1e-10])
        if chance(rng, .2):
            k['window'] = rng.choice([1, 2, 8])
        if chance(rng, store_p):
            k['store_iterates'] = True
    elif method == 'symmlq':
        k['check'] = chance(rng, .4)
        if chance(rng, .3):
            k['shift'] = rng.choice([0.3, -0.7, 1e-3])
        if chance(rng, .4):
            k['rtol'] = rng.choice([1e-2, 1e-5, 1e-12, 0.])
        if chance(rng, store_p):
            k['store_iterates'] = True
    elif method == 'cg':
        if chance(rng, .2):
            k['check_curvature'] = False
        if chance(rng, .2):
            k['check_symmetric'] = True
        if chance(rng, store_p):
            k['store_iterates'] = True
        if chance(rng, store_p):
            k['store_resids'] = True
    elif method in W.LSS:
        if chance(rng, .3):
            k['damp'] = rng.choice([0.1, 1.0, 3.0])
        if chance(rng, .4):
            k['etol'] = rng.choice([0.0, 1e-2, 1e-10])
        if chance(rng, .3):
            k['atol'] = rng.choice([0.0, 1e-3, 1e-6, 1e-12])
        if chance(rng, .3):
            k['btol'] = rng.choice([0.0, 1e-3, 1e-6, 1e-12])
        if chance(rng, .15):
            k['conlim'] = rng.choice([0.0, 2.0, 1e12])
        if chance(rng, .2):
            k['window'] = rng.choice([1, 2, 8])
        if chance(rng, store_p):
            k['store_iterates'] = True
        if chance(rng, store_p):
            k['store_resids'] = True
        if method in ('lsqr', 'craig') and chance(rng, .2):
            k['wantvar'] = True
    return k


def late_precon(rng, sc):
    """MINRES that gets its preconditioner with each solve."""
    s = sc['solvers'][0]
    if s['method'] == 'minres' and chance(rng, .3):
        s['noprecon'] = True
        for op in [sc.get('main')] + sc.get('prior', []) + sc.get('ops', []):
            if op and op['op'] == 'solve' and op['s'] == 0:
                op['precon'] = 'given'
    return sc


def solve(rng, s, method, sysspec, **opts):
    a = sysspec['A']
    n = a['n']
    m = a.get('m', n)
    op = {'op': 'solve', 's': s, 'rhs': rhs(rng),
          'kw': kw(rng, method, n, m, **opts)}
    if W.METHODS[method]['guess'] and chance(rng, .35):
        op['guess'] = guess(rng)
    if method == 'minres' and chance(rng, .2):
        op['precon'] = 'given'        # (To the solve, as well as to the constructor.)
    return op


def device_names(sysspec):
    out = ['A', 'A']
    pre = sysspec.get('pre', '')
    out = [pre + 'A', pre + 'A']
    if sysspec['A'].get('form') in ('sum', 'block', 'minus'):
        out.append(pre + 'A1')
    for k in ('P', 'M', 'N'):
        if sysspec.get(k) and sysspec[k]['kind'] not in ('diag', 'lbfgs'):
            out.append(pre + k)
    return out


def crash(rng, sysspec, logger=False):
    """A fault that raises, somewhere in a solve."""
    names = device_names(sysspec) + ['*']
    if logger:
        names += ['log', 'log']
    return {'dev': rng.choice(names), 'k': min(int(rng.expovariate(.35)), 40),
            'kind': 'raise:' + rng.choice(EXCS)}


def value_fault(rng, sysspec):
    k = min(int(rng.expovariate(.35)), 40)
    return {'dev': rng.choice(device_names(sysspec) + ['*']), 'k': k,
            'kind': rng.choice(VALUES)}
