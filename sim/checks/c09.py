"""C09: composite operators act as the algebra of their current parts."""
import numpy as np

from sim import core, gen, ops, systems
from sim import world as W
from sim.result import Result

ID = 'C09'
LBFGS = ['InverseLBFGSOperator', 'LBFGSOperator', 'CompactLBFGSOperator']
SCALARS = [2.0, -1.0, 3, -2, 0.5, 0, 1, ['float64', 1.5], ['int64', 3], 10]
CSCALARS = SCALARS + [['complex', 0., 1.], ['complex', 1.5, -.5], ['complex', -1., 2.]]
INPUTS = ['plain', 'plain', 'plain', 'column', 'strided', 'reversed', 'readonly', 'int', 'row']


def part(rng, m, n, c, flag=''):
    """A basic operator of that shape."""
    s = {'m': m, 'n': n, 'seed': rng.randrange(10**6)}
    cc = c and gen.chance(rng, .7)
    if cc:
        s['c'] = True
    if m == n and not flag and gen.chance(rng, .35):
        flag = 'sym' if not cc or gen.chance(rng, .5) else 'herm'
    r = rng.random()
    if r < .18:
        d = dict(s, k='array', flag=flag)
        if not cc and not flag and gen.chance(rng, .15):
            d['int'] = True
        return d
    if m == n and r < .28:
        d = dict(s, k='diag')
        if gen.chance(rng, .3):
            d[rng.choice(['abs', 'sqrt'])] = True
        elif not cc and gen.chance(rng, .15):
            d['int'] = True
        return d
    if m == n and r < .33:
        return {'k': 'ident', 'm': n, 'n': n}
    if r < .37:
        return {'k': 'zero', 'm': m, 'n': n}
    if r < .47 and flag != 'herm':
        return dict(s, k='coord', flag=flag, nnz=rng.randrange(1, 8 if gen.chance(rng, .8) else 40),
                    lower=gen.chance(rng, .5), infer=gen.chance(rng, .4))
    if not c and m == n and r < .57:
        return {'k': 'lbfgs', 'form': rng.choice(LBFGS), 'm': n, 'n': n, 'stored':
                rng.randrange(0, 4), 'npairs': rng.randrange(1, 4),
                'scaling': gen.chance(rng, .3), 'seed': rng.randrange(10**6)}
    if r < .67 and min(m, n) > 1 and flag != 'herm':
        i, j = rng.randrange(1, m), rng.randrange(1, n)
        if flag == 'sym':
            return {'k': 'block', 'flag': 'sym', 'm': m, 'n': n, 'c': bool(c), 'rows': [
                [leaf(rng, i, i, cc, 'sym'), leaf(rng, i, n - i, cc)],
                [leaf(rng, n - i, n - i, cc, 'sym')]]}
        if gen.chance(rng, .3):
            return {'k': 'bdiag', 'm': m, 'n': n, 'c': bool(c), 'rows': [
                leaf(rng, i, j, cc), leaf(rng, m - i, n - j, cc)]}
        return {'k': 'block', 'm': m, 'n': n, 'c': bool(c), 'rows': [
            [leaf(rng, i, j, cc), leaf(rng, i, n - j, cc)],
            [leaf(rng, m - i, j, cc), leaf(rng, m - i, n - j, cc)]]}
    d = leaf(rng, m, n, cc, flag)
    if not c and d.get('wrap') == 1:
        # (Matrices whose products are written to arrays are real ones only.)
        d['wrap'] = rng.choice([2, 3])
    return d


def leaf(rng, m, n, c, flag=''):
    s = {'k': 'leaf', 'm': m, 'n': n, 'seed': rng.randrange(10**6), 'flag': flag,
         'alias': rng.choice(gen.ALIASES), 'give': rng.choice(['T', 'TH', 'H'])}
    if c:
        s['c'] = True
        if flag and gen.chance(rng, .3):
            s['give'] = ''
    elif flag:
        s['give'] = rng.choice(['T', 'TH', ''])
    if not c and flag != 'herm' and gen.chance(rng, .2):
        s.update(wrap=rng.choice([0, 1, 'cholesky']), give='T')
    return s


def expr(rng, m, n, c, depth):
    """An expression of that shape."""
    if depth <= 0 or gen.chance(rng, .1):
        return part(rng, m, n, c)
    d = {'m': m, 'n': n}
    kinds = ['sum', 'sum', 'sub', 'sub', 'mul', 'mul', 'scal', 'rscal', 'div', 'neg', 'red',
             'T', 'H', 'bar']
    if m == n:
        kinds += ['pow', 'sred', 'symsum']
    k = rng.choice(kinds)
    if k in ('sum', 'sub'):
        of = [expr(rng, m, n, c, depth - 1), expr(rng, m, n, c, depth - 1 - rng.randrange(2))]
        if gen.chance(rng, .5):
            of.reverse()
        return dict(d, k=k, of=of)
    if k == 'symsum':
        return dict(d, k=rng.choice(['sum', 'sub']), of=[part(rng, n, n, c, 'sym'),
                                                        part(rng, n, n, c, 'sym')])
    if k == 'mul':
        p = rng.choice([1, 2, 3, 4])
        return dict(d, k=k, of=[expr(rng, m, p, c, depth - 1), expr(rng, p, n, c, depth - 1)])
    if k in ('scal', 'rscal', 'div'):
        x = rng.choice(CSCALARS if c else SCALARS)
        if k == 'div' and x == 0:
            x = 4
        if k == 'rscal' and isinstance(x, list) and x[0] != 'complex':
            x = 1.5
        return dict(d, k=k, c=x, of=[expr(rng, m, n, c, depth - 1)])
    if k == 'pow':
        return dict(d, k=k, p=rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]), of=[expr(rng, n, n, c, depth - 1)])
    if k == 'red':
        mm, nn = m + rng.randrange(3), n + rng.randrange(3)
        return dict(d, k=k, rows=rng.sample(range(mm), m), cols=rng.sample(range(nn), n),
                    of=[expr(rng, mm, nn, c, depth - 1)])
    if k == 'sred':
        nn = n + rng.randrange(3)
        return dict(d, k=k, idx=rng.sample(range(nn), n), of=[expr(rng, nn, nn, c, depth - 1)])
    if k in ('T', 'H'):
        return dict(d, k=k, of=[expr(rng, n, m, c, depth - 1)])
    return dict(d, k=k, of=[expr(rng, m, n, c, depth - 1)])


def chain(rng):
    return [rng.choice(['T', 'H', 'bar']) for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4]))]


def generate(rng, idx, tier):
    c = gen.chance(rng, .45)
    m, n = rng.choice([1, 2, 3, 3, 4, 5]), rng.choice([1, 2, 3, 3, 4, 5])
    if gen.chance(rng, .04):
        m, n = rng.choice([8, 11, 20]), rng.choice([7, 9, 33])
    if gen.chance(rng, .5):
        n = m
    spec = expr(rng, m, n, c, rng.choice([1, 2, 2, 3, 3, 4]))
    if c and m == n and gen.chance(rng, .25):
        # Views of views of a Hermitian or symmetric part, which share objects.
        spec = part(rng, n, n, True, rng.choice(['herm', 'herm', 'sym']))
        for k in chain(rng) + [rng.choice(['T', 'H', 'bar', 'scal'])]:
            spec = dict({'m': n, 'n': n, 'k': k, 'of': [spec]},
                        **({'c': rng.choice(CSCALARS)} if k == 'scal' else {}))
    prog = []
    for _ in range(rng.choice([1, 2, 4, 6, 9])):
        r = rng.random()
        if r < .4:
            st = {'do': 'product', 'chain': chain(rng), 'input': rng.choice(INPUTS),
                  'form': rng.choice(['mul', 'call', 'array', 'full', 'rmatvec'])}
        elif r < .52:
            st = {'do': 'handle', 'chain': chain(rng)}
        elif r < .8:
            st = {'do': 'change', 'pick': rng.randrange(10**6)}
        elif r < .93:
            st = {'do': 'crash', 'chain': chain(rng), 'exc': rng.choice(gen.EXCS),
                  'k': rng.randrange(6)}
            if gen.chance(rng, .3):
                st.update(interrupt=rng.randrange(1, 150),
                          exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
        elif r < .97:
            st = {'do': 'refuse', 'pick': rng.randrange(10**6)}
        else:
            st = {'do': 'parallel', 'clients': rng.choice([2, 3]), 'chain': chain(rng),
                  'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .5,
                            'p_line': rng.choice([.05, .2, .5])}}
        st['seed'] = rng.randrange(10**6)
        prog.append(st)
    return {'spec': spec, 'c': c, 'program': prog}


def repair(sc):
    ops.declared(sc['spec'])
    return sc


def text(s):
    """An expression for people to read."""
    k = s['k']
    o = [text(b) for b in s.get('of', [])]
    if k in ('sum', 'sub', 'mul'):
        return '(%s %s %s)' % (o[0], {'sum': '+', 'sub': '-', 'mul': '*'}[k], o[1])
    if k in ('scal', 'div'):
        return '%s %s %s' % (o[0], '/' if k == 'div' else '*', ops.scalar(s['c']))
    if k == 'rscal':
        return '%s * %s' % (ops.scalar(s['c']), o[0])
    if k == 'neg':
        return '-' + o[0]
    if k == 'pow':
        return '%s**%d' % (o[0], s['p'])
    if k == 'red':
        return 'Reduced(%s, %s, %s)' % (o[0], s['rows'], s['cols'])
    if k == 'sred':
        return 'SymReduced(%s, %s)' % (o[0], s['idx'])
    if k in ('T', 'H', 'bar'):
        return o[0] + '.' + k
    if k == 'lbfgs':
        return s['form']
    return '%s%s%s' % ('c' if s.get('c') else '', s.get('flag', ''), k)


def run(sc):
    r = Result()
    sim = core.Sim(None, trace_lines='count')
    maker = ops.Maker(sim)

    def client(c):
        node = maker.make(sc['spec'])
        name = text(sc['spec'])
        r.info = name
        r.nontrivial = bool(node.kids)
        flags(r, node)
        if node.op is None or r.violations:
            if node.op is None:
                r.viol('no-operator', '%s is None' % name)
            return
        handles = []
        check(r, sim, c, node, node.op, [], 'built', 11, name)
        for i, st in enumerate(sc['program']):
            if r.violations:
                return
            what = 'step %d (%s)' % (i, st['do'])
            do = st['do']
            if do == 'product':
                form = st['form']
                h = ops.chain_op(node.op, st['chain'])
                check(r, sim, c, node, h, st['chain'], what, st['seed'], name,
                      st['input'], form)
            elif do == 'handle':
                h = ops.chain_op(node.op, st['chain'])
                handles.append((st['chain'], h))
                r.probe('handle taken')
            elif do == 'change':
                change(r, maker, node, st)
            elif do == 'crash':
                crash(r, sim, c, node, st, what, name)
            elif do == 'refuse':
                refuse(r, sim, c, node, st, what, name)
            elif do == 'parallel':
                parallel(r, maker, node, st, what, name)
            if r.violations:
                return
            ch = [[], ['T'], ['H'], ['bar']][st['seed'] % 4]
            check(r, sim, c, node, ops.chain_op(node.op, ch), ch, what, st['seed'] + 1, name)
            for k, (ch, h) in enumerate(handles):
                check(r, sim, c, node, h, ch, what + ', taken earlier', st['seed'] + 2 + k,
                      name)

    sim.run([client])
    r.absorb(sim)
    return r


def flags(r, root):
    """Symmetry flags are true of the matrices, and kept where they must be."""
    for node in root.all():
        if node.op is None:
            continue
        m = node.mat()
        name = text(node.spec)
        size = 1e-9 * (1 + node.bound())
        if tuple(node.op.shape) != m.shape or (node.op.nargout, node.op.nargin) != m.shape:
            r.viol('wrong-shape', '%s: shape %s, not %s' % (name, node.op.shape, m.shape))
            continue
        if node.op.symmetric:
            if m.shape[0] != m.shape[1] or np.abs(m - m.T).max() > size:
                r.viol('wrong-flag', '%s calls itself symmetric' % name)
        if node.op.hermitian:
            if m.shape[0] != m.shape[1] or np.abs(m - m.conj().T).max() > size:
                r.viol('wrong-flag', '%s calls itself Hermitian' % name)
        k, kids = node.spec['k'], [x.op for x in node.kids]
        if k in ('sum', 'sub', 'scal', 'rscal', 'neg', 'div', 'sred') and kids:
            if all(o.symmetric for o in kids) and not node.op.symmetric:
                r.viol('flag-lost', '%s does not call itself symmetric' % name)
            real = not any(np.iscomplexobj(x.mat()) for x in [node] + node.kids)
            if all(o.hermitian for o in kids) and not node.op.hermitian and (
                    k in ('sum', 'sub', 'sred') or
                    real and not np.issubdtype(node.op.dtype, np.complexfloating)
                    and k != 'neg' and ops.scalar(node.spec['c']) != 0):
                r.viol('flag-lost', '%s does not call itself Hermitian' % name)


def inputs(seed, n, c, kind):
    v = ops.vector(seed, n, c)
    if kind == 'int':
        v = np.round(ops.vector(seed, n) * 4).astype(int)
    if kind == 'column':
        return v.reshape(-1, 1)
    if kind == 'row':
        return v.reshape(1, -1)
    if kind == 'strided':
        w = np.full(2 * n, 1e300, dtype=v.dtype)
        w[::2] = v
        return w[::2]
    if kind == 'reversed':
        return v[::-1].copy()[::-1]
    if kind == 'readonly':
        v.flags.writeable = False
    return v


def check(r, sim, c, node, op, ch, what, seed, name, kind='plain', form='mul'):
    """One product against the matrix of the expression."""
    full = name + ''.join('.' + x for x in ch)
    if op is None:
        r.viol('no-operator', '%s: %s is None' % (what, full))
        return
    m = ops.chain_mat(node.mat(), ch)
    if tuple(op.shape) != m.shape:
        r.viol('wrong-shape', '%s: %s has shape %s, not %s' % (what, full, op.shape, m.shape))
        return
    # (Both are for real vectors only.)
    lb = any(x.pairs is not None or x.spec.get('wrap') in (2, 3) for x in node.all())
    cplx = not lb and (np.iscomplexobj(m) or seed % 6 == 0)
    v = inputs(seed, m.shape[1], cplx, kind)
    v0 = v.copy()
    calls = {'mul': lambda: op * v, 'call': lambda: op(v), 'array': op.to_array,
             'full': op.full, 'rmatvec': lambda: op.H.rmatvec(v)}
    r.solves += 1
    o = W.run_session(sim, c, 'p%d' % sim.events, calls[form])
    if o.exc is not None:
        r.viol('product-fails', '%s: %s: %s' % (what, full, W.kind_of_exc(o)))
        return
    if v.tobytes() != v0.tobytes():
        r.viol('argument-changed', '%s: %s changed its argument' % (what, full))
    y = o.result
    want = m if form in ('array', 'full') else np.dot(m, v0.ravel())
    if not isinstance(y, np.ndarray) or y.shape != want.shape:
        r.viol('wrong-product', '%s: %s gives %s' % (what, full, getattr(y, 'shape', y)))
        return
    size = 1e-10 * (1e-3 + node.bound() * (1. if want.ndim == 2 else
                                           1 + np.abs(v0).astype(float).max()) * len(v0.ravel()))
    if not np.abs(y - want).max() <= size:
        r.viol('wrong-product', '%s: %s of %s input is off by %.2g' % (
            what, full, kind, np.abs(y - want).max()))


def change(r, maker, node, st):
    """A part changes."""
    parts = [x for x in node.all() if x.devices or x.pairs is not None or
             x.grid is not None and x.spec['k'] == 'block']
    if not parts:
        return
    p = parts[st['pick'] % len(parts)]
    if p.devices:
        d = p.devices[0]
        d.mat = ops.leaf_matrix(dict(p.spec, seed=st['seed']))
        r.probe('a leaf changed')
    elif p.pairs is not None:
        if st['pick'] % 5 == 0:
            p.op.restart()
            del p.pairs[:]
            r.probe('an L-BFGS part restarted')
        else:
            maker.store(p, st['seed'])
            r.probe('an L-BFGS part stored a pair')
    else:
        i = st['pick'] // 7 % len(p.grid)
        j = st['pick'] // 49 % len(p.grid[i])
        flag = p.spec.get('flag', '')
        old = p.grid[i][j]
        f = flag if j == 0 and flag else ''
        new = maker.make({'k': 'leaf', 'm': old.spec['m'], 'n': old.spec['n'], 'flag': f,
                          'seed': st['seed'], 'give': 'TH',
                          'c': np.iscomplexobj(old.mat())})
        p.op[i, j + i if flag else j] = new.op
        p.grid[i][j] = new
        r.probe('a block part edited')


def crash(r, sim, c, node, st, what, name):
    op = ops.chain_op(node.op, st['chain'])
    v = ops.vector(st['seed'], op.shape[1])
    it = {'line': st['interrupt'], 'exc': st['exc']} if st.get('interrupt') else None
    f = [] if it else [{'dev': '*', 'k': st['k'], 'kind': 'raise:' + st['exc']}]
    o = W.run_session(sim, c, 'c%d' % sim.events, lambda: op * v, f, None, it)
    if not o.raised:
        return
    r.probe('interrupted' if it else 'a part failed')
    if o.exc is not o.raised[0]:
        r.viol('failure-swallowed', '%s: %s: %r came out as %s' % (
            what, name, o.raised[0],
            'a result' if o.exc is None else W.kind_of_exc(o)))


def refuse(r, sim, c, node, st, what, name):
    """Vectors and operators of other sizes are refused."""
    from pykrylov import linop as L
    op = node.op
    m, n = op.shape
    q = st['pick'] % 4
    if q == 0:
        fn = lambda: op * L.IdentityOperator(n + 1)
    elif q == 1:
        fn = lambda: op + L.ZeroOperator(n + 1, m)
    elif q == 2:
        fn = lambda: op - L.ZeroOperator(n, m + 1)
    else:
        fn = lambda: op ** 2 if m != n else op ** -1
    o = W.run_session(sim, c, 'r%d' % sim.events, fn)
    if o.exc is None:
        r.viol('not-refused', '%s: %s: an expression of the wrong shapes' % (what, name))
    r.probe('refused')


def parallel(r, maker, node, st, what, name):
    op = ops.chain_op(node.op, st['chain'])
    m = ops.chain_mat(node.mat(), st['chain'])
    vs = [ops.vector(st['seed'] + k, m.shape[1]) for k in range(st['clients'])]
    sim = core.Sim(st['sched'], trace_lines=True)
    saved = [(d, d.sim) for d in maker.devices]
    # A buffer that a callback reuses is its own affair when threads share it.
    alias = [d.alias for d in maker.devices]
    for d in maker.devices:
        d.sim = sim
        d.alias = 'fresh' if d.alias == 'buffer' else d.alias
    got = [None] * len(vs)

    def body(k):
        def client(c):
            got[k] = W.run_session(sim, c, 'q%d' % k, lambda: op * vs[k])
        return client

    sim.run([body(k) for k in range(len(vs))])
    for (d, s), a in zip(saved, alias):
        d.sim, d.alias = s, a
    r.absorb(sim)
    r.probe('products in parallel')
    size = 1e-9 * (1 + node.bound()) * m.shape[1]
    for o, v in zip(got, vs):
        if o.exc is not None:
            r.viol('product-fails', '%s: %s: %s' % (what, name, W.kind_of_exc(o)))
        elif not np.abs(o.result - np.dot(m, v)).max() <= size:
            r.viol('wrong-product', '%s: %s with %d threads' % (what, name, len(vs)))
