"""C11: product counters count exactly the products that were made."""
import numpy as np

from sim import core, gen, ops
from sim import world as W
from sim.checks import c09
from sim.result import Result

ID = 'C11'


def base(rng, n, c):
    r = rng.random()
    s = {'m': n, 'n': n, 'seed': rng.randrange(10**6)}
    if r < .6:
        flag = '' if c else rng.choice(['', '', 'sym'])
        d = dict(s, k='leaf', flag=flag, give='TH', alias=rng.choice(gen.ALIASES))
        if c:
            d['c'] = True
        else:
            d['give'] = rng.choice(['T', 'TH', 'H'])
        if not c and flag != 'herm' and gen.chance(rng, .15):
            d.update(wrap=rng.choice([0, 1, 2, 3, 'cholesky']), give='T')
        return d
    if r < .7:
        return dict(s, k='diag')
    if r < .75:
        return {'k': 'ident', 'm': n, 'n': n}
    if r < .8:
        return {'k': 'zero', 'm': n, 'n': n}
    if r < .86:
        return dict(s, k='array', flag=rng.choice(['', 'sym']))
    if r < .92 and not c:
        return {'k': 'lbfgs', 'form': rng.choice(c09.LBFGS), 'm': n, 'n': n,
                'stored': rng.randrange(0, 4), 'npairs': rng.randrange(1, 4),
                'seed': rng.randrange(10**6)}
    return dict(s, k='coord', flag=rng.choice(['', 'sym']))


def expression(rng, i, n, depth, c=False):
    """Over the operators before number i; the same one may occur many times."""
    if depth <= 0 or gen.chance(rng, .25):
        return {'k': 'ref', 'i': rng.randrange(i), 'm': n, 'n': n}
    d = {'m': n, 'n': n}
    k = rng.choice(['sum', 'sum', 'sub', 'mul', 'mul', 'scal', 'rscal', 'neg', 'div', 'pow',
                    'red', 'sred', 'T', 'H'])
    if c and k in ('T', 'H'):
        k = 'mul'
    sub = lambda: expression(rng, i, n, depth - 1, c)
    if k in ('sum', 'sub', 'mul'):
        return dict(d, k=k, of=[sub(), sub()])
    if k in ('scal', 'rscal', 'div'):
        return dict(d, k=k, c=rng.choice([2.0, -1.5, 3, 1] + ([0] if k != 'div' and not c else [])),
                    of=[sub()])
    if k == 'pow':
        return dict(d, k=k, p=rng.choice([0, 1, 2, 3]), of=[sub()])
    if k == 'red':
        return dict(d, k=k, rows=rng.sample(range(n), n), cols=rng.sample(range(n), n),
                    of=[sub()])
    if k == 'sred':
        return dict(d, k=k, idx=rng.sample(range(n), n), of=[sub()])
    return dict(d, k=k, of=[sub()])


def generate(rng, idx, tier):
    n = rng.choice([1, 2, 3])
    c = gen.chance(rng, .3)
    pool = [base(rng, n, c) for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(rng.choice([1, 2, 3])):
        i = len(pool)
        r = rng.random()
        if r < .2:
            k = rng.choice([1, 2])
            pool.append({'k': 'block', 'm': n * k, 'n': n * k, 'rows': [
                [{'k': 'ref', 'i': rng.randrange(i), 'm': n, 'n': n} for _ in range(k)]
                for _ in range(k)]})
        elif r < .3:
            k = rng.choice([1, 2, 3])
            pool.append({'k': 'bdiag', 'm': n * k, 'n': n * k, 'rows': [
                {'k': 'ref', 'i': rng.randrange(i), 'm': n, 'n': n} for _ in range(k)]})
        else:
            pool.append(expression(rng, i, n, rng.choice([1, 2, 3]), c))
    fit_refs(pool, n)
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        steps = []
        for _ in range(rng.choice([2, 4, 6, 10])):
            r = rng.random()
            st = {'i': rng.randrange(len(pool)) if gen.chance(rng, .5) else len(pool) - 1,
                  'dir': rng.choice(['N', 'N', 'T', 'H', 'bar']), 'seed': rng.randrange(10**6)}
            if r < .58:
                st['do'] = 'product'
            elif r < .72:
                st.update(do='crash', exc=rng.choice(gen.EXCS), k=rng.randrange(5))
            elif r < .77:
                st['do'] = 'reset'
            elif r < .87:
                st['do'] = rng.choice(['inspect', 'build'])
            elif r < .91:
                st['do'] = 'array'
            elif r < .94:
                st['do'] = 'check'
            else:
                st.update(do='solve', method=rng.choice(W.ALL), budget=rng.randrange(1, 6))
            steps.append(st)
        clients.append(steps)
    return {'pool': pool, 'clients': clients, 'n': n, 'c': c,
            'nest': {'i': rng.randrange(len(pool)), 'k': rng.randrange(3)}
            if gen.chance(rng, .3) else None,
            'sched': {'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .5,
                      'p_line': rng.choice([0., .1, .4])}}


def size_of(spec, pool):
    if spec['k'] == 'ref':
        return size_of(pool[spec['i']], pool)
    return spec['m']


def fit_refs(pool, n):
    """References to operators of another size point at the first one instead."""
    def fix(s):
        if isinstance(s, dict):
            if s.get('k') == 'ref' and size_of(s, pool) != n:
                s['i'] = 0
            for v in s.values():
                fix(v)
        elif isinstance(s, list):
            for v in s:
                fix(v)
    fix(pool)


def repair(sc):
    def refs(s, limit):
        if isinstance(s, dict):
            if s.get('k') == 'ref':
                ops.fit(s['i'] < limit and size_of(s, sc['pool']) == sc['n'])
            for v in s.values():
                refs(v, limit)
        elif isinstance(s, list):
            for v in s:
                refs(v, limit)
    for i, s in enumerate(sc['pool']):
        refs(s, i)
        ops.fit(s['m'] == s['n'])
    ops.fit(all(st['i'] < len(sc['pool']) for c in sc['clients'] for st in c))
    ops.fit(not sc.get('nest') or sc['nest']['i'] < len(sc['pool']))
    return sc


class Maker(ops.Maker):
    def __init__(self, sim):
        ops.Maker.__init__(self, sim)
        self.pool = []

    def make_ref(self, spec):
        return self.pool[spec['i']]


def of_dir(op, d):
    return op if d == 'N' else getattr(op, d)


class Ways(object):
    """Which operator and way (N, T or H) every operator object stands for."""

    def __init__(self):
        self.of = {}

    def learn(self, node):
        for x in reversed(list(node.all())):        # Parts first.
            for d in ('N', 'T', 'H'):
                self.put(of_dir(x.op, d), x, d)
            for d in ('T', 'H'):
                for e in ('T', 'H'):                # The transpose of one of these, say.
                    self.put(of_dir(of_dir(x.op, d), e), x, 'N')

    def put(self, obj, node, d):
        if obj is not None:
            self.of.setdefault(id(obj), (node, d, obj))

    def touch(self, obj, add):
        """The products that one product with an object makes, by the definition."""
        node, d = self.of[id(obj)][:2]
        add(obj)
        s = node.spec['k']
        if node.grid is not None:
            for row in node.grid:
                for b in (row if isinstance(row, list) else [row]):
                    self.touch(of_dir(b.op, d), add)
        elif s in ('scal', 'rscal') and ops.scalar(node.spec['c']) == 0:
            pass
        elif s == 'pow':
            for _ in range(node.spec['p']):
                self.touch(of_dir(node.kids[0].op, d), add)
        else:
            for kid in node.kids:
                self.touch(of_dir(kid.op, d), add)


class Counters(object):
    """Every operator object in play and what its counter should be."""

    def __init__(self, pool):
        self.objs = []           # [name, object, expected]
        self.index = {}
        self.ways = Ways()
        for node in pool:
            self.ways.learn(node)
        for i, node in enumerate(pool):
            for d in ('N', 'T', 'H'):
                self.track('%d.%s' % (i, d), of_dir(node.op, d))
            for x in node.all():
                for d in ('N', 'T', 'H'):
                    self.track('part of %d, %s.%s' % (i, c09.text(x.spec), d)
                               if x is not node else '', of_dir(x.op, d))

    def track(self, name, obj):
        if obj is not None and id(obj) not in self.index:
            e = [name, obj, obj.nMatvec]        # Other clients may run here.
            self.index[id(obj)] = len(self.objs)
            self.objs.append(e)

    def touch(self, obj):
        self.ways.touch(obj, self.add)

    def add(self, obj, n=1):
        if id(obj) in self.index:
            self.objs[self.index[id(obj)]][2] += n

    def wrong(self):
        return [(name, o.nMatvec, e) for name, o, e in self.objs if o.nMatvec != e]

    def adopt(self):
        for e in self.objs:
            e[2] = e[1].nMatvec


def leaf_calls(pool):
    """(counter object, products by the devices) of every leaf and direction."""
    out = []
    for node in pool:
        for x in node.all():
            if x.spec['k'] == 'leaf' and x.devices:
                d = x.devices[0]
                per = {}
                for which, way in (('v', 'N'), ('t', 'T'), ('a', 'H')):
                    give = x.spec.get('give', 'T')
                    if which == 't' and 'T' not in give or which == 'a' and 'H' not in give:
                        way = 'T' if which == 'a' else 'H'
                    o = of_dir(x.op, way)
                    per.setdefault(id(o), [o, 0])[1] += d.count[which]
                out += [tuple(v) for v in per.values()]
    return out


def run(sc):
    r = Result()
    line = sc['sched'].get('p_line', 0) > 0 and len(sc['clients']) > 1
    sim = core.Sim(sc['sched'], trace_lines=line)
    maker = Maker(sim)
    pool = maker.pool
    for s in sc['pool']:
        pool.append(maker.make(s))
    for node in pool:
        if node.op.nMatvec and node.spec['k'] not in ('T', 'H', 'pow'):
            r.viol('not-zero', 'a new operator has counted %d products' % node.op.nMatvec)
    counters = Counters(pool)
    base_calls = {}
    for o, calls in leaf_calls(pool):
        base_calls[id(o)] = o.nMatvec - calls
    bars = {}
    failed = []
    nest = sc.get('nest')
    depth = [0]

    def hook(dev, k):
        if depth[0] or k != nest['k']:
            return
        depth[0] += 1
        try:
            node = pool[nest['i']]
            c = sim.current
            outer, c.session = c.session, None
            try:
                counters.touch(node.op)
                node.op * np.ones(node.op.shape[1])
                r.probe('product inside a product')
            finally:
                c.session = outer
        finally:
            depth[0] -= 1

    if nest:
        for d in maker.devices:
            d.hooks.append(hook)

    def body(no):
        def client(c):
            for j, st in enumerate(sc['clients'][no]):
                sim.point('op', str(no))
                step(r, sim, c, sc, pool, counters, '%d/%d' % (no, j), st, bars, failed,
                     base_calls)
                if len(sc['clients']) == 1:
                    judge(r, pool, counters, failed, base_calls,
                          'step %d (%s %s of %s)' % (j, st['do'], st['dir'], c09.text(
                              pool[st['i']].spec)))
                    if r.violations:
                        return
        return client

    sim.run([body(k) for k in range(len(sc['clients']))])
    r.absorb(sim)
    if not r.violations:
        judge(r, pool, counters, failed, base_calls, 'at the end, %d clients'
              % len(sc['clients']))
    return r


def judge(r, pool, counters, failed, base_calls, what):
    for o, calls in leaf_calls(pool):
        if o.nMatvec != base_calls[id(o)] + calls:
            r.viol('wrong-count', '%s: a leaf operator made %d products and counts %d'
                   % (what, calls, o.nMatvec - base_calls[id(o)]))
            return
    if not failed:
        for name, got, want in counters.wrong():
            r.viol('wrong-count', '%s: operator %s counts %d, made %d' % (what, name, got, want))
            return


def text_of(node):
    return c09.text(node.spec)


def step(r, sim, c, sc, pool, counters, key, st, bars, failed, base_calls):
    node = pool[st['i']]
    d = st['dir']
    do = st['do']
    alone = len(sc['clients']) == 1
    if d == 'bar' and do in ('product', 'crash'):
        if not np.issubdtype(node.op.dtype, np.complexfloating):
            d = 'N'
    if do in ('product', 'crash'):
        if d == 'bar':
            obj = bars.get(st['i'])
            if obj is None:
                obj = bars[st['i']] = node.op.bar
                counters.track('%d.bar' % st['i'], obj)
        else:
            obj = of_dir(node.op, d)
        v = ops.vector(st['seed'], obj.shape[1], bool(sc['c'] and st['seed'] % 2))
        faults = []
        if do == 'crash':
            faults = [{'dev': '*', 'k': st['k'], 'kind': 'raise:' + st['exc']}]
        before = obj.nMatvec
        call = st['seed'] % 3
        o = W.run_session(sim, c, key, lambda: obj(v) if call == 1 else node.op.rmatvec(v)
                          if call == 2 and obj is node.op.H else obj * v, faults)
        r.solves += 1
        r.nontrivial = True
        if o.exc is not None and not any(o.exc is e for e in o.raised):
            r.viol('product-fails', '%s: %s' % (key, W.kind_of_exc(o)))
            return
        if o.exc is None:
            if d == 'bar':
                counters.add(obj)
                counters.touch(node.op)
            else:
                counters.touch(obj)
            r.probe('product: ' + d)
            return
        r.probe('product that failed')
        if alone and not sc.get('nest') and not node.spec.get('k') == 'pow':
            if obj.nMatvec != before + 1 + extra(node, obj, d):
                r.viol('wrong-count', '%s: a product that failed counts %d times'
                       % (key, obj.nMatvec - before))
        if alone:
            counters.adopt()
        else:
            failed.append(1)
        return
    if do == 'reset':
        if not alone:
            return
        obj = of_dir(node.op, 'N' if d == 'bar' else d)
        obj.reset_counters()
        if obj.nMatvec != 0:
            r.viol('wrong-count', 'after a reset the counter is %d' % obj.nMatvec)
        i = counters.index[id(obj)]
        delta = counters.objs[i][2]
        counters.objs[i][2] = 0
        if id(obj) in base_calls:
            base_calls[id(obj)] -= delta
        r.probe('reset')
    elif do == 'inspect':
        op = node.op
        repr(op)
        (op.T, op.H, op.bar, op.shape, op.nargin, op.symmetric, op.dtype, op.T.T, op.H.H)
        if node.grid is not None and node.spec['k'] == 'block':
            (op[0, 0], op[:, 0], node.op in op, list(op), op.blocks)
    elif do == 'build':
        from pykrylov import linop as L
        op = node.op
        (op + op, op - op, op * op, op ** 2, 2 * op, -op, op / 2,
         L.ReducedLinearOperator(op, [0], [0]), L.BlockDiagonalLinearOperator([op, op]),
         L.BlockLinearOperator([[op, op]]), L.SymmetricallyReducedLinearOperator(op, [0]))
    elif do == 'array':
        o = W.run_session(sim, c, key, node.op.to_array)
        if o.exc is not None:
            r.viol('product-fails', '%s: to_array: %s' % (key, W.kind_of_exc(o)))
            return
        for _ in range(node.op.shape[1]):
            counters.touch(node.op)
    elif do == 'check':
        from pykrylov.tools import check_positive_definite, check_symmetric
        fn = check_symmetric if st['seed'] % 2 else check_positive_definite
        if not alone:
            return
        W.run_session(sim, c, key, lambda: fn(node.op))
        counters.adopt()            # Only the leaves are judged.
    elif do == 'solve':
        if not alone or sc['c']:
            return
        from pykrylov import linop as L
        m = W.method_class(st['method'])(node.op)
        kw = {W.METHODS[st['method']]['budget']: st['budget']}
        if st['method'] == 'minres':
            kw.update(show=False, check=False)
        b = ops.vector(st['seed'], node.op.shape[0]) + 1.
        o = W.run_session(sim, c, key, lambda: m.solve(b, **kw), (), 4000)
        if o.exc is not None:
            counters.adopt()
            return
        p = [node.op.nMatvec, node.op.T.nMatvec if node.op.T is not node.op else 0]
        i, j = counters.index[id(node.op)], counters.index.get(id(node.op.T))
        forward = p[0] - counters.objs[i][2]
        back = p[1] - counters.objs[j][2] if node.op.T is not node.op else 0
        if m.nMatvec != forward + back and not sc.get('nest') and not occurs(node):
            r.viol('wrong-count', '%s: %s reports %d products, its operator counts %d'
                   % (key, st['method'], m.nMatvec, forward + back))
        if sc.get('nest'):
            counters.adopt()
            return
        for _ in range(forward):
            counters.touch(node.op)
        for _ in range(back):
            counters.touch(node.op.T)
        r.probe('solve')


def extra(node, obj, d):
    return 0


def occurs(node):
    return any(x.op in (node.op, node.op.T) for x in node.all() if x is not node)
