"""C08: a block operator stays equal to its grid of blocks through every edit."""
import numpy as np

from sim import core, gen, ops, systems
from sim import world as W
from sim.result import Result

ID = 'C08'
CHAINS = [['T'], ['H'], ['bar'], ['T', 'T'], ['T', 'H'], ['H', 'T'], ['bar', 'T'],
          ['T', 'bar'], ['H', 'bar'], ['bar', 'H'], ['H', 'H'], ['T', 'bar', 'H']]
SHAPES = ['block', 'block', 'block', 'sym', 'sym', 'herm', 'bdiag', 'bdiag']


def block(rng, m, n, c, flag='', depth=1):
    """A specification of a block of that shape."""
    s = {'m': m, 'n': n, 'seed': rng.randrange(10**6)}
    if c and gen.chance(rng, .85):
        s['c'] = True
    r = rng.random()
    if depth and r < .2 and min(m, n) > 1 and flag != 'herm':
        i, j = rng.randrange(1, m), rng.randrange(1, n)
        if flag:
            return {'k': 'block', 'flag': 'sym', 'm': m, 'n': n, 'c': c, 'rows': [
                [block(rng, i, i, c, 'sym', 0), block(rng, i, n - i, c, '', 0)],
                [block(rng, m - i, n - i, c, 'sym', 0)]]}
        return {'k': 'block', 'm': m, 'n': n, 'c': c, 'rows': [
            [block(rng, i, j, c, '', 0), block(rng, i, n - j, c, '', 0)],
            [block(rng, m - i, j, c, '', 0), block(rng, m - i, n - j, c, '', 0)]]}
    if r < .3:
        s['k'] = 'array'
        if flag and not s.get('c'):
            flag = 'sym'
        s['flag'] = flag
        return s
    if r < .36 and m == n and flag != 'herm':
        s['k'] = 'diag'
        return s
    if r < .4 and m == n:
        return {'k': 'ident', 'm': n, 'n': n}
    if r < .44 and flag != 'herm':
        return {'k': 'zero', 'm': m, 'n': n}
    if r < .48 and flag != 'herm':
        return dict(s, k='coord', flag='sym' if flag else '', nnz=rng.randrange(1, 8))
    if depth and r < .54 and not flag:
        return {'k': 'sum', 'm': m, 'n': n, 'of': [block(rng, m, n, c, '', 0),
                                                   block(rng, m, n, c, '', 0)]}
    if depth and r < .6 and not flag:
        return {'k': 'T', 'm': m, 'n': n, 'of': [block(rng, n, m, c, '', 0)]}
    s['k'] = 'leaf'
    s['alias'] = rng.choice(gen.ALIASES)
    s['flag'] = flag
    s['give'] = rng.choice(['T', 'TH', 'H'])
    if flag == 'herm' and not s.get('c'):
        s['give'] = 'T'
    return s


def top(rng, c):
    kind = rng.choice(SHAPES)
    sizes = [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(3)]
    nr = rng.choice([1, 2, 2, 3, 3])
    flag = kind if kind in ('sym', 'herm') else ''
    if kind == 'bdiag':
        f = rng.choice(['', '', 'sym', 'herm'])
        rows = []
        for i in range(nr):
            m = sizes[i]
            n = m if f or gen.chance(rng, .5) else rng.choice([1, 2, 3])
            rows.append(block(rng, m, n, c, f))
        return {'k': 'bdiag', 'c': c, 'rows': rows, 'want': f,
                'cls': rng.choice(['BlockDiagonalLinearOperator',
                                   'BlockDiagonalPreconditioner'])}
    cls = rng.choice(['BlockLinearOperator', 'BlockPreconditioner'])
    if flag:
        return {'k': 'block', 'flag': flag, 'c': c, 'cls': cls, 'rows': [
            [block(rng, sizes[i], sizes[j], c, flag if i == j else '')
             for j in range(i, nr)] for i in range(nr)]}
    cols = [rng.choice([1, 1, 2, 3, 4]) for _ in range(rng.choice([1, 2, 2, 3, 3]))]
    return {'k': 'block', 'c': c, 'cls': cls, 'rows': [
        [block(rng, sizes[i], n, c) for n in cols] for i in range(nr)]}


def dims(spec):
    """Row and column sizes of the grid."""
    rows = spec['rows']
    if spec['k'] == 'bdiag':
        return [b['m'] for b in rows], [b['n'] for b in rows]
    return [r[0]['m'] for r in rows], [b['n'] for b in rows[0]]


def edit(rng, spec, c):
    """A replacement of some blocks by others of the same shapes."""
    ms, ns = dims(spec)
    if spec['k'] == 'bdiag':
        i = rng.randrange(len(ms))
        f = spec.get('want', '')
        if gen.chance(rng, .3):
            j = rng.randrange(i + 1, len(ms) + 1)
            return {'at': [[i, j]], 'new': [block(rng, ms[k], ns[k], c, f)
                                           for k in range(i, j)]}
        return {'at': [i if gen.chance(rng, .7) else i - len(ms)],
                'new': [block(rng, ms[i], ns[i], c, f)]}
    flag = spec.get('flag', '')
    i = rng.randrange(len(ms))
    j = rng.randrange(i if flag else 0, len(ns))
    r = rng.random()

    def new(a, b):
        return block(rng, ms[a], ns[b], c, flag if flag and a == b else '')
    if r < .55:
        def neg(k, n):
            return k if gen.chance(rng, .7) else k - n
        return {'at': [neg(i, len(ms)), neg(j, len(ns))], 'new': [[new(i, j)]]}
    i1, j1 = rng.randrange(i + 1, len(ms) + 1), rng.randrange(j + 1, len(ns) + 1)
    if flag:
        if r < .8 or i == j:
            i1 = i + 1
        else:
            i1 = min(i1, j + 1)     # Stay within the given triangle.
    at = [[i, i1], [j, j1]]
    if i1 == i + 1 and gen.chance(rng, .5):
        at[0] = i
    if j1 == j + 1 and gen.chance(rng, .5) and not isinstance(at[0], int):
        at[1] = j
    return {'at': at, 'new': [[new(a, b) for b in range(j, j1)] for a in range(i, i1)]}


def generate(rng, idx, tier):
    c = gen.chance(rng, .5)
    spec = top(rng, c)
    ms, ns = dims(spec)
    prog = []
    for _ in range(rng.choice([2, 4, 6, 9, 13])):
        r = rng.random()
        if r < .42:
            st = dict(edit(rng, spec, c), do='edit')
            if gen.chance(rng, .3):
                st['mutate'] = True
            if gen.chance(rng, .2):
                st['interrupt'] = rng.randrange(1, 60)
                st['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'InjectedBase'])
        elif r < .52:
            st = {'do': 'handle', 'chain': rng.choice(CHAINS)}
        elif r < .68:
            st = {'do': 'sub', 'at': sub(rng, spec)}
        elif r < .74:
            st = {'do': 'subedit', 'which': rng.randrange(4), 'pick': rng.randrange(10**6)}
        elif r < .78:
            st = {'do': 'inner', 'pick': rng.randrange(10**6)}
        elif r < .84:
            st = {'do': 'refuse', 'how': rng.choice(
                ['value', 'none', 'index', 'unsym', 'number', 'array', 'list', 'partial']),
                'pick': rng.randrange(10**6)}
        elif r < .88:
            st = {'do': 'misfit', 'pick': rng.randrange(10**6)}
        elif r < .91:
            st = {'do': 'lists', 'pick': rng.randrange(10**6)}
        elif r < .95:
            st = {'do': 'crash', 'exc': rng.choice(gen.EXCS), 'k': rng.randrange(4),
                  'chain': rng.choice([[], ['T'], ['H'], ['bar']])}
        else:
            st = dict(edit(rng, spec, c), do='race', chain=rng.choice(
                [[], [], ['T'], ['H'], ['bar']]),
                      sched={'mode': 'rand', 'seed': rng.randrange(10**9), 'p': .5,
                             'p_line': rng.choice([.05, .2, .5])})
        st['seed'] = rng.randrange(10**6)
        prog.append(st)
    return {'spec': spec, 'program': prog, 'c': c, 'build': rng.randrange(10**6)}


def repair(sc):
    """Keeps a shrunk scenario meaningful."""
    ops.declared(sc['spec'])
    ms, ns = dims(sc['spec'])
    for st in sc['program']:
        if 'new' in st:
            pos = positions(st['at'], sc['spec'])
            if sc['spec']['k'] == 'bdiag':
                pos, new = [[(p, p) for p in pos]], [st['new']]
            else:
                new = st['new']
            ops.fit(len(pos) == len(new))
            for prow, row in zip(pos, new):
                ops.fit(len(prow) == len(row))
                for (i, j), b in zip(prow, row):
                    ops.fit(ops.declared(b) == (ms[i], ns[j]))
    return sc


def sub(rng, spec):
    ms, ns = dims(spec)

    def sl(n):
        if rng.random() < .15:
            return rng.choice([[None, None, -1], [None, None, 2], [1 % n, None, None],
                               [-1, None, None], [None, None, None]])
        a = rng.randrange(n)
        return [a, rng.randrange(a + 1, n + 1)]
    if spec['k'] == 'bdiag':
        r = rng.random()
        if r < .3:
            return [rng.randrange(-len(ms), len(ms))]
        return [sl(len(ms))]
    nc = len(spec['rows'][0]) if not spec.get('flag') else len(ms)
    r = rng.random()
    if r < .25:
        return [rng.randrange(-len(ms), len(ms)), rng.randrange(-nc, nc)]
    if r < .45:
        return [rng.randrange(len(ms)), sl(nc)]
    if r < .6:
        return [sl(len(ms)), rng.randrange(nc)]
    if r < .7:
        return [rng.randrange(len(ms))]
    return [sl(len(ms)), sl(nc)]


def index(at):
    out = [slice(*a) if isinstance(a, list) else a for a in at]
    return out[0] if len(out) == 1 else tuple(out)


class State(object):
    """The operator, what it should be, and what was taken from it."""

    def __init__(self, r, sim, client, sc):
        self.r, self.sim, self.c, self.sc = r, sim, client, sc
        self.maker = ops.Maker(sim)
        self.node = self.maker.make(sc['spec'])
        self.op = self.node.op
        self.lists = self.node.lists
        self.before = copy_lists(self.lists)
        self.handles, self.subs = [], []
        self.held, self.gone = [], []
        self.dead = False

    # -- the grid, both triangles ------------------------------------------

    def full(self):
        """The matrices of the grid: a list of rows (or of diagonal blocks)."""
        g, flag = self.node.grid, self.sc['spec'].get('flag', '')
        if self.sc['spec']['k'] == 'bdiag':
            return [b.mat() for b in g]
        if not flag:
            return [[b.mat() for b in row] for row in g]
        out = []
        for i in range(len(g)):
            row = []
            for j in range(len(g)):
                if j < i:
                    a = g[j][i - j].mat().T
                    row.append(a.conj() if flag == 'herm' else a)
                else:
                    row.append(g[i][j - i].mat())
            out.append(row)
        return out

    def check(self, what, seed):
        """Everything applies what it should."""
        r = self.r
        m = self.node.mat()
        size = 1 + np.abs(m).sum()
        self.product(self.op, m, size, seed, what, 'the operator')
        for chain, h in self.handles:
            self.product(h, ops.chain_mat(m, chain), size, seed + 1, what,
                         '.%s taken earlier' % '.'.join(chain))
        for chain in ([['T'], ['H'], ['bar']][seed % 3],):
            self.product(ops.chain_op(self.op, chain), ops.chain_mat(m, chain), size,
                         seed + 2, what, '.' + chain[0])
        for at, o, a in self.subs:
            a = a() if callable(a) else a
            self.product(o, a, 1 + np.abs(a).sum(), seed + 3, what,
                         'sub-operator %s taken earlier' % at)
        if not self.dead:
            self.listed(what)
        return r

    def listed(self, what):
        """The blocks that the operator lists and finds are those of the grid."""
        g, flag = self.node.grid, self.sc['spec'].get('flag', '')
        diag = self.sc['spec']['k'] == 'bdiag'
        want = [[b.op] for b in g] if diag else [[b.op for b in row] for row in g]
        o = W.run_session(self.sim, self.c, 'l%d' % self.sim.events, lambda: (
            self.op.blocks, list(self.op), [b in self.op for row in want for b in row],
            [b in self.op for b in self.gone]))
        if o.exc is not None:
            self.r.viol('listing-fails', '%s: %s' % (what, W.kind_of_exc(o)))
            return
        blocks, rows, found, gone = o.result
        for name, got in (('blocks', blocks), ('iteration', rows)):
            got = [[b] for b in got] if diag else [list(row) for row in got]
            if flag:
                got = [row[i:] for i, row in enumerate(got)]
            if not same_lists(got, want):
                self.r.viol('wrong-listing', '%s: %s gives other blocks than those put in'
                            % (what, name))
                return
        if not all(found) or any(gone):
            self.r.viol('wrong-listing', '%s: `in` does not find a block, or one that is gone'
                        % what)
        self.gone = self.gone[-3:] + [b for b in self.held if not any(
            b is x for row in want for x in row)]
        self.held = [b for row in want for b in row]

    def product(self, op, m, size, seed, what, name):
        r = self.r
        if self.dead:
            return
        if op is None:
            r.viol('wrong-matrix', '%s: %s is None' % (what, name))
            return
        if tuple(op.shape) != m.shape:
            r.viol('wrong-shape', '%s: %s has shape %s, its blocks make %s'
                   % (what, name, op.shape, m.shape))
            return
        v = ops.vector(seed, m.shape[1], np.iscomplexobj(m) or seed % 5 == 0)
        call = seed % 7
        r.solves += 1
        o = W.run_session(self.sim, self.c, 'p%d' % self.sim.events,
                          lambda: op.solve(v) if call == 1 and hasattr(op, 'solve')
                          else op(v) if call == 2 else op * v)
        if o.exc is not None:
            r.viol('product-fails', '%s: %s: %s' % (what, name, W.kind_of_exc(o)))
            return
        y = o.result
        if not isinstance(y, np.ndarray) or y.shape != (m.shape[0],):
            r.viol('wrong-matrix', '%s: %s gives no vector of its size' % (what, name))
            return
        want = np.dot(m, v)
        if not np.abs(y - want).max() <= 1e-9 * size:
            r.viol('wrong-matrix', '%s: %s is off by %.2g' % (
                what, name, np.abs(y - want).max()))


def copy_lists(x):
    return [copy_lists(v) if isinstance(v, list) else v for v in x]


def flat(x):
    return [list(row) for row in x] if isinstance(x, np.ndarray) else x


def same_lists(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if not isinstance(a, list):
        return a is b
    return len(a) == len(b) and all(same_lists(x, y) for x, y in zip(a, b))


def positions(at, spec):
    """The grid positions that an index addresses, row by row."""
    ms, ns = dims(spec)
    n = [len(ms), len(ns)]

    def one(a, k):
        return list(range(*slice(*a).indices(k))) if isinstance(a, list) else [a % k]
    if spec['k'] == 'bdiag':
        return one(at[0], n[0])
    rows = one(at[0], n[0])
    cols = one(at[1], n[1]) if len(at) > 1 else list(range(n[1]))
    return [[(i, j) for j in cols] for i in rows]


def new_grid(st, state, nodes):
    """The grid of nodes after an edit."""
    spec = state.sc['spec']
    pos = positions(st['at'], spec)
    if spec['k'] == 'bdiag' and any(
            state.op.symmetric and not b.op.symmetric or
            state.op.hermitian and not b.op.hermitian for b in nodes):
        return None                  # Known finding KF2.
    if spec['k'] == 'bdiag':
        g = list(state.node.grid)
        for p, b in zip(pos, nodes):
            g[p] = b
        return g
    g = [list(row) for row in state.node.grid]
    flag = spec.get('flag', '')
    for prow, brow in zip(pos, nodes):
        for (i, j), b in zip(prow, brow):
            if flag and j < i:
                return None
            g[i][j - i if flag else j] = b
    return g


def value_of(st, nodes, spec):
    if spec['k'] == 'bdiag':
        return [b.op for b in nodes] if isinstance(st['at'][0], list) else nodes[0].op
    if all(not isinstance(a, list) for a in st['at']):
        return nodes[0][0].op
    if len(nodes) == 1:
        return [b.op for b in nodes[0]]
    if len(nodes[0]) == 1:
        return [[b.op for b in row] for row in nodes]
    # Numpy on PyPy cannot assign nested lists with several columns of objects.
    out = np.empty((len(nodes), len(nodes[0])), dtype=object)
    for i, row in enumerate(nodes):
        for j, b in enumerate(row):
            out[i, j] = b.op
    return out


def make_nodes(state, st):
    m = state.maker
    if not np.issubdtype(state.op.dtype, np.complexfloating):
        st = ops.real(st)      # Blocks are of the type of the operator.
    return [[m.make(b) for b in x] if isinstance(x, list) else m.make(x) for x in st['new']]


def run(sc):
    r = Result()
    sim = core.Sim(None, trace_lines='count')

    def client(c):
        state = State(r, sim, c, sc)
        state.check('built', sc['build'])
        if not same_lists(state.lists, state.before):
            r.viol('lists-changed', 'construction altered the lists of blocks given')
        for i, st in enumerate(sc['program']):
            if state.dead or r.violations:
                break
            what = 'step %d (%s)' % (i, st['do'])
            globals()['do_' + st['do']](state, st, what)
            state.check(what, st['seed'])

    sim.run([client])
    r.absorb(sim)
    misbuilt(r, sc)
    stale(r)
    return r


def do_edit(state, st, what):
    r = state.r
    spec = state.sc['spec']
    nodes = make_nodes(state, st)
    grid = new_grid(st, state, nodes)
    if grid is None:
        return
    val = value_of(st, nodes, spec)
    held = copy_lists(val) if isinstance(val, list) else \
        val.copy() if isinstance(val, np.ndarray) else None
    it = {'line': st['interrupt'], 'exc': st['exc']} if st.get('interrupt') else None
    o = W.run_session(state.sim, state.c, 'e%d' % state.sim.events,
                      lambda: state.op.__setitem__(index(st['at']), val), (), None, it)
    if held is not None and not same_lists(flat(val), flat(held)):
        r.viol('lists-changed', '%s altered the list of new blocks' % what)
    if st.get('mutate') and held is not None:
        spoil(val, state.op)
        r.probe('list changed after the edit')
    r.nontrivial = True
    if o.exc is not None:
        if not any(o.exc is e for e in o.raised):
            r.viol('edit-fails', '%s: %s' % (what, W.kind_of_exc(o)))
            state.dead = True
            return
        r.probe('edit interrupted')
        old = state.node.grid
        if not holds(state, old):
            state.node.grid = grid
            if not holds(state, grid):
                r.viol('torn-edit', '%s: interrupted at line %d, the operator is neither '
                       'as before nor as after' % (what, st['interrupt']))
                state.dead = True
        return
    state.node.grid = grid
    r.probe('edit of one block' if held is None else 'edit of a slice')
    if spec['k'] == 'bdiag' or not isinstance(nodes[0], list):
        first = nodes[0].op
    else:
        first = nodes[0][0].op
    pos = positions(st['at'], spec)
    got = state.op[pos[0]] if spec['k'] == 'bdiag' else state.op[pos[0][0]]
    if got is not first:
        r.viol('wrong-block', '%s: indexing does not give the block put there' % what)


def holds(state, grid):
    """Whether the operator, its transpose, adjoint and conjugate are those of a grid."""
    keep = state.node.grid
    state.node.grid = grid
    try:
        m = state.node.mat()
    finally:
        state.node.grid = keep
    for chain in ([], ['T'], ['H'], ['bar']):
        a = ops.chain_mat(m, chain)
        o = ops.chain_op(state.op, chain)
        for q in (1, 2):
            v = ops.vector(q, a.shape[1], np.iscomplexobj(a))
            y = o * v
            if y.shape != (a.shape[0],) or not np.abs(y - np.dot(a, v)).max() \
                    <= 1e-9 * (1 + np.abs(a).sum()):
                return False
    return True


def spoil(lists, op):
    if isinstance(lists, np.ndarray):
        lists[:] = None
    elif lists and isinstance(lists[0], list):
        for row in lists:
            row[:] = [None] * len(row)
        lists.append(['spoiled'])
    else:
        lists[:] = [None] * len(lists)


def do_handle(state, st, what):
    h = ops.chain_op(state.op, st['chain'])
    state.handles.append((st['chain'], h))
    state.r.probe('handle taken')


def do_sub(state, st, what):
    spec = state.sc['spec']
    pos = positions(st['at'], spec)
    o = W.run_session(state.sim, state.c, 'g%d' % state.sim.events,
                      lambda: state.op[index(st['at'])])
    if o.exc is not None:
        state.r.viol('index-fails', '%s %s: %s' % (what, st['at'], W.kind_of_exc(o)))
        state.dead = True
        return
    full = state.full()
    state.r.probe('sub-operator taken')
    if spec['k'] == 'bdiag':
        blocks = [full[p] for p in pos]
        whole = ops.Node({'k': 'bdiag'}, None)
        whole.grid = [Fixed(a) for a in blocks]
        mat = whole.mat()
    else:
        mat = np.concatenate([np.concatenate([full[i][j] for i, j in row], axis=1)
                              for row in pos], axis=0)
    # One block is the block itself, and follows what is done to it.
    if spec['k'] == 'bdiag':
        single = not isinstance(st['at'][0], list)
    else:
        single = len(st['at']) == 2 and not any(isinstance(a, list) for a in st['at'])
    if single and hasattr(o.result, '__setitem__'):
        return
    state.subs.append([st['at'], o.result, mat])


class Fixed(object):
    def __init__(self, a):
        self.a = a

    def mat(self):
        return self.a


def do_subedit(state, st, what):
    """An edit of a sub-operator stays there."""
    subs = [s for s in state.subs if hasattr(s[1], '__setitem__') and len(s[0]) == 2]
    if not subs:
        return
    at, sub, mat = s = subs[st['which'] % len(subs)]
    rows = list(sub)
    if not isinstance(rows[0], list):
        return
    i = st['pick'] % len(rows)
    j = st['pick'] // 7 % len(rows[i])
    old = rows[i][j]
    new = state.maker.make({'k': 'leaf', 'm': old.shape[0], 'n': old.shape[1],
                            'seed': st['pick'], 'give': 'TH'})
    i0 = sum(row[0].shape[0] for row in rows[:i])
    j0 = sum(b.shape[1] for b in rows[i][:j])
    sub[i, j] = new.op
    mat = mat.copy()
    mat[i0:i0 + old.shape[0], j0:j0 + old.shape[1]] = new.mat()
    s[2] = mat
    state.r.probe('sub-operator edited')


def do_inner(state, st, what):
    """A nested block operator is edited in its place."""
    flag = state.sc['spec'].get('flag', '')
    inner = [b for row in state.node.grid for b in (row if isinstance(row, list) else [row])
             if b.grid is not None and b.spec['k'] == 'block']
    if not inner:
        return
    b = inner[st['pick'] % len(inner)]
    i, j = st['pick'] // 7 % len(b.grid), 0
    old = b.grid[i][j]
    f = b.spec.get('flag', '')
    spec = {'k': 'leaf', 'm': old.spec['m'], 'n': old.spec['n'], 'seed': st['seed'],
            'give': 'TH', 'flag': f}
    if f and not spec.get('c'):
        spec['give'] = 'T'
    new = state.maker.make(spec)
    b.op[i, j + i if f else j] = new.op
    b.grid[i][j] = new
    # Sub-operators share the nested operator, which is one object.
    state.subs = []
    state.r.probe('nested operator edited')


def do_refuse(state, st, what):
    """Edits that cannot be made leave the operator as it was."""
    spec = state.sc['spec']
    ms, ns = dims(spec)
    how = st['how']
    i = st['pick'] % len(ms)
    j = max(i, st['pick'] // 7 % len(ns)) if spec.get('flag') else st['pick'] // 7 % len(ns)
    at = i if spec['k'] == 'bdiag' else (i, j)
    diag = spec['k'] == 'bdiag' or spec.get('flag')
    if spec.get('flag') and how == 'unsym':
        at, j = (i, i), i
        if ms[i] < 2:
            return
        val = state.maker.make({'k': 'leaf', 'm': ms[i], 'n': ms[i], 'seed': st['pick'],
                                'give': 'TH', 'c': state.sc['c']}).op
    elif how == 'unsym':
        return
    elif how == 'value':
        val = 'a block'
    elif how == 'none':
        val = None
    elif how == 'number':
        val = 2.5
    elif how == 'array':
        if spec['k'] != 'bdiag':
            return             # Numpy reads a one by one array as its element.
        val = np.eye(2)
    elif how == 'list':
        val = [1, 2, 3, 4, 5]
    elif how == 'index':
        at = len(ms) + 3 if spec['k'] == 'bdiag' else (len(ms) + 3, 0)
        val = state.op[0] if spec['k'] == 'bdiag' else state.op[0, 0]
    elif how == 'partial':
        # A slice of which one element is no operator.
        first = state.maker.make({'k': 'leaf', 'm': ms[0], 'n': ns[0], 'give': 'TH',
                                  'seed': st['pick']}).op
        if spec['k'] == 'bdiag':
            if len(ms) < 2:
                return
            at, val = slice(0, 2), [first, None]
        else:
            if len(ns) < 2:
                return
            at, val = (0, slice(0, 2)), [first, None]
    o = W.run_session(state.sim, state.c, 'r%d' % state.sim.events,
                      lambda: state.op.__setitem__(at, val))
    if o.exc is None:
        state.r.viol('edit-not-refused', '%s: putting %s in a block operator' % (what, how))
        state.dead = True
        return
    state.r.probe('edit refused: ' + how)


def do_misfit(state, st, what):
    """A block of another shape: refused at once, or every product until repaired."""
    spec = state.sc['spec']
    ms, ns = dims(spec)
    i = st['pick'] % len(ms)
    j = st['pick'] // 7 % len(ns)
    if spec['k'] == 'bdiag' or spec.get('flag'):
        j = i
    at = i if spec['k'] == 'bdiag' else (i, j)
    old = state.op[at]
    k = 1 + st['pick'] // 49 % 2
    square = spec.get('flag') or spec.get('want')
    if spec['k'] == 'bdiag' and not square and state.op.symmetric | state.op.hermitian:
        square = True
    m, n = ms[i] + k, ns[j] + (k if square else st['pick'] // 98 % 2)
    flag = 'herm' if state.op.hermitian and np.iscomplexobj(state.node.mat()) else \
        'sym' if square else ''
    if square and not state.sc['c']:
        flag = 'sym'
        give = 'TH'
    else:
        give = 'TH'
    if flag == 'sym' and state.sc['c'] and state.op.hermitian:
        return
    b = state.maker.make({'k': 'leaf', 'm': m, 'n': n, 'seed': st['seed'], 'give': give,
                          'flag': flag, 'c': state.sc['c'] and bool(square)})
    o = W.run_session(state.sim, state.c, 'm%d' % state.sim.events,
                      lambda: state.op.__setitem__(at, b.op))
    if o.exc is not None:
        state.r.probe('misfit refused at the edit')
        return
    mm, nn = state.op.shape
    for name, o1, sizes in (('', state.op, (nn, nn + n - ns[j])),
                            ('.T', state.op.T, (mm, mm + m - ms[i])),
                            ('.H', state.op.H, (mm, mm + m - ms[i]))):
        for size in sorted(set(sizes)):
            v = ops.vector(st['seed'], size)
            o = W.run_session(state.sim, state.c, 'm%d' % state.sim.events, lambda: o1 * v)
            if o.exc is None:
                state.r.viol('misfit-not-refused', '%s: block %s became %dx%d, and the '
                             'operator%s still multiplies' % (what, at, m, n, name))
                state.dead = True
                return
    state.r.probe('misfit refused at the product')
    state.op[at] = old


def do_lists(state, st, what):
    """The caller's own lists change."""
    if not same_lists(state.lists, state.before):
        state.r.viol('lists-changed', '%s: an edit altered the lists given at construction'
                     % what)
        state.dead = True
        return
    spoil(state.lists, state.op)
    state.before = copy_lists(state.lists)
    state.r.probe('lists changed after construction')


def do_crash(state, st, what):
    """A block that fails, in the middle of a product."""
    h = ops.chain_op(state.op, st['chain'])
    v = ops.vector(st['seed'], h.shape[1])
    o = W.run_session(state.sim, state.c, 'c%d' % state.sim.events, lambda: h * v,
                      [{'dev': '*', 'k': st['k'], 'kind': 'raise:' + st['exc']}])
    if not o.raised:
        return
    if o.exc is not o.raised[0]:
        state.r.viol('failure-swallowed', '%s: a block failed with %r, the product %s'
                     % (what, o.raised[0], W.kind_of_exc(o) if o.exc is not None else
                        'returned'))
    state.r.probe('block failed')


def do_race(state, st, what):
    """A client multiplies while another edits: the one grid or the other."""
    r = state.r
    nodes = make_nodes(state, st)
    grid = new_grid(st, state, nodes)
    if grid is None:
        return
    val = value_of(st, nodes, state.sc['spec'])
    h = ops.chain_op(state.op, st['chain'])
    m0 = ops.chain_mat(state.node.mat(), st['chain'])
    state.node.grid = grid
    m1 = ops.chain_mat(state.node.mat(), st['chain'])
    v = ops.vector(st['seed'], m0.shape[1], np.iscomplexobj(m0))
    sim = core.Sim(st['sched'], trace_lines=True)
    saved = [(d, d.sim) for d in state.maker.devices]
    for d in state.maker.devices:
        d.sim = sim
    got = []

    def multiply(c):
        for q in range(3):
            o = W.run_session(sim, c, 'a%d' % q, lambda: h * v)
            got.append(o)

    def change(c):
        o = W.run_session(sim, c, 'b', lambda: state.op.__setitem__(index(st['at']), val))
        if o.exc is not None:
            got.append(o)

    sim.run([multiply, change])
    for d, s in saved:
        d.sim = s
    r.absorb(sim)
    r.probe('product during an edit')
    size = 1 + np.abs(m0).sum() + np.abs(m1).sum()
    for o in got:
        if o.exc is not None:
            r.viol('race-fails', '%s: %s' % (what, W.kind_of_exc(o)))
            state.dead = True
            return
        if min(np.abs(o.result - np.dot(m, v)).max() for m in (m0, m1)) > 1e-9 * size:
            r.viol('race-mixed', '%s: a product during an edit applies neither the grid '
                   'before nor the one after' % what)


def misbuilt(r, sc):
    """Grids that do not fit are refused, at the latest by the product."""
    from pykrylov import linop as L
    rng = systems.rs(core.seed_of('misbuilt', sc['build'])).r
    if rng.random() > .3:
        return
    sim = core.Sim(None)
    maker = ops.Maker(sim)
    nr, nc = rng.choice([(2, 2), (2, 1), (1, 2), (3, 2), (2, 3), (3, 3)])
    ms, ns = [rng.choice([1, 2, 3]) for _ in range(nr)], [rng.choice([1, 2, 3])
                                                         for _ in range(nc)]
    grid = [[[m, n] for n in ns] for m in ms]
    how = rng.choice(['rows', 'cols', 'ragged'])
    i, j = rng.randrange(nr), rng.randrange(nc)
    if how == 'rows' and nc > 1:
        grid[i][j][0] += 1
    elif how == 'cols' and nr > 1:
        grid[i][j][1] += 1
    elif how == 'ragged' and nr > 1 and nc > 1:
        del grid[i][j]
    else:
        return
    blocks = [[maker.make({'k': 'leaf', 'm': m, 'n': n, 'seed': 7, 'give': 'TH'}).op
               for m, n in row] for row in grid]

    def client(c):
        o = W.run_session(sim, c, 'x', lambda: L.BlockLinearOperator(blocks))
        if o.exc is not None:
            r.probe('wrong grid refused when built')
            return
        op = o.result
        for name, h in (('', op), ('.T', op.T), ('.H', op.H)):
            v = np.ones(h.shape[1])
            p = W.run_session(sim, c, 'y', lambda: h * v)
            if p.exc is None:
                r.viol('grid-not-refused', 'a grid of blocks of shapes %s multiplies%s'
                       % (grid, name))
        r.probe('wrong grid refused by the product')

    sim.run([client])


def stale(r):
    """KF2: the inferred symmetry of a block diagonal operator outlives an edit."""
    from pykrylov import linop as L
    a, b = np.array([[1., 2.], [2., 5.]]), np.array([[0., 1.], [3., 0.]])
    op = L.BlockDiagonalLinearOperator([L.linop_from_ndarray(a, symmetric=True)] * 2)
    try:
        op[0] = L.linop_from_ndarray(b)
    except Exception:
        return                         # Refused: nothing is stale.
    x = np.array([1., 2., 3., 4.])
    want = np.concatenate((np.dot(b.T, x[:2]), np.dot(a, x[2:])))
    if not np.allclose(op.T * x, want) or op.symmetric:
        r.viol('stale-symmetry', 'BlockDiagonalLinearOperator built of symmetric blocks: '
               'after one is replaced by an unsymmetric block it still calls itself '
               'symmetric and is its own transpose')
