"""Shared executors: histories of operations on one world, and baselines."""
import numpy as np

from . import core
from . import world as W


def world_spec(sc):
    return {'systems': sc['systems'], 'solvers': sc['solvers']}


def product_target(world, op):
    y = world.systems[op['y']]
    which = op.get('which', 'op')
    tgt = {'op': y.op, 'T': y.op.T, 'P': y.precon, 'M': y.Mop, 'N': y.Nop}[which]
    return tgt if tgt is not None else y.op


def do_op(world, client, key, op, faults=(), interrupt=None):
    """Run one operation of a scenario."""
    if op['op'] == 'solve':
        return W.do_solve(world, client, key, op, faults, interrupt)
    if op['op'] == 'product':
        tgt = product_target(world, op)
        x = world.vector(op['vec'], tgt.shape[1])
        o = W.run_session(world.sim, client, key, lambda: tgt * x, faults, 1000, interrupt)
        o.fields = {'y': W.snapshot(o.result)}
        return o
    if op['op'] == 'check':
        from pykrylov.tools import utils
        y = world.systems[op['y']]
        fn = getattr(utils, op['fn'])
        o = W.run_session(world.sim, client, key, lambda: fn(y.op), faults, 1000, interrupt)
        o.fields = {'verdict': o.result}
        return o
    raise core.HarnessError('op ' + op['op'])


def alone(sc, op, key, faults=(), trace=False, interrupt=None):
    """The outcome of one operation run alone on new objects."""
    sim = core.Sim(None, trace_lines=trace)
    world = W.World(sim, world_spec(sc))
    out = []
    sim.run([lambda c: out.append(do_op(world, c, key, op, faults, interrupt))])
    return out[0], sim


def interrupt_of(sc, op, key, spec, faults=()):
    """Where an interrupt strikes: a fraction of the operation's own lines."""
    o, _ = alone(sc, op, key, faults, trace='count')
    return {'exc': spec['exc'],
            'line': 1 + min(int(spec['frac'] * max(o.lines, 1)), max(o.lines - 1, 0))}


def describe(o):
    if o.exc is not None:
        return W.kind_of_exc(o)
    return ''


def differs(a, b):
    """Names of the fields in which two outcomes differ."""
    if (a.exc is None) != (b.exc is None):
        return ['exception: %s against %s' % (describe(a) or None, describe(b) or None)]
    if a.exc is not None:
        if type(a.exc) is not type(b.exc) or str(a.exc) != str(b.exc):
            return ['exception: %s against %s' % (describe(a), describe(b))]
        return []
    out = []
    for f in sorted(a.fields):
        if core.canon(a.fields[f]) != core.canon(b.fields.get(f)):
            out.append(f)
    if core.canon(a.result) != core.canon(b.result):
        out.append('return value')
    return out


def show(v):
    s = repr(v)
    return s if len(s) < 120 else s[:120] + '...'


def diff_text(a, b):
    d = differs(a, b)
    return '; '.join('%s: %s against %s' % (f, show(a.fields.get(f)), show(b.fields.get(f)))
                     if f in (a.fields or {}) else f for f in d[:4])
