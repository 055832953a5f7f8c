"""The simulator: clients, scheduler, simulated clock, interrupts, event log.

Clients are real threads that are parked and released one at a time; which one
runs is decided here only, at yield points: every call of a simulated device
(operator, preconditioner, log handler, standard output), every boundary
between two operations, and, when a scenario asks for it, every source line of
the code under test (seen through sys.settrace). All choices come from the
scenario (its schedule is a seed or an explicit list of switches), so that a
scenario is one exactly repeatable execution.
"""
import hashlib
import io
import os
import random
import sys
import threading
import warnings

import numpy as np

MAX_LINES = 3000000
LINECOUNT = bool(os.environ.get('VERIF_LINECOUNT'))   # The watchdog's second look.
BUILD = None        # Directory of the translated code under test.


def setup(build_dir):
    """Put the code under test on the path and import it."""
    global BUILD
    BUILD = os.path.join(build_dir, 'pykrylov') + os.sep
    sys.path.insert(0, build_dir)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


class Hang(BaseException):
    """A solve exceeded every budget that it may have."""


class HarnessError(Exception):
    """The harness itself is at fault."""


class Injected(Exception):
    """An ordinary injected failure."""


class InjectedBase(BaseException):
    """An injected failure that is no Exception (as KeyboardInterrupt)."""


EXC = {'RuntimeError': RuntimeError, 'ValueError': ValueError,
       'IOError': OSError, 'MemoryError': MemoryError,
       'KeyboardInterrupt': KeyboardInterrupt, 'KeyError': KeyError,
       'ZeroDivisionError': ZeroDivisionError, 'TypeError': TypeError,
       'AttributeError': AttributeError, 'StopIteration': StopIteration,
       'IndexError': IndexError, 'AssertionError': AssertionError,
       'FloatingPointError': FloatingPointError,
       'LinAlgError': np.linalg.LinAlgError, 'SystemExit': SystemExit,
       'GeneratorExit': GeneratorExit, 'NotImplementedError': NotImplementedError,
       'Injected': Injected, 'InjectedBase': InjectedBase}


def make_exc(name, tag):
    return EXC[name]('injected %s' % tag)


class Client(object):
    def __init__(self, sim, no):
        self.sim, self.no = sim, no
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.session = None       # The operation that runs, innermost.
        self.lines = 0            # Lines of library code run by this operation.
        self.interrupt_at = None  # (line, exception) or None
        self.crash = None


class Session(object):
    """One operation (solve, product, ...) of one client, as devices see it."""

    def __init__(self, key, faults=(), max_calls=None):
        self.key = key
        self.calls = {}
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f['dev'], {})[f['k']] = f
        self.total = 0
        self.max_calls = max_calls
        self.raised = []          # Exception objects injected in this session.
        self.tape = {}            # What devices returned, for the oracles.


class Sim(object):
    def __init__(self, sched=None, trace_lines=False):
        self.sched = sched or {'mode': 'seq'}
        self.clock = 0.0
        self.events = 0
        self.points = 0
        self.switches = []
        self.hash = hashlib.sha1()
        self.order = hashlib.sha1()
        self.fired = {}
        self.trace_lines = trace_lines or ('count' if LINECOUNT else False)
        self.clients = []
        self.current = None
        self.handoffs = 0
        self.rng = random.Random(self.sched.get('seed', 0))
        self.explicit = dict((int(k), v) for k, v in self.sched.get('switches', ()))
        self.stop = None
        self.max_points = 4000000

    # -- event log --------------------------------------------------------

    def log(self, *what):
        self.events += 1
        self.hash.update(repr(what).encode() + b'\n')

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def digest(self):
        return self.hash.hexdigest()[:16]

    # -- yield points ------------------------------------------------------

    def point(self, kind, name=''):
        c = self.current
        if c is None:
            return
        self.points += 1
        if self.points > self.max_points:
            raise Hang('more than %d simulated steps' % self.max_points)
        if kind != 'line':
            self.order.update(('%d%s%s;' % (c.no, kind, name)).encode())
        if len(self.clients) < 2:
            return
        to = self.choose(c, kind)
        if to is not None and to is not c and not to.done:
            self.switches.append([self.points, to.no])
            self.order.update(('>%d@%s;' % (to.no, kind)).encode())
            self.handoff(c, to)

    def choose(self, c, kind):
        mode = self.sched['mode']
        if mode == 'explicit':
            no = self.explicit.get(self.points)
            return None if no is None else self.clients[no]
        if mode == 'rand':
            p = self.sched.get('p_line' if kind == 'line' else 'p', 0.3)
            if self.rng.random() >= p:
                return None
            live = [k for k in self.clients if not k.done]
            return live[self.rng.randrange(len(live))]
        if mode == 'rr':
            if kind == 'line':
                return None
            live = [k for k in self.clients if not k.done]
            i = live.index(c)
            return live[(i + 1) % len(live)]
        return None

    def handoff(self, c, to):
        self.handoffs += 1
        self.current = to
        to.lock.release()
        c.lock.acquire()
        if self.stop is not None and c.crash is None:
            raise self.stop

    # -- running -----------------------------------------------------------

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(BUILD):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event != 'line':
            return self.line
        c = self.current
        if c is None:
            return self.line
        c.lines += 1
        if c.interrupt_at is not None and c.lines == c.interrupt_at[0]:
            exc = c.interrupt_at[1]
            c.interrupt_at = None
            if c.session is not None:
                c.session.raised.append(exc)
            self.fire('interrupt')
            self.log(c.no, 'interrupt', c.lines)
            raise exc
        if c.lines > MAX_LINES:
            raise Hang('more than %d lines of library code' % MAX_LINES)
        if self.trace_lines == 'count':
            return self.line
        self.point('line')
        return self.line

    def body(self, c, fn):
        np.seterr(all='ignore')
        if c.no >= 0 and len(self.clients) > 1:
            c.lock.acquire()
        try:
            if self.stop is None:
                if self.trace_lines:
                    sys.settrace(self.tracer)
                try:
                    fn(c)
                finally:
                    sys.settrace(None)
        except BaseException as e:            # A fault of the harness.
            c.crash = e
            if self.stop is None:
                self.stop = e
        c.done = True
        live = [k for k in self.clients if not k.done]
        if live:
            # The next client is the first live one in cyclic order.
            nxt = min(live, key=lambda k: (k.no - c.no) % len(self.clients))
            self.current = nxt
            nxt.lock.release()
        elif len(self.clients) > 1:
            self.main.release()

    def run(self, fns):
        """Run one function per client to the end of all of them."""
        self.clients = [Client(self, i) for i in range(len(fns))]
        self.current = self.clients[0]
        if len(fns) == 1:
            self.body(self.clients[0], fns[0])
        else:
            self.main = threading.Lock()
            self.main.acquire()
            threads = [threading.Thread(target=self.body, args=(c, fn), daemon=True)
                       for c, fn in zip(self.clients, fns)]
            for t in threads:
                t.start()
            self.clients[0].lock.release()
            self.main.acquire()
            for t in threads:
                t.join()
        self.current = None
        for c in self.clients:
            if c.crash is not None:
                raise c.crash

    # -- sessions ----------------------------------------------------------

    @property
    def session(self):
        c = self.current
        return c.session if c is not None else None


class SimStdout(io.TextIOBase):
    """Standard output and error as a simulated device."""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.text = []
        self.fault = None          # Exception raised by every write.

    def writable(self):
        return True

    def write(self, s):
        sim = self.sim
        if s:
            sim.log('write', self.name, len(s))
            self.text.append(s)
        sim.point('write', self.name)
        if self.fault is not None:
            sim.fire('output:' + self.name)
            raise self.fault
        return len(s)

    def flush(self):
        if self.fault is not None:
            raise self.fault


class Streams(object):
    """Context: sys.stdout and sys.stderr are simulated."""

    def __init__(self, sim, fault=None):
        self.out, self.err = SimStdout(sim, 'out'), SimStdout(sim, 'err')
        self.out.fault = self.err.fault = fault

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved

    @property
    def written(self):
        return ''.join(self.out.text) + ''.join(self.err.text)


# -- Bytes of outcomes -------------------------------------------------------

_NAN = np.float64('nan')


def canon(v, depth=0):
    """A hashable, bit-exact picture of a value (all NaNs are alike)."""
    if v is None or isinstance(v, (bool, np.bool_)):
        return repr(bool(v)) if v is not None else 'None'
    if isinstance(v, str):
        return 's:' + v
    if isinstance(v, (int, np.integer)):
        return 'i:%d' % int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v:
            return 'f:nan'
        return 'f:' + v.hex()
    if isinstance(v, (complex, np.complexfloating)):
        return 'c:' + canon(v.real) + canon(v.imag)
    if isinstance(v, np.ndarray):
        if v.dtype.kind in 'fc':
            w = np.array(v, copy=True)
            if w.dtype.kind == 'f':
                w[np.isnan(w)] = _NAN
            return 'a:%s:%s:%s' % (v.dtype.str, v.shape, w.tobytes().hex())
        return 'a:%s:%s:%s' % (v.dtype.str, v.shape, v.tobytes().hex())
    if isinstance(v, (list, tuple)):
        if depth > 6:
            return '...'
        return '[' + ','.join(canon(x, depth + 1) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%s=%s' % (k, canon(v[k], depth + 1))
                              for k in sorted(v)) + '}'
    return 'o:' + type(v).__name__


def seed_of(*what):
    return int(hashlib.sha1(repr(what).encode()).hexdigest()[:8], 16)


def from_library(tb):
    """Whether a traceback passes through the code under test."""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(BUILD):
            return True
        tb = tb.tb_next
    return False
