"""What one simulated run reports."""


class Result(object):
    def __init__(self):
        self.violations = []      # (kind, message)
        self.fired = {}           # fault kind -> times it struck
        self.probes = {}          # rare condition -> times it was met
        self.clock = 0.0
        self.orders = []          # digests of the interleavings of the run
        self.digest = ''
        self.switches = None      # recorded schedule, if there was one
        self.nontrivial = False
        self.solves = 0
        self.info = ''

    def viol(self, kind, msg=''):
        self.violations.append((kind, msg))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def absorb(self, sim):
        """Take over the counters of a finished simulation."""
        for k, v in sim.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.clock += sim.clock
        self.orders.append(sim.order.hexdigest()[:16])
        self.digest += sim.digest()
        if sim.handoffs:
            self.probe('handoffs', sim.handoffs)
        if sim.trace_lines:
            self.probe('runs_with_line_preemption')
