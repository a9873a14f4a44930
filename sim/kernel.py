"""Discrete-event kernel: virtual clock, event heap, log, fault counters.

A run is a pure function of its plan (a JSON document) and the code under test.  The code under test
runs for real; whenever it would block (socket, serial port, sleep) it calls World.block(), which
advances the virtual clock and executes due events (device replies, late data, resets ...) until the
call can return.  Nothing here reads a real clock or draws random numbers.
"""
import hashlib
import heapq
from collections import Counter


class SimFatal(BaseException):
    """The run cannot go on: the code under test would block forever or never stops."""


class SimHang(SimFatal):
    pass


class SimLivelock(SimFatal):
    pass


class SimCpuHang(SimFatal):
    pass


class HarnessError(Exception):
    """A mistake of the simulator itself, never a verdict on the code under test."""


EPS = 1e-6


class Ctx(object):
    """State of one operation of one caller (thread)."""

    def __init__(self, tid=0, opi=-1, op=None):
        self.tid = tid
        self.opi = opi             # index of the operation
        self.op = op or {}
        self.blocks = 0            # blocking calls made in this operation
        self.reqs = 0              # requests received by devices in this operation
        self.sends = 0
        self.recvs = 0
        self.conns = 0
        self.closes = 0
        self.ios = 0
        self.opens = 0
        self.harm = []             # faults that entitle this operation to fail
        self.last_progress = 0.0   # last time anything happened that counts as progress
        self.max_idle = 0.0        # longest time without progress spent waiting
        self.max_idle_silent = 0.0   # the same, where no byte of the current reply had arrived
        self.got_bytes = False     # since the last request was sent
        self.last_activity = 0.0   # last byte received or request sent

    def next_fault(self):
        """Index of and fault planned for the next request of this operation."""
        k = self.reqs
        self.reqs += 1
        return k, (self.op.get('f') or {}).get(str(k)) or {}


class World(object):

    def __init__(self, plan):
        self.plan = plan
        self.cfg = plan.get('cfg', {})
        self.now = 0.0
        self.q = []
        self.seq = 0
        self.step = 0              # global event sequence number, orders everything in a run
        self.log = []
        self.fired = Counter()     # fault kind -> times it really took effect
        self.probes = Counter()    # rare conditions reached
        self.ctx = Ctx()
        self.io_cap = 6000
        self.fatal = None
        self.sched = None
        self.wall0 = self.cfg.get('epoch', 1700000000.0)
        self.wall_jump = 0.0
        self.reqlog = []           # every request received by a device
        self.malformed = []        # every byte sequence that is not a legal request
        self.trace_out = []
        self.plain_to_tls = []
        self.net = None
        self.buses = {}
        self.port_log = []
        self.files = None
        self.client_certs = {}     # SSLContext -> client certificate file loaded into it
        self.contexts = []

    # ---- clock and events -------------------------------------------------

    def wall(self):
        return self.wall0 + self.wall_jump + self.now

    def at(self, t, fn, what=''):
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, fn, what))

    def after(self, dt, fn, what=''):
        self.at(self.now + dt, fn, what)

    def tick(self):
        self.step += 1
        return self.step

    def note(self, *item):
        self.log.append((round(self.now, 6), self.ctx.tid, self.ctx.opi) + item)

    def hit(self, kind, harm=True, ctx=None):
        """A fault really happened; harm: the operation it hit may fail because of it."""
        self.fired[kind] += 1
        self.note('fault', kind)
        if harm:
            (ctx or self.ctx).harm.append(kind)

    def run_event(self):
        t, _, fn, what = heapq.heappop(self.q)
        if t > self.now:
            self.now = t
        self.tick()
        fn()

    def run_until(self, t):
        while self.q and self.q[0][0] <= t + EPS:
            self.run_event()
        if t > self.now:
            self.now = t

    def begin(self, opi, op, tid=0):
        ctx = Ctx(tid, opi, op)
        ctx.last_progress = ctx.last_activity = self.now
        self.ctx = ctx
        return ctx

    def progress(self, got_bytes=None):
        """The caller got somewhere: data received, request sent, connection established."""
        ctx = self.ctx
        ctx.last_progress = self.now
        if got_bytes is not None:
            ctx.got_bytes = got_bytes
            ctx.last_activity = self.now

    def waited(self):
        ctx = self.ctx
        idle = self.now - ctx.last_progress
        if idle > ctx.max_idle:
            ctx.max_idle = idle
        if not ctx.got_bytes and idle > ctx.max_idle_silent:
            ctx.max_idle_silent = idle

    # ---- blocking ---------------------------------------------------------

    def enter_io(self, kind):
        """Every call into the simulated outside world passes here."""
        if self.fatal is not None:
            raise self.fatal
        self.ctx.ios += 1
        if self.ctx.ios > self.io_cap:
            self.die(SimLivelock('more than %d i/o calls in one operation' % self.io_cap))

    def die(self, exc):
        if self.fatal is None:
            self.fatal = exc
        self.note('fatal', type(exc).__name__, str(exc))
        raise exc

    def block(self, kind, ready, timeout):
        """Wait until ready() is true or timeout virtual seconds have passed; return ready()."""
        self.enter_io(kind)
        if self.sched is not None:
            return self.sched.block(kind, ready, timeout)
        k = self.ctx.blocks
        self.ctx.blocks += 1
        intr = self.ctx.op.get('intr')
        jmp = self.ctx.op.get('jmp')
        if jmp and str(k) in jmp:
            self.wall_jump += jmp[str(k)]
            self.hit('clock_jump', False)
        deadline = None if timeout is None else self.now + timeout
        if intr is not None and intr.get('k') == k:
            limit = self.now + intr.get('dt', 0)
            if deadline is not None:
                limit = min(limit, deadline)
            while not ready() and self.q and self.q[0][0] <= limit + EPS:
                self.run_event()
            self.now = max(self.now, limit)
            self.hit('interrupt')
            self.probes['interrupt_in_' + kind] += 1
            raise KeyboardInterrupt('injected')
        n = 0
        while True:
            if ready():
                if kind != 'sleep':
                    self.waited()
                return True
            n += 1
            if n > 20000:
                self.die(SimLivelock('event storm while waiting in %s' % kind))
            if self.q and (deadline is None or self.q[0][0] <= deadline + EPS):
                self.run_event()
            elif deadline is None:
                self.die(SimHang('%s would wait forever' % kind))
            else:
                self.now = max(self.now, deadline)
                if kind != 'sleep':
                    self.waited()
                return False

    def sleep(self, dt):
        self.note('sleep', round(dt, 6))
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        self.block('sleep', lambda: False, dt)
        self.ctx.last_progress = self.now

    def digest(self):
        h = hashlib.sha256()
        for item in self.log:
            h.update(repr(item).encode())
        return h.hexdigest()[:16]
