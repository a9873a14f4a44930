"""Threads under a seeded scheduler.  Every thread of the run is a real thread, but only the one holding
the baton runs; it is taken away at lines of the code under test chosen by the plan and whenever the
thread blocks in the simulated world.  Time passes only when every thread waits."""
import _thread
import os
import random
import sys

from .kernel import EPS, SimHang, SimLivelock

STALLS = (0.0, 0.0011, 0.0023, 0.011, 0.03)

_allocate = _thread.allocate_lock


class T(object):

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.baton = _allocate()
        self.baton.acquire()
        self.ready = None          # condition it waits for
        self.deadline = None
        self.waiting = False
        self.done = False
        self.ctx = None
        self.k = 0                 # lines executed
        self.blocks = 0
        self.next = None           # line at which it will be preempted
        self.error = None
        self.mute = False          # no preemption (harness code)


def switch_points(spec, tid, limit=200000):
    """Lines of the thread at which it loses the baton: [(k, number choosing the successor)]."""
    if 'points' in spec:
        for k, c in spec['points'].get(str(tid), ()):
            yield k, c
        return
    rng = random.Random('%s:%d' % (spec['seed'], tid))
    k = 0
    while k < limit:
        k += 1 + int(rng.expovariate(spec['rate']))
        yield k, rng.randrange(1 << 16)


class Sched(object):

    def __init__(self, w, spec, root):
        self.w = w
        self.spec = spec
        self.threads = []
        self.by_ident = {}
        self.prefix = os.path.join(root, 'sunspec') + os.sep
        self.main = _allocate()
        self.main.acquire()
        self.preempted = 0
        self.current = None
        self.brng = random.Random('%s:blocks' % spec['seed'])
        self.wake = None

    def add(self, tid, fn):
        t = T(tid, fn)
        t.points = switch_points(self.spec, tid)
        t.next = next(t.points, None)
        self.threads.append(t)

    def run(self):
        w = self.w
        w.sched = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            self._pass(None)
            while True:
                try:
                    self.main.acquire()
                    break
                except BaseException as e:      # the alarm of the processor time limit
                    if w.fatal is None:
                        w.fatal = e
        finally:
            w.sched = None
        for t in self.threads:
            if t.error is not None:
                raise t.error

    def _body(self, t):
        t.baton.acquire()
        self.by_ident[_thread.get_ident()] = t
        self._resume(t)
        try:
            sys.settrace(self._trace)
            t.fn()
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            t.waiting = False
            try:
                self._pass(t)
            except BaseException as e:
                t.error = t.error or e
                self._abandon()

    def _abandon(self):
        for t in self.threads:
            if not t.done:
                t.baton.release()
                return
        self.main.release()

    # ---- choosing ------------------------------------------------------------------

    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if not t.waiting or self.w.fatal is not None or t.ready() or (t.deadline is not None and self.w.now >= t.deadline - EPS / 2):
                out.append(t)
        return out

    def _pick(self):
        """The threads that can run, after letting time pass if there is none."""
        w = self.w
        n = 0
        while True:
            out = self._runnable()
            if out or all(t.done for t in self.threads):
                return out
            n += 1
            if n > 200000:
                w.fatal = SimLivelock('event storm while all threads wait')
                continue
            d = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            deadline = min(d) if d else None
            if w.q and (deadline is None or w.q[0][0] <= deadline + EPS):
                w.run_event()
            elif deadline is None:
                w.fatal = SimHang('all threads wait forever')
            else:
                w.now = max(w.now, deadline)

    def _pass(self, me):
        """Give the baton to some thread that can run."""
        out = self._pick()
        if not out:
            self.main.release()
            return
        t = out[0] if len(out) == 1 else out[self.brng.randrange(len(out))]
        self._give(t, me)

    def _give(self, t, me):
        if t is me:
            return
        if me is not None:
            me.ctx = self.w.ctx
        t.baton.release()
        if me is not None and not me.done:
            me.baton.acquire()
            self._resume(me)

    def _resume(self, t):
        self.current = t
        if t.ctx is not None:
            self.w.ctx = t.ctx
        self.w.log.append((round(self.w.now, 6), t.tid, self.w.ctx.opi, 'switch'))

    # ---- what threads call ------------------------------------------------------------

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            t = self.current
            t.k += 1
            if self.w.fatal is not None:
                raise self.w.fatal
            if t.next is not None and t.k >= t.next[0]:
                c = t.next[1]
                t.next = next(t.points, None)
                if not t.mute:
                    self._preempt(t, c)
        return self._line

    def _preempt(self, me, c):
        others = [t for t in self._runnable() if t is not me]
        if others:
            self.preempted += 1
            self.w.probes['preempted'] += 1
            self._give(others[c % len(others)], me)
        elif self.spec.get('stall') and not me.mute:
            # all others wait: this one gets no processor time for a while, until they have gone on
            self.w.probes['stalled'] += 1
            self.block('stall', lambda: False, STALLS[c % len(STALLS)])

    def block(self, kind, ready, timeout):
        w = self.w
        me = self.current
        ctx = w.ctx
        ctx.blocks += 1
        me.ready = ready
        me.deadline = None if timeout is None else w.now + timeout
        me.waiting = True
        self._pass(me)
        me.waiting = False
        if w.fatal is not None:
            raise w.fatal
        ok = ready()
        if kind not in ('sleep', 'lock', 'stall'):
            w.waited()
        return ok


class SimLock(object):
    """Stands in for threading.Lock while threads of a run exist."""

    w = None

    def __init__(self):
        self._lock = _allocate()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        w = SimLock.w
        if w is None or w.sched is None or w.sched.me() is None:
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if not blocking:
                return False
            if not w.block('lock', lambda: not self._lock.locked(), None if timeout is None or timeout < 0 else timeout):
                return False
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._lock = _allocate()


class SimRLock(SimLock):

    def __init__(self):
        SimLock.__init__(self)
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not SimLock.acquire(self, blocking, timeout):
            return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            SimLock.release(self)

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n, self._count, self._owner = self._count, 0, None
        SimLock.release(self)
        return n

    def _acquire_restore(self, n):
        SimLock.acquire(self)
        self._owner = _thread.get_ident()
        self._count = n
