"""Threads, each with devices of its own: every thread must see what it sees when it runs alone (C18)."""
import copy
import io
import threading
import zipfile

from .env import REPO
from .oracle2 import equal
from .runner import Run, Violation
from .sched import Sched, SimLock, SimRLock, switch_points
from .w2 import W2


class W18(W2):

    only = None

    def setup(self):
        W2.setup(self)
        for name, members in sorted((self.plan['cfg'].get('zips') or {}).items()):
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w') as z:
                for m, text in sorted(members.items()):
                    z.writestr(zipfile.ZipInfo(m), text)
            self.env.write(name, b.getvalue())
        self.saved_locks = threading.Lock, threading.RLock
        self.env.put(threading, 'Lock', SimLock)
        self.env.put(threading, 'RLock', SimRLock)
        SimLock.w = self.w

    def run_ops(self):
        ops = self.plan['ops']
        tids = sorted(set(op['tid'] for op in ops))
        self.sched = Sched(self.w, self.plan['sched'], REPO)

        def body(tid):
            def go():
                for i, op in enumerate(ops):
                    if op['tid'] == tid:
                        self.run_op(i, op, tid)
                        if self.w.fatal is not None:
                            break
            return go
        for tid in tids:
            if self.only is None or tid == self.only:
                self.sched.add(tid, body(tid))
        try:
            self.sched.run()
            # what is still on its way arrives
            self.w.run_until(self.w.now + 5.0)
        finally:
            SimLock.w = None

    def visible(self, oid, r):
        return self.objs[oid].op['tid'] == r.op['tid']

    def do_wait(self, op, r):
        self.w.block('sleep', lambda: False, op['dt'])


def seen(run, tid):
    return [r for r in sorted((r for r in run.results if r.tid == tid), key=lambda r: r.i)]


def compare(alone, run, tid):
    a, b = seen(alone, tid), seen(run, tid)
    for x, y in zip(a, b):
        what = '%s of thread %d' % (x.op['op'], tid)
        if y.status == 'fatal':
            return Violation('C18', 'hang', '%s alone %s, together with others %s' % (what, x.show(), y.text), y.i)
        if (x.status, x.exc, x.text) != (y.status, y.exc, y.text):
            return Violation('C18', 'outcome', '%s alone %s, together with others %s (%s)' % (what, x.show(), y.show(), y.tb), y.i)
        if x.value != y.value and isinstance(x.value, bytes):
            return Violation('C18', 'value', '%s alone %s, together with others %s' % (what, x.show(), y.show()), y.i)
        if ('broken' in x.extra) != ('broken' in y.extra):
            return Violation('C18', 'broken', 'after %s the device object cannot be inspected: %s' % (what, y.extra.get('broken') or x.extra.get('broken')), y.i)
        if x.extra.get('skip') != y.extra.get('skip'):
            return Violation('C18', 'models', 'after the others %s finds other models or values' % what, y.i)
        sx, sy = x.extra.get('state') or {}, y.extra.get('state') or {}
        for oid in sorted(set(sx) | set(sy)):
            if oid not in sx or oid not in sy:
                return Violation('C18', 'models', 'after %s device %s does not exist' % (what, oid), y.i)
            mx = [(m['id'], m['addr'], m['len'], m['err'], m['typed'], [(i, o) for i, v, o in m['blocks']]) for m in sx[oid]]
            my = [(m['id'], m['addr'], m['len'], m['err'], m['typed'], [(i, o) for i, v, o in m['blocks']]) for m in sy[oid]]
            if mx != my:
                d = [(p, q) for p, q in zip(mx, my) if p != q]
                return Violation('C18', 'models', 'after %s device %s shows %s, alone %s' % (
                    what, oid, brief(d[0][1] if d else my), brief(d[0][0] if d else mx)), y.i)
            if not equal([m['blocks'] for m in sx[oid]], [m['blocks'] for m in sy[oid]]):
                return Violation('C18', 'values', 'after %s device %s shows other values than alone' % (what, oid), y.i)
        if not equal(x.extra.get('names'), y.extra.get('names')):
            return Violation('C18', 'names', 'after %s the attributes are %s, alone %s' % (what, brief(y.extra.get('names')), brief(x.extra.get('names'))), y.i)
        if [p[2] for p in x.extra.get('progress', ())] != [p[2] for p in y.extra.get('progress', ())]:
            return Violation('C18', 'progress', 'the progress calls of %s differ' % what, y.i)
        wx = [(q.raw.hex(), q.unit) for q in alone.reqs(x.i, tid)]
        wy = [(q.raw.hex(), q.unit) for q in run.reqs(y.i, tid)]
        if wx != wy:
            return Violation('C18', 'wire', '%s sends other requests than alone' % what, y.i)
        if not run.plan['sched'].get('stall') and abs((x.t1 - x.t0) - (y.t1 - y.t0)) > 1e-6:
            return Violation('C18', 'time', '%s takes %.6f s, alone %.6f s' % (what, y.t1 - y.t0, x.t1 - x.t0), y.i)
    if len(a) != len(b):
        return Violation('C18', 'outcome', 'thread %d performed %d operations, alone %d' % (tid, len(b), len(a)), None)
    return None


def brief(x):
    s = str(x)
    return s if len(s) < 240 else s[:237] + '...'


def judge(plan, prop, scratch):
    tids = sorted(set(op['tid'] for op in plan['ops']))
    together = W18(plan, scratch).execute()
    out = []
    runs = [together]
    for tid in tids:
        alone = W18(plan, scratch)
        alone.only = tid
        alone.execute()
        runs.append(alone)
        v = compare(alone, together, tid)
        if v is not None:
            out.append(v)
    return out, runs


def shrinks(plan):
    """One thread less; the schedule made explicit and thinned out."""
    tids = sorted(set(op['tid'] for op in plan['ops']))
    if len(tids) > 2:
        for t in tids:
            yield dict(plan, ops=[op for op in plan['ops'] if op['tid'] != t])
    spec = plan['sched']
    if 'points' not in spec:
        pts = dict((str(t), [list(p) for p in switch_points(spec, t, 30000)]) for t in tids)
        yield dict(plan, sched=dict(spec, points=pts))
        return
    for t in sorted(spec['points']):
        pts = spec['points'][t]
        n = len(pts)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                q = copy.copy(spec['points'])
                q[t] = pts[:a] + pts[a + size:]
                yield dict(plan, sched=dict(spec, points=q))
            size //= 2
