"""Oracles of workload 2: the recorded history of a run is replayed against a reference model of each
device object, built from the generated definitions and device contents (ref.py)."""
import os
import struct

from . import ref
from .kernel import EPS
from .runner import Violation
from .w1 import bad_files, bad_request

# property -> categories of findings that decide it
CATS = {
    'C09': ('scan', 'names', 'scan_must', 'hang'),
    'C10': ('pace', 'cancel', 'progress'),
    'C11': ('value', 'atomic', 'read_must', 'stray_change'),
    'C12': ('torn', 'snapshot', 'torn_write', 'value'),
    'C13': ('write', 'write_must', 'set', 'write_value', 'torn_write'),
    'C14': ('pending', 'write', 'write_must', 'write_value', 'set', 'atomic'),
    'C25': ('scan', 'names', 'scan_must', 'hang'),
    'C27': ('names', 'value', 'hang'),
    'C16': ('scan', 'names', 'scan_must', 'hang', 'value', 'read_must', 'stray_change', 'error'),
    'C04': ('error', 'hidden', 'write_invalid'),
    'C06': ('recover', 'recover_value'),
    'C07': ('sockets',),
    'C08': ('ports', 'port_use'),
    'C05': ('hang', 'time'),
    'C17': ('tls', 'scan_must', 'read_must', 'write_must', 'value', 'hang'),
}

SCAN_OPS = ('open', 'scan')
TIMEOUT = {'tcp': 2.0, 'rtu': 0.5}      # documented defaults


class Mirror(object):

    def __init__(self, op):
        self.op = op
        self.lay = None            # models it has to show
        self.listed = False        # a successful scan has happened and its models are still there
        self.state = None          # listing after the last operation
        self.pend = {}             # (model, block, point) -> [raw or None (invalid), certain]
        self.faulty = False
        self.explicit = False
        self.known = True          # whether the connection state is known
        self.closed = False
        self.map = None


class Judge(object):

    def __init__(self, run):
        self.run = run
        self.out = []
        self.m = {}
        self.owner = {}
        self.ports = {}

    def say(self, cat, sig, msg, r):
        self.out.append((cat, sig, msg, r.i))

    # ---- main loop ---------------------------------------------------------------

    def analyse(self):
        run = self.run
        for r in run.results:
            op = r.op
            name = op['op']
            if r.extra.get('skip'):
                continue
            if r.status == 'fatal':
                self.say('hang', r.exc, '%s: %s' % (name, r.text), r)
                return
            if 'broken' in r.extra:
                self.say('names', 'unusable', 'after %s the device object cannot be inspected: %s' % (name, r.extra['broken']), r)
                return
            self.harm = self.real_harm(r)
            self.tls(r)
            if name == 'open':
                self.open(r)
            elif op.get('id') in self.m:
                m = self.m[op['id']]
                must = not self.harm and not (m.closed and m.op['kind'] == 'rtu')
                if name in ('scan', 'mread', 'dread', 'set', 'write', 'pwrite', 'rawread', 'rawwrite', 'connect', 'disconnect', 'close'):
                    getattr(self, name)(r, m, must)
            self.error(r)
            self.timing(r)
            self.unchanged(r)
            self.sockets(r)
            self.portuse(r)
            for oid, st in r.extra.get('state', {}).items():
                if oid in self.m:
                    self.m[oid].state = st
                    self.unusable(r, self.m[oid], st)

    def tls(self, r):
        op = r.op if r.op['op'] == 'open' else self.m[r.op['id']].op if r.op.get('id') in self.m else None
        if op is None or op.get('tls') is None:
            return
        t = op['tls']
        reqs = self.run.reqs(r.i, r.tid)
        if bad_files(t):
            self.harm.append('tls_setup')
            if r.status == 'ok' and reqs:
                self.say('tls', 'bad_files_accepted', '%s succeeded with unusable certificate files' % r.op['op'], r)
        for opi, data in [(o, d) for _, o, d in self.run.w.plain_to_tls if o == r.i]:
            self.say('tls', 'sent_before_handshake', 'sent %s without a completed handshake' % data.hex(), r)
        for q in reqs:
            why = bad_request(q.conn, t, op['host'], os.path.join(self.run.env.scratch, 'certs', str(t.get('certfile'))))
            if why:
                self.say('tls', why[0], '%s: %s' % (r.op['op'], why[1]), r)
                break
        if r.status == 'err' and t.get('skip') and r.harm and set(r.harm) <= set(('tls_verify_failed', 'refused')) and 'tls_verify_failed' in r.harm:
            self.say('tls', 'skip_ignored', '%s with the skip-verification option %s' % (r.op['op'], r.show()), r)

    def unusable(self, r, m, st):
        """A point whose scale factor cannot be resolved has no value."""
        for i, e in enumerate(m.lay):
            if e['err'] is not None and e.get('unscaled') and i < len(st) and st[i]['id'] == e['id']:
                for ix, v, _ in st[i]['blocks']:
                    for pid in e['unscaled']:
                        if v.get(pid) is not None:
                            self.say('value', 'unscaled_value', 'after %s point %s of model %d shows %r although its scale factor does not exist' % (
                                r.op['op'], pid, e['id'], v[pid]), r)

    def bases(self, r):
        """Addresses at which the device of this operation looks for a SunSpec map."""
        op = r.op if r.op['op'] == 'open' else self.m[r.op['id']].op if r.op.get('id') in self.m else {}
        return op.get('bases', (0, 40000, 50000))

    def real_harm(self, r):
        """Faults other than the refusals that looking for the base address meets by nature."""
        harm = list(r.harm)
        if r.op['op'] in SCAN_OPS:
            dev = r.op.get('dev') or (self.m[r.op['id']].op['dev'] if r.op.get('id') in self.m else None)
            sun = self.run.plan['cfg']['sun'].get(dev)
            for q in self.run.reqs(r.i, r.tid):
                if sun and q.addr in self.bases(r) and q.addr != sun['base'] and q.code == 2 and not q.fault.get('kind') and 'refused' in harm:
                    harm.remove('refused')
        return harm

    # ---- scans ------------------------------------------------------------------------

    def open(self, r):
        op = r.op
        o = r.extra.get('obj')
        if r.status == 'ok':
            m = self.m[op['id']] = Mirror(op)
        else:
            m = Mirror(op)
        m.lay = self.run.layout(op['dev'])
        self.owner[r.i] = op['id']
        if op['via'] == 'sunspec':
            self.scanned(r, m, not self.harm)
            if r.status == 'ok':
                self.names(r, m)
        if op.get('badmap') and r.status == 'ok':
            self.say('scan', 'badmap_accepted', 'opening a device on an unusable map file (%s) succeeded' % op['badmap'], r)
        if op['via'] != 'sunspec' and r.status != 'ok' and not self.harm and not op.get('badmap'):
            self.say('scan_must', 'open_failed', 'opening a device %s' % r.show(), r)
        if op['kind'] == 'map' and r.status == 'ok':
            m.map = self.initial_map(op['dev'])
            self.mapcheck(r, m)

    def scan(self, r, m, must):
        self.owner[r.i] = r.op['id']
        self.scanned(r, m, must)
        if m.op['kind'] == 'tcp':
            m.explicit = False
            m.known = True
        if r.status != 'ok' and not r.extra.get('fresh', True):
            return
        m.pend = {}

    def scanned(self, r, m, must):
        op = r.op
        dev = m.op['dev']
        sun = self.run.plan['cfg']['sun'][dev]
        if 'layout' in r.extra:
            m.lay = r.extra['layout']
        lay = m.lay
        what = 'scan of %d models at %d' % (len(lay), sun['base'])
        self.pacing(r, m, lay, sun)
        foreign = sun.get('foreign') or sun['base'] not in self.bases(r)
        if foreign or r.extra.get('unmarked'):
            if r.status == 'ok':
                self.say('scan', 'foreign_accepted', 'the scan of a device that has no SunSpec map where it looks returned', r)
            elif foreign and r.extra['state'].get(op['id']):
                self.say('scan', 'foreign_models', 'a device that is no SunSpec device shows models', r)
            m.listed = False
            m.faulty = m.faulty or bool(self.harm)
            return
        if sun.get('endless') and r.status == 'ok':
            self.say('scan', 'endless', '%s without end marker returned' % what, r)
        if r.status != 'ok':
            m.listed = False
            if must and not sun.get('endless') and 'cancelled' not in r.extra and not op.get('badmap'):
                self.say('scan_must', 'scan_failed', '%s %s' % (what, r.show()), r)
                if m.faulty:
                    self.say('recover', 'scan_failed', '%s %s' % (what, r.show()), r)
            m.faulty = True
            return
        if 'cancelled' in r.extra:
            return                     # reported by pacing()
        m.listed = True
        got = r.extra['state'].get(op['id']) or []
        want = [(e['id'], e['addr'], e['len']) for e in lay]
        have = [(g['id'], g['addr'], g['len']) for g in got]
        if want != have:
            self.say('scan', 'models', '%s lists %s, the device has %s' % (what, brief(have), brief(want)), r)
            return
        for i, (g, e) in enumerate(zip(got, lay)):
            w = e
            label = 'model %d (number %d)' % (e['id'], i)
            if w['err'] is not None:
                if g['err'] is None:
                    self.say('scan', 'error_missing', '%s: no error although its definition is %s' % (label, w['err']), r)
                continue
            if g['err'] is not None:
                self.say('scan', 'load_error', '%s: %s' % (label, g['err']), r)
                continue
            wb = [(b.index, sorted(b.points)) for b in w['blocks']]
            gb = [(ix, sorted(v)) for ix, v, order in g['blocks']]
            if wb != gb:
                self.say('scan', 'blocks', '%s has blocks %s, expected %s' % (label, brief(gb), brief(wb)), r)
                continue
            for (ix, v, order), b in zip(g['blocks'], w['blocks']):
                if order != [q.id for q in sorted(b.points.values(), key=lambda q: q.addr)]:
                    self.say('scan', 'point_order', '%s block %d lists its points as %s' % (label, ix, brief(order)), r)
                for pid, val in v.items():
                    if val is not None:
                        self.say('value', 'unread_value', '%s point %s is %r before it was read' % (label, pid, val), r)
                        break

    def names(self, r, m):
        """Models as attributes."""
        lay = m.lay
        if not m.listed:
            return
        want = []
        for i, e in enumerate(lay):
            for w in want:
                if w[0] == e['name']:
                    w[1].append((i, e))
                    break
            else:
                want.append((e['name'], [(i, e)]))
        got = r.extra['names']
        if [g[0] for g in got] != [w[0] for w in want]:
            self.say('names', 'names', 'models by name %s, expected %s' % (brief([g[0] for g in got]), brief([w[0] for w in want])), r)
            return
        state = r.extra['state'][r.op['id']]
        for (name, inst, item_ok, list_ok), (_, es) in zip(got, want):
            if not item_ok:
                self.say('names', 'item', 'device[%r] is not the attribute' % name, r)
            if [x['addr'] for x in inst] != [e['addr'] for _, e in es]:
                self.say('names', 'instances', '%s has instances at %s, expected %s' % (name, [x['addr'] for x in inst], [e['addr'] for _, e in es]), r)
                continue
            if (len(es) > 1) != list_ok:
                self.say('names', 'instances', '%s with %d instances is wrongly wrapped' % (name, len(es)), r)
            for x, (i, e) in zip(inst, es):
                if e['err'] is not None or not e['blocks']:
                    continue
                self.attr_equal(r, name, x, e, state[i])

    def attr_equal(self, r, name, x, e, st):
        """Attributes show the same values as the points."""
        if x['name'] != name:
            self.say('names', 'model_name', 'model %s says its name is %s' % (name, x['name']), r)
        f = st['blocks'][0][1]
        for d in (x['fixed'], x['item']):
            if sorted(d) != sorted(f):
                self.say('names', 'attributes', 'model %s has attributes %s, expected %s' % (name, brief(sorted(d)), brief(sorted(f))), r)
                return
            if not equal(d, f):
                self.say('value', 'attributes', 'model %s has attribute values %s, its points %s' % (name, brief(d), brief(f)), r)
                return
        if len(x['rep']) != len(e['blocks']) - 1:
            self.say('names', 'repeating', 'model %s shows %d repeating blocks of %d' % (name, len(x['rep']), len(e['blocks']) - 1), r)
            return
        if x['rep']:
            if x['rep_name'] != (e['blocks'][1].name or 'repeating') or not x['alias']:
                self.say('names', 'repeating', 'model %s calls its repeating blocks %s' % (name, x['rep_name']), r)
            for k, d in enumerate(x['rep']):
                f = st['blocks'][k + 1][1]
                if sorted(d) != sorted(f):
                    self.say('names', 'attributes', 'block %d of %s has attributes %s, expected %s' % (k + 1, name, brief(sorted(d)), brief(sorted(f))), r)
                    return
                if not equal(d, f):
                    self.say('value', 'attributes', 'block %d of %s has attribute values %s, its points %s' % (k + 1, name, brief(d), brief(f)), r)
                    return

    def pacing(self, r, m, lay, sun):
        """Delays, progress calls and cancellation of a scan."""
        op = r.op
        run = self.run
        reqs = run.reqs(r.i, r.tid)
        calls = r.extra.get('progress', [])
        if op.get('progress'):
            for k, (t, step, text) in enumerate(calls):
                if k >= len(lay) and not sun.get('endless'):
                    self.say('progress', 'too_many', 'progress called %d times for %d models' % (len(calls), len(lay)), r)
                    break
                if k < len(lay) and not has_number(text, lay[k]['id']):
                    self.say('progress', 'wrong_model', 'progress call %d says %r, the model is %d' % (k, text, lay[k]['id']), r)
                    break
            if r.status == 'ok' and len(calls) != len(lay):
                self.say('progress', 'count', 'progress called %d times for %d models' % (len(calls), len(lay)), r)
            if 'cancelled' in r.extra:
                s = r.extra['cancelled']
                late = [q for q in reqs if q.step > s]
                if late:
                    self.say('cancel', 'continued', '%d requests sent after the progress function declined' % len(late), r)
                if r.status == 'ok':
                    self.say('cancel', 'ignored', 'the scan returned although the progress function declined', r)
                elif op['cancel_with'] != 'raise' and not r.is_a('SunSpecClientError') and 'interrupt' not in r.harm:
                    self.say('cancel', 'error', 'cancelled scan %s' % r.show(), r)
                if m.op['kind'] == 'tcp' and self.open_sockets(op['id'], r):
                    self.say('cancel', 'connection', 'cancelled scan left its connection open', r)
                elif m.op['kind'] == 'rtu' and op['op'] == 'open':
                    others = [x for x in self.m.values() if x.op['kind'] == 'rtu' and x.op['port'] == m.op['port'] and not x.closed]
                    if not others and self.handles(m.op['port'], r.s1):
                        self.say('cancel', 'connection', 'cancelled scan left its serial port open', r)
        d = op.get('delay')
        if not d or 'interrupt' in r.harm:
            return
        eps = 1e-6
        if m.op['kind'] == 'tcp' and reqs:
            est = [k for k in run.w.net.socks if k.owner_op == r.i and k.est_step is not None and k.est_step < reqs[0].step]
            if est and reqs[0].t - est[0].est_time < d - eps:
                self.say('pace', 'connect', 'first request %.3f s after connecting, delay %g' % (reqs[0].t - est[0].est_time, d), r)
        # the probes come first; the successful one is at the device's base address
        pr = []
        for q in reqs:
            if q.addr in self.bases(r) and q.addr != sun['base']:
                pr.append(q)
            elif q.addr == sun['base']:
                pr.append(q)
                break
            else:
                break
        for a, b in zip(pr, pr[1:]):
            if a.addr != b.addr and b.t - a.t < d - eps:
                self.say('pace', 'probe', 'probes of %d and %d are %.3f s apart, delay %g' % (a.addr, b.addr, b.t - a.t, d), r)
        first = []
        for e in lay:
            c = [q for q in reqs if q.addr <= e['addr'] - 1 < q.addr + q.count]
            if not c:
                break
            first.append(c[0].t)
        for k, (a, b) in enumerate(zip(first, first[1:])):
            if b - a < d - eps:
                self.say('pace', 'model', 'requests for models %d and %d are %.3f s apart, delay %g' % (k, k + 1, b - a, d), r)
                break
        for k, (a, b) in enumerate(zip(calls, calls[1:])):
            if b[0] - a[0] < d - eps:
                self.say('pace', 'model', 'models %d and %d are scanned %.3f s apart, delay %g' % (k, k + 1, b[0] - a[0], d), r)
                break

    # ---- reading -----------------------------------------------------------------------

    def good(self, m):
        if m.state is None:
            return []
        lay = m.lay
        return [i for i, e in enumerate(lay) if e['err'] is None and i < len(m.state) and m.state[i]['id'] == e['id'] and m.state[i]['err'] is None
                and m.state[i]['addr'] == e['addr'] and len(m.state[i]['blocks']) == len(e['blocks'])]

    def mread(self, r, m, must):
        i = r.op['m']
        what = 'read of model %d (number %d)' % (m.lay[i]['id'], i)
        if r.status == 'ok':
            self.values(r, m, i, what)
            self.read_traffic(r, m, i, what)
            self.forget(m, i)
        else:
            self.read_failed(r, m, must, what)
            self.compare(r, m, what + ' failed', 'atomic', ())

    def dread(self, r, m, must):
        good = self.good(m)
        lay = m.lay
        if r.status == 'ok':
            for i in good:
                what = 'read of the device: model %d (number %d)' % (lay[i]['id'], i)
                self.values(r, m, i, what)
                self.read_traffic(r, m, i, what)
                self.forget(m, i)
            return
        self.read_failed(r, m, must, 'read of the device')
        st = r.extra['state'].get(r.op['id'])
        for i in good:
            if equal(st[i]['blocks'], m.state[i]['blocks']):
                # not known whether this model was read before the failure
                for k, v in m.pend.items():
                    if k[0] == i:
                        v[1] = False
                continue
            n = len(self.out)
            self.values(r, m, i, 'failed read of the device: model %d (number %d) changed and' % (lay[i]['id'], i), 'atomic')
            self.forget(m, i)

    def read_failed(self, r, m, must, what):
        if must and m.listed:
            self.say('read_must', 'read_failed', '%s %s' % (what, r.show()), r)
            if m.faulty:
                self.say('recover', 'read_failed', '%s %s' % (what, r.show()), r)
            if m.op['kind'] == 'rtu':
                self.say('port_use', 'read_failed', '%s %s' % (what, r.show()), r)
        m.faulty = True

    def forget(self, m, i):
        for k in [k for k in m.pend if k[0] == i]:
            del m.pend[k]

    def reg_at(self, r, m, addr, n, step):
        dev = self.run.devices.get(m.op['dev'])
        if dev is None:
            return b''.join(m.map[a] for a in range(addr, addr + n))
        return b''.join(struct.pack('>H', dev.value_at(3, a, step)) for a in range(addr, addr + n))

    def steps(self, r, m, addr, n):
        """Moments during the operation at which these registers changed."""
        dev = self.run.devices.get(m.op['dev'])
        out = {r.s0}
        if dev is not None:
            for a in range(addr, addr + n):
                for s, _ in dev.hist.get((3, a), ()):
                    if r.s0 < s <= r.s1:
                        out.add(s)
        return sorted(out)

    def expected(self, r, m, q, step):
        base = ref.decode(q.type, self.reg_at(r, m, q.addr, q.len, step))
        sf = q.sf
        if q.sfp is not None:
            sf = ref.decode('sunssf', self.reg_at(r, m, q.sfp.addr, 1, step))
            if sf is None:
                return [base, None]
        if base is None:
            return [None]
        return ref.scaled(base, sf)

    def values(self, r, m, i, what, cat='value'):
        e = m.lay[i]
        st = r.extra['state'][r.op['id']][i]
        pts = []
        for b, (ix, v, _) in zip(e['blocks'], st['blocks']):
            for q in b.points.values():
                pts.append((b, q, v.get(q.id)))
        bad = None
        one = e['len'] <= 125
        steps = self.steps(r, m, e['addr'], e['len'])
        if one:
            best = None
            for s in steps:
                wrong = [(b, q, v, self.expected(r, m, q, s)) for b, q, v in pts if not any(ref.same(v, w) for w in self.expected(r, m, q, s))]
                if not wrong:
                    best = ()
                    break
                if best is None or len(wrong) < len(best):
                    best = wrong
            if best:
                b, q, v, w = best[0]
                # is every single value right at some moment?
                single = all(any(ref.same(v2, w2) for s in steps for w2 in self.expected(r, m, q2, s)) for b2, q2, v2, _ in best)
                bad = ('snapshot' if single else cat, b, q, v, w)
        else:
            for b, q, v in pts:
                if not any(ref.same(v, w) for s in steps for w in self.expected(r, m, q, s)):
                    bad = (cat, b, q, v, self.expected(r, m, q, r.s0))
                    break
        if bad:
            c, b, q, v, w = bad
            msg = '%s gives point %s (%s, block %d) = %r, the device has %s' % (what, q.id, q.type, b.index, v, ' or '.join(repr(x) for x in w))
            self.say(c, 'torn_model' if c == 'snapshot' else 'wrong_value', msg, r)
            if m.faulty:
                self.say('recover_value', 'wrong_value', msg, r)

    def read_traffic(self, r, m, i, what):
        if m.op['kind'] == 'map':
            return
        e = m.lay[i]
        reqs = [q for q in self.run.reqs(r.i, r.tid) if q.fc in (3, 4)]
        ranges = set((q.addr, q.addr + q.count) for q in reqs)

        def covered(a, b):
            return any(x <= a and b <= y for x, y in ranges)
        if 0 < e['len'] <= 125 and e['blocks'] and any(b.points for b in e['blocks']) and not covered(e['addr'], e['addr'] + e['len']):
            lo = min(q.addr for b in e['blocks'] for q in b.all.values())
            hi = max(q.addr + q.len for b in e['blocks'] for q in b.all.values())
            if not covered(lo, hi):
                self.say('snapshot', 'several_requests', '%s of %d registers is not covered by one request (%s)' % (what, e['len'], brief(sorted(ranges))), r)
                return
        for b in e['blocks']:
            for q in b.all.values():
                if q.len <= 125 and not covered(q.addr, q.addr + q.len):
                    self.say('torn', 'torn_read', '%s: point %s at %d..%d is not read by one request (%s)' % (
                        what, q.id, q.addr, q.addr + q.len - 1, brief(sorted(ranges))), r)
                    return

    # ---- setting and writing -----------------------------------------------------------

    def set(self, r, m, must):
        op = r.op
        key = (op['m'], op['b'], op['p'])
        q = m.lay[op['m']]['blocks'][op['b']].points[op['p']]
        what = 'setting %s point %s to %r' % (q.type, q.id, r.extra.get('v'))
        if r.status != 'ok':
            if not op.get('bad') or not r.is_a('SunSpecError'):
                self.say('set', 'set_failed', '%s %s' % (what, r.show()), r)
            self.compare(r, m, 'refused ' + what, 'set', ())
            return
        bad = op.get('bad')
        sf = r.extra.get('sf')
        if 'raw' in op:
            want = ref.scaled(op['raw'], sf)[0]
            lo, hi = ref.limits(q.type)
            bad = not lo <= op['raw'] <= hi
            raw = None if bad else ref.encode(q.type, q.len, op['raw'])
        else:
            want = op['v']
            raw = None if bad else ref.encode(q.type, q.len, op['v'])
        got = dict((b[0], b[1]) for b in r.extra['state'][op['id']][op['m']]['blocks'])[op['b']][op['p']]
        if not bad and not ref.same(got, want):
            self.say('set', 'set_value', '%s: the point reads %r' % (what, got), r)
        m.pend[key] = [raw, True]
        self.compare(r, m, what, 'set', (key,))

    def write(self, r, m, must):
        i = r.op['m']
        e = m.lay[i]
        what = 'write of model %d (number %d)' % (e['id'], i)
        pend = dict((k, v) for k, v in m.pend.items() if k[0] == i)
        self.written(r, m, must, what, pend)
        self.compare(r, m, what, 'write_value', ())

    def pwrite(self, r, m, must):
        op = r.op
        key = (op['m'], op['b'], op['p'])
        q = m.lay[op['m']]['blocks'][op['b']].points[op['p']]
        what = 'write of point %s' % q.id
        if key in m.pend:
            pend = {key: m.pend[key]}
            if not pend[key][1]:
                # sent in any case
                pend = {key: [pend[key][0], True]}
                m.pend[key] = pend[key]
        else:
            # not modified: the value last read is sent
            raw = self.reread(r, m, q)
            pend = {key: [raw, True]} if raw is not None else {key: ['any', True]}
        had = key in m.pend
        self.written(r, m, must, what, pend)
        if not had:
            m.pend.pop(key, None)
        self.compare(r, m, what, 'write_value', ())

    def reread(self, r, m, q):
        return None

    def written(self, r, m, must, what, pend):
        """Compare the traffic of a write with the points that had to be written."""
        bad = [k for k, v in pend.items() if v[0] is None and v[1]]
        if bad and r.status == 'ok':
            self.say('write_invalid', 'invalid_accepted', '%s returned although point %s has a value it cannot hold' % (what, bad[0][2]), r)
        if bad and r.status == 'err' and not r.is_a('SunSpecClientError') and not self.harm:
            self.say('write_invalid', 'invalid_error', '%s with an invalid value %s' % (what, r.show()), r)
        if any(v[0] is None for v in pend.values()):
            must = False
        if m.op['kind'] == 'map':
            self.written_map(r, m, must, what, pend)
            return
        reqs = self.run.reqs(r.i, r.tid)
        dev = self.run.devices[m.op['dev']]
        lay = m.lay
        bykey = dict((k, lay[k[0]]['blocks'][k[1]].points[k[2]]) for k in pend)
        start = {}
        for k, q in bykey.items():
            start[q.addr] = k
        sent = {}
        for n, q in enumerate(reqs):
            if q.dev is not dev or q.fc != 16:
                self.say('write', 'other_request', '%s sent function %d to unit %d' % (what, q.fc, q.unit), r)
                return
            pos = q.addr
            while pos < q.addr + q.count:
                k = start.get(pos)
                if k is None:
                    self.split(r, m, what, q, pos, bykey)
                    return
                p = bykey[k]
                if pos + p.len > q.addr + q.count:
                    self.say('torn_write', 'torn_write', '%s sends point %s at %d..%d in pieces (request of %d at %d)' % (
                        what, p.id, p.addr, p.addr + p.len - 1, q.count, q.addr), r)
                    return
                data = q.data[2 * (pos - q.addr):2 * (pos - q.addr + p.len)]
                if pend[k][0] is None:
                    self.say('write_value', 'invalid_sent', '%s sent %s for the invalid value of %s' % (what, data.hex(), p.id), r)
                    return
                if pend[k][0] != 'any' and data != pend[k][0]:
                    self.say('write_value', 'wrong_data', '%s sent %s for %s point %s, expected %s' % (what, data.hex(), p.type, p.id, pend[k][0].hex()), r)
                    return
                if k in sent:
                    self.say('write', 'sent_twice', '%s sent point %s twice' % (what, p.id), r)
                    return
                sent[k] = n
                pos += p.len
        if r.status == 'ok':
            missing = [k for k, v in pend.items() if v[1] and k not in sent and v[0] is not None]
            if missing:
                self.say('pending', 'not_sent', '%s did not send the modified point %s' % (what, missing[0][2]), r)
                self.say('write', 'not_sent', '%s did not send the modified point %s' % (what, missing[0][2]), r)
            bad = [q for q in reqs if not q.applied]
            if bad:
                self.say('pending', 'not_applied', '%s returned although the device did not apply request %d' % (what, reqs.index(bad[0])), r)
            for k in pend:
                m.pend.pop(k, None)
            return
        if must:
            self.say('write_must', 'write_failed', '%s %s' % (what, r.show()), r)
            if m.faulty:
                self.say('recover', 'write_failed', '%s %s' % (what, r.show()), r)
            if m.op['kind'] == 'rtu':
                self.say('port_use', 'write_failed', '%s %s' % (what, r.show()), r)
        m.faulty = True
        later = ('connect_', 'send_')
        for k, n in sent.items():
            q = reqs[n]
            clean = q.applied and q.delivered and not q.harmful
            if not clean and [h for h in (q.harmful or ()) if h not in ('noise', 'stray_reply') and not (h == 'late' and 'stray_reply' in r.harm)] or not q.applied:
                continue               # not acknowledged: stays pending
            last = n == len(reqs) - 1
            if clean and (not last or not self.harm or all(h.startswith(later) for h in self.harm)):
                m.pend.pop(k, None)
            elif k in m.pend:
                m.pend[k] = [m.pend[k][0], False]

    def split(self, r, m, what, q, pos, bykey):
        for k, p in bykey.items():
            if p.addr < pos < p.addr + p.len:
                self.say('torn_write', 'torn_write', '%s sends point %s at %d..%d in pieces (request of %d at %d)' % (
                    what, p.id, p.addr, p.addr + p.len - 1, q.count, q.addr), r)
                return
        self.say('write', 'unmodified_sent', '%s wrote register %d, which belongs to no modified point (request of %d at %d)' % (what, pos, q.count, q.addr), r)

    # ---- register maps -------------------------------------------------------------------

    def initial_map(self, dev):
        regs = {}
        for a, hx in self.run.plan['cfg']['mapmem'][dev]:
            for k in range(len(hx) // 4):
                regs[a + k] = bytes.fromhex(hx[4 * k:4 * k + 4])
        return regs

    def mapcheck(self, r, m, cat='write'):
        got = r.extra.get('map')
        if got is None:
            return
        if isinstance(got, str):
            self.say(cat, 'map_unreadable', 'the map cannot be read: %s' % got, r)
            return
        diff = [a for a in sorted(m.map) if got.get(a) != m.map[a]]
        if diff:
            self.say(cat, 'map_contents', 'after %s register %d of the map is %s, expected %s' % (
                r.op['op'], diff[0], got[diff[0]].hex(), m.map[diff[0]].hex()), r)
            m.map = dict(got)

    def written_map(self, r, m, must, what, pend):
        lay = m.lay
        if r.status != 'ok':
            if must:
                self.say('write_must', 'write_failed', '%s %s' % (what, r.show()), r)
            # what was written before an unencodable value is not known
            got = r.extra.get('map')
            if isinstance(got, dict):
                for k, v in pend.items():
                    p = lay[k[0]]['blocks'][k[1]].points[k[2]]
                    if v[0] is None or v[0] == 'any':
                        continue
                    now = b''.join(got[a] for a in range(p.addr, p.addr + p.len))
                    if now == v[0]:
                        for n in range(p.len):
                            m.map[p.addr + n] = now[2 * n:2 * n + 2]
                        m.pend[k] = [v[0], False]
            self.mapcheck(r, m)
            return
        for k, v in pend.items():
            p = lay[k[0]]['blocks'][k[1]].points[k[2]]
            if v[0] is None:
                continue
            for n in range(p.len):
                a = p.addr + n
                if v[0] == 'any':
                    m.map[a] = r.extra['map'][a]
                elif v[1]:
                    m.map[a] = v[0][2 * n:2 * n + 2]
                elif isinstance(r.extra.get('map'), dict) and r.extra['map'][a] == v[0][2 * n:2 * n + 2]:
                    m.map[a] = r.extra['map'][a]
            m.pend.pop(k, None)
        self.mapcheck(r, m)

    # ---- registers -------------------------------------------------------------------------

    def rawread(self, r, m, must):
        op = r.op
        if r.status == 'ok' and op['count']:
            v = r.value
            dev = self.run.devices.get(m.op['dev'])
            if not isinstance(v, bytes) or len(v) != 2 * op['count']:
                self.say('recover_value', 'wrong_data', 'read of %d registers returned %r' % (op['count'], v), r)
                return
            for k in range(op['count']):
                a = op['addr'] + k
                w = v[2 * k:2 * k + 2]
                ok = (w in [struct.pack('>H', x) for x in dev.values_during(3, a, r.s0, r.s1)]) if dev is not None else m.map.get(a) == w
                if not ok:
                    self.say('recover_value', 'wrong_data', 'register %d read as %s' % (a, w.hex()), r)
                    return
        elif r.status != 'ok':
            if must and m.faulty and self.exists(m, op):
                self.say('recover', 'read_failed', 'register read %s' % r.show(), r)
            m.faulty = True

    def exists(self, m, op):
        dev = self.run.devices.get(m.op['dev'])
        if op['addr'] < 0 or op['addr'] + op['count'] > 0x10000:
            return False
        return all(dev.exists(3, a) if dev is not None else a in m.map for a in range(op['addr'], op['addr'] + op['count']))

    def rawwrite(self, r, m, must):
        op = r.op
        if m.map is not None and r.status == 'ok' and self.exists(m, op):
            for k in range(op['count']):
                m.map[op['addr'] + k] = bytes.fromhex(op['data'][4 * k:4 * k + 4])
            self.mapcheck(r, m)
        if r.status != 'ok':
            if must and m.faulty and self.exists(m, op):
                self.say('recover', 'write_failed', 'register write %s' % r.show(), r)
            m.faulty = True

    # ---- connections ----------------------------------------------------------------------

    def connect(self, r, m, must):
        self.owner[r.i] = r.op['id']
        m.known = True
        m.explicit = r.status == 'ok'
        if must and r.status != 'ok' and m.faulty:
            self.say('recover', 'connect_failed', 'connect %s' % r.show(), r)

    def disconnect(self, r, m, must):
        m.explicit = False
        m.known = True

    def close(self, r, m, must):
        m.explicit = False
        m.known = True
        m.closed = True

    # ---- rules for every operation -------------------------------------------------------------

    FATAL = frozenset(('drop_req', 'drop_rep', 'exc', 'refused', 'unit', 'tid', 'babble', 'func', 'short', 'bytecount', 'echo', 'close_req', 'close_rep',
                       'rst_req', 'rst_rep', 'device_crash', 'trunc', 'close_mid', 'rst_mid', 'late', 'corrupt', 'line_slip'))

    def error(self, r):
        op = r.op
        name = op['op']
        if name not in ('open', 'scan', 'dread', 'mread', 'write', 'pwrite', 'rawread', 'rawwrite', 'close', 'connect', 'disconnect'):
            return
        if r.status == 'err':
            if r.exc == 'KeyboardInterrupt' and 'interrupt' in r.harm:
                return
            if r.exc == 'RuntimeError' and op.get('cancel_with') == 'raise' and 'cancelled' in r.extra:
                return
            base = 'ModbusClientError' if name in ('connect', 'disconnect') else 'SunSpecClientError'
            if not r.is_a(base):
                self.say('error', 'undocumented_' + r.exc, '%s %s (faults: %s; raised in %s)' % (name, r.show(), ','.join(r.harm) or 'none', r.tb), r)
            return
        if op.get('id') not in self.m:
            return
        m = self.m[op['id']]
        if m.op['kind'] == 'map':
            if name in ('rawread', 'rawwrite') and not self.exists(m, op) and op['count']:
                self.say('hidden', 'failure_hidden', '%s of %d at %d outside the map returned' % (name, op['count'], op['addr']), r)
            return
        if name in ('dread', 'mread', 'write', 'pwrite', 'rawread', 'rawwrite'):
            bad = [h for q in self.run.reqs(r.i, r.tid) for h in (q.harmful or ()) if h in self.FATAL]
        elif name in SCAN_OPS:
            # a failed look at a base address is followed by the next one
            sun = self.run.plan['cfg']['sun'][m.op['dev']]
            reqs = self.run.reqs(r.i, r.tid)
            bad = [h for q in reqs if q.addr not in self.bases(r) for h in (q.harmful or ()) if h in self.FATAL]
        else:
            return
        if 'stray_reply' in r.harm:
            bad = [h for h in bad if h != 'late']      # the stray one may have bridged the silence
        if bad:
            self.say('hidden', 'failure_hidden', '%s returned although an exchange failed (%s)' % (name, ','.join(bad)), r)

    def timing(self, r):
        op = r.op
        if op['op'] not in ('open', 'scan', 'dread', 'mread', 'write', 'pwrite', 'rawread', 'rawwrite', 'connect', 'close', 'disconnect'):
            return
        meta = op if op['op'] == 'open' else self.m[op['id']].op if op.get('id') in self.m else None
        if meta is None or meta['kind'] == 'map':
            return
        T = meta['timeout'] if meta.get('timeout') is not None else TIMEOUT[meta['kind']]
        what = '%s %s with timeout %g' % (meta['kind'], op['op'], T)
        more = EPS
        if op['op'] in SCAN_OPS:
            # a silent probe is followed by a new connection
            more = 0.1 + T * sum(len(op.get(k) or ()) for k in 'csh')
        if r.ctx.max_idle_silent > T + more:
            self.say('time', 'too_long', '%s waited %.3f s for a silent device' % (what, r.ctx.max_idle_silent), r)
        elif r.ctx.max_idle > 2 * T + more:
            self.say('time', 'too_long', '%s waited %.3f s for the rest of a reply' % (what, r.ctx.max_idle), r)
        if r.status == 'err' and op['op'] in ('dread', 'mread', 'write', 'pwrite', 'rawread', 'rawwrite') and r.harm in (['drop_req'], ['drop_rep']):
            waited = r.t1 - r.ctx.last_activity
            if waited < T - EPS:
                self.say('time', 'too_short', '%s gave up after %.3f s without data' % (what, waited), r)
        if r.status == 'err' and not self.harm and (op.get('f') or self.run.w.fired['delay'] or self.run.w.fired['connect_delay']):
            names = [c for c, s, t, i in self.out if i == r.i and c in ('scan_must', 'read_must', 'write_must')]
            if names:
                self.say('time', 'gave_up_early', '%s: the device answered in time but it %s' % (what, r.show()), r)

    def compare(self, r, m, what, cat, keys):
        """No value changed except those in keys."""
        new = r.extra['state'].get(r.op['id'])
        old = m.state
        if old is None or new is None:
            return
        if [(a['id'], a['addr'], len(a['blocks'])) for a in old] != [(a['id'], a['addr'], len(a['blocks'])) for a in new]:
            self.say(cat, 'models_changed', '%s changed the list of models' % what, r)
            return
        for i, (a, b) in enumerate(zip(old, new)):
            for (ix, va, _), (_, vb, _) in zip(a['blocks'], b['blocks']):
                for pid in vb:
                    if (i, ix, pid) not in keys and not same_value(va.get(pid), vb[pid]):
                        self.say(cat, 'value_changed', '%s changed point %s of model %d (number %d, block %d) from %r to %r' % (
                            what, pid, a['id'], i, ix, va.get(pid), vb[pid]), r)
                        return

    def unchanged(self, r):
        """Objects other than the one in use are left alone; and so is this one by operations on registers."""
        for oid, st in r.extra.get('state', {}).items():
            m = self.m.get(oid)
            if m is None or m.state is None:
                continue
            if oid != r.op.get('id') or r.op['op'] in ('close', 'connect', 'disconnect', 'rawread', 'rawwrite'):
                if not equal([x['blocks'] for x in m.state], [x['blocks'] for x in st]) or \
                        [(x['id'], x['addr'], x['len'], x['err']) for x in m.state] != [(x['id'], x['addr'], x['len'], x['err']) for x in st]:
                    self.say('stray_change', 'stray_change', '%s of %s changed what %s shows' % (r.op['op'], r.op.get('id'), oid), r)
            elif r.op['op'] == 'mread':
                i = r.op['m']
                for k, (a, b) in enumerate(zip(m.state, st)):
                    if k != i and not equal(a['blocks'], b['blocks']):
                        self.say('stray_change', 'stray_change', 'reading model number %d changed the values of number %d' % (i, k), r)
                        break
        if r.op.get('id') in self.m and 'names' in r.extra and r.op['op'] != 'open' and self.m[r.op['id']].listed:
            self.names(r, self.m[r.op['id']])

    # ---- sockets and ports -----------------------------------------------------------------------

    def open_sockets(self, oid, r):
        own = [x.i for x in self.run.results if x.op.get('id') == oid and x.i <= r.i]
        return sum(1 for k in self.run.w.net.socks if k.owner_op in own and k.new_step <= r.s1 and (k.close_step is None or k.close_step > r.s1))

    def sockets(self, r):
        op = r.op
        if op.get('id') is None:
            return
        m = self.m.get(op['id'])
        meta = m.op if m is not None else op if op['op'] == 'open' else None
        if meta is None or meta['kind'] != 'tcp':
            return
        n = self.open_sockets(op['id'], r)
        what = '%s (%s)' % (op['op'], r.show() if r.status == 'err' else 'ok')
        if n > 1:
            self.say('sockets', 'two_connections', '%d connections open after %s' % (n, what), r)
        if m is None or op['op'] in ('open', 'scan', 'close', 'disconnect'):
            if n:
                self.say('sockets', 'open_after_' + op['op'], '%d connections open after %s' % (n, what), r)
        elif op['op'] == 'connect':
            if r.status == 'err' and n:
                self.say('sockets', 'open_after_failed_connect', '%d connections open after %s' % (n, what), r)
            if r.status == 'ok' and n != 1:
                self.say('sockets', 'not_connected', '%d connections open after connect' % n, r)
        elif op['op'] in ('mread', 'dread', 'write', 'pwrite', 'rawread', 'rawwrite'):
            mine = [k for k in self.run.w.net.socks if k.owner_op == r.i]
            if m.known and not m.explicit and n:
                self.say('sockets', 'open_after_request', '%d connections open after %s on an unconnected device' % (n, what), r)
            if m.known and m.explicit and r.status == 'ok' and not r.harm and (mine or n != 1):
                self.say('sockets', 'connection_not_kept', '%s on a connected device opened %d and left %d connections' % (what, len(mine), n), r)
            if r.status != 'ok' or r.harm:
                m.known = m.known and not m.explicit

    def handles(self, port, step):
        return sum(1 if e[2] == 'open' else -1 for e in self.run.w.port_log if e[3] == port and e[0] <= step)

    def portuse(self, r):
        if not self.run.w.buses or r.op['op'] not in ('open', 'close', 'scan', 'mread', 'dread', 'write', 'pwrite', 'rawread', 'rawwrite'):
            return
        for name in sorted(self.run.w.buses):
            n = self.handles(name, r.s1)
            bus = self.run.w.buses[name]
            for e in self.run.w.port_log:
                if bus.strict and e[3] == name and e[2] == 'open' and r.s0 <= e[0] <= r.s1 and e[4:] != (bus.baud, bus.parity, 8, 1):
                    self.say('ports', 'port_settings', '%s opens port %s with %s, asked for were %s' % (r.op['op'], name, e[4:], (bus.baud, bus.parity, 8, 1)), r)
            users = [m for m in self.m.values() if m.op['kind'] == 'rtu' and m.op['port'] == name and not m.closed]
            if users and n != 1:
                self.say('ports', 'handle_lost', 'after %s port %s has %d handles with %d devices open' % (r.op['op'], name, n, len(users)), r)
            if not users and n != 0:
                self.say('ports', 'handle_leaked', 'after %s (%s) port %s is still open although no device is' % (r.op['op'], r.show()[:80], name), r)


def has_number(text, n):
    cur = ''
    for ch in text + ' ':
        if ch.isdigit():
            cur += ch
        else:
            if cur and int(cur) == n:
                return True
            cur = ''
    return False


def same_value(a, b):
    return a == b and type(a) == type(b) or (a != a and b != b)


def equal(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return same_value(a, b)


def brief(x):
    s = str(x)
    return s if len(s) < 160 else s[:157] + '...'


def check(run, prop):
    j = Judge(run)
    j.analyse()
    return [Violation(prop, sig, msg, i) for cat, sig, msg, i in j.out if cat in CATS[prop]]


def judge(plan, prop, scratch):
    from .w2 import W2
    run = W2(plan, scratch).execute()
    if prop != 'C15':
        return check(run, prop), [run]
    traced = W2(plan, scratch)
    traced.trace = True
    traced.execute()
    return check_trace(run, traced), [run, traced]


# ---- tracing ---------------------------------------------------------------------------------------

def check_trace(plain, traced):
    """Two executions of one plan, without and with tracing."""
    from .w1 import outcome, wire
    for a, b in zip(plain.results, traced.results):
        for what, x, y in (('did', a.show(), b.show()), ('met', a.harm, b.harm), ('ended at', round(a.t1, 6), round(b.t1, 6))):
            if x != y:
                return [Violation('C15', 'result_differs', '%s without tracing %s %s; with tracing %s' % (a.op['op'], what, x, y), a.i)]
        if not equal(state_of(a), state_of(b)):
            return [Violation('C15', 'state_differs', 'after %s the device shows other models or values with tracing on' % a.op['op'], a.i)]
    if outcome(plain) != outcome(traced):
        return [Violation('C15', 'result_differs', 'the runs end differently with tracing on', None)]
    if [e for e in wire(plain) if e[0] != 'sock'] != [e for e in wire(traced) if e[0] != 'sock'] or \
            sorted(map(str, wire(plain))) != sorted(map(str, wire(traced))):
        return [Violation('C15', 'wire_differs', 'different bytes on the wire with tracing on')]
    out = []
    lines = {}
    for opi, s in traced.traced:
        lines.setdefault(opi, []).append(s)
    printed = traced.out.splitlines()
    ppos = 0
    meta = {}
    for r in traced.results:
        if r.op['op'] == 'open':
            meta[r.op['id']] = r.op
        if r.op.get('id') not in meta or r.status == 'fatal':
            continue
        o = meta[r.op['id']]
        if o['kind'] == 'map':
            continue
        use_print = o.get('tr') == 'print'
        src = printed[ppos:] if use_print else [str(x) for x in lines.get(r.i, [])]
        pos = 0
        target = o['host'] if o['kind'] == 'tcp' else o['port']
        reqs = traced.reqs(r.i)
        for k, q in enumerate(reqs):
            want = [('request', q.raw)]
            last = k == len(reqs) - 1
            if q.delivered and not q.unread and q.resp is not None and not [h for h in (q.harmful or ()) if h not in ('exc', 'refused')] and \
                    not [h for h in r.harm if h in ('noise', 'stale_reply_arrives', 'interrupt')] and \
                    (not last or r.status == 'ok' or (q.code is not None and [h for h in r.harm if h not in ('exc', 'refused')] == [])):
                want.append(('response', q.resp))
            for label, raw in want:
                hx = raw.hex()
                while pos < len(src):
                    line = src[pos]
                    pos += 1
                    if hx in line.lower().replace(' ', ''):
                        if target.lower() not in line.lower() or str(q.addr) not in line.replace(hx, '').replace(hx.upper(), ''):
                            out.append(Violation('C15', 'trace_target', 'the trace line of a %s lacks its target or address: %s' % (label, line), r.i))
                        break
                else:
                    out.append(Violation('C15', 'trace_incomplete', 'the %s %s of %s is not in the trace (in order)' % (label, hx, r.op['op']), r.i))
                    return out
        if use_print:
            ppos += pos
    return out


def state_of(r):
    st = r.extra.get('state') or {}
    return [(oid, [(x['id'], x['addr'], x['len'], x['err'], x['blocks']) for x in st[oid]]) for oid in sorted(st)] + \
        [r.extra.get('skip'), r.extra.get('broken'), len(r.extra.get('progress', ()))]
