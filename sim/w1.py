"""Workload 1: register-level use of Modbus devices over TCP (plain and TLS), serial lines and register
maps, through ModbusClientDevice* and ClientDevice.  Decides C01-C08, C15 and C17."""
import struct

from .kernel import HarnessError
from .regs import hash16
from .runner import Run, Violation

TCP_TIMEOUT = 2.0
RTU_TIMEOUT = 0.5
EPS = 2e-3


def gen_data(seed, n):
    return b''.join(struct.pack('>H', hash16('w', seed, i)) for i in range(n))


class W1(Run):

    trace = False

    def setup(self):
        self.mbc = self.mod('sunspec.core.modbus.client')
        if any(o.get('api') == 'client' for o in self.plan['ops']):
            self.cli = self.mod('sunspec.core.client')
        self.meta = {}
        self.traced = []

    def trace_func(self, s):
        self.traced.append((self.w.ctx.opi, s))

    # ---- operations -----------------------------------------------------------

    def path(self, rel):
        import os
        return os.path.join(self.env.scratch, rel) if rel is not None else None

    def do_new(self, op, r):
        kind = op['kind']
        kw = {}
        modbus = op['api'] == 'modbus'
        if self.trace:
            if modbus:
                kw['trace_func'] = self.trace_func
            elif op.get('tr') == 'func':
                kw['trace'] = self.trace_func
            else:
                kw['trace'] = True
        if 'timeout' in op:
            kw['timeout'] = op['timeout']
        if modbus and op.get('max_count') is not None:
            kw['max_count'] = op['max_count']
        self.meta[op['id']] = op
        unit = str(op['unit']) if op.get('ustr') else op['unit']
        if kind == 'tcp':
            kw['ipaddr'] = op['host']
            if 'port' in op:
                kw['ipport'] = op['port']
            t = op.get('tls')
            if t is not None:
                kw['tls'] = True
                for k in ('cafile', 'certfile', 'keyfile'):
                    if t.get(k) is not None:
                        kw[k] = self.path('certs/' + t[k])
                if t.get('skip'):
                    kw['insecure_skip_tls_verify'] = True
            if modbus:
                obj = self.mbc.ModbusClientDeviceTCP(unit, **kw)
            else:
                obj = self.cli.ClientDevice(self.cli.TCP, unit, **kw)
        elif kind == 'rtu':
            kw['name'] = op['port']
            for k in ('baudrate', 'parity'):
                if k in op:
                    kw[k] = op[k]
            if modbus:
                obj = self.mbc.ModbusClientDeviceRTU(unit, **kw)
            else:
                obj = self.cli.ClientDevice(self.cli.RTU, unit, **kw)
        else:
            kw.pop('timeout', None)
            kw.pop('trace_func', None)
            name = self.path('maps/' + op['file'])
            if op.get('pathlist'):
                util = self.mod('sunspec.core.util')
                kw['pathlist'] = util.PathList([self.path('nowhere'), self.path('maps')])
                name = op['file']
            if modbus:
                obj = self.mbc.ModbusClientDeviceMapped(op['unit'], name, **kw)
            else:
                obj = self.cli.ClientDevice(self.cli.MAPPED, op['unit'], name=name, **kw)
        self.objs[op['id']] = obj

    def target(self, op):
        return self.objs.get(op['id'])

    def do_read(self, op, r):
        o = self.target(op)
        if o is None:
            r.extra['skip'] = True
            return
        if 'fc' in op and self.meta[op['id']]['api'] == 'modbus':
            return o.read(op['addr'], op['count'], op=op['fc'])
        return o.read(op['addr'], op['count'])

    def do_soak(self, op, r):
        """A device in use for a long time: many requests on one object, every reply as it should be."""
        o = self.target(op)
        meta = self.meta[op['id']]
        dev = self.dev_of(meta)
        want = {}
        for i in range(op['n']):
            self.w.ctx.ios = 0
            if i % 500 == 499:
                # what went well is not looked at again
                del self.w.reqlog[:], self.w.log[1000:]
            a = op['addr'] + i % 7
            if a not in want:
                want[a] = struct.pack('>H', dev.get(3, a))
            try:
                d = o.read(a, 1)
            except Exception:
                r.extra['at'] = i
                raise
            if d != want[a]:
                r.extra['wrong'] = 'request %d returned %r instead of %r' % (i + 1, d, want[a])
                return

    def data(self, op):
        d = gen_data(op['seed'], op['count'])
        if op.get('odd'):
            d = d[:-1]
        return d

    def do_write(self, op, r):
        o = self.target(op)
        if o is None:
            r.extra['skip'] = True
            return
        data = self.data(op)
        if op.get('str'):
            data = data.decode('latin-1')        # the other form of a byte string the library takes
        return o.write(op['addr'], data)

    def do_connect(self, op, r):
        o = self.target(op)
        if o is None or self.meta[op['id']]['kind'] != 'tcp':
            r.extra['skip'] = True
            return
        o = getattr(o, 'modbus_device', o)
        ops = self.plan['ops']
        dead = [k for k in self.w.net.socks if k.close_step is None and k.conn is not None and k.conn.server_closed and
                ops[k.owner_op].get('id') == op['id']]
        try:
            if 'timeout' in op:
                o.connect(op['timeout'])
            else:
                o.connect()
        finally:
            # connections the server has closed before this connect which are still in use after it
            r.extra['dead'] = any(k.close_step is None for k in dead)

    def do_disconnect(self, op, r):
        o = self.target(op)
        if o is None or self.meta[op['id']]['kind'] != 'tcp':
            r.extra['skip'] = True
            return
        getattr(o, 'modbus_device', o).disconnect()

    def do_close(self, op, r):
        o = self.target(op)
        if o is None:
            r.extra['skip'] = True
            return
        o.close()

    # what the outside world does
    def do_wait(self, op, r):
        self.w.run_until(self.w.now + op['dt'])

    def do_mutate(self, op, r):
        if op['dev'] in self.devices:
            self.devices[op['dev']].mutate(op['spec'])
            self.w.fired['device_changes_registers'] += 1

    def do_idle_close(self, op, r):
        """The server drops every connection it has (idle timeout, restart)."""
        s = self.servers[op['link']]
        n = 0
        for c in list(s.conns):
            if not c.client_closed and not c.server_closed:
                n += 1
                if op.get('rst'):
                    s.reset(c)
                else:
                    s.close(c)
        if n:
            self.w.fired['idle_connection_closed'] += 1
        self.w.run_until(self.w.now + 0.05)

    def do_outage(self, op, r):
        s = self.servers[op['link']]
        s.down_until = self.w.now + op['dt']
        self.w.fired['server_outage'] += 1
        for c in list(s.conns):
            if not c.client_closed:
                s.reset(c)
        self.w.run_until(self.w.now + 0.05)

    def do_unplug(self, op, r):
        b = self.w.buses[op['port']]
        b.present = bool(op.get('present'))
        self.w.fired['serial_unplugged' if not b.present else 'serial_plugged'] += 1

    # ---- analysis shared by the oracles ---------------------------------------

    def finish(self):
        self.analyse()
        self.final_maps()

    def maps_of(self, meta):
        return self.plan['cfg']['maps'][meta['file']]

    def final_maps(self):
        """Read back every register map through the API once the faults are over."""
        self.map_final = {}
        for oid, meta in self.meta.items():
            if meta['kind'] == 'map' and oid in self.objs:
                m = self.maps_of(meta)
                got = {}
                for off, data in m['regs']:
                    n = len(data) // 4
                    try:
                        v = self.objs[oid].read(m['base'] + off, n)
                        for i in range(n):
                            got[m['base'] + off + i] = struct.unpack('>H', v[2 * i:2 * i + 2])[0]
                    except Exception as e:
                        self.map_final[oid] = (None, '%s: %s' % (type(e).__name__, e))
                        break
                else:
                    self.map_final[oid] = (got, None)

    def limits(self, meta):
        mc = meta.get('max_count') if meta['api'] == 'modbus' else None
        return min(mc or 125, 125), min(mc or 125, 123)

    def analyse(self):
        """Replays the history against a model of each device object and stores, per result, what may
        be expected of it."""
        st = {}
        ports = {}                 # port -> {'open': set of object ids, 'baud':, 'parity':}
        mapregs = {}
        for r in self.results:
            op = r.op
            x = r.extra
            x['must'] = None       # 'ok', 'fail', or None when either is allowed
            if x.get('skip'):
                continue
            name = op['op']
            if name == 'new':
                oid = op['id']
                s = {'meta': op, 'open': r.status == 'ok', 'explicit': False, 'known': True, 'faulty': False,
                     'closed': False, 'cto': None}
                T = op.get('timeout')
                s['T'] = T if T is not None else (TCP_TIMEOUT if op['kind'] == 'tcp' else RTU_TIMEOUT)
                x['before'] = {}
                if op['kind'] == 'rtu':
                    p = ports.setdefault(op['port'], {'open': set(), 'baud': None, 'parity': None})
                    x['port_before'] = set(p['open'])
                    baud, parity = op.get('baudrate'), op.get('parity')
                    if p['open']:
                        mismatch = (baud is not None and baud != p['baud']) or (parity is not None and parity != p['parity'])
                        x['must'] = 'fail' if mismatch else 'ok'
                        x['mismatch'] = mismatch
                    else:
                        x['must'] = 'ok' if not r.harm else None
                        x['settings'] = (baud or 9600, parity or 'N')
                    if r.status == 'ok':
                        if not p['open']:
                            p['baud'], p['parity'] = baud or 9600, parity or 'N'
                        p['open'].add(oid)
                elif op['kind'] == 'tcp':
                    x['must'] = 'ok'
                else:
                    m = self.maps_of(op)
                    x['must'] = 'fail' if m.get('bad') else ('ok' if not r.harm else None)
                    regs = {}
                    for off, data in m['regs'] if not m.get('bad') else ():
                        b = bytes.fromhex(data)
                        for i in range(len(b) // 2):
                            regs[m['base'] + off + i] = struct.unpack('>H', b[2 * i:2 * i + 2])[0]
                    mapregs[oid] = regs
                if r.status == 'ok':
                    st[oid] = s
                continue
            oid = op.get('id')
            s = st.get(oid)
            if s is None:
                continue
            x['state'] = dict(s)
            kind = s['meta']['kind']
            if name in ('read', 'write'):
                addr, count = op['addr'], op['count']
                valid = addr >= 0 and addr + count <= 0x10000 and not (op.get('odd') and count > 0)
                if kind != 'map' and count and not 0 <= s['meta']['unit'] <= 255:
                    valid = False
                x['valid'] = valid
                usable = not s['closed']
                if kind == 'map':
                    regs = mapregs[oid]
                    fc = self.maps_of(s['meta']).get('func', 3)
                    x['exists'] = all(a in regs for a in range(addr, addr + count))
                    if name == 'read' and 'fc' in op and s['meta']['api'] == 'modbus' and op['fc'] != fc:
                        x['must'] = 'fail'
                    elif not valid or not x['exists']:
                        x['must'] = 'fail' if count else None
                    else:
                        x['must'] = 'ok'
                    x['mapregs'] = dict((a, regs[a]) for a in range(addr, addr + count) if a in regs)
                    if name == 'write' and r.status == 'ok' and x['exists'] and valid:
                        d = self.data(op)
                        for i in range(count):
                            regs[addr + i] = struct.unpack('>H', d[2 * i:2 * i + 2])[0]
                elif not valid:
                    x['must'] = 'fail'
                elif usable:
                    x['must'] = 'ok' if not r.harm else None
                x['faulty'] = s['faulty']
                if r.status != 'ok':
                    s['faulty'] = True
                    if valid:
                        s['known'] = False
                elif r.harm and s['explicit']:
                    s['known'] = False
                s['dead'] = False
            elif name == 'connect':
                x['must'] = 'ok' if not r.harm else None
                x['faulty'] = s['faulty']
                s['dead'] = r.status == 'ok' and x.get('dead')
                s['explicit'] = r.status == 'ok'
                s['known'] = True
                s['closed'] = False
                if r.status == 'ok':
                    s['cto'] = op.get('timeout')
                else:
                    s['faulty'] = True
            elif name == 'disconnect':
                x['must'] = 'ok'
                s['dead'] = False
                s['explicit'] = False
                s['known'] = True
                s['cto'] = None
            elif name == 'close':
                x['must'] = 'ok' if not ctx_fault(r, 'x') else None
                s['explicit'] = False
                s['dead'] = False
                s['known'] = True
                s['cto'] = None
                if kind == 'rtu':
                    s['closed'] = True
                    p = ports[s['meta']['port']]
                    x['port_before'] = set(p['open'])
                    p['open'].discard(oid)
                    x['port_after'] = set(p['open'])
                elif kind == 'tcp':
                    s['closed'] = False
        self.mapregs = mapregs
        self.states = st

    # ---- oracles -----------------------------------------------------------------

    def check(self, prop):
        return getattr(self, 'check_' + prop)()

    def ops(self, *names):
        for r in self.results:
            if r.op['op'] in names and not r.extra.get('skip') and 'state' in r.extra:
                yield r

    def dev_of(self, meta):
        if meta['kind'] == 'tcp':
            for s in self.servers:
                if s.host == meta['host'] and s.port == meta.get('port', 502):
                    return s.units.get(meta['unit'])
        elif meta['kind'] == 'rtu':
            b = self.w.buses.get(meta['port'])
            return b.units.get(meta['unit']) if b else None

    def must_ok_failed(self, r, prop, out, what):
        """A fault-free operation that did not succeed."""
        if r.extra.get('must') == 'ok' and r.status != 'ok':
            out.append(Violation(prop, 'failed_without_fault', '%s on a working device %s' % (what, r.show()), r.i))
            return True
        return False

    def value_errors(self, r):
        """Compare the data a read returned with what the device held."""
        op = r.op
        meta = r.extra['state']['meta']
        v = r.value
        n = op['count']
        if n == 0 and not v:
            return None
        if not isinstance(v, (bytes, bytearray)):
            return 'returned %r instead of data' % (v,)
        if len(v) != 2 * n:
            return 'returned %d bytes for %d registers' % (len(v), n)
        if meta['kind'] == 'map':
            for i in range(n):
                got = struct.unpack('>H', v[2 * i:2 * i + 2])[0]
                if got != r.extra['mapregs'].get(op['addr'] + i):
                    return 'register %d read as %04x, the map holds %s' % (op['addr'] + i, got, r.extra['mapregs'].get(op['addr'] + i))
            return None
        dev = self.dev_of(meta)
        if dev is None:
            return 'returned data from a device that does not exist'
        fc = op.get('fc', 3) if meta['api'] == 'modbus' else 3
        for i in range(n):
            got = struct.unpack('>H', v[2 * i:2 * i + 2])[0]
            a = op['addr'] + i
            if not dev.exists(fc, a):
                return 'register %d does not exist in the device' % a
            vals = dev.values_during(fc, a, r.s0, r.s1)
            if got not in vals:
                return 'register %d (function %d) read as %04x, the device held %s' % (
                    a, fc, got, ', '.join('%04x' % x for x in vals))
        return None

    def check_C01(self):
        out = []
        for r in self.results:
            if r.op['op'] == 'soak':
                if r.status != 'ok':
                    out.append(Violation('C01', 'failed_after_many', 'request %s on a working device %s' % (
                        r.extra.get('at', -1) + 1, r.show()), r.i))
                elif r.extra.get('wrong'):
                    out.append(Violation('C01', 'wrong_after_many', r.extra['wrong'], r.i))
        for r in self.ops('read'):
            what = 'read of %d at %d' % (r.op['count'], r.op['addr'])
            if r.status == 'ok':
                e = self.value_errors(r)
                if e:
                    out.append(Violation('C01', 'wrong_data', '%s %s' % (what, e), r.i))
            else:
                self.must_ok_failed(r, 'C01', out, what)
        return out

    def check_C02(self):
        out = []
        claimed = {}
        for r in self.ops('write', 'read', 'connect', 'disconnect', 'close'):
            if r.op['op'] != 'write':
                bad = [q for q in self.reqs(r.i) if q.fc == 16]
                if bad:
                    out.append(Violation('C02', 'stray_write', '%s sent a write request' % r.op['op'], r.i))
                continue
            op = r.op
            meta = r.extra['state']['meta']
            what = 'write of %d at %d' % (op['count'], op['addr'])
            self.must_ok_failed(r, 'C02', out, what)
            data = self.data(op)
            if meta['kind'] == 'map':
                if r.status == 'ok' and not (r.extra['exists'] and r.extra['valid']) and op['count']:
                    out.append(Violation('C02', 'impossible_write', '%s outside the map returned' % what, r.i))
                continue
            reqs = self.reqs(r.i)
            dev = self.dev_of(meta)
            pos = 0
            applied = 0
            failed = None
            for k, q in enumerate(reqs):
                if q.dev is not dev or q.unit != meta['unit']:
                    out.append(Violation('C02', 'wrong_device', '%s sent to unit %d' % (what, q.unit), r.i))
                    break
                if q.fc != 16:
                    out.append(Violation('C02', 'wrong_function', '%s used function %d' % (what, q.fc), r.i))
                    break
                if failed is not None:
                    out.append(Violation('C02', 'continued_after_failure', '%s sent request %d after request %d failed (%s)'
                                         % (what, k, failed, reqs[failed].harmful), r.i))
                    break
                if q.addr != op['addr'] + pos or q.data != data[2 * pos:2 * pos + 2 * q.count] or q.count == 0:
                    out.append(Violation('C02', 'wrong_piece', '%s: piece %d is %d registers at %d, expected the data at %d'
                                         % (what, k, q.count, q.addr, op['addr'] + pos), r.i))
                    break
                pos += q.count
                if q.applied:
                    applied = pos
                if [h for h in (q.harmful or ()) if h not in ('noise', 'stray_reply') and not (h == 'late' and 'stray_reply' in r.harm)]:
                    failed = k
            else:
                if r.status == 'ok':
                    if applied != op['count'] or pos != op['count']:
                        out.append(Violation('C02', 'not_applied', '%s returned but the device applied %d registers'
                                             % (what, applied), r.i))
                    elif failed is not None:
                        out.append(Violation('C02', 'false_success', '%s returned although request %d failed (%s)'
                                             % (what, failed, reqs[failed].harmful), r.i))
        # nothing else was written anywhere
        n = sum(len(d.writes) for d in self.devices.values())
        m = sum(1 for q in self.w.reqlog if q.fc == 16 and q.applied)
        if n != m:
            raise HarnessError('device writes %d, applied requests %d' % (n, m))
        for oid, (got, err) in self.map_final.items():
            if err is not None:
                out.append(Violation('C02', 'map_unreadable', 'map cannot be read after the run: %s' % err))
                continue
            want = self.mapregs[oid]
            diff = [a for a in sorted(want) if got.get(a) != want[a]]
            if diff:
                a = diff[0]
                out.append(Violation('C02', 'map_contents', 'register %d of the map is %s after the run, expected %04x (%d differ)'
                                     % (a, got.get(a), want[a], len(diff))))
        return out

    def check_C03(self):
        out = []
        for step, opi, link, why, raw, tid in self.w.malformed:
            out.append(Violation('C03', 'malformed', 'sent %s (%s: %s)' % (raw.hex(), link, why), opi))
        for r in self.results:
            reqs = self.reqs(r.i)
            if r.op['op'] not in ('read', 'write'):
                if reqs:
                    out.append(Violation('C03', 'stray_request', '%s sent a request' % r.op['op'], r.i))
                continue
            if 'state' not in r.extra:
                continue
            op = r.op
            s = r.extra['state']
            meta = s['meta']
            if meta['kind'] == 'map':
                continue
            what = '%s of %d at %d' % (op['op'], op['count'], op['addr'])
            rl, wl = self.limits(meta)
            lim = rl if op['op'] == 'read' else wl
            fc = 16 if op['op'] == 'write' else (op.get('fc', 3) if meta['api'] == 'modbus' else 3)
            if not r.extra['valid']:
                if reqs:
                    out.append(Violation('C03', 'invalid_sent', '%s (not expressible) sent %d requests' % (what, len(reqs)), r.i))
                base = 'ModbusClientError' if meta['api'] == 'modbus' else 'SunSpecClientError'
                if r.status == 'ok':
                    out.append(Violation('C03', 'invalid_accepted', '%s (not expressible) returned' % what, r.i))
                elif not r.is_a(base) and not r.harm and r.status == 'err':
                    out.append(Violation('C03', 'invalid_error', '%s (not expressible) %s' % (what, r.show()), r.i))
                continue
            pos = 0
            for k, q in enumerate(reqs):
                if q.unit != meta['unit'] or q.fc != fc:
                    out.append(Violation('C03', 'wrong_target', '%s: request %d goes to unit %d function %d' % (what, k, q.unit, q.fc), r.i))
                    break
                if q.addr != op['addr'] + pos:
                    out.append(Violation('C03', 'coverage', '%s: request %d starts at %d, expected %d' % (what, k, q.addr, op['addr'] + pos), r.i))
                    break
                if not 1 <= q.count <= lim:
                    out.append(Violation('C03', 'limit', '%s: request %d asks for %d registers, limit %d' % (what, k, q.count, lim), r.i))
                    break
                pos += q.count
                if pos > op['count']:
                    out.append(Violation('C03', 'coverage', '%s: requests cover %d registers' % (what, pos), r.i))
                    break
            else:
                if r.status == 'ok' and pos != op['count']:
                    out.append(Violation('C03', 'coverage', '%s: requests cover %d registers' % (what, pos), r.i))
                elif r.status == 'ok' and len(reqs) > -(-op['count'] // lim):
                    out.append(Violation('C03', 'minimal', '%s: %d requests of at most %d registers' % (what, len(reqs), lim), r.i))
        return out

    # kinds of faults after which the operation cannot have succeeded
    FATAL_FAULTS = frozenset(('drop_req', 'drop_rep', 'exc', 'refused', 'unit', 'tid', 'babble', 'func', 'short', 'bytecount', 'echo',
                              'close_req', 'close_rep', 'rst_req', 'rst_rep', 'device_crash', 'trunc', 'close_mid',
                              'rst_mid', 'late', 'corrupt', 'line_slip', 'no_such_unit', 'line_settings_mismatch'))
    SILENT = frozenset(('drop_req', 'drop_rep', 'late', 'no_such_unit', 'line_settings_mismatch'))

    def check_C04(self):
        out = []
        for r in self.results:
            x = r.extra
            op = r.op
            if x.get('skip') or r.status == 'fatal':
                continue
            if op['op'] == 'new':
                meta = op
            elif 'state' in x:
                meta = x['state']['meta']
            else:
                continue
            modbus = meta['api'] == 'modbus' or op['op'] in ('connect', 'disconnect')
            base = 'ModbusClientError' if modbus else 'SunSpecClientError'
            what = '%s %s' % (meta['kind'], op['op'])
            if r.status == 'err':
                if r.exc == 'KeyboardInterrupt' and 'interrupt' in r.harm:
                    continue
                if not r.is_a(base):
                    out.append(Violation('C04', 'undocumented_' + r.exc, '%s %s (faults: %s; raised in %s)' % (
                        what, r.show(), ','.join(r.harm) or 'none', r.tb), r.i))
                    continue
                kinds = [h for h in r.harm if h != 'connection_lost']
                if r.is_a('ModbusClientTimeout') and op['op'] in ('read', 'write') and 'state' in x:
                    s = x['state']
                    lo = min([s['T']] + ([s['cto']] if s['cto'] is not None else []))
                    waited = r.t1 - r.ctx.last_activity
                    if waited < lo - EPS:
                        out.append(Violation('C04', 'false_timeout', '%s %s %.3f s after the last sign of life (faults: %s)' % (
                            what, r.show(), waited, ','.join(r.harm) or 'none'), r.i))
                if modbus and op['op'] in ('read', 'write') and len(r.harm) == 1:
                    k = r.harm[0]
                    if k in self.SILENT and r.status == 'err' and not r.is_a('ModbusClientTimeout'):
                        out.append(Violation('C04', 'not_timeout', '%s: the device stayed silent (%s) but it %s' % (what, k, r.show()), r.i))
                    if k in ('exc', 'refused'):
                        code = [q.code for q in self.reqs(r.i) if q.code is not None]
                        if not r.is_a('ModbusClientException'):
                            out.append(Violation('C04', 'not_exception', '%s: the device answered with exception %s but it %s' % (what, code, r.show()), r.i))
                        elif code and str(code[-1]) not in r.text:
                            out.append(Violation('C04', 'no_code', '%s: exception code %d missing in: %s' % (what, code[-1], r.text), r.i))
                elif r.is_a('ModbusClientException') and not [k for k in kinds if k in ('exc', 'refused')] and modbus:
                    if not set(kinds) & {'corrupt', 'noise', 'line_slip', 'stale_reply_arrives', 'stray_reply'}:
                        out.append(Violation('C04', 'false_exception', '%s %s (faults: %s)' % (what, r.show(), ','.join(r.harm) or 'none'), r.i))
            elif op['op'] in ('read', 'write') and meta['kind'] != 'map':
                bad = [h for q in self.reqs(r.i) for h in (q.harmful or ()) if h in self.FATAL_FAULTS]
                if 'stray_reply' in r.harm:
                    bad = [h for h in bad if h != 'late']      # the stray one may have bridged the silence
                if bad:
                    out.append(Violation('C04', 'failure_hidden', '%s of %d at %d returned although an exchange failed (%s)' % (
                        what, op['count'], op['addr'], ','.join(bad)), r.i))
                elif r.status == 'ok' and op['count'] and x.get('valid') and not self.reqs(r.i):
                    out.append(Violation('C04', 'no_exchange', '%s returned without any exchange' % what, r.i))
            if x.get('must') == 'fail' and r.status == 'ok':
                out.append(Violation('C04', 'failure_hidden', '%s succeeded although it cannot' % what, r.i))
            if op['op'] == 'connect' and r.status == 'ok' and [h for h in r.harm if h.startswith(('connect_', 'tls_')) and h not in ('connect_slow',)]:
                out.append(Violation('C04', 'failure_hidden', 'connect returned although it failed (%s)' % ','.join(r.harm), r.i))
        return out

    def check_C05(self):
        out = []
        for r in self.results:
            op = r.op
            if r.status == 'fatal':
                out.append(Violation('C05', r.exc, '%s: %s' % (op['op'], r.text), r.i))
                continue
            s = r.extra.get('state')
            if s is None or op['op'] not in ('read', 'write', 'connect', 'close', 'disconnect'):
                continue
            meta = s['meta']
            if meta['kind'] == 'map':
                continue
            T = s['T']
            tt = [T] + ([s['cto']] if s['cto'] is not None else [])
            if op['op'] == 'connect' and op.get('timeout') is not None:
                tt = [op['timeout']]
            lo, hi = min(tt), max(tt)
            what = '%s %s with timeout %g' % (meta['kind'], op['op'], T)
            if r.ctx.max_idle_silent > hi + EPS:
                out.append(Violation('C05', 'too_long', '%s waited %.3f s for a silent device' % (what, r.ctx.max_idle_silent), r.i))
            elif r.ctx.max_idle > 2 * hi + EPS:
                out.append(Violation('C05', 'too_long', '%s waited %.3f s for the rest of a reply' % (what, r.ctx.max_idle), r.i))
            if r.status == 'err' and (r.is_a('ModbusClientTimeout') or (r.extra.get('must') == 'ok' and 'ime' in r.text)):
                waited = r.t1 - r.ctx.last_activity
                if waited < lo - EPS:
                    out.append(Violation('C05', 'too_short', '%s reported a timeout after %.3f s without data' % (what, waited), r.i))
            if op['op'] in ('read', 'write') and r.extra.get('must') == 'ok' and r.status == 'err' and \
                    (r.op.get('f') or any(k in ('delay', 'connect_delay', 'send_slow') for k in self.w.fired)):
                out.append(Violation('C05', 'gave_up_early', '%s: the device answered in time but it %s' % (what, r.show()), r.i))
        return out

    def check_C06(self):
        out = []
        for r in self.ops('read', 'write', 'connect'):
            x = r.extra
            if x.get('state', {}).get('dead') and r.op['op'] != 'connect' and x['valid'] and r.status != 'ok' and \
                    all(h == 'connection_lost' for h in r.harm):
                out.append(Violation('C06', 'dead_connection_kept', '%s after connect() %s: connect() kept a connection which the '
                                     'server had closed before' % (r.op['op'], r.show()), r.i))
                continue
            if not x.get('faulty') or x.get('must') != 'ok' or x['state']['meta']['kind'] == 'map':
                continue
            what = '%s on %s after failures' % (r.op['op'], x['state']['meta']['kind'])
            if r.status != 'ok':
                out.append(Violation('C06', 'no_recovery', '%s %s' % (what, r.show()), r.i))
            elif r.op['op'] == 'read':
                e = self.value_errors(r)
                if e:
                    out.append(Violation('C06', 'stale_data', '%s: %s' % (what, e), r.i))
            elif r.op['op'] == 'write':
                d = self.data(r.op)
                got = b''.join(q.data for q in self.reqs(r.i) if q.applied and q.dev is self.dev_of(x['state']['meta']))
                if got != d:
                    out.append(Violation('C06', 'write_lost', '%s returned but the device did not apply it' % what, r.i))
        return out

    # ---- TCP connections -----------------------------------------------------------

    def check_C07(self):
        out = []
        owner = {}
        for r in self.results:
            if 'id' in r.op:
                owner[r.i] = r.op['id']
        net = self.w.net
        # at no time two open connections of one object
        per = {}
        for s in net.socks:
            if s.est_step is not None:
                per.setdefault(owner.get(s.owner_op), []).append(s)
        for oid, socks in per.items():
            for a, b in zip(socks, socks[1:]):
                if a.close_step is None or a.close_step > b.est_step:
                    out.append(Violation('C07', 'two_connections', 'object %s opened a connection while another was open' % oid, b.owner_op))
        for r in self.results:
            op = r.op
            x = r.extra
            if x.get('skip') or op.get('id') is None:
                continue
            if op['op'] == 'new':
                if op['kind'] == 'tcp':
                    n = self.open_at(op['id'], owner, r.s1)
                    if n:
                        out.append(Violation('C07', 'open_after_new', 'creating a device left %d sockets open' % n, r.i))
                continue
            s = x.get('state')
            if s is None or s['meta']['kind'] != 'tcp' or r.status == 'fatal':
                continue
            n = self.open_at(op['id'], owner, r.s1)
            mine = [k for k in net.socks if k.owner_op == r.i]
            what = '%s (%s)' % (op['op'], r.show() if r.status == 'err' else 'ok')
            if op['op'] in ('close', 'disconnect'):
                if n:
                    out.append(Violation('C07', 'open_after_' + op['op'], '%d sockets open after %s' % (n, what), r.i))
            elif op['op'] == 'connect':
                if r.status == 'err' and n:
                    out.append(Violation('C07', 'open_after_failed_connect', '%d sockets open after %s' % (n, what), r.i))
                if r.status == 'ok' and n != 1:
                    out.append(Violation('C07', 'not_connected', '%d sockets open after connect' % n, r.i))
            elif op['op'] in ('read', 'write') and x['valid']:
                if s['known'] and not s['explicit']:
                    if n:
                        out.append(Violation('C07', 'open_after_request', '%d sockets open after %s on an unconnected device' % (n, what), r.i))
                    if len(mine) > 1:
                        out.append(Violation('C07', 'several_connections', '%s used %d connections' % (what, len(mine)), r.i))
                elif s['known'] and s['explicit']:
                    if r.status == 'ok' and not r.harm and (mine or n != 1):
                        out.append(Violation('C07', 'connection_not_kept', '%s on a connected device opened %d and left %d connections'
                                             % (what, len(mine), n), r.i))
                if n > 1:
                    out.append(Violation('C07', 'two_connections', '%d sockets open after %s' % (n, what), r.i))
            elif not x.get('valid', True) and not s['explicit'] and n:
                out.append(Violation('C07', 'open_after_request', '%d sockets open after %s' % (n, what), r.i))
        return out

    def open_at(self, oid, owner, step):
        return sum(1 for k in self.w.net.socks if owner.get(k.owner_op) == oid and k.new_step <= step and
                   (k.close_step is None or k.close_step > step))

    # ---- serial ports ----------------------------------------------------------------

    def check_C08(self):
        out = []
        log = self.w.port_log
        ports = {}
        owner = {}
        for r in self.results:
            op = r.op
            x = r.extra
            if x.get('skip') or r.status == 'fatal':
                continue
            evs = [e for e in log if e[1] == r.i]
            # which objects are open after this operation
            if op['op'] == 'new' and op['kind'] == 'rtu':
                p = ports.setdefault(op['port'], {'open': set(), 'handles': 0})
                owner[op['id']] = op['port']
                opens = [e for e in evs if e[2] == 'open']
                if x['port_before']:
                    if evs:
                        out.append(Violation('C08', 'reopened', 'opening another device %s the port again' % evs[0][2], r.i))
                    if x.get('mismatch') and r.status == 'ok':
                        out.append(Violation('C08', 'mismatch_accepted', 'a device with other line settings was accepted', r.i))
                    if x.get('mismatch') is False and r.status == 'err':
                        out.append(Violation('C08', 'open_failed', 'opening another device on an open port %s' % r.show(), r.i))
                    if r.status == 'err' and not r.is_a('ModbusClientError' if op['api'] == 'modbus' else 'SunSpecClientError'):
                        out.append(Violation('C08', 'undocumented_error', 'opening a device %s' % r.show(), r.i))
                else:
                    if r.status == 'err' and not r.harm:
                        out.append(Violation('C08', 'open_failed', 'opening a device on a free port %s' % r.show(), r.i))
                    for e in opens:
                        if (e[4], e[5], e[6], e[7]) != x['settings'] + (8, 1):
                            out.append(Violation('C08', 'line_settings', 'port opened with %r, expected %r' % (e[4:], x['settings'] + (8, 1)), r.i))
                if r.status == 'ok':
                    p['open'].add(op['id'])
            elif op['op'] == 'close' and op['id'] in owner:
                p = ports[owner[op['id']]]
                p['open'].discard(op['id'])
            elif evs:
                out.append(Violation('C08', 'port_touched', '%s did %s on the port' % (op['op'], evs[0][2]), r.i))
            for e in evs:
                p = ports.setdefault(e[3], {'open': set(), 'handles': 0})
                p['handles'] += 1 if e[2] == 'open' else -1
                if p['handles'] > 1:
                    out.append(Violation('C08', 'two_handles', 'port %s opened while a handle is open' % e[3], r.i))
            for name, p in sorted(ports.items()):
                if p['open'] and p['handles'] != 1:
                    out.append(Violation('C08', 'handle_lost', 'port %s has %d handles with %d devices open' % (name, p['handles'], len(p['open'])), r.i))
                if not p['open'] and p['handles'] != 0:
                    out.append(Violation('C08', 'handle_leaked', 'port %s still open although no device is' % name, r.i))
            if out:
                break
            if op['op'] in ('read', 'write') and x.get('must') == 'ok' and r.status != 'ok' and x['state']['meta']['kind'] == 'rtu':
                out.append(Violation('C08', 'unusable', '%s on an open device of a shared port %s' % (op['op'], r.show()), r.i))
            if op['op'] == 'read' and r.status == 'ok' and x.get('state') and x['state']['meta']['kind'] == 'rtu' and not r.harm \
                    and not x['state']['closed']:
                e = self.value_errors(r)
                if e:
                    out.append(Violation('C08', 'wrong_data', 'read on a shared port %s' % e, r.i))
            if op['op'] == 'close' and r.status == 'err' and not ctx_fault(r, 'x'):
                out.append(Violation('C08', 'close_failed', 'close %s' % r.show(), r.i))
        return out

    # ---- TLS ---------------------------------------------------------------------------

    def check_C17(self):
        out = []
        for step, opi, data in self.w.plain_to_tls:
            out.append(Violation('C17', 'sent_before_handshake', 'sent %s without a completed handshake' % data.hex(), opi))
        for q in self.w.reqlog:
            r = self.results[q.opi] if 0 <= q.opi < len(self.results) else None
            s = r.extra.get('state') if r else None
            if s is None or s['meta'].get('tls') is None:
                continue
            t = s['meta']['tls']
            why = bad_request(q.conn, t, s['meta']['host'], self.path('certs/%s' % t.get('certfile')))
            if why:
                out.append(Violation('C17', why[0], why[1], q.opi))
        owner = dict((r.i, r.op.get('id')) for r in self.results)
        for r in self.ops('read', 'write', 'connect'):
            x = r.extra
            s = x['state']
            t = s['meta'].get('tls')
            if t is None or r.status == 'fatal':
                continue
            what = '%s with TLS' % r.op['op']
            # a server or set-up that cannot pass verification
            unusable = bad_files(t)
            base = 'ModbusClientError' if s['meta']['api'] == 'modbus' or r.op['op'] == 'connect' else 'SunSpecClientError'
            if r.status == 'err':
                if not r.is_a(base) and not (r.exc == 'KeyboardInterrupt' and 'interrupt' in r.harm):
                    out.append(Violation('C17', 'undocumented_error', '%s %s' % (what, r.show()), r.i))
                if (not s['explicit'] or r.op['op'] == 'connect') and self.open_at(r.op['id'], owner, r.s1):
                    out.append(Violation('C17', 'connection_left_open', '%s %s and left the connection open' % (what, r.show()), r.i))
                if t.get('skip') and r.harm == ['tls_verify_failed']:
                    out.append(Violation('C17', 'skip_ignored', '%s with the skip-verification option %s' % (what, r.show()), r.i))
                c = [k.conn for k in self.w.net.socks if k.owner_op == r.i and k.conn is not None]
                if r.harm == ['tls_verify_failed'] and not t.get('skip') and c and not bad_cert(c[-1].cert, t, s['meta']['host']):
                    out.append(Violation('C17', 'refused_good_server', '%s: a server that passes verification was refused' % what, r.i))
                if not r.harm and not unusable and x.get('must') == 'ok':
                    out.append(Violation('C17', 'refused_good_server', '%s on a good server %s' % (what, r.show()), r.i))
            elif unusable and not s['explicit'] and (r.op['op'] == 'connect' or (r.op['count'] and x['valid'])):
                out.append(Violation('C17', 'bad_files_accepted', '%s succeeded with unusable certificate files' % what, r.i))
            elif r.op['op'] == 'connect':
                c = [k.conn for k in self.w.net.socks if k.owner_op == r.i and k.conn is not None]
                if not c or not c[-1].hs_done:
                    out.append(Violation('C17', 'plain', 'connect returned without a handshake', r.i))
                elif not t.get('skip') and bad_cert(c[-1].cert, t, s['meta']['host']):
                    out.append(Violation('C17', 'unverified', 'connect accepted a server whose certificate fails verification', r.i))
            elif r.op['op'] == 'read':
                e = self.value_errors(r)
                if e:
                    out.append(Violation('C17', 'wrong_data', '%s %s' % (what, e), r.i))
        return out


def bad_files(t):
    files = (t.get('cafile'), t.get('certfile'), t.get('keyfile'))
    return t.get('keyfile') == 'wrong.key' or 'garbage.pem' in files or 'missing.pem' in files


def bad_cert(cert, t, host):
    """Why a client with these options must not talk to a server with this certificate."""
    trusted = {'ca.pem': 'Sim CA ca', 'other.pem': 'Sim CA other', None: 'Sim CA system'}.get(t.get('cafile'))
    if cert.get('issuer') != trusted:
        return 'issuer %s' % cert.get('issuer')
    if cert.get('expired'):
        return 'expired'
    if host not in cert.get('names', ()):
        return 'issued for %s' % ','.join(cert.get('names', ()))
    return None


def bad_request(conn, t, host, client):
    """What is wrong with sending a request over a connection: (class, text) or None."""
    if not conn.hs_done:
        return 'plain', 'a TLS device sent a request over a plain connection'
    if not t.get('skip'):
        why = bad_cert(conn.cert, t, host)
        if why:
            return 'unverified', 'a request was sent to a server whose certificate fails verification (%s)' % why
    if conn.cert.get('want_client') and not conn.client_cert:
        return 'no_client_cert', 'no client certificate presented'
    if t.get('certfile') and conn.client_cert != client:
        return 'no_client_cert', 'the configured client certificate was not presented'
    return None


def ctx_fault(r, table):
    return bool(r.op.get(table))


# ---- tracing: two executions of the same plan ---------------------------------------

def outcome(run):
    out = []
    for r in run.results:
        out.append((r.i, r.status, r.exc, r.text, run.digest_value(r.value), tuple(r.harm), round(r.t1, 6)))
    return out


def wire(run):
    return [(q.opi, q.link, q.unit, q.raw.hex()) for q in run.w.reqlog] + [tuple(e) for e in run.w.port_log] + \
        [('sock', s.owner_op, s.est_step is not None, s.closed) for s in run.w.net.socks]


def check_trace(plain, traced):
    """C15: plain and traced are two executions of one plan, without and with tracing."""
    out = []
    for a, b in zip(outcome(plain), outcome(traced)):
        if a != b:
            i = a[0]
            r1 = plain.results[[r.i for r in plain.results].index(i)]
            r2 = traced.results[[r.i for r in traced.results].index(i)]
            out.append(Violation('C15', 'result_differs', '%s without tracing %s; with tracing %s' % (
                r1.op['op'], r1.show(), r2.show()), i))
            return out
    if len(plain.results) != len(traced.results):
        out.append(Violation('C15', 'result_differs', 'the runs end after %d and %d operations' % (
            len(plain.results), len(traced.results))))
        return out
    if [e for e in wire(plain) if e[0] != 'sock'] != [e for e in wire(traced) if e[0] != 'sock'] or \
            sorted(map(str, wire(plain))) != sorted(map(str, wire(traced))):
        out.append(Violation('C15', 'wire_differs', 'different bytes on the wire with tracing on'))
        return out
    # what the trace has to contain
    lines = {}
    for opi, s in traced.traced:
        lines.setdefault(opi, []).append(s)
    printed = [s for s in traced.out.splitlines()]
    ppos = 0
    for r in traced.results:
        s = r.extra.get('state')
        if s is None or s['meta']['kind'] == 'map' or r.op['op'] not in ('read', 'write') or r.status == 'fatal':
            continue
        meta = s['meta']
        use_print = meta['api'] == 'client' and meta.get('tr') != 'func'
        src = printed[ppos:] if use_print else [str(x) for x in lines.get(r.i, [])]
        pos = 0
        target = meta['host'] if meta['kind'] == 'tcp' else meta['port']
        reqs = traced.reqs(r.i)
        for k, q in enumerate(reqs):
            want = [('request', q.raw)]
            # the response was received in full and then accepted or refused as an exception
            last = k == len(reqs) - 1
            if q.delivered and not q.unread and q.resp is not None and (not last or r.status == 'ok' or r.is_a('ModbusClientException') or
                                                        (q.code is not None and r.harm in (['exc'], ['refused']))):
                if not [h for h in (q.harmful or ()) if h not in ('exc', 'refused')] and 'noise' not in r.harm \
                        and 'stale_reply_arrives' not in r.harm:
                    want.append(('response', q.resp))
            for label, raw in want:
                hx = raw.hex()
                while pos < len(src):
                    line = src[pos]
                    pos += 1
                    flat = line.lower().replace(' ', '')
                    if hx in flat:
                        if target.lower() not in line.lower() or str(q.addr) not in line.replace(hx, '').replace(hx.upper(), ''):
                            out.append(Violation('C15', 'trace_target', 'the trace line of a %s lacks its target or address: %s' % (label, line), r.i))
                        break
                else:
                    out.append(Violation('C15', 'trace_incomplete', 'the %s %s of %s is not in the trace (in order)' % (label, hx, r.op['op']), r.i))
                    return out
        if use_print:
            ppos += pos
    return out


# ---- entry point ------------------------------------------------------------------------

def judge(plan, prop, scratch):
    run = W1(plan, scratch).execute()
    if prop != 'C15':
        return run.check(prop), [run]
    traced = W1(plan, scratch)
    traced.trace = True
    traced.execute()
    return check_trace(run, traced), [run, traced]
