"""Workload 2: SunSpec devices through ClientDevice and SunSpecClientDevice - scans, model reads, point
access and model writes - over TCP, serial lines and register maps.  Decides C09-C14, C16, C19, C20 and
the SunSpec-level part of C04, C06, C07, C08 and C15."""
import os
import struct

from . import ref
from .kernel import HarnessError
from .runner import Run, Violation

UNKNOWN = object()


class Skip(Exception):
    pass


class Obj(object):
    """A device object under test and what the driver knows about it."""

    def __init__(self, op):
        self.op = op
        self.dev = None            # ClientDevice
        self.sun = None            # SunSpecClientDevice
        self.gone = False          # construction failed
        self.layout = None         # expected models, as of the last scan
        self.sf = {}               # (model index, address of scale factor register) -> base value last read


class W2(Run):

    trace = False
    nontrivial = True

    def setup(self):
        self.devmod = self.mod('sunspec.core.device')
        self.cli = self.mod('sunspec.core.client')
        self.mbc = self.mod('sunspec.core.modbus.client')
        self.util = self.mod('sunspec.core.util')
        self.traced = []
        self.defs = dict((int(k), v) for k, v in self.plan['cfg']['defs'].items())
        self.set_path(self.plan['cfg'].get('path'))

    def set_path(self, path):
        if path is None:
            self.devmod.file_pathlist = None
        else:
            self.devmod.file_pathlist = self.util.PathList([os.path.join(self.env.scratch, p) for p in path])

    def trace_func(self, s):
        self.traced.append((self.w.ctx.opi, s))

    # ---- layout -----------------------------------------------------------------

    def layout(self, dev):
        """Expected models of a device: dicts with id, len, addr, blocks, err, name."""
        cache = self.__dict__.setdefault('_layout', {})
        if dev not in cache:
            out = []
            for m in self.plan['cfg']['sun'][dev]['models']:
                d = self.defs.get(m['id'])
                e = {'id': m['id'], 'len': m['len'], 'addr': m['addr'], 'blocks': [], 'err': None, 'name': 'model_%d' % m['id'], 'def': d}
                if d is None:
                    e['err'] = 'unknown'
                else:
                    e['blocks'], e['err'] = ref.expand(d, m['len'], m['addr'])
                    e['name'] = d.get('name') or 'model_%d' % m['id']
                out.append(e)
            cache[dev] = out
        return cache[dev]

    def device_of(self, op):
        """Simulated device behind an object (None: a register map)."""
        return self.devices.get(op['dev'])

    # ---- construction --------------------------------------------------------------

    def progress(self, op, r):
        if not op.get('progress'):
            return None
        calls = r.extra.setdefault('progress', [])

        def cb(s):
            calls.append((self.w.now, self.w.tick(), str(s)))
            self.w.note('progress', str(s))
            if op.get('cancel') == len(calls) - 1:
                r.extra['cancelled'] = self.w.step
                if op['cancel_with'] == 'raise':
                    raise RuntimeError('progress function failed')
                return op['cancel_with']
            return True
        return cb

    def do_open(self, op, r):
        o = Obj(op)
        o.layout = self.layout(op['dev'])
        r.extra['obj'] = o
        c = self.cli
        kw = {'slave_id': op['unit']}
        if op['kind'] == 'tcp':
            t = c.TCP
            kw['ipaddr'] = op['host']
            if 'port' in op:
                kw['ipport'] = op['port']
            s = op.get('tls')
            if s is not None:
                kw['tls'] = True
                for k in ('cafile', 'certfile', 'keyfile'):
                    if s.get(k) is not None:
                        kw[k] = os.path.join(self.env.scratch, 'certs', s[k])
                if s.get('skip'):
                    kw['insecure_skip_tls_verify'] = True
        elif op['kind'] == 'rtu':
            t = c.RTU
            kw['name'] = op['port']
            for k in ('baudrate', 'parity'):
                if k in op:
                    kw[k] = op[k]
        else:
            t = c.MAPPED
            kw['name'] = os.path.join(self.env.scratch, 'maps', op['file'])
            if op.get('pathlist'):
                kw['pathlist'] = self.util.PathList([os.path.join(self.env.scratch, 'nowhere'), os.path.join(self.env.scratch, 'maps')])
                kw['name'] = op['file']
        if 'timeout' in op:
            kw['timeout'] = op['timeout']
        if self.trace:
            kw['trace'] = True if op.get('tr') == 'print' else self.trace_func
        r.extra['unmarked'] = self.unmarked(op)
        try:
            if op['via'] == 'sunspec':
                p = self.progress(op, r)
                if p is not None:
                    kw['scan_progress'] = p
                if 'delay' in op:
                    kw['scan_delay'] = op['delay']
                o.sun = c.SunSpecClientDevice(t, **kw)
                o.dev = o.sun.device
            else:
                o.dev = c.ClientDevice(t, **kw)
                if 'bases' in op:
                    o.dev.base_addr_list = list(op['bases'])
        finally:
            if o.dev is not None:
                self.objs[op['id']] = o
            else:
                o.gone = True

    def target(self, op):
        o = self.objs.get(op['id'])
        if o is None:
            raise Skip()
        return o

    def do_scan(self, op, r):
        o = self.target(op)
        kw = {}
        p = self.progress(op, r)
        if p is not None:
            kw['progress'] = p
        if 'delay' in op:
            kw['delay'] = op['delay']
        before, sf = list(o.dev.models_list), o.sf
        o.sf = {}
        r.extra['unmarked'] = self.unmarked(o.op)
        try:
            o.dev.scan(**kw)
        finally:
            # false when the scan ended before it touched the models found earlier
            r.extra['fresh'] = not before or not any(m in before for m in o.dev.models_list)
            if not r.extra['fresh']:
                o.sf = sf

    # ---- access ----------------------------------------------------------------------

    def model(self, o, i):
        """Model object i of the device (ClientModel)."""
        models = o.dev.models_list
        if i >= len(models):
            raise Skip()
        e = o.layout
        if i >= len(e) or e[i]['err'] is not None or models[i].id != e[i]['id']:
            raise Skip()
        return models[i]

    def attr(self, o, i):
        """Model object i by its name (SunSpecClientDevice)."""
        lay = o.layout
        e = lay[i]
        same = [k for k in range(len(lay)) if lay[k]['name'] == e['name']]
        a = getattr(o.sun, e['name'])
        if len(same) > 1:
            return a[same.index(i) + 1]
        return a

    def point(self, o, op):
        m = self.model(o, op['m'])
        if op['b'] >= len(m.blocks):
            raise Skip()
        if op['p'] not in m.blocks[op['b']].points:
            raise Skip()
        return m.blocks[op['b']].points[op['p']]

    def refpoint(self, o, op):
        lay = o.layout
        if op['m'] >= len(lay) or op['b'] >= len(lay[op['m']]['blocks']) or lay[op['m']]['err'] is not None:
            raise Skip()
        if op['p'] not in lay[op['m']]['blocks'][op['b']].points:
            raise Skip()
        return lay[op['m']]['blocks'][op['b']].points[op['p']]

    def learn_sf(self, o, i):
        """After a successful read the scale factors of model i are known."""
        e = o.layout[i]
        for b in e['blocks']:
            for q in b.sfs.values():
                o.sf[(i, q.addr)] = ref.decode('sunssf', self.as_read(o.op, q.addr))

    def as_read(self, op, addr):
        """The register as it was when this operation read it; the device may have changed it since."""
        dev = self.device_of(op)
        ctx = self.w.ctx
        if dev is not None:
            for q in reversed(self.w.reqlog):
                if q.opi == ctx.opi and q.tid == ctx.tid and q.dev is dev and q.fc in (3, 4) and q.addr <= addr < q.addr + q.count:
                    return struct.pack('>H', dev.value_at(3, addr, q.step))
        return self.current(op, addr, 1)

    def current(self, op, addr, n):
        dev = self.device_of(op)
        if dev is not None:
            return dev.read_regs(3, addr, n)
        return self.objs[op['id']].dev.read(addr, n)

    def do_mread(self, op, r):
        o = self.target(op)
        m = self.model(o, op['m'])
        e = o.layout[op['m']]
        for b in e['blocks']:
            for q in b.sfs.values():
                o.sf[(op['m'], q.addr)] = UNKNOWN
        keep = dict(o.sf)
        if o.sun is not None and op.get('how') == 'attr':
            self.attr(o, op['m']).read()
        else:
            m.read_points()
        o.sf = keep
        self.learn_sf(o, op['m'])

    def do_dread(self, op, r):
        o = self.target(op)
        o.sf = {}
        for i, e in enumerate(o.layout):
            for b in e['blocks']:
                for q in b.sfs.values():
                    o.sf[(i, q.addr)] = UNKNOWN
        if o.sun is not None:
            o.sun.read()
        else:
            o.dev.read_points()
        for i, m in enumerate(o.dev.models_list):
            if i < len(o.layout) and o.layout[i]['err'] is None:
                self.learn_sf(o, i)

    def do_set(self, op, r):
        o = self.target(op)
        m = self.model(o, op['m'])
        q = self.refpoint(o, op)
        e = o.layout[op['m']]
        if 'raw' in op:
            sf = q.sf
            if q.sfp is not None:
                sf = o.sf.get((op['m'], q.sfp.addr))
            if sf is UNKNOWN:
                raise Skip()
            if sf:
                v = op['raw'] * (10.0 ** sf) if sf < 0 else op['raw'] * 10 ** sf
                if op.get('as') == 'str':
                    v = str(v)
                elif op.get('as') == 'float':
                    v = float(v)
            else:
                v = op['raw']
                if op.get('as') == 'str':
                    v = str(v)
                elif op.get('as') == 'hex' and v >= 0:
                    v = hex(v)
                elif op.get('as') == 'float' and abs(v) < 1 << 53:
                    v = float(v)
            r.extra['sf'] = sf
        else:
            v = op['v']
        r.extra['v'] = v
        how = op['how']
        if how == 'point' or o.sun is None:
            self.point(o, op).value = v
        else:
            a = self.attr(o, op['m'])
            if op['b'] > 0:
                a = getattr(a, e['blocks'][op['b']].name or 'repeating')[op['b']]
            if how == 'attr':
                setattr(a, op['p'], v)
            else:
                a[op['p']] = v

    def do_write(self, op, r):
        o = self.target(op)
        m = self.model(o, op['m'])
        if o.sun is not None and op.get('how') == 'attr':
            self.attr(o, op['m']).write()
        else:
            m.write_points()

    def do_pwrite(self, op, r):
        o = self.target(op)
        self.refpoint(o, op)
        p = self.point(o, op)
        if p.value is None:
            raise Skip()
        p.write()

    def do_rawread(self, op, r):
        o = self.target(op)
        return o.dev.read(op['addr'], op['count'])

    def do_rawwrite(self, op, r):
        o = self.target(op)
        o.dev.write(op['addr'], bytes.fromhex(op['data']))

    def do_close(self, op, r):
        o = self.target(op)
        (o.sun or o.dev).close()

    def do_connect(self, op, r):
        o = self.target(op)
        if o.op['kind'] != 'tcp':
            raise Skip()
        o.dev.modbus_device.connect()

    def do_disconnect(self, op, r):
        o = self.target(op)
        if o.op['kind'] != 'tcp':
            raise Skip()
        o.dev.modbus_device.disconnect()

    # ---- the outside world -------------------------------------------------------------

    def do_wait(self, op, r):
        self.w.run_until(self.w.now + op['dt'])

    def do_jump(self, op, r):
        self.w.wall_jump += op['dt']
        self.w.fired['clock_jump'] += 1

    def do_poke(self, op, r):
        dev = self.devices.get(op['dev'])
        if dev is not None:
            dev.poke(op['pairs'])
            self.w.fired['device_changes_registers'] += 1

    def do_marker(self, op, r):
        """The device stops showing, or shows again, that it is a SunSpec device (an update of its firmware, say)."""
        dev = self.devices.get(op['dev'])
        base = self.plan['cfg']['sun'][op['dev']]['base']
        if dev is None or base < 0:
            raise Skip()
        dev.poke([[base, op['v'][0]], [base + 1, op['v'][1]]])
        self.w.fired['marker_restored' if op['v'] == [0x5375, 0x6e53] else 'marker_lost'] += 1

    def unmarked(self, op):
        dev = self.devices.get(op['dev']) if op['kind'] != 'map' else None
        base = self.plan['cfg']['sun'][op['dev']]['base']
        return dev is not None and base >= 0 and (dev.get(3, base), dev.get(3, base + 1)) != (0x5375, 0x6e53)

    def do_plug(self, op, r):
        for b in self.w.buses.values():
            b.present = True

    def do_idle_close(self, op, r):
        s = self.servers[op['link']]
        n = 0
        for c in list(s.conns):
            if not c.client_closed and not c.server_closed:
                n += 1
                s.reset(c) if op.get('rst') else s.close(c)
        if n:
            self.w.fired['idle_connection_closed'] += 1
        self.w.run_until(self.w.now + 0.05)

    def do_outage(self, op, r):
        s = self.servers[op['link']]
        s.down_until = self.w.now + op['dt']
        self.w.fired['server_outage'] += 1
        for c in list(s.conns):
            if not c.client_closed:
                s.reset(c)
        self.w.run_until(self.w.now + 0.05)

    def do_unplug(self, op, r):
        b = self.w.buses[op['port']]
        b.present = bool(op.get('present'))
        self.w.fired['serial_unplugged' if not b.present else 'serial_plugged'] += 1

    def do_file(self, op, r):
        """A file changes: 'put' contents or removal."""
        if op.get('text') is None:
            self.env.remove(op['path'])
        else:
            self.env.write(op['path'], self.file_bytes(op['text']))
        self.w.fired['file_changed'] += 1

    # ---- what is visible of an object -----------------------------------------------------

    def listing(self, o):
        """Models and values as the object shows them."""
        out = []
        for m in o.dev.models_list:
            blocks = []
            for b in m.blocks:
                vals = {}
                for pid, p in b.points.items():
                    vals[pid] = self.value(p)
                blocks.append((b.index, vals, [p.point_type.id for p in b.points_list]))
            out.append({'id': m.id, 'addr': m.addr, 'len': m.len, 'err': m.load_error, 'typed': m.model_type is not None, 'blocks': blocks})
        return out

    def value(self, p):
        try:
            return p.value
        except Exception as e:
            return ('EXC', type(e).__name__, str(e))

    def names(self, o):
        """The models as attributes of a SunSpecClientDevice: [(name, [(model id, fixed values, repeating name, [values])])]."""
        out = []
        for name in o.sun.models:
            a = getattr(o.sun, name)
            via_item = o.sun[name]
            inst = a[1:] if isinstance(a, list) else [a]
            entry = []
            for x in inst:
                entry.append(self.attr_values(x))
            out.append((name, entry, via_item is a, isinstance(a, list) and a[0] is None))
        return out

    def attr_values(self, x):
        fixed = dict((pid, self.get(x, pid)) for pid in x.points)
        item = dict((pid, x[pid]) for pid in x.points)
        rep = []
        for b in x.repeating[1:]:
            rep.append(dict((pid, self.get(b, pid)) for pid in b.points))
        return {'id': x.model.id, 'addr': x.model.addr, 'name': x.name, 'fixed': fixed, 'item': item, 'rep': rep, 'rep_name': x.repeating_name,
                'alias': getattr(x, x.repeating_name, None) is x.repeating}

    def get(self, x, pid):
        try:
            return getattr(x, pid)
        except Exception as e:
            return ('EXC', type(e).__name__, str(e))

    def run_op(self, i, op, tid=0):
        w = self.w
        try:
            r = Run.run_op(self, i, op, tid)
        except Skip:
            raise HarnessError('skip escaped')
        if r.exc == 'Skip':
            r.extra['skip'] = True
            r.status = 'ok'
            r.exc = None
        elif w.fatal is None:
            self.observe(r)
        return r

    def observe(self, r):
        """Everything visible of all objects after the operation."""
        r.extra['state'] = {}
        if r.op['op'] in ('open', 'scan') and r.op['id'] in self.objs:
            self.relayout(self.objs[r.op['id']], r)
        for oid in sorted(self.objs):
            if not self.visible(oid, r):
                continue
            o = self.objs[oid]
            try:
                r.extra['state'][oid] = self.listing(o)
                if o.sun is not None and r.op.get('id') == oid:
                    r.extra['names'] = self.names(o)
            except Exception as e:
                r.extra['broken'] = '%s: %s' % (type(e).__name__, e)

            if o.op['kind'] == 'map' and r.op.get('id') == oid:
                r.extra['map'] = self.dump_map(o)

    def relayout(self, o, r):
        pass

    def dump_map(self, o):
        regs = {}
        for a, hx in self.plan['cfg']['mapmem'][o.op['dev']]:
            n = len(hx) // 4
            try:
                v = o.dev.read(a, n)
            except Exception as e:
                return '%s: %s' % (type(e).__name__, e)
            for k in range(n):
                regs[a + k] = v[2 * k:2 * k + 2]
        return regs

    def visible(self, oid, r):
        return True

    def check(self, prop):
        from . import oracle2
        return oracle2.check(self, prop)


def judge(plan, prop, scratch):
    from . import oracle2
    return oracle2.judge(plan, prop, scratch)
