"""Workload 7: a logger.  Device data records are built, stamped, filled from devices, serialised, passed on
and parsed while the system clock jumps and the time zone changes.  Decides C21."""
import calendar
import datetime as _dt
import os
import re
import time as _time
import xml.etree.ElementTree as ET

from .runner import Violation
from .w2 import Skip, W2

STAMP = re.compile(r'^(\d{1,5})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|\+00:00)$')
DEV = ('logger_id', 'man', 'mod', 'sn', 'cid', 'device_id', 'ifc', 'namespace')


def instant(s):
    """Seconds since the epoch of a UTC timestamp; None: not one."""
    m = STAMP.match(s) if isinstance(s, str) else None
    if m is None:
        return None
    y, mo, d, h, mi, sec = (int(x) for x in m.groups()[:6])
    if not (1 <= y <= 9999 and 1 <= mo <= 12 and 1 <= d <= calendar.monthrange(y, mo)[1] and h < 24 and mi < 60 and sec < 60):
        return None
    return (_dt.date(y, mo, d).toordinal() - 719163) * 86400 + h * 3600 + mi * 60 + sec + float(m.group(7) or 0)


class Rec(object):
    """A record under test and what it has to hold."""

    def __init__(self, obj, ref):
        self.obj = obj
        self.ref = ref


def text(v):
    return None if v is None or str(v) == '' else str(v)


class W21(W2):

    def setup(self):
        W2.setup(self)
        self.data = self.mod('sunspec.core.data')
        self.recs = {}
        self.docs = {}
        self.bad = []

    # ---- world -------------------------------------------------------------------

    def do_jump(self, op, r):
        self.w.wall_jump += op['dt']
        self.w.fired['clock_forward' if op['dt'] > 0 else 'clock_backward'] += 1

    def do_tz(self, op, r):
        os.environ['TZ'] = op['tz']
        _time.tzset()
        self.w.fired['time_zone_changed'] += 1

    # ---- records ------------------------------------------------------------------

    def rec(self, op):
        if op['rec'] not in self.recs:
            raise Skip()
        return self.recs[op['rec']]

    def dev(self, op):
        x = self.rec(op)
        if op['d'] >= len(x.ref['devices']):
            raise Skip()
        return x.obj.device_data[op['d']], x.ref['devices'][op['d']]

    def do_rec_new(self, op, r):
        ref = {'version': op.get('version'), 'devices': []}
        obj = self.data.SunSpecData()
        if op.get('version') is not None:
            obj.version = op['version']
        self.recs[op['rec']] = Rec(obj, ref)

    def stamped(self, ref, explicit):
        ref['at'] = self.w.wall() if explicit is None else explicit
        ref['kind'] = 'default' if explicit is None else 'given'
        self.w.probes['stamp_' + ref['kind']] += 1

    def do_rec_device(self, op, r):
        x = self.rec(op)
        kw = dict(op['fields'])
        if 'ts' in op:
            kw['timestamp'] = op['ts']
        ref = dict(op['fields'], models=[], at=None)
        if 'ts' in op:
            self.stamped(ref, op['ts'])
        if op.get('positional'):
            x.obj.device_add(*[kw.get(k) for k in ('logger_id', 'man', 'mod', 'sn', 'timestamp', 'cid', 'device_id', 'ifc', 'namespace')])
        else:
            x.obj.device_add(**kw)
        x.ref['devices'].append(ref)

    def do_rec_stamp(self, op, r):
        d, ref = self.dev(op)
        if 'ts' in op:
            d.timestamp_add(op['ts'])
        else:
            d.timestamp_add()
        self.stamped(ref, op.get('ts'))

    def do_rec_model(self, op, r):
        d, ref = self.dev(op)
        d.model_add(op['mid'], op.get('index'), op.get('ns'))
        ref['models'].append({'id': str(op['mid']), 'index': op.get('index'), 'ns': op.get('ns'), 'points': []})

    def do_rec_point(self, op, r):
        d, ref = self.dev(op)
        if op['m'] >= len(ref['models']):
            raise Skip()
        d.model_data[op['m']].point_add(op['p'], op.get('value'), op.get('index'), op.get('sf'), op.get('units'), op.get('desc'), op.get('time'))
        ref['models'][op['m']]['points'].append({'id': op['p'], 'value': op.get('value'), 'index': op.get('index'), 'sf': op.get('sf'),
                                                 'time': op.get('time')})

    def do_rec_collect(self, op, r):
        """The models of a device, as last read, into a record."""
        d, ref = self.dev(op)
        o = self.target(op)
        seen = {}
        for m in o.dev.models_list:
            if m.load_error is not None or m.model_type is None:
                continue
            seen[m.id] = seen.get(m.id, 0) + 1
            md = d.model_add(m.id, seen[m.id])
            mr = {'id': str(m.id), 'index': seen[m.id], 'ns': None, 'points': []}
            ref['models'].append(mr)
            for b in m.blocks:
                for p in b.points_list:
                    v = p.value_base
                    if v is None or isinstance(v, str) and any(ord(c) < 32 or ord(c) > 126 and ord(c) < 160 for c in v):
                        continue
                    sf = p.value_sf if p.value_sf else None
                    md.point_add(p.point_type.id, v, b.index or None, sf)
                    mr['points'].append({'id': p.point_type.id, 'value': v, 'index': b.index or None, 'sf': sf, 'time': None})
                    self.w.probes['point_from_device'] += 1

    # ---- passing on ------------------------------------------------------------------

    def do_rec_write(self, op, r):
        x = self.rec(op)
        if op['how'] == 'str':
            doc = x.obj.to_xml_str()
        elif op['how'] == 'pretty':
            doc = x.obj.to_xml_str(pretty_print=True)
        elif op['how'] == 'root':
            x.obj.to_xml()
            doc = ET.tostring(x.obj.root).decode()
        else:
            parent = ET.Element('log')
            for _ in range(op.get('before', 0)):
                ET.SubElement(parent, 'entry').text = 'x'
            x.obj.to_xml(parent)
            doc = ET.tostring(parent[len(parent) - 1]).decode()
        if not isinstance(doc, str):
            doc = bytes(doc).decode()
        self.docs[op['doc']] = (doc, self.freeze(x.ref))
        self.w.probes['serialised'] += 1

    def freeze(self, ref):
        return {'version': ref['version'],
                'devices': [dict(d, models=[dict(m, points=[dict(p) for p in m['points']]) for m in d['models']]) for d in ref['devices']]}

    def do_rec_read(self, op, r):
        if op['doc'] not in self.docs:
            raise Skip()
        doc, ref = self.docs[op['doc']]
        if op.get('cut') is not None:
            # the transfer broke off
            self.w.hit('document_cut')
            self.data.SunSpecData(data_record=doc.rstrip()[:int(len(doc.rstrip()) * op['cut'])])
            return
        if op.get('foreign'):
            # not, or not only, such a record
            doc = self.mixed(doc, op['foreign'], op['k'])
            if doc is None:
                raise Skip()
            self.w.hit('foreign_element')
        if op['how'] == 'element':
            obj = self.data.SunSpecData(ET.fromstring(doc))
        elif op['how'] == 'bytes':
            obj = self.data.SunSpecData(data_record=doc.encode())
        elif op['how'] == 'from':
            obj = self.data.SunSpecData()
            obj.from_xml(data_record=doc)
        else:
            obj = self.data.SunSpecData(data_record=doc)
        new = self.freeze(ref)
        new['parsed'] = True
        self.recs[op['rec']] = Rec(obj, new)
        self.w.probes['parsed'] += 1

    def do_rec_other(self, op, r):
        """A record of another logger arrives: its stamps are as precise as it likes."""
        root = ET.Element('sunSpecData')
        ref = {'version': op.get('version'), 'devices': []}
        if op.get('version'):
            root.set('v', op['version'])
        for d in op['devices']:
            e = ET.SubElement(root, 'd')
            for k, v in d['fields'].items():
                if v != '':
                    e.set({'logger_id': 'lid', 'device_id': 'id', 'ifc': 'if', 'namespace': 'ns'}.get(k, k), v)
            rd = dict(d['fields'], models=[], at=None)
            if d.get('t'):
                e.set('t', d['t'])
                rd.update(at=instant(d['t']), kind='passed')
                self.w.probes['stamp_passed'] += 1
            for m in d['models']:
                f = ET.SubElement(e, 'm', {'id': m['id']})
                if m.get('x') is not None:
                    f.set('x', str(m['x']))
                rm = {'id': m['id'], 'index': m.get('x'), 'ns': None, 'points': []}
                rd['models'].append(rm)
                for p in m['points']:
                    g = ET.SubElement(f, 'p', {'id': p['id']})
                    for k, a in (('index', 'index'), ('sf', 'sf'), ('t', 't'), ('u', 'u'), ('d', 'd')):
                        if k in p:
                            g.set(a, str(p[k]))
                    if 'v' in p:
                        g.text = p['v']
                    rm['points'].append({'id': p['id'], 'value': p.get('v'), 'index': p.get('index'), 'sf': p.get('sf'), 'time': p.get('t')})
            ref['devices'].append(rd)
        self.docs[op['doc']] = (ET.tostring(root).decode(), ref)

    def mixed(self, doc, level, k):
        root = ET.fromstring(doc)
        if level == 'root':
            root.tag = ('data', 'sunSpecPics', 'd')[k % 3]
        else:
            where = {'device': [root], 'model': root.findall('d'), 'point': root.findall('d/m')}[level]
            if not where:
                return None
            e = where[k % len(where)]
            e.insert(k % (len(e) + 1), ET.Element(('x', 'note', 'p' if level != 'point' else 'm')[k % 3]))
        return ET.tostring(root).decode()

    # ---- checks ------------------------------------------------------------------------

    def run_op(self, i, op, tid=0):
        r = W2.run_op(self, i, op, tid)
        if self.w.fatal is None:
            r.extra['recs'] = [(k, self.compare(self.recs[k])) for k in sorted(self.recs)]
        return r

    def compare(self, x):
        """What is wrong with a record; None: nothing."""
        o, ref = x.obj, x.ref
        if text(o.version) != text(ref['version']):
            return 'fields', 'version %r instead of %r' % (o.version, ref['version'])
        if len(o.device_data) != len(ref['devices']):
            return 'devices', '%d devices instead of %d' % (len(o.device_data), len(ref['devices']))
        for k, (d, rd) in enumerate(zip(o.device_data, ref['devices'])):
            for f in DEV:
                if text(getattr(d, f)) != text(rd.get(f)):
                    return 'fields', 'device %d: %s is %r instead of %r' % (k, f, getattr(d, f), rd.get(f))
            at = rd['at']
            if at is None:
                if d.timestamp:
                    return 'timestamp', 'device %d: timestamp %r, but it was never stamped' % (k, d.timestamp)
            else:
                got = instant(d.timestamp)
                if rd['kind'] == 'passed':
                    if got is None or abs(got - at) > 1e-5:
                        return 'timestamp', 'device %d: timestamp %r, it came with the instant %.6f' % (k, d.timestamp, at)
                elif got is None or not at - 1.0 - 1e-5 < got < at + 1e-5:     # whole seconds, never ahead
                    return 'timestamp', 'device %d: timestamp %r instead of %s (%s instant)' % (
                        k, d.timestamp, _dt.datetime(1970, 1, 1).__add__(_dt.timedelta(seconds=at)).isoformat() + 'Z', rd['kind'])
            if len(d.model_data) != len(rd['models']):
                return 'models', 'device %d: %d models instead of %d' % (k, len(d.model_data), len(rd['models']))
            for j, (m, rm) in enumerate(zip(d.model_data, rd['models'])):
                if str(m.model_id) != rm['id'] or (m.index or 1) != (rm['index'] or 1) or text(m.namespace) != text(rm['ns']):
                    return 'models', 'device %d, model %d: id %r, index %r, namespace %r instead of %r, %r, %r' % (
                        k, j, m.model_id, m.index, m.namespace, rm['id'], rm['index'], rm['ns'])
                if len(m.point_data) != len(rm['points']):
                    return 'points', 'device %d, model %d: %d points instead of %d' % (k, j, len(m.point_data), len(rm['points']))
                for n, (p, rp) in enumerate(zip(m.point_data, rm['points'])):
                    a = (str(p.point_id), text(p.value), p.index or None, p.sf, text(p.time))
                    b = (str(rp['id']), text(rp['value']), rp['index'] or None, rp['sf'], text(rp['time']))
                    if a != b:
                        return 'points', 'device %d, model %d, point %d: (id, value, index, sf, time) %r instead of %r' % (k, j, n, a, b)
        return None

    def check(self, prop):
        for r in self.results:
            name = r.op['op']
            if r.status == 'fatal':
                if name.startswith('rec_'):
                    return [Violation(prop, 'never_ends', '%s: %s' % (name, r.text), r.i)]
                continue
            if name.startswith('rec_') and r.status == 'err' and not r.is_a('Skip') and r.op.get('cut') is None and not r.harm:
                return [Violation(prop, 'refused', '%s %s' % (name, r.show()), r.i)]
            if name == 'rec_read' and (r.op.get('cut') is not None or r.op.get('foreign')) and not r.extra.get('skip'):
                if r.status == 'ok':
                    return [Violation(prop, 'accepted', 'a document that is %s was accepted' % ('cut' if r.op.get('cut') is not None else
                            'no record' if r.op['foreign'] == 'root' else 'foreign in part'), r.i)]
                if r.op.get('foreign') and not r.is_a('SunSpecDataError'):
                    return [Violation(prop, 'error', '%s of a document that is no record %s' % (name, r.show()), r.i)]
            for k, bad in r.extra.get('recs', ()):
                if bad is not None:
                    return [Violation(prop, bad[0], 'after %s (operation %d): record %s: %s' % (name, r.i, k, bad[1]), r.i)]
        return []


def judge(plan, prop, scratch):
    run = W21(plan, scratch).execute()
    return run.check(prop), [run]
