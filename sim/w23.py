"""Workload 5: documents - devices saved as PICS documents, register maps saved as map documents - written
by one process and read by the next.  Processes end at any time, also in the middle of a write; files
are damaged, removed or cannot be opened.  Decides C23 and C24."""
import os
import re
import xml.etree.ElementTree as ET

from . import compare, ref
from .env import loader
from .runner import Violation
from .w2 import W2, Skip

XML_BAD = re.compile('[\x00-\x1f\x7f\ufffe\uffff\ud800-\udfff]')


OWN = ('mnew', 'mtwin', 'madd', 'mwrite', 'mread', 'msave', 'mload', 'mcompare', 'psave', 'pload', 'pset', 'pcompare')


def norm(t, v):
    """Base value of a point as a document can say it: a 'not implemented' code is no value."""
    if v is None:
        return None
    if t in ref.INTS or t == 'sunssf':
        n = ref.LEN[t]
        lo, hi = ref.limits(t)
        return ref.decode(t, ref.encode(t, n, v)) if isinstance(v, int) and lo <= v <= hi else v
    if t == 'float32':
        return None if v != v else v
    if t == 'string':
        return v.rstrip('\0') or None
    if t == 'ipv6addr':
        return None if not v.strip('0:') else v
    if t == 'eui48':
        return None if v.upper() in ('FF:FF:FF:FF:FF:FF', '00:00:00:00:00:00') else v
    return v


def damage(text, kind, k, known=()):
    """A damaged copy of a document; None when this damage does not apply."""
    def sub(pat, rep):
        ms = list(re.finditer(pat, text))
        if not ms:
            return None
        m = ms[int(k * len(ms))]
        return text[:m.start()] + m.expand(rep) + text[m.end():]
    if kind == 'cut':
        n = len(text.rstrip())
        return text[:int(k * (n - 1))]
    if kind == 'empty':
        return ''
    if kind == 'garbage':
        return '\x00\x01\xff\xfe not a document'
    if kind == 'json':
        return '{"device": {}}'
    if kind == 'lt':
        i = [m.start() for m in re.finditer('<', text)]
        i = i[int(k * len(i))]
        text = text[:i] + text[i + 1:]
        try:
            ET.fromstring(text)
            return None        # an element without contents became text
        except ET.ParseError:
            return text
    if kind == 'root':
        return re.sub(r'sunSpecPics|mbmap', 'other', text) if 'sunSpecPics' in text else None
    if kind == 'nodevice':
        return text.replace('<device', '<devices').replace('</device>', '</devices>')
    if kind == 'modeltag':
        return text.replace('<model', '<modul').replace('</model>', '</modul>') if '<model' in text else None
    if kind == 'modelid':
        return sub(r'(<model[^>]*?) id="\d+"', r'\1')
    if kind == 'modelnum':
        return sub(r'(<model[^>]*?) id="\d+"', r'\1 id="x1"')
    if kind == 'modellen':
        return sub(r'(<model[^>]*?) len="\d+"', r'\1 len="long"')
    if kind == 'baseaddr':
        return sub('<device', '<device addr="base"') if ' addr=' not in text else sub(' addr="[^"]*"', ' addr="4o000"')
    if kind == 'blocktag':
        return text.replace('<block', '<bloc').replace('</block>', '</bloc>') if '<block' in text else None
    if kind == 'blockindex':
        m = re.search('<block( index="[0-9]+")? type="repeating"( index="[0-9]+")?', text)
        return None if not m else text[:m.start()] + '<block type="repeating" index="%s"' % ('0', '-1', '9999', 'x')[int(k * 4)] + text[m.end():]
    if kind == 'blocktype':
        return sub('<block( type="[a-z]*")?', '<block type="floating"')
    if kind == 'pointtag':
        # one element that is no point, in a block of a model that can be loaded
        try:
            root = ET.fromstring(text.encode('utf-8'))
        except ET.ParseError:
            return None
        pts = [p for m in root.iter('model') if m.get('id') in known for b in m.findall('block')
               if b.get('type', 'fixed') == 'fixed' or b.get('index') is not None for p in b.findall('point')]
        if not pts:
            return None
        pts[int(k * len(pts))].tag = 'pt'
        return ET.tostring(root).decode()
    # maps
    if kind == 'func':
        return sub('func="[a-z]*"', 'func="coil"') or sub('<mbmap', '<mbmap func="coil"')
    if kind == 'addr':
        return sub('addr="[^"]*"', 'addr="%s"' % ('', 'x', '12.5')[int(k * 3)]) or sub('<mbmap', '<mbmap addr="x"')
    if kind == 'offset':
        return sub('offset="[^"]*"', 'offset="two"')
    if kind == 'overlap':
        m = re.findall('<regs[^>]*offset="(\\d+)"', text)
        if len(m) < 2 or m[-1] == m[0]:
            return None
        i = text.rindex('offset="%s"' % m[-1])
        return text[:i] + 'offset="%s"' % m[0] + text[i + len('offset="%s"' % m[-1]):]
    if kind == 'short':
        # more contents than registers
        for m in re.finditer('<regs[^>]*?len="(\\d+)"[^>]*>([0-9a-fA-F]+)<', text):
            if int(m.group(1)) > 1 and len(m.group(2)) >= 4 * int(m.group(1)) and 'type=' not in m.group(0):
                return text[:m.start(1)] + str(int(m.group(1)) - 1) + text[m.end(1):]
        return None
    if kind == 'digit':
        m = re.search('<regs(?![^>]*type=)[^>]*>([0-9a-fA-F]{4,})<', text)
        if not m:
            return None
        i = m.start(1) + int(k * (m.end(1) - m.start(1)))
        return text[:i] + 'x' + text[i + 1:]
    if kind == 'odd':
        m = re.search('<regs(?![^>]*type=)[^>]*>([0-9a-fA-F]{4,})<', text)
        return None if not m else text[:m.start(1)] + text[m.start(1) + 1 + int(k * 3):]
    if kind == 'regtype':
        return sub('<regs', '<regs type="q8"') if not re.search('<regs[^>]*type=', text) else sub('(<regs[^>]*type=")[a-z0-9]*"', '\\1q8"')
    raise ValueError(kind)


class W23(W2):

    def setup(self):
        W2.setup(self)
        self.pics = self.mod('sunspec.core.pics')
        self.mbmap = self.mod('sunspec.core.modbus.mbmap')
        self.loaded = {}           # id -> Device read from a document
        self.maps = {}             # id -> (ModbusMap or device on it, its contents as they must be)
        if not hasattr(self, 'docs'):
            self.viol = []
            self.docs = {}         # name -> {'kind', 'text', 'good', 'snap' / 'map'}
            for name, d in sorted(self.plan['cfg'].get('docs', {}).items()):
                self.put(name, d['text'], d.get('enc'))
                self.docs[name] = dict(d, good=True)

    def put(self, name, text, enc=None):
        if enc is not None:
            # the same document in another encoding, which it declares
            if text.startswith('<?xml'):
                text = text.split('?>', 1)[1].lstrip()
            if enc != 'utf-8-sig':
                text = '<?xml version="1.0" encoding="%s"?>\n%s' % (enc, text)
            text = text.encode(enc, 'xmlcharrefreplace')
            self.w.probes['documents_encoded'] += 1
        self.env.write('docs/' + name, text)

    def say(self, r, sig, msg):
        self.viol.append(Violation(self.plan['prop'], sig, msg, r.i))

    def observe(self, r):
        self.check_maps(r)

    # ---- processes -----------------------------------------------------------------------

    def do_restart(self, op, r):
        """The process ends, whatever it was doing, and another one starts."""
        for bus in self.w.buses.values():
            for p in list(bus.ports):
                p.close()
        for s in self.w.net.socks:
            if not s.closed:
                s.close()
        self.objs = {}
        self.loaded = {}
        self.maps = {}
        loader.purge()
        self.setup()
        self.w.fired['process_restart'] += 1

    def store(self, op, r, kind, text, **state):
        """What the user's program does with a document: writes it, perhaps not to the end."""
        name = op['doc']
        good = True
        if op.get('cut') is not None:
            # the process ends in the middle of the write
            n = len(text.rstrip())
            text = text[:int(op['cut'] * (n - 1))]
            good = False
            self.w.fired['torn_document_write'] += 1
        self.put(name, text, op.get('enc') if good else None)
        self.docs[name] = dict(state, kind=kind, text=text, good=good)
        if op.get('cut') is not None:
            self.do_restart({}, r)

    def do_damage(self, op, r):
        d = self.docs.get(op['doc'])
        if d is None or not d['good']:
            raise Skip()
        if op['kind'] == 'remove':
            self.env.remove('docs/' + op['doc'])
        else:
            text = damage(d['text'], op['kind'], op['k'], self.loadable())
            if text is None or text == d['text']:
                raise Skip()
            self.put(op['doc'], text)
        d['good'] = False
        d['gone'] = op['kind'] == 'remove'
        self.w.fired['document_damaged'] += 1

    def loadable(self):
        """Ids of models all of whose instances fit their definition."""
        good, bad = set(), set()
        for s in self.plan['cfg']['sun'].values():
            for m in s['models']:
                d = self.defs.get(m['id'])
                (good if d is not None and ref.expand(d, m['len'], m.get('addr', 0))[1] is None else bad).add(str(m['id']))
        return good - bad

    def doc(self, op, kind):
        d = self.docs.get(op['doc'])
        if d is None or d['kind'] != kind:
            raise Skip()
        return d

    def source(self, op, r):
        """(file name, path list) as the user passes it."""
        p = self.at('docs')
        if op['how'] == 'path':
            return op['doc'], self.util.PathList([self.at('nowhere'), p] + ([self.at('alt')] if op.get('decoy') else []))
        if op['how'] == 'fall':
            # nothing of that name in the path list given: the file itself
            return os.path.join(p, op['doc']), self.util.PathList([self.at('nowhere'), self.at('alt')])
        if op['how'] == 'device' and op.get('decoy'):
            return op['doc'], self.util.PathList([self.at('nowhere')])
        return os.path.join(p, op['doc']), None

    def at(self, rel):
        return os.path.join(self.env.scratch, rel)

    def decoy(self, op, d, text):
        """Another document of the same name, in a place that comes later."""
        if not op.get('decoy') or d.get('gone'):
            op = dict(op, decoy=False)
        else:
            self.env.write('alt/' + op['doc'], text)
            self.w.probes['documents_of_equal_name'] += 1
        return op

    def failed(self, op, r, d, e, errors, what):
        """The load failed: it has to be the documented error and there has to be a reason."""
        r.extra['load'] = 'failed'
        names = [c.__name__ for c in type(e).__mro__]
        if not any(x in names for x in errors):
            self.say(r, 'error_class', '%s raised %s: %s' % (what, type(e).__name__, self.clean(str(e))))
        elif d['good'] and not r.ctx.harm:
            self.say(r, 'load_failed', '%s raised %s: %s' % (what, type(e).__name__, self.clean(str(e))))

    # ---- PICS ------------------------------------------------------------------------------

    def source_device(self, op):
        if 'pid' in op:
            if op['pid'] not in self.loaded:
                raise Skip()
            return self.loaded[op['pid']]['dev']
        o = self.target(op)
        return o.dev

    def snap(self, dev):
        """State of a device object: models, blocks, points."""
        out = []
        for m in dev.models_list:
            blocks = []
            for b in m.blocks:
                pts = []
                for p in b.points_list:
                    t = p.point_type
                    sf = p.sf_point.value_base if p.sf_point is not None else None
                    pts.append({'id': t.id, 'type': t.type, 'base': p.value_base, 'sf': p.value_sf, 'sure': p.value_base is None or p.value_sf == sf or
                                not (p.value_sf or sf), 'access': t.access, 'impl': p.impl, 'value': self.value(p)})
                sfs = dict((k, p.value_base) for k, p in b.points_sf.items())
                blocks.append({'index': b.index, 'type': b.type, 'points': pts, 'sfs': sfs})
            out.append({'id': m.id, 'index': m.index, 'len': m.len, 'err': m.load_error is not None, 'blocks': blocks})
        return out

    def do_psave(self, op, r):
        dev = self.source_device(op)
        snap = self.snap(dev)
        for m in snap:
            for b in m['blocks']:
                for p in b['points']:
                    if isinstance(p['base'], str) and XML_BAD.search(p['base'].rstrip('\0')):
                        raise Skip()       # no XML document can hold it
        root = ET.Element(self.pics.PICS_ROOT)
        try:
            dev.to_pics(root, single_repeating=op['single'])
            if op.get('pretty'):
                self.util.indent(root)
            text = ET.tostring(root).decode('ascii')
        except Exception as e:
            self.say(r, 'save_failed', 'saving the device raised %s: %s' % (type(e).__name__, e))
            return
        if self.snap(dev) != snap:
            self.say(r, 'save_changes', 'saving the device changed it')
        self.inspect(op, r, snap, root)
        self.w.probes['devices_saved'] += 1
        self.store(op, r, 'pics', text, snap=snap, single=op['single'], base=dev.base_addr)

    def inspect(self, op, r, snap, root):
        """The document has to say what the device object holds."""
        devs = list(root)
        if root.tag != 'sunSpecPics' or [d.tag for d in devs] != ['device']:
            self.say(r, 'document', 'the document is %s with %s' % (root.tag, [d.tag for d in devs]))
            return
        ms = list(devs[0])
        if [x.tag for x in ms] != ['model'] * len(snap) or [x.get('id') for x in ms] != [str(m['id']) for m in snap]:
            self.say(r, 'document', 'the document lists the models %s, the device has %s' % ([x.get('id') for x in ms], [m['id'] for m in snap]))
            return
        for x, m in zip(ms, snap):
            what = 'model %d' % m['id']
            if x.get('len') != str(m['len']):
                self.say(r, 'document', '%s: len %s in the document, %s in the device' % (what, x.get('len'), m['len']))
            want = [b for b in m['blocks'] if b['index'] <= 1 or not op['single']]
            if len(list(x)) != len(want):
                self.say(r, 'document', '%s: %d blocks in the document, %d in the device' % (what, len(list(x)), len(want)))
                continue
            for y, b in zip(list(x), want):
                rep = y.get('type', 'fixed') == 'repeating'
                if y.tag != 'block' or rep != (b['index'] > 0) or int(y.get('index', min(b['index'], 1))) != b['index']:
                    self.say(r, 'document', '%s: block %d written as %s %s' % (what, b['index'], y.tag, dict(y.attrib)))
                self.inspect_block(r, what, m, b, y)

    def inspect_block(self, r, what, m, b, y):
        d = self.defs.get(m['id'])
        if d is None:
            return
        order = [p['id'] for p in (d['fixed'] if b['index'] == 0 else d['rep'])['points'] if p['type'] != 'pad']
        have = dict((p['id'], p) for p in b['points'])
        have.update((k, {'id': k, 'type': 'sunssf', 'base': v, 'access': 'r'}) for k, v in b['sfs'].items())
        if [z.get('id') for z in y] != [k for k in order if k in have]:
            self.say(r, 'document', '%s block %d: points %s in the document' % (what, b['index'], [z.get('id') for z in y]))
            return
        rw = dict((p['id'], p.get('access') == 'rw') for blk in (d['fixed'] if b['index'] == 0 else d['rep'],) for p in blk['points'])
        for z in y:
            p = have[z.get('id')]
            where = '%s block %d point %s (%s)' % (what, b['index'], p['id'], p['type'])
            n = norm(p['type'], p['base'])
            if (z.get('impl') == 'false') != (p['base'] is None) and n is not None:
                self.say(r, 'document', '%s holds %r and is written with impl=%r' % (where, p['base'], z.get('impl')))
            if n is None:
                if p['base'] is None and z.get('impl') != 'false':
                    self.say(r, 'document', '%s has no value and is not marked as unimplemented' % where)
                continue
            if (z.get('access', 'r') == 'rw') != rw[p['id']]:
                self.say(r, 'document', '%s: access %r in the document, definition says %s' % (where, z.get('access'), 'rw' if rw[p['id']] else 'r'))
            t = z.text or ''
            try:
                got = int(t, 0) if p['type'] in ref.INTS or p['type'] == 'sunssf' else float(t) if p['type'] == 'float32' else t
            except ValueError:
                got = t
            if not ref.same(got, n):
                self.say(r, 'document', '%s holds %r, the document says %r' % (where, n, t))

    def do_pload(self, op, r):
        d = self.doc(op, 'pics')
        op = self.decoy(op, d, '<sunSpecPics><device addr="7"/></sunSpecPics>')
        name, pathlist = self.source(op, r)
        dev = self.devmod.Device()
        what = 'loading document %s' % op['doc']
        old = self.devmod.file_pathlist
        try:
            if op['how'] == 'element':
                # the user's program parses the file
                try:
                    with open(name) as f:
                        e = ET.fromstring(f.read()).find('device')
                except (OSError, ET.ParseError, ValueError):
                    raise Skip()
                if e is None:
                    raise Skip()
                dev.from_pics(element=e)
            elif op['how'] == 'device':
                # the path list of the device module
                self.devmod.file_pathlist = self.util.PathList(list(old.path) + [self.at('docs')] + ([self.at('alt')] if op.get('decoy') else []))
                dev.from_pics(filename=op['doc'], pathlist=pathlist)
            else:
                if op.get('decoy'):
                    self.devmod.file_pathlist = self.util.PathList(list(old.path) + [self.at('alt')])
                dev.from_pics(filename=name, pathlist=pathlist)
        except Skip:
            raise
        except Exception as e:
            self.failed(op, r, d, e, ('SunSpecError',), what)
            self.w.probes['damaged_documents_refused'] += 0 if d['good'] else 1
            return
        finally:
            self.devmod.file_pathlist = old
            self.env.remove('alt/' + op['doc'])
        if op['how'] == 'element' and not d['good']:
            raise Skip()
        r.extra['load'] = 'ok'
        if not d['good']:
            self.say(r, 'damaged_accepted', '%s succeeded, it is damaged' % what)
            return
        if [h for h in r.ctx.harm if not h.startswith('file_enoent')]:
            # a definition or the document could not be opened; what that does is decided by C16
            raise Skip()
        self.loaded[op['pid']] = {'dev': dev, 'doc': op['doc']}
        self.w.probes['devices_loaded'] += 1
        byid = {}
        for m in dev.models_list:
            byid.setdefault(m.id, []).append(m)
        if dev.models != byid:
            self.say(r, 'models', '%s: models by id are %s' % (what, dict((k, len(v)) for k, v in dev.models.items())))
        base = 40000 if d['base'] is None else d['base']
        if dev.base_addr != base:
            self.say(r, 'models', '%s: base address %r instead of %r' % (what, dev.base_addr, base))
        got = self.snap(dev)
        addr = base + 2
        for m, g in zip(dev.models_list, got):
            # addresses of models and points follow from the base address and the lengths
            d1 = self.defs.get(m.id)
            if m.addr != addr + 2:
                self.say(r, 'address', '%s: model %d at %r instead of %d' % (what, m.id, m.addr, addr + 2))
            if d1 is not None and not g['err']:
                for b, rb in zip(m.blocks, ref.expand(d1, m.len, addr + 2)[0]):
                    for pid, p in list(b.points.items()) + list(b.points_sf.items()):
                        if str(p.addr) != str(rb.all[pid].addr):
                            self.say(r, 'address', '%s: model %d block %d point %s at %s instead of %d' % (what, m.id, b.index, pid, p.addr, rb.all[pid].addr))
            addr += 2 + m.len
        if 'snap' in d:
            self.same_device(r, what, got, d['snap'], d['single'])
        else:
            self.expected_device(r, what, got, d['expect'])

    def same_device(self, r, what, got, want, single):
        a, b = [[(m['id'], m['index'], m['len']) for m in x] for x in (got, want)]
        if a != b:
            self.say(r, 'models', '%s gives the models (id, index, len) %s, saved were %s' % (what, a, b))
            return
        for g, w in zip(got, want):
            label = '%s: model %d' % (what, g['id'])
            if g['err'] != w['err']:
                self.say(r, 'models', '%s: error %s, when saved %s' % (label, g['err'], w['err']))
                continue
            if [(b['index'], b['type']) for b in g['blocks']] != [(b['index'], b['type']) for b in w['blocks']]:
                self.say(r, 'blocks', '%s has %d blocks, saved were %d' % (label, len(g['blocks']), len(w['blocks'])))
                continue
            for gb, wb in zip(g['blocks'], w['blocks']):
                self.same_block(r, '%s block %d' % (label, gb['index']), gb, w['blocks'][1] if single and gb['index'] > 1 else wb)

    def same_block(self, r, label, g, w):
        if [p['id'] for p in g['points']] != [p['id'] for p in w['points']] or sorted(g['sfs']) != sorted(w['sfs']):
            self.say(r, 'points', '%s has other points than were saved' % label)
            return
        for k in g['sfs']:
            if not ref.same(g['sfs'][k], norm('sunssf', w['sfs'][k])):
                self.say(r, 'value', '%s: scale factor %s is %r, saved was %r' % (label, k, g['sfs'][k], w['sfs'][k]))
        for a, b in zip(g['points'], w['points']):
            n = norm(b['type'], b['base'])
            where = '%s point %s (%s)' % (label, a['id'], a['type'])
            if not ref.same(a['base'], n):
                self.say(r, 'value', '%s holds %r, saved was %r' % (where, a['base'], n))
            elif n is not None and b['sure'] and not ref.same(a['value'], b['value']):
                self.say(r, 'value', '%s reads %r, when saved %r' % (where, a['value'], b['value']))
            elif n is None and a['value'] is not None:
                self.say(r, 'value', '%s is not implemented and reads %r' % (where, a['value']))
            if a['impl'] != (n is not None):
                self.say(r, 'impl', '%s holds %r, impl is %r' % (where, n, a['impl']))
            if a['access'] != b['access']:
                self.say(r, 'access', '%s: access %r, saved was %r' % (where, a['access'], b['access']))

    def expected_device(self, r, what, got, want):
        """A document written by someone else: [{'id', 'len', 'blocks': [{point: base value}]}]."""
        a, b = [[(m['id'], m['index']) for m in x] for x in (got, want)]
        if a != b:
            self.say(r, 'models', '%s gives the models (id, index) %s, it lists %s' % (what, a, b))
            return
        for g, w in zip(got, want):
            label = '%s: model %d' % (what, g['id'])
            if w['blocks'] is None:
                if not g['err']:
                    self.say(r, 'models', '%s: no error although it cannot be loaded' % label)
                continue
            if g['err'] or g['len'] != w['len'] or len(g['blocks']) != len(w['blocks']):
                self.say(r, 'models', '%s: len %s, %d blocks, error %s; the document says len %s, %d blocks' % (
                    label, g['len'], len(g['blocks']), g['err'], w['len'], len(w['blocks'])))
                continue
            blocks = ref.expand(self.defs[g['id']], g['len'], 0)[0]
            for gb, wb, rb in zip(g['blocks'], w['blocks'], blocks):
                for p in gb['points']:
                    q = rb.points[p['id']]
                    base, impl = wb.get(p['id'], (None, True))
                    where = '%s block %d point %s (%s)' % (label, gb['index'], p['id'], p['type'])
                    if not ref.same(p['base'], base):
                        self.say(r, 'value', '%s holds %r, the document says %r' % (where, p['base'], base))
                        continue
                    if p['impl'] != impl:
                        self.say(r, 'impl', '%s: impl is %r, the document says %r' % (where, p['impl'], impl))
                    sf = q.sf
                    if q.sfp is not None:
                        sf = (wb if q.sfp.block.index == gb['index'] else w['blocks'][0]).get(q.sfp.id, (None, True))[0]
                    if not any(ref.same(p['value'], v) for v in ref.scaled(base, sf)):
                        self.say(r, 'value', '%s reads %r, the document says %r with scale factor %r' % (where, p['value'], base, sf))

    def do_pset(self, op, r):
        """A point of a loaded device is set."""
        if op['pid'] not in self.loaded:
            raise Skip()
        dev = self.loaded[op['pid']]['dev']
        if op['m'] >= len(dev.models_list):
            raise Skip()
        m = dev.models_list[op['m']]
        if op['b'] >= len(m.blocks) or op['p'] not in m.blocks[op['b']].points:
            raise Skip()
        p = m.blocks[op['b']].points[op['p']]
        if op['t'] != [p.point_type.type, p.point_type.len]:
            raise Skip()           # what should have replaced this device was not loaded
        if 'raw' in op:
            sf = p.sf_point.value_base if p.sf_point is not None else None
            if sf and abs(op['raw']) >= 1 << 50:
                raise Skip()       # beyond what a float can say
            p.value = op['raw'] * (10.0 ** sf) if sf and sf < 0 else op['raw'] * 10 ** sf if sf else op['raw']
            want = op['raw']
        else:
            p.value = want = op['v']
        self.loaded[op['pid']]['doc'] = None
        if not ref.same(p.value_base, want):
            self.say(r, 'set', 'setting point %s of a loaded device to %r (scale factor %r) gives %r' % (op['p'], want, p.value_sf, p.value_base))

    def do_pcompare(self, op, r):
        """not_equal() of two device objects."""
        a, b = [self.source_device({'id': x} if x in self.objs else {'pid': x}) for x in (op['a'], op['b'])]
        self.w.probes['devices_compared'] += 1
        bad = compare.judge(a, b, self.w.probes)
        if bad is not None:
            self.say(r, 'compare', '%s and %s: %s' % (op['a'], op['b'], bad[1]))

    # ---- register maps ----------------------------------------------------------------------

    def the_map(self, op):
        if op['id'] not in self.maps:
            raise Skip()
        return self.maps[op['id']]

    @staticmethod
    def raw(obj):
        return getattr(obj, 'modbus_map', obj)

    def check_maps(self, r):
        for mid in sorted(self.maps):
            obj, m = self.maps[mid]
            bad = self.differs(self.raw(obj), m)
            if bad:
                self.say(r, 'map', '%s after %s: %s' % (mid, r.op['op'], bad))
                del self.maps[mid]

    def differs(self, mm, m):
        for k in ('base_addr', 'func', 'ns', 'lid', 'mapid', 'time'):
            if getattr(mm, k) != m[k] and not (k == 'base_addr' and str(getattr(mm, k)) == str(m[k])):
                return '%s is %r instead of %r' % (k, getattr(mm, k), m[k])
        have = [(x.offset, x.count, x.access) for x in mm.regs]
        if have != m['blocks']:
            return 'registers (offset, count, access) %s instead of %s' % (have, m['blocks'])
        for off, count, _ in m['blocks']:
            a = m['base_addr'] + off
            want = b''.join(m['regs'][a + k] for k in range(count))
            try:
                got = mm.read(a, count)
            except Exception as e:
                return 'reading %d registers at %d raised %s: %s' % (count, a, type(e).__name__, e)
            if got != want:
                k = next((k for k in range(count) if got[2 * k:2 * k + 2] != want[2 * k:2 * k + 2]), 0)
                return 'register %d holds %s instead of %s' % (a + k, got[2 * k:2 * k + 2].hex(), want[2 * k:2 * k + 2].hex())
        return None

    def do_mnew(self, op, r):
        kw = dict((k, op[k]) for k in ('ns', 'lid', 'mapid', 'time', 'func', 'base_addr') if k in op)
        mm = self.mbmap.ModbusMap(1, **kw)
        m = {'base_addr': op.get('base_addr', 40000), 'func': 4 if op.get('func') == 'input' else 3, 'blocks': [], 'regs': {}}
        for k in ('ns', 'lid', 'mapid', 'time'):
            m[k] = op.get(k)
        self.maps[op['id']] = (mm, m)

    def do_madd(self, op, r):
        obj, m = self.the_map(op)
        mm = self.raw(obj)
        kw = dict((k, op[k]) for k in ('addr', 'offset', 'count', 'access') if k in op)
        off = op['offset'] if 'offset' in op else op['addr'] - m['base_addr']
        n = op.get('count', 1)
        end = m['blocks'][-1][0] + m['blocks'][-1][1] if m['blocks'] else 0
        ok = off >= end and off >= 0
        try:
            mm.regs_add(**kw)
        except Exception as e:
            if ok or type(e).__name__ != 'ModbusMapError':
                self.say(r, 'add', 'adding %s raised %s: %s' % (kw, type(e).__name__, e))
            return
        if not ok:
            self.say(r, 'add', 'adding %s behind the map succeeded although it overlaps' % kw)
            del self.maps[op['id']]
            return
        if m['blocks'] and off == end:
            o, c, acc = m['blocks'][-1]
            m['blocks'][-1] = (o, c + n, acc)
        else:
            m['blocks'].append((off, n, op.get('access', 'rw')))
        for k in range(n):
            m['regs'][m['base_addr'] + off + k] = b'\0\0'

    def do_mtwin(self, op, r):
        """Another map with the same contents, but for one thing."""
        _, m = self.the_map(op)
        if not m['blocks']:
            raise Skip()
        t = dict(m, regs={}, blocks=list(m['blocks']))
        d, k = op['diff'], int(op['k'] * len(m['blocks']))
        data = [b''.join(m['regs'][m['base_addr'] + o + j] for j in range(n)) for o, n, _ in m['blocks']]
        o, n, acc = t['blocks'][k]
        flip = {'first': 0, 'last': -1, 'data': int(op['k'] * 7919) % len(data[k])}.get(d)
        if flip is not None:
            x = bytearray(data[k])
            x[flip] ^= 1
            data[k] = bytes(x)
        elif d == 'access':
            t['blocks'][k] = (o, n, 'r' if acc == 'rw' else 'rw')
        elif d == 'offset':
            o, n, acc = t['blocks'][-1]
            t['blocks'][-1] = (o + 1, n, acc)
        elif d == 'base':
            t['base_addr'] += 1
        elif d == 'func':
            t['func'] = 7 - t['func']
        elif d == 'extra':
            o, n, acc = t['blocks'][-1]
            t['blocks'].append((o + n + 1, 1, acc))
            data.append(b'\0\0')
        elif d == 'fewer':
            t['blocks'].pop()
        t['ns'] = t['lid'] = t['mapid'] = t['time'] = None
        mm = self.mbmap.ModbusMap(1, func={3: 'holding', 4: 'input'}[t['func']], base_addr=t['base_addr'])
        for (o, n, acc), x in zip(t['blocks'], data):
            mm.regs_add(offset=o, count=n, access=acc)
            mm.write(t['base_addr'] + o, x)
            for j in range(n):
                t['regs'][t['base_addr'] + o + j] = x[2 * j:2 * j + 2]
        self.maps[op['new']] = (mm, t)
        self.w.probes['map_twins'] += 1

    def do_mwrite(self, op, r):
        obj, m = self.the_map(op)
        data = bytes.fromhex(op['data'])
        n = len(data) // 2
        ok = len(data) % 2 == 0 and all(op['addr'] + k in m['regs'] for k in range(n))
        try:
            obj.write(op['addr'], data)
        except Exception as e:
            if ok:
                self.say(r, 'write', 'writing %d registers at %d raised %s: %s' % (n, op['addr'], type(e).__name__, e))
            elif type(e).__name__ not in ('ModbusMapError', 'ModbusClientError'):
                self.say(r, 'error_class', 'writing %d bytes at %d raised %s: %s' % (len(data), op['addr'], type(e).__name__, e))
            self.w.probes['map_writes_refused'] += 1
            return
        if not ok:
            self.say(r, 'write', 'writing %d bytes at %d, outside the map, returned' % (len(data), op['addr']))
            del self.maps[op['id']]
            return
        for k in range(n):
            m['regs'][op['addr'] + k] = data[2 * k:2 * k + 2]
        self.w.probes['map_writes'] += 1

    def do_mread(self, op, r):
        obj, m = self.the_map(op)
        ok = all(op['addr'] + k in m['regs'] for k in range(op['count']))
        try:
            got = obj.read(op['addr'], op['count'])
        except Exception as e:
            if ok:
                self.say(r, 'read', 'reading %d registers at %d raised %s: %s' % (op['count'], op['addr'], type(e).__name__, e))
            elif type(e).__name__ not in ('ModbusMapError', 'ModbusClientError'):
                self.say(r, 'error_class', 'reading %d registers at %d raised %s: %s' % (op['count'], op['addr'], type(e).__name__, e))
            return
        if not ok or got != b''.join(m['regs'][op['addr'] + k] for k in range(op['count'])):
            self.say(r, 'read', 'reading %d registers at %d gives %s' % (op['count'], op['addr'], got[:20].hex()))

    def do_msave(self, op, r):
        obj, m = self.the_map(op)
        mm = self.raw(obj)
        try:
            if op.get('parent'):
                root = ET.Element('maps')
                mm.to_xml(parent=root, no_data=op['no_data'])
                x = root.find('mbmap')
            else:
                x = mm.to_xml(no_data=op['no_data'])
            text = ET.tostring(x).decode('ascii')
        except Exception as e:
            self.say(r, 'save_failed', 'saving the map raised %s: %s' % (type(e).__name__, e))
            return
        c = dict(m, regs=dict(m['regs']), blocks=list(m['blocks']))
        if op['no_data']:
            c['regs'] = dict((a, b'\0\0') for a in c['regs'])
        # in a document everything is text
        for k in ('ns', 'lid', 'mapid', 'time'):
            c[k] = None if c[k] is None else str(c[k])
        self.w.probes['maps_saved'] += 1
        self.store(op, r, 'map', text, map=c)

    def contents(self, d):
        """Contents of a map document: of one saved here, or as the plan says."""
        if isinstance(d['map'].get('regs'), dict):
            m = d['map']
            return dict(m, regs=dict(m['regs']), blocks=list(m['blocks']))
        m = dict(d['map'], regs={}, blocks=[tuple(b) for b in d['map']['blocks']])
        for off, hx in d['map']['regs']:
            for k in range(len(hx) // 4):
                m['regs'][m['base_addr'] + off + k] = bytes.fromhex(hx[4 * k:4 * k + 4])
        return m

    def do_mload(self, op, r):
        d = self.doc(op, op.get('format', 'map'))
        op = self.decoy(op, d, '<mbmap addr="7"/>')
        name, pathlist = self.source(op, r)
        what = 'loading map %s' % op['doc']
        errors = ('ModbusMapError',)
        try:
            if op['how'] == 'element':
                try:
                    with open(name) as f:
                        e = ET.fromstring(f.read())
                except (OSError, ET.ParseError, ValueError):
                    raise Skip()
                obj = self.mbmap.ModbusMap(1)
                obj.from_xml(element=e)
            elif op.get('as') == 'device':
                errors = ('ModbusClientError',)
                obj = self.mbc.ModbusClientDeviceMapped(1, name, pathlist)
            elif op.get('format') == 'hex':
                obj = self.mbmap.ModbusMap(1)
                obj.from_hex(os.path.join(self.env.scratch, 'docs', op['doc']))
            else:
                obj = self.mbmap.ModbusMap(1)
                obj.from_xml(name, pathlist)
        except Skip:
            raise
        except Exception as e:
            self.failed(op, r, d, e, errors, what)
            self.w.probes['damaged_documents_refused'] += 0 if d['good'] else 1
            return
        finally:
            self.env.remove('alt/' + op['doc'])
        r.extra['load'] = 'ok'
        if not d['good']:
            self.say(r, 'damaged_accepted', '%s succeeded, it is damaged' % what)
            return
        m = self.contents(d)
        bad = self.differs(self.raw(obj), m)
        self.w.probes['maps_loaded'] += 1
        if bad:
            self.say(r, 'map', '%s: %s' % (what, bad))
            return
        self.maps[op['id']] = (obj, m)

    def do_mcompare(self, op, r):
        if op['a'] not in self.maps or op['b'] not in self.maps:
            raise Skip()
        (a, x), (b, y) = self.maps[op['a']], self.maps[op['b']]
        try:
            ne = self.raw(a).not_equal(self.raw(b))
        except Exception as e:
            self.say(r, 'compare', 'comparing maps raised %s: %s' % (type(e).__name__, e))
            return
        same = all(x[k] == y[k] for k in ('base_addr', 'func', 'blocks', 'regs'))
        self.w.probes['maps_compared'] += 1
        if same and ne:
            self.say(r, 'compare', 'equal maps compare as: %s' % ne)
        if not same and not ne:
            self.say(r, 'compare', 'different maps compare as equal')

    # ---- end -----------------------------------------------------------------------------------

    def check(self, prop):
        return self.viol


def judge(plan, prop, scratch):
    run = W23(plan, scratch).execute()
    for r in run.results:
        if r.status == 'fatal' and not any(v.opi == r.i for v in run.viol):
            run.viol.append(Violation(prop, 'hang', '%s: %s' % (r.op['op'], r.text), r.i))
        elif r.status == 'err' and r.op['op'] in OWN and not r.is_a('Skip') and not r.harm and not any(v.opi == r.i for v in run.viol):
            run.viol.append(Violation(prop, 'raised', '%s %s' % (r.op['op'], r.show()), r.i))
    return run.viol, [run]
