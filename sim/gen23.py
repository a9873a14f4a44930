"""Plan generator for documents that outlive the process (C23, C24)."""
import re
from xml.sax.saxutils import escape

from .gen25 import ENCODINGS
from . import gen1, gen2, ref

PICS_DAMAGE = ('cut', 'cut', 'cut', 'empty', 'garbage', 'json', 'lt', 'root', 'nodevice', 'modeltag', 'modelid', 'modelnum', 'modellen', 'baseaddr',
               'blocktag', 'blocktype', 'blockindex', 'blockindex', 'pointtag', 'pointtag', 'remove')
MAP_DAMAGE = ('cut', 'cut', 'cut', 'empty', 'garbage', 'json', 'lt', 'func', 'addr', 'offset', 'overlap', 'short', 'digit', 'odd', 'regtype', 'remove')
ODD = (' x', 'x ', ' a  b ', 'a&b', '<tag/>', '"q"', "it's", 'caf\u00e9', '\u00ff\u00a0z', ']]>', '0x1F', '-1', 'None', 'nan')


class Gen(gen2.Gen):

    def gen_defs(self):
        gen2.Gen.gen_defs(self)
        self.docs = {}             # name -> (kind, device name whose models it lists)
        self.pids = []             # [id, device name]
        self.nd = 0
        self.cfg['docs'] = {}

    def value_for(self, q, inv=False):
        v = gen2.Gen.value_for(self, q, inv)
        if q.type == 'string' and not inv and self.rng.random() < 0.4:
            s = self.rng.choice(ODD)
            if len(s) <= 2 * q.len:
                v = {'v': s}
        return v

    def doc_name(self, new=0.7):
        rng = self.rng
        if self.docs and rng.random() > new:
            return rng.choice(sorted(self.docs))
        self.nd += 1
        return 'doc%d.xml' % self.nd

    # ---- documents of others ---------------------------------------------------------------

    def text_of(self, q, raw):
        rng = self.rng
        if q.type in ref.INTS or q.type == 'sunssf':
            v = int.from_bytes(raw, 'big')
            if q.type in ref.SIGNED:
                if v >> (8 * len(raw) - 1):
                    v -= 1 << 8 * len(raw)
                return str(v)
            return str(v) if rng.random() < 0.7 else hex(v)
        v = ref.decode(q.type, raw)
        if v is None:
            return None
        if q.type == 'float32':
            return repr(v)
        return v

    def foreign(self):
        """A PICS document as another tool writes it."""
        rng, cfg = self.rng, self.cfg
        name = self.doc_name(1)
        dev = 'pics:' + name
        models = []
        expect = []
        out = []
        for _ in range(rng.choice((1, 1, 2, 4))):
            m = self.instance()
            d = self.defs.get(m['id'])
            m['addr'] = 0
            models.append(m)
            attr = 'id="%d" len="%d"' % (m['id'], m['len'])
            blocks, err = ref.expand(d, m['len'], 0) if d is not None else ([], 'unknown')
            if err is None and rng.random() < 0.15 and d['len'] > 0 and ref.expand(d, d['len'], 0)[1] is None:
                # the length of the definition
                m['len'] = d['len']
                blocks = ref.expand(d, m['len'], 0)[0]
                attr = 'id="%d"' % m['id'] if rng.random() < 0.6 else 'id="%d" len="0"' % m['id']
            index = 1
            if rng.random() < 0.2:
                index = rng.choice((1, 2))
                attr += ' index="%d"' % index
            out.append('  <model %s>' % attr)
            if err is not None:
                expect.append({'id': m['id'], 'index': index, 'len': m['len'], 'blocks': None})
                if rng.random() < 0.5:
                    out.append('   <block><point id="F0">1</point></block>')
                out.append('  </model>')
                continue
            state = [{} for _ in blocks]
            todo = [(b, [b]) for b in blocks[:1]]
            if len(blocks) > 1:
                if rng.random() < 0.5:
                    todo.append((blocks[1], blocks[1:]))       # one block for all
                for b in blocks[1:]:
                    if rng.random() < 0.6:
                        todo.append((b, [b]))
            r = rng.random()
            if r < 0.15:
                todo = todo[1:] + todo[:1]             # the fixed block last
            elif r < 0.25:
                todo.append(todo[0])                   # or in two parts
            elif r < 0.3:
                todo.pop(0)
            for b, targets in todo:
                attr = ''
                if b.index > 0:
                    attr = ' type="repeating"'
                    if targets == [b] and not (len(targets) == 1 == len(blocks) - 1 and rng.random() < 0.4):
                        attr += ' index="%d"' % b.index
                elif rng.random() < 0.3:
                    attr = ' type="fixed"'
                lines = []
                for q in b.all.values():
                    r = rng.random()
                    if r < 0.15:
                        continue
                    raw = gen2.gen_raw(rng, q.type, q.len, True)
                    t = self.text_of(q, raw)
                    base = ref.decode(q.type, raw)
                    acc = ' access="%s"' % rng.choice(('r', 'rw')) if rng.random() < 0.3 else ''
                    if r < 0.3:
                        lines.append('<point id="%s"%s impl="false"/>' % (q.id, acc))
                        base = None
                        impl = False
                    elif t is None:
                        lines.append('<point id="%s"%s impl="true"/>' % (q.id, acc))
                        impl = True
                    else:
                        lines.append('<point id="%s"%s%s>%s</point>' % (q.id, acc, ' impl="true"' if rng.random() < 0.2 else '', escape(t)))
                        impl = base is not None
                    for x in targets:
                        if impl and base is None and q.id in state[x.index]:
                            # implemented, no value given: the value it has stays
                            state[x.index][q.id] = (state[x.index][q.id][0], True)
                        else:
                            state[x.index][q.id] = (base, impl)
                if rng.random() < 0.1:
                    lines.append('<point id="nosuch">5</point>')
                if rng.random() < 0.3:
                    rng.shuffle(lines)
                out.append('   <block%s>%s</block>' % (attr, ('\n    ' if rng.random() < 0.5 else '').join([''] + lines)))
            out.append('  </model>')
            expect.append({'id': m['id'], 'index': index, 'len': m['len'], 'blocks': state})
        attr = rng.choice(('', ' v="1"'))
        base = 40000
        if rng.random() < 0.35:
            base = rng.choice((40000, 0, 50000))
            attr += ' addr="%d"' % base
        head = '<?xml version="1.0"?>\n' if rng.random() < 0.3 else ''
        text = '%s<sunSpecPics%s>\n <device%s>\n%s\n </device>\n</sunSpecPics>\n' % (
            head, ' v="1" date="2014-01-01"' if rng.random() < 0.3 else '', attr, '\n'.join(out))
        cfg['docs'][name] = {'kind': 'pics', 'text': text, 'expect': expect, 'base': base}
        if rng.random() < 0.3:
            cfg['docs'][name]['enc'] = rng.choice(ENCODINGS)
        elif rng.random() < 0.7:
            cfg['docs'][name]['text'] = text.encode('ascii', 'xmlcharrefreplace').decode()
        cfg['sun'][dev] = {'base': 40000, 'models': models}
        self.docs[name] = ('pics', dev)
        return name

    # ---- devices -----------------------------------------------------------------------------

    def how(self, kinds):
        return self.rng.choice(kinds)

    def load(self, name):
        rng = self.rng
        kind, dev = self.docs[name]
        pid = 'p%d' % len(self.pids)
        op = {'op': 'pload', 'pid': pid, 'doc': name, 'how': rng.choice(('file', 'file', 'path', 'path', 'device', 'element', 'fall'))}
        if rng.random() < 0.4:
            op['decoy'] = True
        if rng.random() < self.p * 0.4:
            op['o'] = {'0': {'kind': rng.choice(('eacces', 'emfile', 'eio', 'open_eio'))}}
        self.ops.append(op)
        self.pids.append([pid, dev])
        return pid

    def points_of(self, dev):
        return self.known_models({'dev': dev})

    def step23(self):
        rng = self.rng
        r = rng.random()
        if r < 0.28:
            src = [('id', o['id'], o['dev']) for o in self.objs] + [('pid', p, d) for p, d in self.pids[-2:]]
            if not src:
                return
            k, i, dev = rng.choice(src)
            name = self.doc_name()
            op = {'op': 'psave', k: i, 'doc': name, 'single': rng.random() < 0.3}
            if rng.random() < 0.2:
                op['enc'] = rng.choice(ENCODINGS)
            if rng.random() < 0.3:
                op['pretty'] = True
            if rng.random() < 0.12:
                op['cut'] = rng.choice((0.0, 0.5, 0.99, rng.random()))
            self.ops.append(op)
            self.docs[name] = ('pics', dev)
            if 'cut' in op:
                self.restarted()
            elif rng.random() < 0.6:
                pid = self.load(name)
                if rng.random() < 0.5 and not op['single']:
                    self.ops.append({'op': 'pcompare', 'a': i, 'b': pid})
        elif r < 0.5:
            if self.docs:
                self.load(rng.choice(sorted(self.docs)))
        elif r < 0.6:
            if self.docs:
                self.ops.append({'op': 'damage', 'doc': rng.choice(sorted(self.docs)), 'kind': rng.choice(PICS_DAMAGE), 'k': int(rng.random() * 1000) / 1000})
                self.load(self.ops[-1]['doc'])
        elif r < 0.72:
            self.ops.append({'op': 'restart'})
            self.restarted()
        elif r < 0.88:
            if self.pids:
                pid, dev = rng.choice(self.pids[-3:])
                kms = self.points_of(dev)
                if kms:
                    for _ in range(rng.choice((1, 3))):
                        i, m, blocks = rng.choice(kms)
                        b = rng.choice(blocks)
                        if b.points:
                            p = rng.choice(sorted(b.points))
                            op = {'op': 'pset', 'pid': pid, 'm': i, 'b': b.index, 'p': p, 't': [b.points[p].type, b.points[p].len]}
                            op.update(self.value_for(b.points[p]))
                            self.ops.append(op)
        else:
            ids = [o['id'] for o in self.objs] + [p for p, _ in self.pids[-4:]]
            if len(ids) > 1:
                a, b = rng.sample(ids, 2)
                self.ops.append({'op': 'pcompare', 'a': a, 'b': b})

    def restarted(self):
        rng = self.rng
        self.pids = []
        n = len(self.objs)
        self.objs = []
        if n and rng.random() < 0.6 or not self.docs:
            self.open()
            self.ops.append({'op': 'dread', 'id': self.objs[-1]['id']})
        if self.docs and rng.random() < 0.8:
            self.load(rng.choice(sorted(self.docs)))

    def plan23(self):
        rng = self.rng
        self.gen_defs()
        self.topology()
        for _ in range(rng.choice((0, 0, 1, 2))):
            self.foreign()
        for _ in range(rng.choice((1, 1, 1, 2)) if self.docs else 1):
            self.open()
            if rng.random() < 0.85:
                self.ops.append({'op': 'dread', 'id': self.objs[-1]['id']})
        for _ in range(rng.randint(4, 14)):
            if rng.random() < 0.35 and self.objs:
                self.one()
            else:
                self.step23()
        if self.docs:
            self.ops.append({'op': 'restart'})
            self.pids = []
            for name in sorted(self.docs):
                self.load(name)
        return {'workload': 'w23', 'cfg': self.cfg, 'ops': self.ops}

    # ---- maps -----------------------------------------------------------------------------------

    def addr_in(self, m):
        rng = self.rng
        if m['blocks'] and rng.random() < 0.85:
            off, n = rng.choice(m['blocks'])
            return m['base'] + off + rng.randrange(n), n
        return rng.choice((0, m['base'], m['base'] + rng.randrange(200), 65535)), 5

    def grow(self, mid, m):
        rng = self.rng
        end = m['blocks'][-1][0] + m['blocks'][-1][1] if m['blocks'] else 0
        off = end + rng.choice((0, 0, 1, 10, 100))
        if rng.random() < 0.12:
            off = rng.choice((end - 1, 0, end // 2))
        n = rng.choice((1, 1, 2, 10, 125, 300))
        op = {'op': 'madd', 'id': mid}
        if off < 0 or rng.random() < 0.5:
            op['addr'] = m['base'] + off
        else:
            op['offset'] = off
        if n != 1 or rng.random() < 0.5:
            op['count'] = n
        if rng.random() < 0.5:
            op['access'] = rng.choice(('r', 'rw'))
        self.ops.append(op)
        if off >= end and off >= 0:
            if m['blocks'] and off == end:
                m['blocks'][-1][1] += n
            else:
                m['blocks'].append([off, n])

    def new_map(self):
        rng = self.rng
        mid = 'm%d' % self.nid
        self.nid += 1
        op = {'op': 'mnew', 'id': mid}
        m = {'base': 40000, 'blocks': []}
        if rng.random() < 0.6:
            op['base_addr'] = m['base'] = rng.choice((0, 40000, 50000, 1, 999))
        if rng.random() < 0.5:
            op['func'] = rng.choice(('input', 'holding'))
        for k, v in (('ns', 'plant'), ('lid', 'A&B'), ('mapid', 12345), ('time', 1400000000)):
            if rng.random() < 0.2:
                op[k] = v
        self.ops.append(op)
        self.maps[mid] = m
        for _ in range(rng.randint(0, 5)):
            self.grow(mid, m)
        return mid

    def foreign_map(self):
        rng = self.rng
        name = self.doc_name(1)
        spec, text = gen1.gen_map(rng, self.nd)
        blocks, regs = [], []
        acc = re.findall('<regs ([^>]*)>', text)
        # access of a range is that of its first element
        blocks = self.merge(spec['regs'], acc)
        extra = {}
        for k, v in (('ns', 'plant'), ('lid', 'x'), ('mapid', '7'), ('time', '1.5')):
            if rng.random() < 0.2:
                extra[k] = v
                text = text.replace('<mbmap', '<mbmap %s="%s"' % (k, v), 1)
        regs = spec['regs']
        m = {'base_addr': spec['base'], 'func': spec['func'], 'regs': regs, 'blocks': blocks}
        for k in ('ns', 'lid', 'mapid', 'time'):
            m[k] = extra.get(k)
        self.cfg['docs'][name] = {'kind': 'map', 'text': text, 'map': m}
        if rng.random() < 0.25:
            self.cfg['docs'][name]['enc'] = rng.choice(ENCODINGS)
        self.docs[name] = ('map', {'base': spec['base'], 'blocks': [[b[0], b[1]] for b in blocks]})

    def merge(self, regs, attrs):
        """Blocks of a map document: (offset, count, access of the first element)."""
        out = []
        for off, hx in regs:
            n = len(hx) // 4
            if out and out[-1][0] + out[-1][1] == off:
                out[-1][1] += n
            else:
                out.append([off, n, None])
        pos = None
        for b in out:
            for a in attrs:
                x = re.search('offset="(\\d+)"', a)
                if x and int(x.group(1)) == b[0]:
                    b[2] = 'rw' if 'access="rw"' in a else 'r'
                    break
            else:
                # the first element of the document may do without an offset
                a = attrs[0]
                b[2] = 'rw' if 'access="rw"' in a else 'r'
        return out

    def foreign_hex(self):
        rng = self.rng
        name = 'dump%d.txt' % self.nd
        self.nd += 1
        n = rng.choice((1, 2, 20, 125))
        data = bytes(rng.randrange(256) for _ in range(2 * n))
        lines = ['# dump'] if rng.random() < 0.5 else []
        i = 0
        while i < len(data):
            k = rng.choice((1, 2, 8, 16))
            lines.append(' '.join(rng.choice(('%02x', '%02X', '%x', '0x%02x')) % b for b in data[i:i + k]))
            i += k
            if rng.random() < 0.1:
                lines.append(rng.choice(('', '# comment', '  ')))
        m = {'base_addr': 40000, 'func': 3, 'regs': [[0, data.hex()]], 'blocks': [[0, n, 'rw']], 'ns': None, 'lid': None, 'mapid': None, 'time': None}
        text = rng.choice(('\n', '\r\n')).join(lines) + rng.choice(('', '\n'))
        self.cfg['docs'][name] = {'kind': 'hex', 'text': text, 'map': m}
        self.docs[name] = ('hex', {'base': 40000, 'blocks': [[0, n]]})

    def load_map(self, name):
        rng = self.rng
        kind, m = self.docs[name]
        mid = 'm%d' % self.nid
        self.nid += 1
        op = {'op': 'mload', 'id': mid, 'doc': name, 'how': rng.choice(('file', 'file', 'path', 'element'))}
        if kind == 'hex':
            op['format'] = 'hex'
            op['how'] = 'file'
        elif rng.random() < 0.5 and op['how'] != 'element':
            op['as'] = 'device'
        if rng.random() < 0.1:
            op['o'] = {'0': {'kind': rng.choice(('eacces', 'emfile', 'eio', 'open_eio', 'enoent'))}}
        elif op['how'] == 'path' and rng.random() < 0.4:
            op['decoy'] = True
        self.ops.append(op)
        self.maps[mid] = {'base': m['base'], 'blocks': [list(b) for b in m['blocks']]}
        return mid

    def step24(self):
        rng = self.rng
        r = rng.random()
        mids = sorted(self.maps)[-4:]
        if r < 0.12 or not mids:
            if rng.random() < 0.5 or not self.docs:
                self.new_map()
            else:
                self.load_map(rng.choice(sorted(self.docs)))
            return
        mid = rng.choice(mids)
        m = self.maps[mid]
        if r < 0.2:
            self.grow(mid, m)
        elif r < 0.45:
            for _ in range(rng.choice((1, 2, 4))):
                a, n = self.addr_in(m)
                k = rng.choice((1, 1, 2, min(n, 20), n, n + 1, n + 12))
                data = ''.join('%04x' % rng.randrange(0x10000) for _ in range(k))
                if rng.random() < 0.06:
                    data = data[:-2]
                self.ops.append({'op': 'mwrite', 'id': mid, 'addr': a, 'data': data})
        elif r < 0.52:
            a, n = self.addr_in(m)
            self.ops.append({'op': 'mread', 'id': mid, 'addr': a, 'count': rng.choice((1, 2, n, n + 1))})
        elif r < 0.72:
            name = self.doc_name()
            if name in self.docs and self.docs[name][0] == 'hex':
                return
            op = {'op': 'msave', 'id': mid, 'doc': name, 'no_data': rng.random() < 0.12}
            if rng.random() < 0.2:
                op['enc'] = rng.choice(ENCODINGS)
            if rng.random() < 0.2:
                op['parent'] = True
            if rng.random() < 0.12:
                op['cut'] = rng.choice((0.0, 0.5, 0.99, rng.random()))
            self.ops.append(op)
            self.docs[name] = ('map', {'base': m['base'], 'blocks': [list(b) for b in m['blocks']]})
            if 'cut' in op:
                self.maps = {}
            if rng.random() < 0.5:
                new = self.load_map(name)
                if 'cut' not in op and rng.random() < 0.5:
                    self.ops.append({'op': 'mcompare', 'a': mid, 'b': new})
        elif r < 0.82:
            if self.docs:
                self.load_map(rng.choice(sorted(self.docs)))
        elif r < 0.85:
            new = 'm%d' % self.nid
            self.nid += 1
            op = {'op': 'mtwin', 'id': mid, 'new': new, 'diff': rng.choice(('none', 'none', 'access', 'access', 'data', 'data', 'first', 'last', 'last',
                                                                            'offset', 'base', 'func', 'extra', 'fewer')), 'k': int(rng.random() * 1000) / 1000}
            self.ops.append(op)
            self.maps[new] = {'base': m['base'], 'blocks': [list(b) for b in m['blocks']]}
            self.ops.append({'op': 'mcompare', 'a': mid, 'b': new})
            self.ops.append({'op': 'mcompare', 'a': new, 'b': mid})
        elif r < 0.89:
            if self.docs:
                name = rng.choice(sorted(self.docs))
                kind = rng.choice(MAP_DAMAGE) if self.docs[name][0] == 'map' else rng.choice(('empty', 'garbage', 'json', 'remove'))
                self.ops.append({'op': 'damage', 'doc': name, 'kind': kind, 'k': int(rng.random() * 1000) / 1000})
                self.load_map(name)
        elif r < 0.95:
            self.ops.append({'op': 'restart'})
            self.maps = {}
            if self.docs:
                self.load_map(rng.choice(sorted(self.docs)))
        elif len(mids) > 1:
            a, b = rng.sample(mids, 2)
            self.ops.append({'op': 'mcompare', 'a': a, 'b': b})

    def plan24(self):
        rng = self.rng
        self.cfg.update({'docs': {}, 'files': {}})
        self.docs = {}
        self.maps = {}
        self.nd = 0
        for _ in range(rng.choice((0, 1, 1, 2))):
            self.foreign_map()
        if rng.random() < 0.25:
            self.foreign_hex()
        for _ in range(rng.randint(5, 22)):
            self.step24()
        if self.docs:
            self.ops.append({'op': 'restart'})
            for name in sorted(self.docs):
                self.load_map(name)
        return {'workload': 'w23', 'cfg': self.cfg, 'ops': self.ops}


def gen(rng, prop):
    g = Gen(rng, prop)
    return g.plan24() if prop == 'C24' else g.plan23()
