"""Plan generator for definition and map files (C16)."""
import copy

from . import gen2, ref
from .gen1 import bad_map

DIRS = ('models', 'more', 'lib/defs')
ZIPS = ('pack.zip', 'pack.zip/smdx', 'lib/other.zip/a/b', 'lib/third.zip')
NOWHERE = ('nodir', 'nozip.zip', 'nozip.zip/smdx')

FAULTS = ('eacces', 'emfile', 'enoent', 'eio')


def variant(rng, d):
    """Another definition of the same model, with the same registers."""
    v = copy.deepcopy(d)
    if rng.random() < 0.5:
        v['name'] = 'v%d' % d['id']
    v['label'] = 'Variant'
    n = 0
    for b in (v['fixed'], v.get('rep')):
        if not b:
            continue
        for p in b['points']:
            if p['type'] in ('sunssf', 'pad'):
                continue
            r = rng.random()
            if r < 0.6 or n == 0:
                p['id'] = 'v' + p['id']
                n += 1
            if p['type'] == 'uint16' and r < 0.3:
                p['type'] = 'int16'
            if r > 0.8:
                p.pop('sf', None)
        if len(b['points']) > 2 and rng.random() < 0.4:
            k = rng.randrange(len(b['points']))
            if b['points'][k]['type'] != 'sunssf':
                del b['points'][k]
    return v


BAD = ('truncated', 'garbage', 'binary', 'empty', 'nomodel', 'otherid', 'type', 'nooffset', 'noblocklen', 'blocktype', 'duppoint', 'dupblock',
       'nostringlen', 'outside', 'sf', 'nolen', 'root', 'fixedlen', 'repnolen', 'badid', 'mandatory', 'access', 'latepoint', 'noid', 'notype', 'duprep')


def spoil(rng, d, kind):
    """Contents of a definition file that cannot be used (None: not with this definition)."""
    text = ref.to_xml(d)
    pts = [p for b in (d['fixed'], d.get('rep')) if b for p in b['points'] if p['type'] != 'pad']
    if kind == 'truncated':
        return text[:rng.randrange(1, len(text) - 20)]
    if kind == 'garbage':
        return rng.choice(('this is not XML', '<', '<a><b></a>', '\n\n\n', '<?xml version="1.0"?>'))
    if kind == 'binary':
        return {'hex': rng.choice(('fffe00013c', '00' * 40, '504b0304'))}
    if kind == 'empty':
        return ''
    if kind == 'nomodel':
        return '<sunSpecModels v="1">\n</sunSpecModels>\n'
    if kind == 'root':
        return '<html><body>404 Not Found</body></html>'
    if kind == 'otherid':
        e = copy.deepcopy(d)
        e['id'] = d['id'] + rng.choice((7, 1000, -1, -7) if d['id'] > 7 else (7, 1000))
        return ref.to_xml(e)
    if kind == 'badid':
        return text.replace('<model id="%d"' % d['id'], '<model id="x"', 1)
    if kind == 'nolen':
        return text.replace('<model id="%d" len="%d"' % (d['id'], d['len']), '<model id="%d"' % d['id'], 1)
    if kind == 'noblocklen':
        if d.get('nofixed'):
            return None
        return text.replace('<block len="%d"' % d['fixed']['len'], '<block', 1).replace('<block type="fixed" len="%d"' % d['fixed']['len'], '<block type="fixed"', 1)
    if kind == 'repnolen':
        if not d.get('rep'):
            return None
        k = rng.choice(('', ' len="0"'))
        return text.replace('<block type="repeating" len="%d"' % d['rep']['len'], '<block type="repeating"%s' % k, 1)
    if kind == 'blocktype':
        return text.replace('<block', '<block type="odd"', 1) if '<block len' in text else None
    if kind == 'dupblock':
        if d.get('nofixed'):
            return None
        i = text.index('<block')
        j = text.index('</block>', i) + 8
        return text[:j] + text[i:j] + text[j:]
    if kind == 'duprep':
        if not d.get('rep'):
            return None
        i = text.rindex('<block type="repeating"')
        j = text.index('</block>', i) + 8
        return text[:j] + text[i:j] + text[j:]
    if not pts:
        return None
    p = rng.choice(pts)
    tag = '<point id="%s" offset="%d"' % (p['id'], p['off'])
    if kind == 'type':
        return text.replace('%s type="%s"' % (tag, p['type']), '%s type="uint17"' % tag, 1)
    if kind == 'noid':
        return text.replace(tag, '<point offset="%d"' % p['off'], 1)
    if kind == 'notype':
        return text.replace('%s type="%s"' % (tag, p['type']), tag, 1)
    if kind == 'nooffset':
        return text.replace(tag, '<point id="%s"' % p['id'], 1)
    if kind == 'duppoint':
        i = text.index(tag)
        return text[:i] + '<point id="%s" offset="%d" type="uint16" />' % (p['id'], p['off']) + text[i:]
    if kind == 'nostringlen':
        return text.replace(tag, '<point id="zzz" offset="%d" type="string" />%s' % (p['off'], tag), 1)
    if kind == 'fixedlen':
        return text.replace(tag, '<point id="zzz" offset="%d" type="uint32" len="3" />%s' % (p['off'], tag), 1)
    if kind == 'outside':
        return text.replace(tag, '<point id="%s" offset="60000"' % p['id'], 1)
    if kind == 'latepoint':
        return text.replace(tag, '<point id="zzz" offset="59999" type="uint16" />%s' % tag, 1)
    if kind == 'mandatory':
        return text.replace(tag, tag + ' mandatory="maybe"', 1) if 'mandatory="true"' not in text else None
    if kind == 'access':
        return text.replace(tag, tag + ' access="x"', 1) if not p.get('access') else None
    if kind == 'sf':
        q = rng.choice(pts)
        if q['type'] not in ref.SCALED or q.get('sf') is not None:
            return None
        return text.replace('<point id="%s" offset="%d" type="%s"' % (q['id'], q['off'], q['type']),
                            '<point id="%s" offset="%d" type="%s" sf="Nowhere_SF"' % (q['id'], q['off'], q['type']), 1), q['id']
    raise ValueError(kind)


class Gen(gen2.Gen):
    workload = 'w16'

    def gen_defs(self):
        rng, cfg = self.rng, self.cfg
        gen2.Gen.gen_defs(self)
        self.enrich()
        cfg['files'] = {}
        cfg['contents'] = {}
        cfg['fs'] = {}
        self.variants = {}
        for mid, d in sorted(self.defs.items()):
            self.variants[mid] = [d]
            if rng.random() < 0.6 and mid != 1:
                v = variant(rng, d)
                if v != d:
                    self.variants[mid].append(v)
        path = rng.sample(DIRS, rng.choice((0, 1, 1, 2))) + rng.sample(ZIPS, rng.choice((0, 0, 1, 1, 2))) + \
            rng.sample(NOWHERE, rng.choice((0, 0, 1)))
        rng.shuffle(path)
        cfg['path'] = path or rng.choice((None, []))
        self.spots = [p for p in path if p not in NOWHERE] + ['cwd', 'default']
        for mid in sorted(self.defs):
            spots = rng.sample(self.spots, min(len(self.spots), rng.choice((1, 1, 1, 2, 3))))
            for p in spots:
                self.put(cfg['fs'], p, mid, self.content(mid, 0.25 if rng.random() < 0.6 else 0.0))
        for rel in sorted(cfg['fs']):
            if isinstance(cfg['fs'][rel], dict) and rng.random() < 0.12:
                cfg['fs'][rel]['broken'] = rng.choice(('garbage', 'trunc', 'crc'))
        self.state = copy.deepcopy(cfg['fs'])

    def enrich(self):
        pass

    def content(self, mid, bad):
        """Key of contents for a definition file of the model."""
        rng = self.rng
        key = 'k%d' % len(self.cfg['contents'])
        d = rng.choice(self.variants[mid])
        if rng.random() < bad:
            kind = rng.choice(BAD)
            text = spoil(rng, d, kind)
            if text is not None:
                if isinstance(text, tuple):
                    self.cfg['contents'][key] = {'def': d, 'bad': kind, 'text': text[0], 'point': text[1]}
                else:
                    self.cfg['contents'][key] = {'def': d, 'bad': kind, 'text': text}
                return key
        self.cfg['contents'][key] = {'def': d, 'bad': None, 'text': self.encoded(d)}
        return key

    def encoded(self, d):
        return ref.to_xml(d)

    def locate(self, spot, mid):
        name = ref.file_name(mid)
        parts = spot.split('/')
        for k, e in enumerate(parts):
            if e.endswith('.zip'):
                return '/'.join(parts[:k + 1]), '/'.join(parts[k + 1:] + [name])
        return spot + '/' + name, None

    def put(self, fs, spot, mid, key):
        rel, member = self.locate(spot, mid)
        if member is None:
            fs[rel] = key
        else:
            fs.setdefault(rel, {'members': {}, 'broken': None})['members'][member] = key

    # ---- operations ---------------------------------------------------------------------------

    def change(self):
        """A definition file changes."""
        rng = self.rng
        mid = rng.choice(sorted(self.defs))
        r = rng.random()
        have = sorted(self.state)
        if r < 0.06 and self.cfg['path'] is not None:
            p = rng.choice(DIRS + ZIPS)
            if p not in self.cfg['path'] and p not in self.spots:
                self.spots.insert(len(self.spots) - 2, p)
                self.ops.append({'op': 'addpath', 'path': p})
                return
        if r < 0.2 and have:
            rel = rng.choice(have)
            self.ops.append({'op': 'filefault', 'path': rel, 'kind': rng.choice(FAULTS + (None,))})
            return
        if r < 0.3 and have:
            rel = rng.choice(have)
            del self.state[rel]
            self.ops.append({'op': 'deffile', 'path': rel, 'to': None})
            return
        if r < 0.4:
            zips = [x for x in have if isinstance(self.state[x], dict)]
            if zips:
                rel = rng.choice(zips)
                self.state[rel]['broken'] = rng.choice((None, 'garbage', 'trunc', 'crc'))
                self.ops.append({'op': 'deffile', 'path': rel, 'to': copy.deepcopy(self.state[rel])})
                return
        spot = rng.choice(self.spots)
        self.put(self.state, spot, mid, self.content(mid, 0.5))
        rel = self.locate(spot, mid)[0]
        self.ops.append({'op': 'deffile', 'path': rel, 'to': copy.deepcopy(self.state[rel])})

    def heal(self):
        """Every model has a good definition in the first place."""
        first = self.spots[0]
        rels = set()
        for rel in sorted(self.state):
            if isinstance(self.state[rel], dict) and self.state[rel]['broken']:
                self.state[rel]['broken'] = None
                rels.add(rel)
        for mid in sorted(self.defs):
            self.put(self.state, first, mid, self.content(mid, 0))
            rels.add(self.locate(first, mid)[0])
        for rel in sorted(rels):
            self.ops.append({'op': 'deffile', 'path': rel, 'to': copy.deepcopy(self.state[rel])})
        for rel in sorted(self.state):
            self.ops.append({'op': 'filefault', 'path': rel, 'kind': None})

    def badmap(self):
        """A map file breaks, is opened, and heals."""
        rng = self.rng
        maps = [f for k, f in self.places if k == 'map']
        if not maps:
            return
        f = rng.choice(maps)
        good = self.cfg['files']['maps/' + f]
        kind, text = bad_map(rng, good)
        path = 'maps/' + f
        self.ops.append({'op': 'file', 'path': path, 'text': text})
        for _ in range(rng.choice((1, 1, 2))):
            op = {'op': 'open', 'id': 'd%d' % self.nid, 'kind': 'map', 'via': rng.choice(('client', 'sunspec')), 'unit': 1, 'file': f,
                  'dev': 'map:' + f, 'badmap': kind}
            if rng.random() < 0.3:
                op['pathlist'] = True
            self.nid += 1
            self.ops.append(op)
        self.ops.append({'op': 'file', 'path': path, 'text': good})

    def decorate(self, op, o, nreq, write=False):
        rng = self.rng
        gen2.Gen.decorate(self, op, o, nreq, write)
        if op['op'] in ('open', 'scan') and rng.random() < 0.12:
            op['fresh'] = rng.sample(self.spots[:-2] + list(DIRS), rng.choice((0, 1, 1, 2)))
            op['fresh'] = [p for k, p in enumerate(op['fresh']) if p not in op['fresh'][:k]]
            if rng.random() < 0.3 and not any('.zip' in p for p in op['fresh']):
                op['as_path'] = True
        if op['op'] in ('open', 'scan') and rng.random() < 0.25 and o['kind'] != 'map':
            op['o'] = dict((str(rng.randrange(5)), {'kind': rng.choice(FAULTS)}) for _ in range(rng.choice((1, 1, 2))))
        elif op['op'] == 'scan' and rng.random() < 0.25 and not op.get('fresh'):
            op['o'] = {str(rng.randrange(5)): {'kind': rng.choice(FAULTS)}}

    def open(self):
        op = gen2.Gen.open(self)
        if op['kind'] == 'map' and self.rng.random() < 0.3:
            op['pathlist'] = True
        return op

    def plan(self):
        rng = self.rng
        self.gen_defs()
        self.topology()
        for _ in range(rng.choice((1, 1, 2))):
            self.open()
        for _ in range(rng.randint(2, 10)):
            r = rng.random()
            if r < 0.35:
                self.change()
                if rng.random() < 0.7:
                    o = rng.choice(self.objs)
                    if o['via'] == 'client' and rng.random() < 0.7:
                        self.scan(o)
                    elif len(self.objs) < 6:
                        self.open()
            elif r < 0.45:
                self.badmap()
            else:
                self.one()
        if rng.random() < 0.6:
            self.ops.append({'op': 'plug'})
            self.ops.append({'op': 'wait', 'dt': 40.0})
            for o in self.objs:
                self.ops.append({'op': 'dread', 'id': o['id']})
            self.heal()
            for o in self.objs:
                if o['via'] == 'client':
                    self.ops.append({'op': 'scan', 'id': o['id']})
                self.ops.append({'op': 'dread', 'id': o['id']})
        return {'workload': self.workload, 'cfg': self.cfg, 'ops': self.ops}


def gen(rng, prop):
    return Gen(rng, prop).plan()
