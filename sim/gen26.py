"""Plan generator for comparisons (C26): devices described by rich definitions that change a little between scans, devices whose
registers change, and comparisons of all they consist of."""
import copy

from . import gen25, ref


def tweak(rng, d):
    """The definition with one thing changed that no register shows."""
    v = copy.deepcopy(d)
    blocks = [b for b in (v['fixed'], v.get('rep')) if b and b['points']]
    p = rng.choice(rng.choice(blocks)['points']) if blocks else None
    kind = rng.choice(('units', 'access', 'mandatory', 'text', 'ptext', 'syms', 'sf', 'type', 'name', 'len'))
    if p is None or p['type'] in ('sunssf', 'pad') and kind in ('sf', 'type', 'syms'):
        kind = 'text'
    if kind == 'units':
        p['units'] = rng.choice([u for u in ('A', 'W', 'V', None) if u != p.get('units')])
        if p['units'] is None:
            del p['units']
    elif kind == 'access':
        p['access'] = 'r' if p.get('access') == 'rw' else 'rw'
    elif kind == 'mandatory':
        p['mandatory'] = not p.get('mandatory')
    elif kind in ('text', 'ptext') and (kind == 'text' or 'text' in p):
        t = v['text'] if kind == 'text' else p['text']
        k = rng.choice(('label', 'description', 'notes'))
        if k in t and rng.random() < 0.5:
            del t[k]
        else:
            t[k] = 'another' if t.get(k) != 'another' else 'more'
    elif kind == 'syms' and p.get('syms'):
        s = rng.choice(p['syms'])
        r = rng.random()
        if r < 0.4:
            s['value'] = '77'
        elif r < 0.7 or 'label' not in s:
            p['syms'].remove(s)
        else:
            s['label'] = 'another'
        if not p['syms']:
            del p['syms']
    elif kind == 'sf' and p['type'] in ref.SCALED:
        if p.get('sf') is not None:
            del p['sf']
        else:
            p['sf'] = rng.choice(('1', '-1'))
    elif kind == 'type':
        same = {'int16': 'uint16', 'uint16': 'int16', 'int32': 'uint32', 'uint32': 'int32', 'enum16': 'bitfield16', 'int64': 'uint64'}
        p['type'] = same.get(p['type'], p['type'])
    elif kind == 'len':
        v['len'] += 1
    elif kind == 'name':
        v['name'] = 'n%d' % v['id']
    return v


class Gen(gen25.Gen):
    workload = 'w26'

    def content(self, mid, bad):
        rng = self.rng
        if rng.random() < 0.5 and len(self.variants[mid]) < 6:
            self.variants[mid].append(tweak(rng, rng.choice(self.variants[mid])))
        return gen25.Gen.content(self, mid, bad)

    def update(self):
        """A definition is replaced by a slightly different one, in every place."""
        rng = self.rng
        mid = rng.choice(sorted(self.defs))
        v = tweak(rng, rng.choice(self.variants[mid]))
        self.variants[mid].append(v)
        key = 'k%d' % len(self.cfg['contents'])
        self.cfg['contents'][key] = {'def': v, 'bad': None, 'text': self.encoded(v)}
        rels = set()
        for spot in self.spots:
            rel, member = self.locate(spot, mid)
            if rel in self.state and (member is None or isinstance(self.state[rel], dict) and member in self.state[rel]['members']):
                self.put(self.state, spot, mid, key)
                rels.add(rel)
        for rel in sorted(rels):
            self.ops.append({'op': 'deffile', 'path': rel, 'to': copy.deepcopy(self.state[rel])})

    def twin(self):
        """A second device object for the same device."""
        rng = self.rng
        o = rng.choice(self.objs)
        op = dict((k, v) for k, v in o.items() if k not in ('f', 'c', 's', 'r', 'x', 'o', 'h', 'intr', 'jmp', 'cancel', 'cancel_with'))
        op['id'] = 'd%d' % self.nid
        self.nid += 1
        self.ops.append(op)
        self.objs.append(op)
        if op['via'] == 'client':
            self.ops.append({'op': 'scan', 'id': op['id']})
        return o, op

    def rescaled(self, a, b):
        """One of the two reads a scaled point, then the other one reads the same value with another scale factor."""
        rng = self.rng
        kms = [km for km in self.known_models(a) if km[1]['len'] <= 125]
        qs = [(km, q) for km in kms for x in km[2] for q in x.points.values() if q.sfp is not None and q.type in ref.INTS]
        if not qs:
            return
        km, q = rng.choice(qs)
        v, sf = rng.choice((1, 3, 12)), rng.choice((-2, -1, 0, 1, 2))
        for o, v, sf in ((a, v * 10, sf), (b, v, sf + 1)):
            self.ops.append({'op': 'poke', 'dev': a['dev'], 'pairs': [[q.addr + k, 0] for k in range(q.len - 1)] + [
                [q.addr + q.len - 1, v], [q.sfp.addr, sf & 0xffff]]})
            self.ops.append({'op': 'mread', 'id': o['id'], 'm': km[0], 'how': 'model'} if rng.random() < 0.5 else {'op': 'dread', 'id': o['id']})
        self.compare(a, b)

    def compare(self, a, b):
        self.ops.append({'op': 'compare', 'a': a['id'], 'b': b['id']})

    def plan(self):
        rng = self.rng
        self.gen_defs()
        self.topology()
        for _ in range(rng.choice((1, 1, 2))):
            o = self.open()
            if o['via'] == 'client' and rng.random() < 0.9:
                self.scan(o)
        for _ in range(rng.randint(3, 10)):
            r = rng.random()
            if r < 0.35:
                if rng.random() < 0.6:
                    self.update()
                a, b = self.twin()
                if rng.random() < 0.8:
                    for x in (a, b):
                        self.ops.append({'op': 'dread', 'id': x['id']})
                self.compare(a, b)
                if rng.random() < 0.3:
                    self.rescaled(a, b)
                if rng.random() < 0.5:
                    n = len(self.ops)
                    self.one()
                    if len(self.ops) > n:
                        self.compare(a, b)
            elif r < 0.5:
                self.change()
            elif r < 0.6:
                self.update()
                o = rng.choice(self.objs)
                if o['via'] == 'client':
                    self.scan(o)
            elif r < 0.75 and len(self.objs) > 1:
                self.compare(*rng.sample(self.objs, 2))
            else:
                self.one()
        if len(self.objs) > 1:
            for _ in range(2):
                self.compare(*rng.sample(self.objs, 2))
        return {'workload': self.workload, 'cfg': self.cfg, 'ops': self.ops}


def gen(rng, prop):
    return Gen(rng, prop).plan()
