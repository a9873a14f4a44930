"""Plan generator for the comparison of transports (C19): one device, one object, a history without faults.
Operations are written for TCP; w19 translates them."""
from . import gen2
from .gen1 import BAUDS

FILE = 'dev0.xml'


class Gen(gen2.Gen):

    def topology(self):
        rng, cfg = self.rng, self.cfg
        gen2.Gen.topology(self)
        cfg['tcp'], cfg['bus'] = [], []
        cfg['sun'] = {}
        cfg.pop('mapmem', None)
        for f in [f for f in cfg['files'] if f.startswith('maps/')]:
            del cfg['files'][f]
        self.unit = rng.choice((1, 1, 2, 126, 247))
        spec = self.gen_device('tcp0.%d' % self.unit)
        self.apart(spec)
        cfg['tcp'].append({'host': '10.0.0.1', 'port': 502, 'units': {str(self.unit): spec}})
        cfg['bus'].append({'port': '/dev/ttyUSB0', 'units': {str(self.unit): dict(spec)}, 'baud': rng.choice(BAUDS), 'parity': rng.choice('NE')})
        cfg['files']['maps/' + FILE] = gen2.map_xml(rng, spec['mem'])
        cfg['mapmem'] = {'map:' + FILE: spec['mem']}
        sun = cfg['sun']['tcp0.%d' % self.unit]
        cfg['sun']['bus0.%d' % self.unit] = sun
        cfg['sun']['map:' + FILE] = sun
        self.places = [('tcp', 0)]

    def apart(self, spec):
        """More registers behind a gap."""
        rng = self.rng
        if rng.random() < 0.5:
            end = max(a + len(hx) // 4 for a, hx in spec['mem'])
            for _ in range(rng.randint(1, 2)):
                end += rng.choice((1, 2, 5, 60))
                n = rng.choice((1, 2, 4, 30))
                if end + n > 65536:
                    break
                spec['mem'].append([end, ''.join('%04x' % rng.randrange(0x10000) for _ in range(n))])
                end += n

    def open(self):
        op = gen2.Gen.open(self)
        if 'timeout' in op:
            op['timeout'] = max(op['timeout'], 0.5)      # long enough for a full frame on the slowest line
        return op

    def decorate(self, op, o, nreq, write=False):
        # delays that are fine on the serial line are fine elsewhere
        gen2.Gen.decorate(self, op, dict(o, kind='rtu', port='/dev/ttyUSB0'), nreq, write)

    def one(self):
        n = len(self.ops)
        gen2.Gen.one(self)
        # the contents of a map do not change by themselves, and every object has its own
        self.ops[n:] = [op for op in self.ops[n:] if op['op'] not in ('poke', 'open', 'connect', 'disconnect', 'close') and 'dt' not in op]
        for op in self.ops[n:]:
            for f in (op.get('f') or {}).values():
                f.pop('poke', None)
                f.pop('mut', None)

    def regions(self):
        out = []
        for a, hx in sorted(self.cfg['mapmem']['map:' + FILE]):
            if out and out[-1][1] == a:
                out[-1][1] = a + len(hx) // 4
            else:
                out.append([a, a + len(hx) // 4])
        return out

    def edge(self):
        """Register access at the edges of the device and of the address space."""
        rng = self.rng
        mem = self.cfg['mapmem']['map:' + FILE]
        a, hx = rng.choice(mem)
        end = a + len(hx) // 4
        name = rng.choice(('rawread', 'rawread', 'rawwrite'))
        n = rng.choice((1, 1, 2, 3, 50, 123))
        at = rng.choice((a, end - n, end - n + 1, end, a - 1, a - n, 65535, 65536 - n, 65537 - n, 65536, -1, -n, 0, 70000, 12345))
        if name == 'rawwrite':
            at = rng.choice((end, end - n + 1, a - 1, a - n, 65537 - n, 65536, -1, 70000))   # refused by every transport
            if n == 1 and at == end - n + 1:
                at = end
        regions = self.regions()
        if len(regions) > 1 and rng.random() < 0.5:      # over a gap
            k = rng.randrange(1, len(regions))
            low, b = regions[k - 1][1], regions[k][0]
            at = low - rng.choice((0, 1, 1, 2))
            n = b - at + rng.choice((0, 1, 1, 2))
        op = {'op': name, 'id': 'd0', 'addr': at, 'count': n}
        if name == 'rawwrite':
            op['data'] = ''.join('%04x' % rng.randrange(0x10000) for _ in range(n))
            if rng.random() < 0.15:
                op['data'] = op['data'][:-2]
        self.ops.append(op)

    def plan(self):
        rng = self.rng
        self.gen_defs()
        self.topology()
        self.open()
        for _ in range(rng.randint(3, 14)):
            if rng.random() < 0.15:
                self.edge()
            else:
                self.one()
        return {'workload': 'w19', 'cfg': self.cfg, 'ops': self.ops}


def gen(rng, prop):
    return Gen(rng, prop).plan()
