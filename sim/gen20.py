"""Plan generator for the suns script (C20)."""
from . import gen2, gen16, ref
from .gen1 import BAUDS, bad_map, pick

ZONES = ('UTC', 'EST5EDT', 'Asia/Kolkata', 'JST-9', 'XXX11')
EPOCHS = (1700000000.0, 0.5, 951782399.25, 1709164799.75, 1711846800.0, 1798761599.5, 4102444800.0)


class Gen(gen2.Gen):

    def gen_defs(self):
        rng, cfg = self.rng, self.cfg
        gen2.Gen.gen_defs(self)
        cfg['path'] = None
        cfg['files'] = {}
        cfg['spoiled'] = {}
        cfg['tz'] = rng.choice(ZONES)
        cfg['epoch'] = rng.choice(EPOCHS)
        for mid, d in sorted(self.defs.items()):
            text = ref.to_xml(d)
            if rng.random() < 0.12:
                kind = rng.choice(gen16.BAD)
                bad = gen16.spoil(rng, d, kind)
                if bad is not None:
                    cfg['spoiled'][str(mid)] = {'kind': kind}
                    text = bad
                    if isinstance(bad, tuple):
                        text, cfg['spoiled'][str(mid)]['point'] = bad
            cfg['files'][rng.choice(('cwd/', 'cwd/', 'default/')) + ref.file_name(mid)] = text

    def script(self):
        rng, cfg = self.rng, self.cfg
        kind, i = rng.choice(self.places)
        op = {'op': 'script', 'kind': kind}
        argv = []

        def opt(flag, value, default, p=0.4):
            if str(value) != str(default) or rng.random() < p:
                argv.extend([flag, str(value)] if rng.random() < 0.8 else [flag + str(value)])
        if kind == 'tcp':
            s = cfg['tcp'][i]
            op['unit'] = int(rng.choice(sorted(s['units'])))
            op['dev'] = 'tcp%d.%d' % (i, op['unit'])
            opt('-t', 'tcp', 'tcp')
            opt('-i', s['host'], 'localhost')
            opt('-P', s['port'], 502)
            T = rng.choice((2.0, 2.0, 1.5, 0.3, 10.0))
            opt('-T', T, 2.0)
        elif kind == 'rtu':
            b = cfg['bus'][i]
            op['unit'] = int(rng.choice(sorted(b['units'])))
            op['dev'] = 'bus%d.%d' % (i, op['unit'])
            opt('-t', 'rtu', 'tcp')
            opt('-p', b['port'], '/dev/ttyUSB0')
            opt('-b', b['baud'], 9600)
            T = rng.choice((2.0, 2.0, 1.5, 0.5, 10.0))
            opt('-T', T, 2.0)
        else:
            op['unit'] = rng.choice((1, 1, 2))
            op['dev'] = 'map:' + i
            opt('-t', 'mapped', 'tcp')
            argv += ['-m', '../maps/' + i]
            T = 2.0
        opt('-a', op['unit'], 1)
        op['timeout'] = T
        op['argv'] = argv
        if rng.random() < 0.08:
            self.bad_option(op)
        meta = {'kind': kind, 'timeout': T, 'unit': op['unit']}
        n = 3 + 3 * len(cfg['sun'][op['dev']]['models'])
        op.update((k, v) for k, v in meta.items() if k != 'kind')
        shim = dict(meta, op='open')
        if kind == 'rtu':
            shim['port'] = cfg['bus'][i]['port']
        if rng.random() < 0.4:
            self.poked(op, n)
        self.decorate(op, shim, n)
        if 'intr' in op:
            del op['intr']
        if rng.random() < self.p * 0.4:
            op['o'] = {str(rng.randrange(6)): {'kind': rng.choice(gen16.FAULTS)}}
        self.ops.append(op)
        return op

    def poked(self, op, n):
        rng = self.rng
        if op['kind'] == 'map':
            return
        for k in range(min(n, 8)):
            if rng.random() < 0.3:
                pairs = self.poke_pairs({'dev': op['dev']}, None)
                if pairs:
                    op.setdefault('f', {}).setdefault(str(k), {})['poke'] = pairs

    def bad_option(self, op):
        rng = self.rng
        op['bad'], extra = rng.choice((
            ('transport', ['-t', 'udp']), ('transport', ['-t', '']), ('number', ['-a', 'one']), ('number', ['-P', '5o2']), ('number', ['-T', 'soon']),
            ('unknown', ['-z']), ('file', ['-t', 'mapped', '-m', 'nothere.xml']), ('host', ['-t', 'tcp', '-i', '10.9.9.9']),
            ('port', ['-t', 'rtu', '-p', '/dev/ttyS99']), ('baud', ['-t', 'rtu', '-b', 'fast', '-p', '/dev/ttyS99']),
            ('portrange', ['-t', 'tcp', '-P', '502502']), ('unitrange', ['-a', '300']), ('nofile', ['-t', 'mapped']), ('timeout', ['-T', '-1']),
            ('timeout', ['-T', '0']), ('notime', ['-T', 'nan']), ('notime', ['-T', 'inf'])))
        op['argv'] = op['argv'] + extra
        if op['bad'] == 'nofile':
            op['argv'] = extra
        if op['bad'] in ('unitrange', 'timeout', 'notime') and op['kind'] == 'map' or op['bad'] == 'notime' and op['kind'] == 'rtu':
            op['argv'], op['bad'] = ['-t', 'udp'], 'transport'

    def topology(self):
        gen2.Gen.topology(self)
        for b in self.cfg['bus']:
            if self.rng.random() < 0.9:
                b['parity'] = 'N'

    def plan(self):
        rng = self.rng
        self.gen_defs()
        self.topology()
        for _ in range(rng.choice((1, 2, 2, 3, 4))):
            r = rng.random()
            if r < 0.2:
                o = {'dev': rng.choice(sorted(self.cfg['sun']))}
                pairs = self.poke_pairs(o)
                if pairs:
                    self.ops.append({'op': 'poke', 'dev': o['dev'], 'pairs': pairs})
            elif r < 0.3:
                self.ops.append({'op': 'jump', 'dt': rng.choice((3600.0, -86400.0, 0.75, 1e7))})
            elif r < 0.4:
                self.ops.append({'op': 'wait', 'dt': rng.choice((0.3, 3601.0))})
            elif r < 0.5:
                maps = [f for k, f in self.places if k == 'map']
                if maps:
                    f = rng.choice(maps)
                    good = self.cfg['files']['maps/' + f]
                    kind, text = bad_map(rng, good)
                    self.ops.append({'op': 'file', 'path': 'maps/' + f, 'text': text})
                    self.ops.append({'op': 'script', 'kind': 'map', 'unit': 1, 'dev': 'map:' + f, 'timeout': 2.0, 'bad': 'map',
                                     'argv': ['-t', 'mapped', '-m', '../maps/' + f]})
                    self.ops.append({'op': 'file', 'path': 'maps/' + f, 'text': good})
            self.script()
        if self.p > 0:
            self.ops.append({'op': 'plug'})
            self.ops.append({'op': 'wait', 'dt': 40.0})
            op = dict(self.script())
            for k in ('f', 'c', 's', 'r', 'x', 'o'):
                op.pop(k, None)
            self.ops[-1] = op
        return {'workload': 'w20', 'cfg': self.cfg, 'ops': self.ops}


def gen(rng, prop):
    return Gen(rng, prop).plan()
