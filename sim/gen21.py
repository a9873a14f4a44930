"""Plan generator for data records (C21): a logger between simulated devices, a jumping clock and changing
time zones."""
from . import gen2
from .gen1 import pick

ZONES = ('UTC', 'Europe/Berlin', 'America/New_York', 'America/St_Johns', 'Asia/Kolkata', 'Asia/Kathmandu', 'Pacific/Kiritimati',
         'Pacific/Pago_Pago', 'Australia/Lord_Howe', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX+12', 'YYY-14')
# ordinary times, ends of years and months, leap days, changes of daylight saving, limits of 32 bits
EPOCHS = (1700000000.0, 0.0, 1.0, 951782400.0, 951868799.9, 1078012799.5, 1709164800.0, 1711846799.5, 1711846800.0, 1729994400.25,
          1735689599.999, 1735689600.0, 1741503600.0, 1762063200.0, 2147483647.0, 2147483648.5, 4102444799.0, 4107542400.0, 946684799.5,
          1483228799.0, 32503679999.0)
WORDS = ('logger-1', 'Fronius', 'Symo 8.2', 'SN 0001', 'a&b', '<x>', '"q"', 'Wechselrichter Süd', 'x' * 80, '0', ' lead', "o'neil", '日本', 'tab\there')
PIDS = ('W', 'PhVphA', 'A', 'Evt1', 'Mn', 'F0')


class Gen(gen2.Gen):

    def instant(self):
        rng = self.rng
        r = rng.random()
        if r < 0.1:
            return rng.choice((0, -1, -0.5, -86400, -2208988800, 1, 0.999, 0.9999, -0.0001))
        t = rng.choice(EPOCHS)
        r = rng.random()
        if r < 0.4:
            t += rng.choice((-1, 1, 3600, -3600, 86399, 0.25, 0.999, 0.99951, 0.9999, 0.000001, rng.random(), 12345678))
        elif r < 0.5:
            t = rng.randrange(0, 4102444800)
        return int(t) if rng.random() < 0.4 else t

    def word(self):
        return self.rng.choice(WORDS)

    def fields(self):
        rng = self.rng
        out = {}
        for k in ('logger_id', 'man', 'mod', 'sn', 'cid', 'device_id', 'ifc', 'namespace'):
            if rng.random() < 0.5:
                out[k] = self.word() if rng.random() < 0.95 else ''
        return out

    def value(self):
        return self.rng.choice((0, 1, -5, 2.5, 0.0, 1e-7, 65535, '0', 'ON', '', 'a & b', '<v>', 'two words', ' padded ', 'ü', 'line\nbreak', True,
                                12345678901234567890, '1 < 2', ']]>', None))

    def record_op(self):
        rng = self.rng
        name = ('new', 'device', 'stamp', 'model', 'point', 'collect', 'write', 'read', 'jump', 'tz', 'wait', 'access', 'other')[
            pick(rng, (0.4, 3, 4, 3, 6, 1, 4, 3, 3, 2, 2, 1, 0.7))]
        rec = rng.choice(('r0', 'r0', 'r0', 'r0', 'r1', 'r1', 'r2'))
        if name == 'new':
            op = {'op': 'rec_new', 'rec': rec}
            if rng.random() < 0.5:
                op['version'] = rng.choice(('1', '2', ''))
        elif name == 'device':
            op = {'op': 'rec_device', 'rec': rec, 'fields': self.fields()}
            if rng.random() < 0.4:
                op['ts'] = self.instant()
            if rng.random() < 0.3:
                op['positional'] = True
        elif name == 'stamp':
            op = {'op': 'rec_stamp', 'rec': rec, 'd': rng.choice((0, 0, 0, 1, 2))}
            if rng.random() < 0.4:
                op['ts'] = self.instant()
        elif name == 'model':
            op = {'op': 'rec_model', 'rec': rec, 'd': rng.choice((0, 0, 1)), 'mid': rng.choice((1, 103, '201', 64001, 'custom'))}
            if rng.random() < 0.5:
                op['index'] = rng.choice((0, 1, 1, 2, 3, 17))
            if rng.random() < 0.3:
                op['ns'] = self.word()
        elif name == 'point':
            op = {'op': 'rec_point', 'rec': rec, 'd': rng.choice((0, 0, 1)), 'm': rng.choice((0, 0, 1)), 'p': rng.choice(PIDS)}
            for k, f, vs in (('value', 0.9, None), ('index', 0.4, (0, 1, 2, 12)), ('sf', 0.5, (-3, -1, 0, 0, 1, 2)), ('units', 0.3, ('W', '%')),
                             ('desc', 0.2, ('text',)), ('time', 0.3, ('2013-02-02T12:01:02Z', '2013-02-02T12:01:02.25Z', ''))):
                if rng.random() < f:
                    op[k] = self.value() if vs is None else rng.choice(vs)
        elif name == 'collect':
            if not self.objs:
                return
            op = {'op': 'rec_collect', 'rec': rec, 'd': rng.choice((0, 0, 1)), 'id': rng.choice(self.objs)['id']}
        elif name == 'write':
            op = {'op': 'rec_write', 'rec': rec, 'doc': 'x%d' % rng.choice((0, 0, 1, 2)), 'how': rng.choice(('str', 'str', 'pretty', 'root', 'parent'))}
            if op['how'] == 'parent':
                op['before'] = rng.choice((0, 1))
        elif name == 'read':
            op = {'op': 'rec_read', 'doc': 'x%d' % rng.choice((0, 0, 1, 2)), 'rec': rec, 'how': rng.choice(('record', 'record', 'element', 'bytes', 'from'))}
            if rng.random() < 0.15:
                op['cut'] = rng.choice((0.0, 0.3, 0.5, 0.9, 0.99))
            elif rng.random() < 0.15:
                op['foreign'] = rng.choice(('root', 'device', 'model', 'point'))
                op['k'] = rng.randrange(6)
        elif name == 'jump':
            op = {'op': 'jump', 'dt': rng.choice((-86400.0, -3600.0, -0.5, 0.5, 1.0, 3600.0, 86400.0, 31536000.0, -1000000.0, 300.0))}
        elif name == 'tz':
            op = {'op': 'tz', 'tz': rng.choice(ZONES)}
        elif name == 'other':
            op = self.other()
            self.ops.append(op)
            op = {'op': 'rec_read', 'doc': op['doc'], 'rec': rec, 'how': rng.choice(('record', 'element', 'bytes', 'from'))}
        elif name == 'wait':
            op = {'op': 'wait', 'dt': rng.choice((0.1, 0.4, 1.0, 59.0))}
        else:
            if self.objs:
                gen2.Gen.one(self)
            return
        self.ops.append(op)

    def stamp(self):
        rng = self.rng
        s = '%04d-%02d-%02dT%02d:%02d:%02d' % (rng.choice((1970, 1999, 2000, 2013, 2024, 2038, 2100)), rng.randint(1, 12), rng.randint(1, 28),
                                               rng.randrange(24), rng.randrange(60), rng.randrange(60))
        r = rng.random()
        if r < 0.6:
            s += '.%s' % ''.join(rng.choice('0123456789') for _ in range(rng.choice((1, 2, 3, 6))))
        return s + ('Z' if rng.random() < 0.8 else '+00:00')

    def other(self):
        """A document of another logger."""
        rng = self.rng
        devices = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            d = {'fields': self.fields(), 'models': []}
            if rng.random() < 0.85:
                d['t'] = self.stamp()
            for _ in range(rng.choice((0, 1, 1, 2))):
                m = {'id': rng.choice(('1', '103', '64001', 'custom')), 'points': []}
                if rng.random() < 0.4:
                    m['x'] = rng.choice((1, 2, 3, 17))
                for _ in range(rng.choice((0, 1, 2, 5))):
                    p = {'id': rng.choice(PIDS)}
                    for k, f, vs in (('v', 0.9, ('0', '-5', '2.50', '1e3', 'ON', 'a & b', '<v>', ' padded ', '007')), ('index', 0.3, (1, 2, 12)),
                                     ('sf', 0.4, (-3, -1, 0, 2)), ('t', 0.3, None), ('u', 0.2, ('W', '%')), ('d', 0.2, ('text',))):
                        if rng.random() < f:
                            p[k] = self.stamp() if vs is None else rng.choice(vs)
                    m['points'].append(p)
                d['models'].append(m)
            devices.append(d)
        op = {'op': 'rec_other', 'doc': 'x%d' % rng.choice((0, 1, 2)), 'devices': devices}
        if rng.random() < 0.6:
            op['version'] = rng.choice(('1', '2'))
        return op

    def plan(self):
        rng = self.rng
        self.cfg['epoch'] = rng.choice(EPOCHS)
        self.cfg['tz'] = rng.choice(ZONES)
        self.gen_defs()
        self.topology()
        if rng.random() < 0.5:
            self.open()
        n = rng.randint(5, 40)
        self.ops.append({'op': 'rec_new', 'rec': 'r0'})
        self.ops.append({'op': 'rec_device', 'rec': 'r0', 'fields': self.fields()})
        for _ in range(n):
            self.record_op()
        return {'workload': 'w21', 'cfg': self.cfg, 'ops': self.ops}


def gen(rng, prop):
    return Gen(rng, prop).plan()
