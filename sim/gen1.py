"""Plan generators for workload 1.  A plan is drawn completely before anything runs."""
import struct

from .regs import hash16

TCP_T = (0.2, 0.5, 1.0, 2.0, 3.0, 7.5)
RTU_T = (0.5, 0.6, 1.0, 2.0, 4.0)
BAUDS = (9600, 19200, 38400, 115200)

REPLY = ('drop_req', 'drop_rep', 'exc', 'unit', 'func', 'short', 'bytecount', 'echo', 'trunc', 'late', 'dup')
TCP_ONLY = ('tid', 'babble', 'close_req', 'close_rep', 'rst_req', 'rst_rep', 'crash', 'close_mid', 'rst_mid', 'mbaplen')
RTU_ONLY = ('corrupt', 'noise', 'insert')
CONNECT = ('timeout', 'refused', 'unreachable', 'reset', 'noresolve', 'emfile', 'badname', 'nolocal')
PORT_OPEN = ('open_error', 'busy', 'oserror', 'termios', 'config', 'setting')
SEND = ('epipe', 'reset', 'stall')
RTU_SEND = ('write_error', 'stall', 'flush_error', 'config_error')
RTU_READ = ('read_error', 'disconnected')

# prop -> (weights of read/write/connect/disconnect/close/wait/mutate/world, fault probabilities, link kinds)
PROFILE = {
    'C01': dict(ops=(10, 2, 1, 1, 0.5, 1, 2, 0.7), p=(0.0, 0.15, 0.4), kinds=(5, 4, 2)),
    'C02': dict(ops=(2, 10, 1, 1, 0.5, 1, 1, 0.7), p=(0.0, 0.15, 0.4), kinds=(5, 4, 2)),
    'C03': dict(ops=(6, 6, 1, 1, 0.3, 1, 0.3, 0.7), p=(0.0, 0.1, 0.3), kinds=(5, 5, 0), invalid=0.12),
    'C04': dict(ops=(6, 6, 2, 1, 0.7, 1, 0.2, 1.0), p=(0.0, 0.35, 0.6), kinds=(5, 5, 2), invalid=0.06, badmap=0.3),
    'C05': dict(ops=(7, 5, 1.5, 0.7, 0.3, 0.7, 0, 0.6), p=(0.0, 0.3, 0.6), kinds=(4, 6, 0), client=0.3, none=0.15),
    'C06': dict(ops=(7, 5, 1.5, 0.7, 0.7, 4, 1, 1.5), p=(0.3, 0.5, 0.5), kinds=(5, 5, 0)),
    'C07': dict(ops=(6, 4, 3, 2, 2, 1, 0.1, 1.5), p=(0.0, 0.3, 0.5), kinds=(1, 0, 0)),
    'C15': dict(ops=(8, 8, 1, 1, 0.5, 1, 1, 0.5), p=(0.0, 0.15, 0.4), kinds=(5, 5, 1), client=0.5),
}


def pick(rng, weights):
    t = rng.random() * sum(weights)
    for i, w in enumerate(weights):
        t -= w
        if t < 0:
            return i
    return len(weights) - 1


def full_device(rng, tag):
    d = {'full': True, 'tag': tag}
    if rng.random() < 0.3:
        d['holes'] = []
        for _ in range(rng.randint(1, 3)):
            a = rng.choice((100, 130, 250, 40100, 50000, rng.randrange(65000)))
            d['holes'].append([a, a + rng.choice((1, 2, 50, 400))])
    if rng.random() < 0.2:
        a = rng.choice((60, 200, 40200, rng.randrange(65000)))
        d['readonly'] = [[a, a + rng.choice((1, 10, 200))]]
    return d


def units(rng, tag0):
    ids = rng.sample((0, 1, 1, 2, 3, 17, 100, 126, 247, 255), rng.randint(1, 3))
    return dict((str(u), full_device(rng, tag0 + k)) for k, u in enumerate(sorted(set(ids))))


def rtu_units(rng, tag0):
    ids = rng.sample((1, 2, 3, 17, 100, 126, 247), rng.randint(1, 3))
    return dict((str(u), full_device(rng, tag0 + k)) for k, u in enumerate(sorted(set(ids))))


def map_element(rng, tag, off, left):
    """One <regs> element of at most 'left' registers: (registers, attributes, text, data as hex)."""
    t = rng.choice(('hex', 'hex', 'hex', 'default', 'u16', 's16', 'u32', 's32', 'u64', 's64', 'f32', 'f64', 'string', 'padded'))
    if t in ('u16', 's16', 'u32', 's32', 'u64', 's64'):
        n = int(t[1:]) // 16
        if n <= left:
            v = int(''.join('%04x' % hash16('map', tag, off + i) for i in range(n)), 16)
            raw = '%0*x' % (4 * n, v)
            if t[0] == 's' and v >= 1 << (16 * n - 1):
                v -= 1 << 16 * n
            return n, 'type="%s"' % t, str(v) if rng.random() < 0.6 or v < 0 else hex(v), raw
    elif t in ('f32', 'f64'):
        n = int(t[1:]) // 16
        if n <= left:
            v = (hash16('map', tag, off) - 30000) / 16.0
            if n == 4:
                v = v * (10.0 ** (hash16('map', tag, off, 1) % 300 - 150)) / 7.0      # the full precision of a double
            return n, 'type="%s"' % t, repr(v), struct.pack('>f' if n == 2 else '>d', v).hex()
    elif t == 'string' and left >= 2:
        text = ''.join(chr(65 + hash16('map', tag, off, i) % 26) for i in range(rng.randint(1, min(20, 2 * left))))
        n = (len(text) + 1) // 2
        attr = 'type="string"'
        if rng.random() < 0.5:
            n = rng.randint(n, min(left, n + 3))
            attr += ' len="%d"' % n
        return n, attr, text, text.encode().ljust(2 * n, b'\0').hex()
    n = min(left, rng.choice((1, 2, 10, 125, 300)))
    data = ''.join('%04x' % hash16('map', tag, off + i) for i in range(n))
    if t == 'padded' and n > 1:
        k = rng.randrange(n)
        return n, 'len="%d" type="hexstr"' % n, data[:4 * k], data[:4 * k].ljust(4 * n, '0')
    attr = 'type="hexstr" ' if rng.random() < 0.3 else ''
    if t != 'default':
        attr += 'len="%d"' % n
    return n, attr, data, data


def gen_map(rng, tag):
    base = rng.choice((0, 40000, 40000, 50000))
    func = rng.choice((3, 3, 4))
    regs = []
    pieces = []
    off = rng.choice((0, 0, 5))
    for b in range(rng.randint(1, 4)):
        left = rng.choice((1, 2, 10, 125, 126, 300))
        start, data = off, ''
        while left:
            # the file may cut one contiguous range into several elements
            n, attr, text, hx = map_element(rng, tag, off, left)
            if off == start or rng.random() < 0.5:
                attr = 'offset="%d" %s' % (off, attr)
            acc = rng.choice(('access="rw"', 'access="rw"', ''))
            pieces.append('<regs %s %s>%s</regs>' % (attr, acc, text))
            data += hx
            off += n
            left -= n
            if rng.random() < 0.5:
                break
        regs.append([start, data])
        off += rng.choice((0, 0, 1, 40))
    attr = ' addr="%d"' % base if base != 40000 or rng.random() < 0.7 else ''
    if func == 4 or rng.random() < 0.3:
        attr += ' func="%s"' % ('input' if func == 4 else 'holding')
    return {'base': base, 'func': func, 'regs': regs}, '<mbmap%s>\n%s\n</mbmap>\n' % (attr, '\n'.join(pieces))


def bad_map(rng, text):
    """An unusable map file: kind, contents (None: no file)."""
    k = rng.randrange(10)
    if k == 0:
        return 'missing', None
    if k == 1:
        return 'truncated', text[:rng.randrange(len(text) - 8)]
    if k == 2:
        return 'empty', ''
    if k == 3:
        return 'func', text.replace('<mbmap', '<mbmap func="coil"', 1) if 'func=' not in text else \
            text.replace('func="', 'func="x', 1)
    if k == 4:
        return 'overlap', '<mbmap addr="40000"><regs offset="4" len="2">00010002</regs><regs offset="5" len="1">0003</regs></mbmap>'
    if k == 5:
        return 'type', '<mbmap addr="40000"><regs offset="0" len="2">00010002</regs><regs offset="2" len="1" type="q9">1</regs></mbmap>'
    if k == 6:
        return 'hex', '<mbmap addr="40000"><regs offset="0" len="1">00zz</regs></mbmap>'
    if k == 7:
        return 'addr', '<mbmap addr="%s"><regs offset="0" len="2">53756e53</regs><regs type="u16">1</regs></mbmap>' % rng.choice(('base', '', '40000.5', '4e4'))
    if k == 8:
        return 'length', rng.choice((
            '<mbmap addr="40000"><regs offset="0" len="1">53756e530001</regs><regs len="1">0042</regs></mbmap>',
            '<mbmap addr="40000"><regs len="1" type="u16">3</regs><regs len="2">0001 0002 0003</regs></mbmap>',
            '<mbmap addr="40000"><regs len="2">53756e53</regs><regs len="-1">0003</regs><regs len="2">00040005</regs></mbmap>'))
    return 'binary', {'hex': 'fffe0001ff3c'}


class Gen(object):

    def __init__(self, rng, prop):
        self.rng = rng
        self.prop = prop
        self.pr = PROFILE[prop]
        self.cfg = {'tcp': [], 'bus': [], 'maps': {}, 'files': {}}
        self.ops = []
        self.objs = []
        self.nid = 0
        self.p = rng.choice(self.pr['p'])
        kinds = list(REPLY) + list(TCP_ONLY) + list(RTU_ONLY)
        self.kinds = [k for k in kinds if rng.random() < 0.5] or ['drop_rep']
        self.links = [k for k in ('c', 's', 'r', 'x', 'intr', 'h') if rng.random() < 0.6]
        self.benign = rng.choice((0.0, 0.3, 0.8))
        self.cto = rng.random() < 0.3          # connect() with a timeout of its own

    # ---- topology -----------------------------------------------------------

    def topology(self):
        rng, cfg = self.rng, self.cfg
        n = rng.choice((1, 1, 2, 2, 3))
        cfg['lat'] = rng.choice((0.0005, 0.001, 0.01))
        if rng.random() < 0.15:
            cfg['max_send'] = rng.choice((1, 5, 12, 100))
        if rng.random() < 0.5:
            cfg['coalesce'] = True
        if rng.random() < 0.3:
            cfg['chunk'] = rng.choice((1, 2, 5, 64))
        for k in range(n):
            kind = ('tcp', 'rtu', 'map')[pick(rng, self.pr['kinds'])]
            if kind == 'tcp' and len(cfg['tcp']) < 2:
                tls = rng.random() < 0.15
                s = {'host': '10.0.0.%d' % (len(cfg['tcp']) + 1), 'port': 502 if not tls and rng.random() < 0.6 else rng.choice((502, 802, 5020)),
                     'units': units(rng, 10 * k + 1)}
                if tls:
                    s['tls'] = {'issuer': 'Sim CA ca', 'names': [s['host']], 'want_client': rng.random() < 0.5}
                    cfg['certs'] = True
                cfg['tcp'].append(s)
            elif kind == 'rtu' and len(cfg['bus']) < 2:
                cfg['bus'].append({'port': rng.choice(('/dev/ttyUSB%d', 'COM%d')) % len(cfg['bus']), 'units': rtu_units(rng, 10 * k + 1),
                                   'baud': rng.choice(BAUDS), 'parity': rng.choice('NNE')})
            elif kind == 'map':
                f = 'm%d.xml' % len(cfg['maps'])
                m, text = gen_map(rng, k)
                if rng.random() < self.pr.get('badmap', 0):
                    why, text = bad_map(rng, text)
                    m['bad'] = why
                cfg['maps'][f] = m
                if text is not None:
                    cfg['files']['maps/' + f] = text
        for k in range(rng.choice((1, 2, 2, 3))):
            self.new()

    def new(self):
        rng, cfg = self.rng, self.cfg
        places = [('tcp', s) for s in cfg['tcp']] + [('rtu', b) for b in cfg['bus']] + [('map', m) for m in sorted(cfg['maps'])]
        kind, where = rng.choice(places)
        op = {'op': 'new', 'kind': kind, 'id': 'd%d' % self.nid,
              'api': 'client' if rng.random() < self.pr.get('client', 0.25) else 'modbus'}
        self.nid += 1
        if op['api'] == 'client' and rng.random() < 0.5:
            op['tr'] = 'func'
        if op['api'] == 'modbus' and rng.random() < 0.35:
            op['max_count'] = rng.choice((1, 2, 10, 50, 100, 123, 124, 125, 126, 200, 1000))
        if kind == 'tcp':
            op['host'] = where['host']
            op['port'] = where['port']
            if where['port'] == 502 and rng.random() < 0.5:
                del op['port']
            op['unit'] = int(rng.choice(sorted(where['units'])))
            if rng.random() < 0.05:
                op['unit'] = rng.choice((77, 77, 256, 300, -1)) if self.prop in ('C03', 'C04') else 77
            if rng.random() < 0.7:
                op['timeout'] = None if rng.random() < self.pr.get('none', 0.03) else rng.choice(TCP_T)
            if where.get('tls'):
                op['tls'] = {'cafile': 'ca.pem', 'certfile': 'client.pem', 'keyfile': 'client.key', 'skip': rng.random() < 0.2}
        elif kind == 'rtu':
            op['port'] = where['port']
            op['unit'] = int(rng.choice(sorted(where['units'])))
            if rng.random() < 0.05:
                op['unit'] = rng.choice((77, 77, 256, 300, -1)) if self.prop in ('C03', 'C04') else 77
            if where['baud'] != 9600 or rng.random() < 0.5:
                op['baudrate'] = where['baud']
            if where['parity'] != 'N' or rng.random() < 0.5:
                op['parity'] = where['parity']
            if rng.random() < 0.6:
                op['timeout'] = None if rng.random() < self.pr.get('none', 0.03) else rng.choice(RTU_T)
        else:
            op['file'] = where
            op['unit'] = rng.choice((1, 2))
            if rng.random() < 0.3:
                op['pathlist'] = True
            if cfg['maps'][where].get('bad') is None and rng.random() < self.p * 0.5 and 'c' in self.links:
                op['o'] = {'0': {'kind': rng.choice(('eacces', 'emfile', 'enoent', 'eio'))}}
        if kind != 'map' and rng.random() < 0.06:
            op['ustr'] = True              # the unit as text, as from a command line
        if kind == 'rtu' and 'c' in self.links and rng.random() < self.p * 0.4:
            op['c'] = {'0': {'kind': rng.choice(PORT_OPEN)}}
        self.ops.append(op)
        self.objs.append(op)
        return op

    # ---- operations ---------------------------------------------------------

    def timeout(self, o):
        return o.get('timeout') or (2.0 if o['kind'] == 'tcp' else 0.5)

    def limit(self, o, write):
        mc = o.get('max_count') if o['api'] == 'modbus' else None
        return min(mc or 125, 123 if write else 125)

    def range_(self, o):
        rng = self.rng
        if o['kind'] == 'map':
            m = self.cfg['maps'][o['file']]
            off, hx = rng.choice(m['regs'])
            n = len(hx) // 4
            a = rng.randrange(n)
            c = rng.choice((1, n - a, rng.randint(1, n - a), n - a + 1, None))
            if c is None:           # on into the registers that follow, over the gap before them if there is one
                last, lx = rng.choice([r for r in m['regs'] if r[0] >= off])
                c = max(last + rng.randint(1, len(lx) // 4) - off - a, 1)
            elif rng.random() < 0.08:
                a -= rng.choice((1, 2, off + 1))
            return m['base'] + off + a, c
        lim = self.limit(o, False)
        r = rng.random()
        if r < 0.35:
            count = rng.choice((1, 2, 3, 4, 10, 20))
        elif r < 0.7:
            count = rng.choice((lim - 1, lim, lim + 1, 2 * lim, 2 * lim + 1, 122, 123, 124, 125, 126, 246, 247, 250, 251))
        elif r < 0.73:
            count = 0
        else:
            count = rng.randint(1, 500)
        count = max(count, 0)
        if count > 12 * lim:
            count = rng.randint(1, 12 * lim)
        r = rng.random()
        if r < 0.3:
            addr = rng.choice((0, 1, 100, 255, 256, 40000, 40001, 50000))
        elif r < 0.4:
            addr = 0x10000 - count
        else:
            addr = rng.randrange(0x10000 - count)
        if count and rng.random() < self.pr.get('invalid', 0.03):
            addr = rng.choice((0x10000 - count + 1, 0x10000, -1, -5, 0x10000 + 40, 0xffff))
        return max(addr, -100), count

    def reply_fault(self, o):
        rng = self.rng
        k = rng.choice(self.kinds)
        if o['kind'] == 'rtu' and k in TCP_ONLY or o['kind'] == 'tcp' and k in RTU_ONLY:
            k = rng.choice(REPLY)
        f = {'kind': k}
        if k == 'exc':
            f['code'] = rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 11, 255))
        elif k == 'tid':
            f['delta'] = rng.choice((1, 0xffff, 0x100, 0xff00, 7))
        elif k == 'babble':
            f['delta'] = rng.choice((1, 7, 0x100, 0xff00))
            f['gap'] = round(self.timeout(o) * rng.choice((0.001, 0.1, 0.5, 0.95)), 6)
        elif k == 'dup':
            f['again'] = rng.choice((0.0, 0.0, 0.003, 0.05, 0.4, 3.0))
        elif k in ('unit', 'func'):
            f['delta'] = rng.choice((0, 1, 1, 2, 5, 16)) if k == 'func' else rng.choice((1, 255, 16))
        elif k == 'short':
            f['n'] = rng.choice((1, 1, 2, 10, 200))
            f['long'] = rng.random() < 0.5
        elif k == 'bytecount':
            f['delta'] = rng.choice((1, 2, 254, 255, 10, 246))
        elif k == 'echo':
            f['what'] = rng.choice(('count', 'addr'))
            f['delta'] = rng.choice((1, 0xffff, 256))
        elif k in ('trunc', 'close_mid', 'rst_mid'):
            f['n'] = rng.choice((0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 200))
            if k == 'trunc' and f['n'] == 0:
                f['n'] = 1
        elif k == 'late':
            f['d'] = self.timeout(o) * rng.choice((1.6, 2.0, 3.0) if self.cto else (1.06, 1.3, 2.0, 3.0))
        elif k == 'crash':
            f['down'] = rng.choice((0.0, 0.5, 3.0))
        elif k == 'mbaplen':
            f['ln'] = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 100, 255, 256, 65535, rng.randrange(300)))
        elif k == 'corrupt':
            f['flips'] = [[rng.randrange(260), 1 << rng.randrange(8)] for _ in range(rng.choice((1, 1, 2, 4)))]
            if rng.random() < 0.35:
                # what one byte of the checksum does not show
                f['half'] = rng.randrange(2)
        elif k == 'noise':
            f['bytes'] = [rng.choice((0, 255, rng.randrange(256))) for _ in range(rng.choice((1, 2, 5)))]
        elif k == 'insert':
            f['pos'] = rng.randrange(260)
            f['bytes'] = [rng.randrange(256)] if rng.random() < 0.5 else []
            f['del'] = 0 if f['bytes'] else 1
        return f

    def benign_fault(self, o, write, count):
        """Timing and packaging that a healthy link is free to choose."""
        rng = self.rng
        f = {}
        T = self.timeout(o)
        budget = T * 0.9
        if o['kind'] == 'rtu':
            baud = [b['baud'] for b in self.cfg['bus'] if b['port'] == o['port']][0]
            size = (9 + 2 * min(count, 123)) if write else 8
            budget = T - (size + 14) * 11.0 / baud - 0.12
        r = rng.random()
        if r < 0.4 and budget > 0:
            f['delay'] = round(budget * rng.choice((0.1, 0.5, 0.9, 0.99)), 6)
        if rng.random() < 0.6:
            f['seg'] = [rng.choice((1, 1, 2, 3, 5, 6, 7, 8, 9, 20, 100)) for _ in range(rng.randint(1, 6))]
            if rng.random() < 0.7:
                gmax = min(budget, T * 0.9) if budget > 0 else 0.0
                if o['kind'] == 'rtu':
                    gmax = T - 0.35
                f['gap'] = round(max(0.0, gmax) * rng.choice((0.01, 0.3, 0.9)), 6)
        if rng.random() < 0.2 and o['kind'] != 'map':
            f['mut'] = [[rng.choice((3, 3, 4)), rng.randrange(0xffff), rng.choice((1, 10, 200)), rng.randrange(1, 9)]]
        return f

    def decorate(self, op, o):
        """Faults and timing for one operation."""
        rng = self.rng
        if o['kind'] == 'map':
            return
        write = op['op'] == 'write'
        nreq = 0
        if op['op'] in ('read', 'write'):
            lim = self.limit(o, write)
            nreq = (op['count'] + lim - 1) // lim
        faulty = rng.random() < self.p
        for k in range(min(nreq, 6)):
            if rng.random() < self.benign * 0.5:
                f = self.benign_fault(o, write, min(op['count'], 125))
                if f.get('mut') and rng.random() < 0.7:
                    f['mut'][0][1] = max(0, op['addr'] + rng.randrange(-5, op['count'] + 5))
                if f:
                    op.setdefault('f', {})[str(k)] = f
        if o['kind'] == 'tcp' and rng.random() < self.benign * 0.2:
            op.setdefault('c', {})['0'] = {'delay': round(self.timeout(o) * rng.choice((0.1, 0.9)), 6)}
        if o['kind'] == 'tcp' and nreq and rng.random() < self.benign * 0.1:
            op.setdefault('s', {})[str(rng.randrange(nreq))] = {'kind': 'slow', 'delay': round(self.timeout(o) * rng.choice((0.1, 0.9)), 6)}
        if not faulty:
            return
        for _ in range(rng.choice((1, 1, 1, 2))):
            where = rng.choice(['f', 'f', 'f'] + self.links)
            if where == 'f' and nreq:
                k = rng.randrange(nreq)
                f = self.reply_fault(o)
                old = op.get('f', {}).get(str(k)) or {}
                for key in ('seg', 'mut'):
                    if key in old:
                        f[key] = old[key]
                op.setdefault('f', {})[str(k)] = f
            elif where == 'c' and o['kind'] == 'tcp':
                op.setdefault('c', {})['0'] = {'kind': rng.choice(CONNECT)}
            elif where == 's' and nreq:
                f = {'kind': rng.choice(SEND if o['kind'] == 'tcp' else RTU_SEND)}
                if o['kind'] == 'tcp' and rng.random() < 0.4:
                    f['n'] = rng.choice((1, 7, 11))
                if f['kind'] == 'flush_error' and rng.random() < 0.5:
                    f['termios'] = True
                op.setdefault('s', {})[str(rng.randrange(nreq))] = f
            elif where == 'r' and o['kind'] == 'rtu' and nreq:
                op.setdefault('r', {})[str(rng.randrange(2 * nreq))] = {'kind': rng.choice(RTU_READ)}
            elif where == 'x' and (o['kind'] == 'tcp' or op['op'] == 'close'):
                op.setdefault('x', {})['0'] = {'kind': 'close_error'}
            elif where == 'h' and o.get('tls'):
                op.setdefault('h', {})['0'] = {'kind': rng.choice(('stall', 'reset', 'eof'))}
            elif where == 'intr':
                op['intr'] = {'k': rng.randrange(2 * nreq + 2), 'dt': rng.choice((0.0, 0.0, 0.0004, 0.01, 0.3))}

    def one(self):
        rng = self.rng
        o = rng.choice(self.objs)
        k = pick(rng, self.pr['ops'])
        name = ('read', 'write', 'connect', 'disconnect', 'close', 'wait', 'mutate', 'world')[k]
        op = {'op': name, 'id': o['id']}
        if name in ('read', 'write'):
            op['addr'], op['count'] = self.range_(o)
            if name == 'read':
                if rng.random() < 0.3:
                    op['fc'] = rng.choice((3, 4))
            else:
                op['seed'] = rng.randrange(1000000)
                if op['count'] and rng.random() < self.pr.get('invalid', 0.03):
                    op['odd'] = True
                if rng.random() < 0.06:
                    op['str'] = True
            self.decorate(op, o)
        elif name in ('connect', 'disconnect'):
            if o['kind'] != 'tcp':
                return
            if name == 'connect' and self.cto and rng.random() < 0.5:
                op['timeout'] = self.timeout(o) * rng.choice((1.0, 1.5))
            self.decorate(op, o)
        elif name == 'close':
            if o['kind'] == 'rtu' and len(self.objs) == 1 and rng.random() < 0.7:
                return
            self.decorate(op, o)
        elif name == 'wait':
            op = {'op': 'wait', 'dt': rng.choice((0.01, 0.7, 5.0, 30.0))}
        elif name == 'mutate':
            devs = ['tcp%d.%s' % (i, u) for i, s in enumerate(self.cfg['tcp']) for u in s['units']] + \
                   ['bus%d.%s' % (i, u) for i, s in enumerate(self.cfg['bus']) for u in s['units']]
            if not devs:
                return
            op = {'op': 'mutate', 'dev': rng.choice(sorted(devs)),
                  'spec': [rng.choice((3, 3, 4)), rng.choice((0, 100, 40000, rng.randrange(0xffff))), rng.choice((1, 50, 500)), rng.randrange(1, 99)]}
        else:
            c = []
            if self.p > 0:
                if self.cfg['tcp']:
                    c += ['idle_close', 'idle_close', 'outage']
                if self.cfg['bus']:
                    c += ['unplug']
            c += ['new']
            w = rng.choice(c)
            if w == 'new':
                if len(self.objs) < 6:
                    self.new()
                return
            if w == 'unplug':
                op = {'op': 'unplug', 'port': rng.choice(self.cfg['bus'])['port'], 'present': rng.random() < 0.6}
            else:
                op = {'op': w, 'link': rng.randrange(len(self.cfg['tcp']))}
                if w == 'outage':
                    op['dt'] = rng.choice((0.5, 4.0))
                elif rng.random() < 0.4:
                    op['rst'] = True
                if self.prop in ('C06', 'C07') and rng.random() < 0.3:
                    # the client connects again: what was lost before is no concern of what follows
                    tcp = [x for x in self.objs if x['kind'] == 'tcp']
                    if tcp:
                        x = rng.choice(tcp)
                        self.ops.append({'op': 'connect', 'id': x['id']})
                        self.ops.append(op)
                        self.ops.append({'op': 'wait', 'dt': 5.0})
                        self.ops.append({'op': 'connect', 'id': x['id']})
                        self.recover(x)
                        return
        self.ops.append(op)

    def recover(self, o):
        """Faults stop, the line goes quiet, the next operation has to work."""
        rng = self.rng
        self.ops.append({'op': 'wait', 'dt': 40.0})
        if o['kind'] == 'map':
            return
        lim = self.limit(o, False)
        op = {'op': rng.choice(('read', 'read', 'write')), 'id': o['id'], 'addr': rng.choice((0, 1000, 40000)),
              'count': rng.choice((1, 2, lim, min(lim * 2, 130)))}
        if op['op'] == 'write':
            op['seed'] = rng.randrange(1000000)
        self.ops.append(op)

    def plan(self):
        rng = self.rng
        self.topology()
        while not self.cfg['tcp'] and not self.cfg['bus'] and not self.cfg['maps']:
            self.topology()
        for _ in range(rng.randint(4, 14)):
            self.one()
            if self.prop == 'C06' and rng.random() < 0.4 or rng.random() < self.p * 0.15:
                self.recover(rng.choice(self.objs))
        if self.p > 0 and rng.random() < 0.7:
            for o in self.objs:
                self.recover(o)
        return {'workload': 'w1', 'cfg': self.cfg, 'ops': self.ops}


class GenTiming(Gen):
    """C05: many timeouts, delays just below and above them, silence at every point."""

    def __init__(self, rng, prop):
        Gen.__init__(self, rng, prop)
        self.kinds = ['drop_req', 'drop_rep', 'late', 'trunc'] + [k for k in ('mbaplen', 'bytecount', 'short', 'corrupt', 'insert', 'noise',
                                                                           'unit', 'exc', 'close_mid', 'close_rep', 'rst_req', 'rst_rep', 'rst_mid') if rng.random() < 0.4]
        self.links = [k for k in ('c', 's', 'h') if rng.random() < 0.7]
        self.benign = rng.choice((0.5, 1.0, 2.0))

    def plan(self):
        p = Gen.plan(self)
        rng = self.rng
        if self.cfg['bus'] and rng.random() < 0.6 and len(self.objs) < 6:
            # a second device with another timeout on the same line
            b = rng.choice(self.cfg['bus'])
            for t in rng.sample(RTU_T, 2):
                o = {'op': 'new', 'kind': 'rtu', 'id': 'd%d' % self.nid, 'api': 'modbus', 'port': b['port'],
                     'unit': int(rng.choice(sorted(b['units']))), 'baudrate': b['baud'], 'parity': b['parity'], 'timeout': t}
                self.nid += 1
                self.objs.append(o)
                self.ops.append(o)
            for _ in range(rng.randint(3, 6)):
                self.one()
        return p


def gen_ports(rng):
    """C08: opening, closing, sharing and failing serial ports."""
    nb = rng.choice((1, 1, 2))
    cfg = {'tcp': [], 'bus': [], 'maps': {}, 'files': {}, 'lat': 0.001}
    for k in range(nb):
        cfg['bus'].append({'port': '/dev/ttyUSB%d' % k, 'units': {'1': {'full': True, 'tag': 10 * k + 1}, '2': {'full': True, 'tag': 10 * k + 2}},
                           'baud': rng.choice(BAUDS), 'parity': rng.choice('NE')})
    ops = []
    live = []
    nid = 0
    p = rng.choice((0.0, 0.15, 0.4))
    mism = rng.choice((0.0, 0.1, 0.3))
    for _ in range(rng.randint(6, 24)):
        r = rng.random()
        if r < 0.4 or not live:
            b = rng.choice(cfg['bus'])
            op = {'op': 'new', 'kind': 'rtu', 'id': 'd%d' % nid, 'api': rng.choice(('modbus', 'modbus', 'client')), 'port': b['port'],
                  'unit': rng.choice((1, 1, 2))}
            nid += 1
            if rng.random() < 0.7 or b['baud'] != 9600:
                op['baudrate'] = b['baud']
            if rng.random() < 0.7 or b['parity'] != 'N':
                op['parity'] = b['parity']
            if rng.random() < mism:
                if rng.random() < 0.5:
                    op['baudrate'] = rng.choice(BAUDS)
                else:
                    op['parity'] = rng.choice('NE')
            if rng.random() < 0.2:
                op.pop(rng.choice(('baudrate', 'parity')), None)
            if rng.random() < 0.3:
                op['timeout'] = rng.choice(RTU_T)
            if rng.random() < p:
                op['c'] = {'0': {'kind': rng.choice(PORT_OPEN)}}
            live.append(op)
        elif r < 0.7:
            o = rng.choice(live)
            op = {'op': 'close', 'id': o['id']}
            if rng.random() < p:
                op['x'] = {'0': {'kind': 'close_error'}}
        elif r < 0.95:
            o = rng.choice(live)
            op = {'op': rng.choice(('read', 'read', 'write')), 'id': o['id'], 'addr': rng.choice((0, 100, 40000)), 'count': rng.choice((1, 2, 126))}
            if op['op'] == 'write':
                op['seed'] = rng.randrange(1000)
            if rng.random() < p:
                op['f'] = {'0': {'kind': rng.choice(('drop_rep', 'corrupt', 'exc'))}}
        else:
            op = {'op': 'unplug', 'port': rng.choice(cfg['bus'])['port'], 'present': rng.random() < 0.7} if p else {'op': 'wait', 'dt': 1.0}
        ops.append(op)
    return {'workload': 'w1', 'cfg': cfg, 'ops': ops}


def tls_server(rng, host):
    cert = {'issuer': 'Sim CA ca', 'names': [host], 'want_client': rng.random() < 0.5}
    r = rng.random()
    if r < 0.15:
        cert['issuer'] = rng.choice(('Sim CA other', 'evil', 'Sim CA system', 'Sim CA system'))
    elif r < 0.24:
        cert['names'] = [rng.choice(('10.9.9.9', 'evil.local'))]
    elif r < 0.34:
        cert['expired'] = True
    elif r < 0.42:
        cert = None                # a server that does not speak TLS
    return cert


def tls_options(rng):
    t = {'cafile': 'ca.pem', 'certfile': 'client.pem', 'keyfile': 'client.key', 'skip': rng.random() < 0.3}
    r = rng.random()
    if r < 0.12:
        t['cafile'] = rng.choice(('other.pem', 'missing.pem', 'garbage.pem', None, None))
    elif r < 0.18:
        t[rng.choice(('certfile', 'keyfile'))] = rng.choice(('missing.pem', 'garbage.pem'))
    elif r < 0.23:
        t['keyfile'] = 'wrong.key'
    elif r < 0.26:
        t['certfile'] = t['keyfile'] = None
    elif r < 0.35:
        t.update(certfile='both.pem', keyfile=None)       # certificate and key in one file
    return t


def tls_fault(rng):
    if rng.random() < 0.5:
        return {'kind': rng.choice(('stall', 'reset', 'eof'))}
    # for this connection somebody else answers
    return {'cert': rng.choice(({'issuer': 'evil'}, {'names': ['evil.local']}, {'expired': True}, {'issuer': 'Sim CA other'}, {'issuer': 'Sim CA system'}))}


def gen_tls(rng):
    """C17"""
    cfg = {'tcp': [], 'bus': [], 'maps': {}, 'files': {}, 'lat': rng.choice((0.001, 0.01)), 'certs': True}
    for k in range(rng.choice((1, 2))):
        host = rng.choice(('10.0.0.%d', 'inverter%d.local')) % (k + 1)
        cert = tls_server(rng, host)
        s = {'host': host, 'port': rng.choice((802, 502)), 'units': {'1': {'full': True, 'tag': k}, '2': {'full': True, 'tag': 5 + k}}}
        if cert is not None:
            s['tls'] = cert
        cfg['tcp'].append(s)
    ops = []
    objs = []
    p = rng.choice((0.0, 0.2, 0.5))
    for k in range(rng.choice((1, 2, 2, 3))):
        s = rng.choice(cfg['tcp'])
        op = {'op': 'new', 'kind': 'tcp', 'id': 'd%d' % k, 'api': rng.choice(('modbus', 'client')), 'host': s['host'], 'port': s['port'],
              'unit': rng.choice((1, 2)), 'timeout': rng.choice((0.5, 2.0))}
        t = tls_options(rng)
        op['tls'] = t
        ops.append(op)
        objs.append(op)
    for _ in range(rng.randint(3, 10)):
        o = rng.choice(objs)
        name = rng.choice(('read', 'read', 'read', 'write', 'connect', 'disconnect', 'close', 'idle_close', 'wait'))
        if name == 'wait':
            ops.append({'op': 'wait', 'dt': 3.0})
            continue
        if name == 'idle_close':
            ops.append({'op': 'idle_close', 'link': rng.randrange(len(cfg['tcp'])), 'rst': rng.random() < 0.5})
            continue
        op = {'op': name, 'id': o['id']}
        if name in ('read', 'write'):
            op['addr'] = rng.choice((0, 40000))
            op['count'] = rng.choice((1, 4, 126))
            if name == 'write':
                op['seed'] = rng.randrange(1000)
        if rng.random() < p:
            r = rng.random()
            if r < 0.35:
                op['h'] = {'0': {'kind': rng.choice(('stall', 'reset', 'eof'))}}
            elif r < 0.65:
                # for this connection somebody else answers
                op['h'] = {'0': {'cert': rng.choice(({'issuer': 'evil'}, {'names': ['evil.local']}, {'expired': True}, {'issuer': 'Sim CA other'}, {'issuer': 'Sim CA system'}))}}
            elif r < 0.8:
                op['f'] = {'0': {'kind': rng.choice(('drop_rep', 'close_rep', 'rst_req', 'trunc'))}}
            elif r < 0.9:
                op['c'] = {'0': {'kind': rng.choice(CONNECT)}}
            else:
                op['intr'] = {'k': rng.randrange(4), 'dt': rng.choice((0.0, 0.01))}
        ops.append(op)
    return {'workload': 'w1', 'cfg': cfg, 'ops': ops}


def gen_soak(rng, kind):
    """More requests on one object than there are transaction ids."""
    cfg = {'tcp': [], 'bus': [], 'maps': {}, 'lat': 0.001}
    n = 66000
    if kind == 'tcp':
        cfg['tcp'] = [{'host': '192.168.0.1', 'port': 502, 'units': {'1': {'full': True, 'tag': 3}}}]
        new = {'op': 'new', 'kind': 'tcp', 'id': 'd0', 'host': '192.168.0.1', 'unit': 1, 'api': rng.choice(('modbus', 'client'))}
        ops = [new, {'op': 'connect', 'id': 'd0'}]
    else:
        cfg['bus'] = [{'port': '/dev/ttyUSB0', 'baud': 9600, 'parity': 'N', 'units': {'1': {'full': True, 'tag': 3}}}]
        ops = [{'op': 'new', 'kind': 'rtu', 'id': 'd0', 'port': '/dev/ttyUSB0', 'unit': 1, 'api': 'modbus'}]
    ops += [{'op': 'soak', 'id': 'd0', 'addr': 1000, 'n': n}, {'op': 'read', 'id': 'd0', 'addr': 40000, 'count': 130},
            {'op': 'close', 'id': 'd0'}]
    return {'workload': 'w1', 'cfg': cfg, 'ops': ops}


def gen(rng, prop):
    if prop == 'C08':
        return gen_ports(rng)
    if prop == 'C17':
        return gen_tls(rng)
    if prop == 'C05':
        return GenTiming(rng, prop).plan()
    return Gen(rng, prop).plan()
