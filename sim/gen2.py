"""Plan generators for workload 2: SunSpec devices with generated model definitions."""
import struct

from . import ref
from .gen1 import BAUDS, CONNECT, PORT_OPEN, RTU_READ, RTU_SEND, RTU_T, SEND, TCP_T, pick

IDS = (1, 2, 11, 101, 103, 120, 122, 124, 160, 201, 307, 403, 501, 701, 802, 64001, 64110, 65000, 65534)
BASES = (40000, 0, 50000)
ELSEWHERE = (1000, 30000)          # base addresses only devices told about them look at

# operations: dread mread set write pwrite poke scan reopen world rawread rawwrite
PROFILE = {
    'C09': dict(foreign=0.06, ops=(1, 1, 0.3, 0.2, 0, 1, 6, 2, 1, 0, 0), p=(0.0, 0.0, 0.3, 0.5), via=(1, 1), unknown=0.25, misfit=0.25, chain=0.12),
    'C10': dict(ops=(0.3, 0.3, 0, 0, 0, 0, 8, 3, 0.5, 0, 0), p=(0.0, 0.0, 0.3), via=(1, 1), unknown=0.15, misfit=0.1, pace=1.0),
    'C11': dict(ops=(3, 8, 1, 0.7, 0.3, 5, 0.5, 0.5, 1, 0, 0), p=(0.0, 0.2, 0.4), via=(1, 1), unknown=0.08, misfit=0.08),
    'C12': dict(ops=(2, 7, 5, 5, 0.5, 2, 0.3, 0.3, 0.3, 0, 0), p=(0.0, 0.0, 0.15), via=(1, 1), big=0.7, tear=0.8),
    'C13': dict(ops=(1, 2, 10, 5, 2, 1, 0.3, 0.3, 0.3, 0, 0), p=(0.0, 0.0, 0.0, 0.2), via=(1, 1), invalid=0.04),
    'C14': dict(ops=(0.4, 0.6, 9, 7, 1, 0.5, 0.2, 0.2, 0.7, 0, 0), p=(0.3, 0.5, 0.7), via=(1, 1), invalid=0.02, again=0.5),
    'C04': dict(ops=(3, 3, 3, 3, 1, 0.5, 3, 3, 2, 1, 1), p=(0.3, 0.5), via=(1, 2), unknown=0.1, misfit=0.1, invalid=0.1),
    'C06': dict(ops=(3, 4, 2, 2, 1, 0.5, 3, 2, 3, 1, 1), p=(0.3, 0.5), via=(1, 1), unknown=0.1),
    'C05': dict(ops=(3, 4, 2, 2, 1, 0.5, 3, 2, 2, 1, 1), p=(0.0, 0.3, 0.5), via=(1, 2), unknown=0.1, chain=0.08),
    'C07': dict(ops=(3, 2, 2, 2, 1, 0, 4, 4, 2, 0.5, 0.5), p=(0.0, 0.3, 0.5), via=(1, 2), unknown=0.1, misfit=0.1, kinds=(1, 0, 0), pace=0.3),
    'C08': dict(ops=(2, 2, 1, 1, 0.5, 0, 3, 6, 2, 0.5, 0.5), p=(0.0, 0.3, 0.5), via=(1, 2), unknown=0.1, kinds=(0, 1, 0), pace=0.2),
    'C15': dict(ops=(3, 4, 3, 3, 1, 1, 2, 2, 0.5, 1, 1), p=(0.0, 0.2, 0.4), via=(1, 1), unknown=0.1, kinds=(1, 1, 0.2)),
    'C18': dict(ops=(3, 3, 4, 3, 1, 1, 2, 1, 0, 0, 0), p=(0.0, 0.0, 0.3), via=(1, 3), unknown=0.15, misfit=0.1, kinds=(3, 2, 0)),
    'C19': dict(ops=(3, 4, 5, 4, 2, 2, 1, 0.7, 0, 2, 2), p=(0.0,), via=(1, 1), unknown=0.15, misfit=0.15, invalid=0.08, chain=0.05),
    'C20': dict(foreign=0.06, ops=(0,) * 11, p=(0.0, 0.3, 0.5), via=(0, 1), unknown=0.15, misfit=0.15, script=True, kinds=(2, 2, 1)),
    'C21': dict(ops=(3, 2, 0, 0, 0, 2, 1, 1, 0, 0, 0), p=(0.0, 0.0, 0.3), via=(1, 1), unknown=0.1, big=0.05, kinds=(1, 1, 1)),
    'C23': dict(ops=(3, 3, 5, 2, 0.3, 2, 1, 0.7, 0.3, 0, 0), p=(0.0, 0.0, 0.3), via=(1, 1), unknown=0.12, misfit=0.1, invalid=0.03, kinds=(3, 2, 2), script=True),
    'C24': dict(ops=(1, 1, 3, 3, 0, 0, 0, 0, 0, 0, 2), p=(0.0,), via=(1, 1), unknown=0.1, kinds=(0, 0, 1), script=True),
    'C17': dict(ops=(3, 3, 2, 2, 1, 0, 3, 3, 2, 0.5, 0.5), p=(0.0, 0.3, 0.5), via=(1, 2), unknown=0.05, kinds=(1, 0, 0), tls=0.9, badtls=True),
    'C16': dict(ops=(3, 2, 0.3, 0.3, 0, 0.5, 6, 2, 0, 0, 0), p=(0.0, 0.0, 0.3), via=(1, 1), unknown=0.05, misfit=0.05, kinds=(1, 1, 1)),
    'C25': dict(ops=(3, 2, 0.3, 0.3, 0, 0.5, 6, 2, 0, 0, 0), p=(0.0, 0.0, 0.3), via=(1, 1), unknown=0.05, misfit=0.05, kinds=(1, 1, 1)),
    'C27': dict(ops=(3, 5, 6, 3, 0.5, 3, 1, 1, 0.5, 0, 0), p=(0.0, 0.2, 0.4), via=(0, 1), unknown=0.1, misfit=0.1, invalid=0.05, kinds=(2, 1, 2)),
    'C26': dict(ops=(2, 3, 3, 2, 0.5, 3, 1, 0.5, 0, 0, 0), p=(0.0, 0.0, 0.3), via=(1, 1), unknown=0.05, misfit=0.05, kinds=(1, 1, 1)),
}


# ---- definitions -------------------------------------------------------------------

WEIGHTED = (['int16'] * 4 + ['uint16'] * 4 + ['count'] + ['acc16'] * 2 + ['enum16'] * 2 + ['bitfield16'] * 2 + ['int32'] * 2 +
            ['uint32'] * 2 + ['acc32'] * 2 + ['enum32', 'bitfield32', 'ipaddr'] + ['int64', 'uint64', 'acc64'] * 2 +
            ['ipv6addr', 'eui48'] + ['float32'] * 3 + ['string'] * 3 + ['pad'])

SYMBOLS = ('OFF', 'ON', 'FAULT')


def gen_points(rng, prefix, size, gaps, sfs_known, sfs_local, textual):
    """Points of one block of about 'size' registers.  Returns (points, block length)."""
    pts = []
    off = 0
    n = 0
    local = []
    # scale factor registers of this block, placed anywhere in it
    nsf = rng.choice((0, 1, 1, 2, 3)) if size >= 4 else 0
    for i in range(nsf):
        local.append('%s%d' % (sfs_local, i))
    pending = list(local)
    while off < size:
        if rng.random() < gaps:
            off += rng.choice((1, 2, 5))
            if off >= size:
                break
        left = size - off
        if pending and (rng.random() < 0.25 or left <= len(pending)):
            pts.append({'id': pending.pop(0), 'off': off, 'type': 'sunssf'})
            off += 1
            continue
        t = rng.choice(WEIGHTED)
        p = {'id': '%s%d' % (prefix, n), 'off': off, 'type': t}
        if t == 'string':
            p['len'] = min(left, rng.choice((1, 2, 4, 8, 16, 16, 20, 33)))
        elif ref.LEN[t] > left:
            t = p['type'] = rng.choice(('int16', 'uint16', 'enum16', 'pad'))
        if t == 'pad' and rng.random() < 0.5:
            p['len'] = 1
        n += 1
        names = local + sfs_known
        if t in ref.SCALED and rng.random() < 0.6:
            r = rng.random()
            if r < 0.2:
                p['sf'] = str(rng.choice((-3, -2, -1, 0, 1, 2, 3)))
            elif names:
                p['sf'] = rng.choice(names)
        if rng.random() < 0.6:
            p['access'] = 'rw' if rng.random() < 0.8 else 'r'
        if textual:
            if rng.random() < 0.5:
                p['label'] = rng.choice(('Amps', 'DC Power', 'Manufacturer', 'Phase A', 'Status & Mode', 'Wert <x>'))
            if rng.random() < 0.4:
                p['units'] = rng.choice(('A', 'W', 'VAr', 'Pct', '% WMax'))
        if t in ('enum16', 'bitfield16', 'enum32') and rng.random() < 0.4:
            p['symbols'] = list(SYMBOLS[:rng.randint(1, 3)])
        if rng.random() < 0.2:
            p['mandatory'] = True
        pts.append(p)
        off += ref.plen(p)
    for s in pending:
        pts.append({'id': s, 'off': off, 'type': 'sunssf'})
        off += 1
    return pts, off, local


def gen_def(rng, mid, big=0.2, textual=True):
    d = {'id': mid}
    r = rng.random()
    if r < 0.7:
        d['name'] = 'm%d' % mid
    elif r < 0.8:
        d['name'] = 'inverter_%d' % mid
    if rng.random() < 0.7:
        d['label'] = rng.choice(('Common', 'Inverter', 'MPPT & more', 'Basic Settings'))
    r = rng.random()
    rep = rng.random() < 0.45
    if r < big:
        size = rng.choice((120, 123, 124, 125, 126, 127, 130, 180, 240, 250, 251, 300, 400))
    elif r < big + 0.1:
        size = rng.choice((1, 2, 3))
    else:
        size = rng.choice((4, 8, 16, 24, 40, 66, 90))
    gaps = rng.choice((0, 0, 0.1, 0.3))
    nofixed = rep and rng.random() < 0.06
    if nofixed:
        pts, n, sfs = [], 0, []
        d['nofixed'] = rng.random() < 0.5
    else:
        pts, n, sfs = gen_points(rng, 'F', size, gaps, [], 'S', textual)
    d['fixed'] = {'len': n, 'points': pts}
    if rng.random() < 0.2:
        d['fixed']['explicit'] = True
    if rep:
        size = rng.choice((1, 2, 4, 8, 20, 20, 50, 62)) if rng.random() < 0.85 else rng.choice((100, 125, 130))
        prefix = 'R' if rng.random() < 0.8 else 'F'
        pts, n, _ = gen_points(rng, prefix, size, gaps, sfs, rng.choice(('L', 'L', 'S')), textual)
        if prefix == 'F':
            for p in pts:
                p.pop('label', None)
                p.pop('symbols', None)
        d['rep'] = {'len': n, 'points': pts}
        if rng.random() < 0.4:
            d['rep']['name'] = rng.choice(('repeating', 'module', 'curve'))
    d['len'] = d['fixed']['len'] + (d['rep']['len'] if rep and rng.random() < 0.8 else 0)
    return d


def common_def(rng):
    """The common model, whose length in the field is 65 or 66."""
    pts = []
    off = 0
    for pid, n in (('Mn', 16), ('Md', 16), ('Opt', 8), ('Vr', 8), ('SN', 16)):
        pts.append({'id': pid, 'off': off, 'type': 'string', 'len': n, 'label': 'Manufacturer' if pid == 'Mn' else pid})
        off += n
    pts.append({'id': 'DA', 'off': off, 'type': 'uint16', 'access': 'rw'})
    pts.append({'id': 'Pad', 'off': off + 1, 'type': 'pad'})
    return {'id': 1, 'name': 'common', 'label': 'Common', 'len': 66, 'fixed': {'len': 66, 'points': pts}}


# ---- register contents -----------------------------------------------------------------

TEXT = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -_./:'


def gen_string(rng, n, printable):
    k = rng.choice((1, 2, 2 * n - 1, 2 * n, rng.randint(1, 2 * n)))
    k = max(1, min(k, 2 * n))
    if printable or rng.random() < 0.7:
        s = ''.join(rng.choice(TEXT) for _ in range(k))
        if printable:
            s = s.strip() or 'x'
    else:
        s = ''.join(chr(rng.randrange(1, 256)) for _ in range(k))
    return s


def gen_raw(rng, t, n, printable=False):
    """Register data of one point: ordinary values, extremes and 'not implemented'."""
    r = rng.random()
    if t == 'sunssf':
        v = rng.choice((-3, -2, -1, -1, 0, 0, 1, 2, 3)) if r < 0.85 else rng.choice((-10, -6, 5, 10)) if r < 0.93 else -32768
        return ref.encode(t, 1, v)
    if t in ref.INTS:
        bits = 16 * n
        if r < 0.12:
            v = 0 if t in ref.ZERO_UNIMPL else (1 << (bits - 1)) if t in ref.SIGNED else (1 << bits) - 1
        elif r < 0.3:
            v = rng.choice((0, 1, (1 << bits) - 1, (1 << bits) - 2, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << (bits - 1)) + 1, 255, 256))
        elif r < 0.6:
            v = rng.randrange(1, 10000)
        elif r < 0.7:
            v = -rng.randrange(1, 10000)
        else:
            v = rng.getrandbits(bits)
        return (v & ((1 << bits) - 1)).to_bytes(2 * n, 'big')
    if t == 'float32':
        if r < 0.12:
            return bytes.fromhex(rng.choice(('7fc00000', '7fc00000', '7fc00001', 'ffc00000', '7f800001')))
        if r < 0.2:
            return bytes.fromhex(rng.choice(('00000000', '80000000', '7f800000', 'ff800000', '00000001', '7f7fffff')))
        return struct.pack('>f', rng.choice((1.0, -1.5, 230.25, 49.98, 1e-6, 3.5e9, rng.uniform(-1000, 1000))))
    if t == 'ipv6addr':
        return bytes(16) if r < 0.15 else bytes(rng.choice((0, 255, rng.randrange(256))) for _ in range(15)) + bytes([rng.randrange(1, 256)])
    if t == 'eui48':
        if r < 0.08:
            return bytes(8)
        if r < 0.15:
            return b'\xff' * 8
        return b'\0\0' + bytes(rng.choice((0, 255, rng.randrange(256))) for _ in range(5)) + bytes([rng.randrange(1, 255)])
    if t == 'string':
        if r < 0.12:
            return bytes(2 * n)
        return gen_string(rng, n, printable).encode('latin-1').ljust(2 * n, b'\0')
    return b'\x80\0' * n


def fill(rng, inst, defs, addr, printable):
    """Register data of one model instance."""
    data = bytearray(rng.getrandbits(8) for _ in range(2 * inst['len']))
    d = defs.get(inst['id'])
    if d is not None:
        blocks, _ = ref.expand(d, inst['len'], addr)
        for b in blocks:
            for q in b.all.values():
                o = 2 * (q.addr - addr)
                raw = gen_raw(rng, q.type, q.len, printable)
                if o + len(raw) <= len(data):
                    data[o:o + len(raw)] = raw
    return bytes(data)


# ---- devices -----------------------------------------------------------------------------

class Gen(object):

    def __init__(self, rng, prop):
        self.rng = rng
        self.prop = prop
        self.pr = PROFILE[prop]
        self.cfg = {'tcp': [], 'bus': [], 'files': {}, 'sun': {}, 'defs': {}, 'path': ['models']}
        self.ops = []
        self.objs = []
        self.nid = 0
        self.p = rng.choice(self.pr['p'])
        from .gen1 import REPLY, RTU_ONLY, TCP_ONLY
        self.kinds = [k for k in REPLY + TCP_ONLY + RTU_ONLY if rng.random() < 0.5] or ['drop_rep']
        self.links = [k for k in ('c', 's', 'r', 'x', 'intr') if rng.random() < 0.6]
        self.benign = rng.choice((0.0, 0.2, 0.6))
        self.printable = bool(self.pr.get('script'))
        self.tag = 0

    def gen_defs(self):
        rng = self.rng
        n = rng.choice((1, 2, 3, 3, 4))
        ids = rng.sample(IDS, n)
        big = self.pr.get('big', 0.2)
        for mid in ids:
            if mid == 1:
                d = common_def(rng)
            else:
                d = gen_def(rng, mid, big)
            self.cfg['defs'][str(mid)] = d
            self.cfg['files']['models/' + ref.file_name(mid)] = ref.to_xml(d)
        self.defs = dict((int(k), v) for k, v in self.cfg['defs'].items())

    def instance(self):
        """One model of a device: id and length."""
        rng = self.rng
        if rng.random() < self.pr.get('unknown', 0.05):
            mid = rng.choice([i for i in IDS + (3, 999, 64999) if i not in self.defs])
            return {'id': mid, 'len': rng.choice((0, 1, 4, 50, 200))}
        mid = rng.choice(sorted(self.defs))
        d = self.defs[mid]
        f = d['fixed']['len']
        if mid == 1 and d.get('name') == 'common':
            n = rng.choice((65, 66))
            if rng.random() < self.pr.get('misfit', 0.03):
                n = rng.choice((30, 64, 67))
            return {'id': mid, 'len': n}
        if d.get('rep'):
            rl = d['rep']['len']
            k = rng.choice((0, 1, 1, 2, 3, 5)) if f + 5 * rl < 700 else rng.choice((1, 2))
            if rng.random() < 0.08 and f + 10 * rl < 300:
                k = rng.choice((10, 12, min(101, (300 - f) // rl)))
            n = f + k * rl
            if n == 0:
                n = rl
            if rng.random() < self.pr.get('misfit', 0.03):
                n += rng.choice((-1, 1, rl // 2 or 1))
        else:
            n = f
            r = rng.random()
            if r < self.pr.get('misfit', 0.03):
                n = f - rng.choice((1, 2, f // 2 or 1))
            elif r < self.pr.get('misfit', 0.03) + 0.05:
                n = f + rng.choice((1, 2, 10))
        return {'id': mid, 'len': max(n, 1)}

    def gen_device(self, name):
        """Registers of one SunSpec device; records its layout under cfg['sun'][name]."""
        rng = self.rng
        if rng.random() < self.pr.get('foreign', 0.02):
            return self.other_device(name)
        base = rng.choice((40000, 40000, 0, 50000))
        if self.prop in ('C09', 'C10') and rng.random() < 0.1:
            base = rng.choice(ELSEWHERE)
        models = [self.instance() for _ in range(rng.choice((1, 1, 2, 2, 3, 4, 6)))]
        if rng.random() < self.pr.get('chain', 0.02):
            r = rng.random()
            if r < 0.4:
                # no end marker: a list of models that runs out of the address space or into nothing
                models += [{'id': rng.choice((3, 999)), 'len': rng.choice((20, 500, 5000))} for _ in range(rng.choice((1, 4, 30)))]
                endless = rng.choice(('nothing', 'space'))
                return self.emit(name, base, models, endless)
            # many models
            models += [{'id': rng.choice((3, 999, 64999)), 'len': rng.choice((0, 1, 2))} for _ in range(rng.choice((20, 60)))]
        if rng.random() < 0.05 and self.pr.get('chain'):
            # the end marker sits in the very last register
            used = base + 2 + sum(m['len'] + 2 for m in models)
            if used + 2 < 0xffff:
                models.append({'id': 999, 'len': 0xffff - used - 2})
                return self.emit(name, base, models, None, nolen=True)
        return self.emit(name, base, models, None)

    def other_device(self, name):
        """A Modbus device that is no SunSpec device."""
        rng = self.rng
        mem = []
        for b in BASES:
            r = rng.random()
            if r < 0.5:
                junk = rng.choice(('00000000', '53756e54', 'ffffffff', '53750000', '73756e73', '53554e53', '00015375', '6e530001', '75536e53', '53'.ljust(8, '0'), '000053756e53', '0053756e5300'))
                mem.append([b, junk + rng.choice(('0001', 'ffff', '0000')) + ''.join('%04x' % rng.randrange(0x10000) for _ in range(rng.choice((0, 2, 70))))])
            elif r < 0.6:
                # the marker is there, but not at a place where it counts
                mem.append([b + 2, '53756e530001004200'.ljust(20, '0')])
            elif r < 0.7:
                # too short to be one
                mem.append([b, rng.choice(('5375', '53756e53'))])
        if not mem:
            mem.append([100, '1234567800000000'])
        self.cfg['sun'][name] = {'base': -1, 'models': [], 'foreign': True}
        self.tag += 1
        return {'mem': mem, 'tag': self.tag}

    def emit(self, name, base, models, endless, nolen=None):
        rng = self.rng
        mem = []
        a = base
        buf = b'SunS'
        for m in models:
            m['addr'] = a + len(buf) // 2 + 2
            if m['addr'] + m['len'] > 0x10000:
                m['len'] = 0x10000 - m['addr']
            if m['addr'] >= 0x10000:
                break
            buf += struct.pack('>HH', m['id'], m['len'])
            if m['len'] > 1000:
                # only the header exists, contents are never read (the id is unknown)
                mem.append([a, buf.hex()])
                a, buf = m['addr'] + m['len'], b''
            else:
                buf += fill(rng, m, self.defs, m['addr'], self.printable)
        models = [m for m in models if m.get('addr', 0x10000) < 0x10000]
        if endless == 'space':
            # models without end up to the last address
            while a + len(buf) // 2 + 2 <= 0x10000:
                n = min(rng.choice((4000, 9000)), 0x10000 - (a + len(buf) // 2 + 2))
                addr = a + len(buf) // 2 + 2
                models.append({'id': 999, 'len': n, 'addr': addr})
                buf += struct.pack('>HH', 999, n)
                mem.append([a, buf.hex()])
                a, buf = addr + n, b''
        elif endless is None:
            buf += b'\xff\xff'
            if not (nolen or rng.random() < 0.4):
                buf += b'\0\0'
        if buf:
            mem.append([a, buf.hex()])
        # other bases hold something else
        for b in BASES:
            if b != base and rng.random() < 0.25:
                end = max(x + len(h) // 4 for x, h in mem)
                if not any(x - 8 < b < x + len(h) // 4 + 8 for x, h in mem):
                    junk = rng.choice(('00000000', '53756e', '53756e54', 'ffffffff', '5375')).ljust(12, '0')
                    mem.append([b, junk + '0000'])
        self.cfg['sun'][name] = {'base': base, 'models': models}
        if endless:
            self.cfg['sun'][name]['endless'] = True
        self.tag += 1
        return {'mem': mem, 'tag': self.tag}

    # ---- topology ---------------------------------------------------------------------

    def topology(self):
        rng, cfg = self.rng, self.cfg
        cfg['lat'] = rng.choice((0.0005, 0.001, 0.01))
        if rng.random() < 0.15:
            cfg['max_send'] = rng.choice((5, 12, 100))
        if rng.random() < 0.5:
            cfg['coalesce'] = True
        if rng.random() < 0.2:
            cfg['chunk'] = rng.choice((1, 5, 64))
        self.places = []
        for k in range(rng.choice((1, 1, 1, 2))):
            kind = ('tcp', 'rtu', 'map')[pick(rng, self.pr.get('kinds', (5, 4, 2)))]
            self.add_place(kind)

    def add_place(self, kind):
        rng, cfg = self.rng, self.cfg
        if kind == 'tcp':
            i = len(cfg['tcp'])
            units = {}
            for u in rng.sample((1, 2, 3, 126, 247), rng.choice((1, 1, 2))):
                units[str(u)] = self.gen_device('tcp%d.%d' % (i, u))
            s = {'host': '10.0.0.%d' % (i + 1), 'port': rng.choice((502, 502, 5020)), 'units': units}
            s['secure'] = rng.random() < self.pr.get('tls', 0 if self.pr.get('script') else 0.08)
            if s['secure']:
                from . import gen1
                cfg['certs'] = True
                cert = gen1.tls_server(rng, s['host']) if self.pr.get('badtls') and rng.random() < 0.4 else \
                    {'issuer': 'Sim CA ca', 'names': [s['host']], 'want_client': rng.random() < 0.5}
                if cert is not None:
                    s['tls'] = cert
            cfg['tcp'].append(s)
            self.places.append(('tcp', i))
        elif kind == 'rtu':
            i = len(cfg['bus'])
            units = {}
            for u in rng.sample((1, 2, 3, 126, 247), rng.choice((1, 1, 2))):
                units[str(u)] = self.gen_device('bus%d.%d' % (i, u))
            cfg['bus'].append({'port': '/dev/ttyUSB%d' % i, 'units': units, 'baud': rng.choice(BAUDS), 'parity': rng.choice('NNE')})
            self.places.append(('rtu', i))
        else:
            i = sum(1 for p in self.places if p[0] == 'map')
            f = 'dev%d.xml' % i
            spec = self.gen_device('map:' + f)
            cfg['files']['maps/' + f] = map_xml(rng, spec['mem'])
            cfg.setdefault('mapmem', {})['map:' + f] = spec['mem']
            self.places.append(('map', f))

    def open(self):
        rng, cfg = self.rng, self.cfg
        kind, i = rng.choice(self.places)
        op = {'op': 'open', 'id': 'd%d' % self.nid, 'kind': kind, 'via': ('client', 'sunspec')[pick(rng, self.pr['via'])]}
        self.nid += 1
        if kind == 'tcp':
            s = cfg['tcp'][i]
            op['unit'] = int(rng.choice(sorted(s['units'])))
            op['host'] = s['host']
            if s['port'] != 502 or rng.random() < 0.5:
                op['port'] = s['port']
            if rng.random() < 0.6:
                op['timeout'] = rng.choice(TCP_T)
            if s.get('secure'):
                from . import gen1
                op['tls'] = {'cafile': 'ca.pem', 'certfile': 'client.pem', 'keyfile': 'client.key', 'skip': rng.random() < 0.2}
                if self.pr.get('badtls') and rng.random() < 0.4:
                    op['tls'] = gen1.tls_options(rng)
            op['dev'] = 'tcp%d.%d' % (i, op['unit'])
        elif kind == 'rtu':
            b = cfg['bus'][i]
            op['unit'] = int(rng.choice(sorted(b['units'])))
            op['port'] = b['port']
            if b['baud'] != 9600 or rng.random() < 0.5:
                op['baudrate'] = b['baud']
            if b['parity'] != 'N' or rng.random() < 0.5:
                op['parity'] = b['parity']
            if rng.random() < 0.6:
                op['timeout'] = rng.choice(RTU_T)
            op['dev'] = 'bus%d.%d' % (i, op['unit'])
        else:
            op['unit'] = rng.choice((1, 2))
            op['file'] = i
            op['dev'] = 'map:' + i
        base = cfg['sun'][op['dev']]['base']
        if self.prop in ('C09', 'C10') and (base in ELSEWHERE and rng.random() < 0.9 or rng.random() < 0.08):
            # the addresses to try are the user's
            op['via'] = 'client'
            op['bases'] = [b for b in BASES + ELSEWHERE if rng.random() < 0.5]
            if base >= 0 and base not in op['bases'] and rng.random() < 0.8 or not op['bases']:
                op['bases'].append(max(base, 0))
            rng.shuffle(op['bases'])
        if self.prop == 'C15' and rng.random() < 0.4:
            op['tr'] = 'print'
        if op['via'] == 'sunspec':
            self.pace(op)
            self.decorate(op, op, nreq=3 + 2 * len(cfg['sun'][op['dev']]['models']))
        self.ops.append(op)
        self.objs.append(op)
        if op['via'] == 'client' and rng.random() < 0.95:
            self.scan(op)
        return op

    def pace(self, op):
        """Progress function and delay of a scan."""
        rng = self.rng
        n = len(self.cfg['sun'][op['dev']]['models'])
        f = self.pr.get('pace', 0.15)
        if rng.random() < f * 0.8:
            op['progress'] = True
            if rng.random() < 0.25:
                op['cancel'] = rng.randrange(n + 1)
                op['cancel_with'] = rng.choice((False, False, None, 0, 'raise'))
        if rng.random() < f * 0.8:
            op['delay'] = rng.choice((0.0, 0.01, 0.25, 1.0, 3.0))

    def scan(self, o):
        op = {'op': 'scan', 'id': o['id'], 'dev': o['dev']}
        self.pace(op)
        self.decorate(op, o, nreq=3 + 2 * len(self.cfg['sun'][o['dev']]['models']))
        del op['dev']
        self.ops.append(op)

    # ---- faults ----------------------------------------------------------------------------

    def timeout(self, o):
        return o.get('timeout') or (2.0 if o['kind'] == 'tcp' else 0.5)

    def decorate(self, op, o, nreq, write=False):
        rng = self.rng
        if o['kind'] == 'map':
            if rng.random() < self.p * 0.4 and op['op'] == 'open':
                op['o'] = {'0': {'kind': rng.choice(('eacces', 'emfile', 'enoent', 'eio'))}}
            return
        from .gen1 import Gen as G1
        shim = self
        for k in range(min(nreq, 8)):
            if rng.random() < self.benign * 0.3:
                f = G1.benign_fault(shim, o, write, 125)
                f.pop('mut', None)
                if f:
                    op.setdefault('f', {})[str(k)] = f
        if rng.random() >= self.p:
            return
        for _ in range(rng.choice((1, 1, 1, 2))):
            if o.get('tls') and rng.random() < (0.5 if self.pr.get('badtls') else 0.2):
                from .gen1 import tls_fault
                op.setdefault('h', {})[rng.choice('0001')] = tls_fault(rng)
                continue
            where = rng.choice(['f', 'f', 'f', 'f'] + self.links)
            if where == 'f':
                f = G1.reply_fault(shim, o)
                if f['kind'] == 'crash':
                    f['down'] = rng.choice((0.0, 0.5, 3.0))
                op.setdefault('f', {})[str(rng.randrange(nreq))] = f
            elif where == 'c':
                if o['kind'] == 'tcp':
                    n = 1 if op['op'] in ('open', 'scan') else nreq
                    op.setdefault('c', {})[str(rng.randrange(n))] = {'kind': rng.choice(CONNECT)}
                elif op['op'] == 'open':
                    op.setdefault('c', {})['0'] = {'kind': rng.choice(PORT_OPEN)}
            elif where == 's':
                f = {'kind': rng.choice(SEND if o['kind'] == 'tcp' else RTU_SEND)}
                if o['kind'] == 'tcp' and rng.random() < 0.4:
                    f['n'] = rng.choice((1, 7, 11))
                op.setdefault('s', {})[str(rng.randrange(nreq))] = f
            elif where == 'r' and o['kind'] == 'rtu':
                op.setdefault('r', {})[str(rng.randrange(2 * nreq))] = {'kind': rng.choice(RTU_READ)}
            elif where == 'x':
                op.setdefault('x', {})['0'] = {'kind': 'close_error'}
            elif where == 'intr':
                op['intr'] = {'k': rng.randrange(2 * nreq + 2), 'dt': rng.choice((0.0, 0.0, 0.0004, 0.01, 0.3))}

    cto = False

    # ---- operations -----------------------------------------------------------------------------

    def known_models(self, o):
        """Indices and blocks of the models of a device that can be used."""
        out = []
        for i, m in enumerate(self.cfg['sun'][o['dev']]['models']):
            d = self.defs.get(m['id'])
            if d is not None:
                blocks, why = ref.expand(d, m['len'], m['addr'])
                if why is None:
                    out.append((i, m, blocks))
        return out

    def model_reqs(self, m):
        return (m['len'] + 119) // 120 + 1

    def value_for(self, q, inv=False):
        """A value to set: {'raw': base value} for numbers, {'v': value} for others."""
        rng = self.rng
        t, n = q.type, q.len
        if inv:
            if t in ref.INTS:
                lo, hi = ref.limits(t)
                return {'raw': rng.choice((hi + 1, lo - 1, hi + 1000)), 'bad': True} if ref.LEN[t] < 4 or not (q.sf or q.sfp) else {'raw': 1}
            if t == 'string':
                return {'v': '\u20ac\u20ac', 'bad': True}
            if t == 'float32':
                return {'v': 1e39, 'bad': True}
            if t in ('ipv6addr', 'eui48'):
                return {'v': 'nonsense', 'bad': True}
        if t in ref.INTS:
            lo, hi = ref.limits(t)
            if q.sf or q.sfp:
                lo, hi = max(lo, -(1 << 48)), min(hi, 1 << 48)
            return {'raw': rng.choice((lo, hi, lo + 1, hi - 1, 0, 1, min(hi, 12345), rng.randint(lo, hi), rng.randint(lo, hi))),
                    'as': rng.choice(('num', 'num', 'num', 'str', 'hex', 'float') if self.prop in ('C13', 'C14') else
                                     ('num', 'num', 'num', 'str', 'hex'))}
        if t == 'float32':
            return {'v': struct.unpack('>f', struct.pack('>f', rng.choice((0.0, 1.5, -230.25, 1e-6, 3.5e9, rng.uniform(-1e6, 1e6)))))[0]}
        if t == 'string':
            return {'v': gen_string(rng, n, True)}
        if t == 'ipv6addr':
            h = ''.join('%02X' % rng.choice((0, 255, rng.randrange(256))) for _ in range(15)) + '%02X' % rng.randrange(1, 256)
            v = ':'.join(h[i:i + 8] for i in range(0, 32, 8))
        else:
            v = ':'.join('%02X' % rng.randrange(1, 255) for _ in range(6))
        if self.prop in ('C13', 'C14') and rng.random() < 0.3:
            v = v.lower()
        return {'v': v}

    def set(self, o, km):
        rng = self.rng
        i, m, blocks = km
        b = rng.choice(blocks)
        ids = sorted(b.points)
        if not ids:
            return
        pid = rng.choice(ids)
        op = {'op': 'set', 'id': o['id'], 'm': i, 'b': b.index, 'p': pid, 'how': rng.choice(('attr', 'item', 'point'))}
        op.update(self.value_for(b.points[pid], rng.random() < self.pr.get('invalid', 0)))
        self.ops.append(op)
        return op

    def poke_pairs(self, o, km=None, straddle=None):
        """Register changes in a device: whole new contents of some points."""
        rng = self.rng
        pairs = []
        kms = [km] if km is not None else self.known_models(o)
        if not kms:
            return pairs
        for _ in range(rng.choice((1, 2, 5))):
            i, m, blocks = rng.choice(kms)
            b = rng.choice(blocks)
            qs = [q for q in b.all.values() if q.type != 'sunssf' or m['len'] <= 125]
            if straddle:
                qs = [q for q in qs if q.len > 1 and q.type != 'sunssf'] or qs
            if not qs:
                continue
            q = rng.choice(sorted(qs, key=lambda x: x.addr))
            raw = gen_raw(rng, q.type, q.len, self.printable)
            for k in range(q.len):
                pairs.append([q.addr + k, struct.unpack('>H', raw[2 * k:2 * k + 2])[0]])
        return pairs

    def tear(self, op, o, km, nreq):
        """Let the device change its points between the requests of the operation."""
        rng = self.rng
        if o['kind'] == 'map' or rng.random() >= self.pr.get('tear', 0.15):
            return
        for k in range(min(nreq, 8)):
            if rng.random() < 0.6:
                pairs = self.poke_pairs(o, km, straddle=True)
                if pairs:
                    op.setdefault('f', {}).setdefault(str(k), {})['poke'] = pairs

    def vanish(self, o):
        """A scaled point that stops being implemented while its scale factor changes, and is set then."""
        rng = self.rng
        kms = [km for km in self.known_models(o) if km[1]['len'] <= 125]
        qs = [(km, b, q) for km in kms for b in km[2] for q in b.points.values() if q.sfp is not None and q.type in ref.INTS]
        if not qs:
            return
        km, b, q = rng.choice(qs)

        def regs(x, raw):
            return [[x.addr + k, struct.unpack('>H', raw[2 * k:2 * k + 2])[0]] for k in range(x.len)]
        for gone in (False, True):
            bits = 16 * q.len
            v = (0 if q.type in ref.ZERO_UNIMPL else (1 << (bits - 1)) if q.type in ref.SIGNED else (1 << bits) - 1) if gone else 7
            pairs = regs(q, v.to_bytes(2 * q.len, 'big'))
            if gone or rng.random() < 0.5:
                pairs += regs(q.sfp, struct.pack('>h', rng.randint(-4, 4)))
            self.ops.append({'op': 'poke', 'dev': o['dev'], 'pairs': pairs})
            op = {'op': 'mread', 'id': o['id'], 'm': km[0], 'how': rng.choice(('attr', 'model'))}
            self.decorate(op, o, 1)
            self.ops.append(op)
        op = {'op': 'set', 'id': o['id'], 'm': km[0], 'b': b.index, 'p': q.id, 'how': rng.choice(('attr', 'item', 'point'))}
        op.update(self.value_for(q))
        self.ops.append(op)
        op = {'op': 'write', 'id': o['id'], 'm': km[0], 'how': 'model'}
        self.decorate(op, o, 1, True)
        self.ops.append(op)

    def one(self):
        rng = self.rng
        o = rng.choice(self.objs)
        if self.prop in ('C11', 'C13', 'C14', 'C19') and rng.random() < 0.06:
            self.vanish(o)
            return
        name = ('dread', 'mread', 'set', 'write', 'pwrite', 'poke', 'scan', 'reopen', 'world', 'rawread', 'rawwrite')[pick(rng, self.pr['ops'])]
        kms = self.known_models(o)
        if name == 'dread':
            op = {'op': 'dread', 'id': o['id']}
            n = sum(self.model_reqs(m) for _, m, _ in kms) or 1
            self.tear(op, o, None, n)
            self.decorate(op, o, n)
        elif name in ('mread', 'write'):
            if not kms:
                return
            km = rng.choice(kms)
            op = {'op': name, 'id': o['id'], 'm': km[0], 'how': rng.choice(('attr', 'model'))}
            if name == 'write':
                if rng.random() < 0.6:
                    for _ in range(rng.choice((1, 2, 3, 6, 20) if self.prop in ('C12', 'C13', 'C14', 'C19') else (1, 2, 3))):
                        self.set(o, km)
                if self.prop in ('C12', 'C14') and rng.random() < 0.35:
                    # a long run of neighbouring points
                    b = rng.choice(km[2])
                    qs = sorted(b.points.values(), key=lambda q: q.addr)
                    a = rng.randrange(len(qs)) if qs else 0
                    for q in qs[a:a + rng.choice((5, 20, 80))]:
                        s = {'op': 'set', 'id': o['id'], 'm': km[0], 'b': b.index, 'p': q.id, 'how': 'point'}
                        s.update(self.value_for(q))
                        self.ops.append(s)
                self.decorate(op, o, rng.choice((1, 2, 4)), True)
            else:
                n = self.model_reqs(km[1])
                self.tear(op, o, km, n)
                self.decorate(op, o, n)
        elif name == 'set':
            if kms:
                self.set(o, rng.choice(kms))
            return
        elif name == 'pwrite':
            if not kms:
                return
            s = self.set(o, rng.choice(kms))
            if s is None:
                return
            op = {'op': 'pwrite', 'id': o['id'], 'm': s['m'], 'b': s['b'], 'p': s['p']}
            self.decorate(op, o, 1, True)
        elif name == 'poke':
            pairs = self.poke_pairs(o)
            if not pairs:
                return
            op = {'op': 'poke', 'dev': o['dev'], 'pairs': pairs}
        elif name == 'scan':
            if o['via'] == 'client' and self.prop == 'C09' and rng.random() < 0.12:
                # not a SunSpec device for a while
                bad = rng.choice(([0, 0], [0x5375, 0x6e73], [0x5375, 0], [0x7375, 0x6e73], [0x5374, 0x6e53], [0xffff, 0xffff], [0x6e53, 0x5375]))
                self.ops.append({'op': 'marker', 'dev': o['dev'], 'v': bad})
                self.scan(o)
                if rng.random() < 0.8:
                    self.ops.append({'op': 'marker', 'dev': o['dev'], 'v': [0x5375, 0x6e53]})
                    self.scan(o)
                return
            if o['via'] == 'client':
                self.scan(o)
            elif len(self.objs) < 6:
                self.open()
            return
        elif name == 'reopen':
            r = rng.random()
            if r < 0.5 and len(self.objs) < 6:
                self.open()
                return
            if r < 0.75:
                op = {'op': 'close', 'id': o['id']}
                if rng.random() < self.p * 0.3:
                    op['x'] = {'0': {'kind': 'close_error'}}
            else:
                if o['kind'] != 'tcp':
                    return
                op = {'op': rng.choice(('connect', 'connect', 'disconnect')), 'id': o['id']}
                if rng.random() < self.p * 0.5 and op['op'] == 'connect':
                    op['c'] = {'0': {'kind': rng.choice(CONNECT)}}
        elif name == 'world':
            c = ['wait']
            if self.p > 0 and self.cfg['tcp']:
                c += ['idle_close', 'idle_close', 'outage']
            if self.p > 0 and self.cfg['bus']:
                c += ['unplug']
            w = rng.choice(c)
            if w == 'wait':
                op = {'op': 'wait', 'dt': rng.choice((0.1, 5.0))}
            elif w == 'unplug':
                op = {'op': 'unplug', 'port': rng.choice(self.cfg['bus'])['port'], 'present': rng.random() < 0.6}
            else:
                op = {'op': w, 'link': rng.randrange(len(self.cfg['tcp']))}
                if w == 'outage':
                    op['dt'] = rng.choice((0.5, 4.0))
                elif rng.random() < 0.4:
                    op['rst'] = True
        else:
            models = self.cfg['sun'][o['dev']]['models']
            if not models:
                return
            m = rng.choice(models)
            if m['len'] == 0 or m['len'] > 1000:
                return
            a = rng.randrange(m['len'])
            n = min(rng.choice((1, 2, 20, 123)), m['len'] - a)
            if rng.random() < 0.15:
                a, n = rng.choice(((m['len'] + 4000, 1), (m['len'] - 1, 123), (-m['addr'] - 1, 1), (70000, 2)))
                if name == 'rawwrite' and 0 <= a + m['addr'] < 0x10000:
                    a, n = 70000, 2            # other models are left alone
            op = {'op': name, 'id': o['id'], 'addr': m['addr'] + a, 'count': n}
            if name == 'rawwrite':
                d = self.defs.get(m['id'])
                if d is not None and ref.expand(d, m['len'], m['addr'])[1] is not None:
                    return                     # scale factors may be among its points
                if d is not None:
                    # only whole points, so that the contents stay meaningful
                    bl = ref.expand(d, m['len'], m['addr'])[0]
                    q = rng.choice(sorted([q for b in bl for q in b.points.values()], key=lambda q: q.addr) or [None])
                    if q is None:
                        return
                    op['addr'], op['count'] = q.addr, q.len
                    op['data'] = gen_raw(rng, q.type, q.len).hex()
                op.setdefault('data', ''.join('%04x' % rng.randrange(0x10000) for _ in range(op['count'])))
            self.decorate(op, o, 1, name == 'rawwrite')
        self.ops.append(op)
        if op['op'] in ('write', 'mread', 'dread', 'pwrite') and rng.random() < self.pr.get('again', 0.15):
            # the same again without faults
            if self.p > 0:
                self.ops.append({'op': 'wait', 'dt': 40.0})
            new = dict((k, v) for k, v in op.items() if k in ('op', 'id', 'm', 'b', 'p', 'how'))
            self.ops.append(new)

    def plan(self):
        rng = self.rng
        self.gen_defs()
        self.topology()
        for _ in range(rng.choice((1, 1, 2))):
            self.open()
        for _ in range(rng.randint(3, 12)):
            self.one()
        if self.p > 0 and rng.random() < 0.7:
            self.recover()
        return {'workload': 'w2', 'cfg': self.cfg, 'ops': self.ops}

    def recover(self):
        """Faults stop, the line goes quiet, everything has to work again."""
        rng = self.rng
        self.ops.append({'op': 'plug'})
        self.ops.append({'op': 'wait', 'dt': 40.0})
        for o in self.objs:
            if o['via'] == 'client' and rng.random() < 0.4:
                self.ops.append({'op': 'scan', 'id': o['id']})
            for i, m, blocks in self.known_models(o):
                if rng.random() < 0.6:
                    self.ops.append({'op': 'write', 'id': o['id'], 'm': i, 'how': 'model'})
            self.ops.append({'op': 'dread', 'id': o['id']})


def map_xml(rng, mem):
    """A register map file with these contents, cut into elements at random places."""
    out = []
    base = min(a for a, _ in mem)
    base = rng.choice((base, 0, min(base, 40000)))
    for a, hx in sorted(mem):
        n = len(hx) // 4
        pos = 0
        while pos < n:
            k = min(n - pos, rng.choice((1, 2, 50, 1000, 5000)) if n - pos < 300 else rng.choice((100, 1000, 5000)))
            out.append('<regs offset="%d" len="%d" type="hexstr" access="rw">%s</regs>' % (a + pos - base, k, hx[4 * pos:4 * (pos + k)]))
            pos += k
    return '<mbmap addr="%d">\n%s\n</mbmap>\n' % (base, '\n'.join(out))


def gen(rng, prop):
    return Gen(rng, prop).plan()
