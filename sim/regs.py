"""Simulated Modbus devices: register tables with a per-register history, and the server side of the
protocol.  Written from the Modbus specification, independently of the code under test."""
import struct
import zlib


def crc16(data):
    crc = 0xffff
    for b in data:
        crc ^= b
        for _ in range(8):
            if crc & 1:
                crc = (crc >> 1) ^ 0xa001
            else:
                crc >>= 1
    return struct.pack('<H', crc)          # low byte first on the wire


def hash16(*key):
    return zlib.crc32(repr(key).encode()) & 0xffff


class Device(object):
    """One Modbus unit.  tables: 3 = holding, 4 = input registers.

    full=True: every address exists, with contents derived from (tag, table, addr, version) so that
    each value identifies where it came from.  Otherwise only the registers put in 'mem' exist.
    """

    def __init__(self, world, name, tag=0, full=False, holes=(), mem=None, readonly=()):
        self.w = world
        self.name = name
        self.tag = tag
        self.full = full
        self.holes = [tuple(h) for h in holes]
        self.mem = {3: dict(mem or {}), 4: {}}
        self.version = 0
        self.hist = {}             # (table, addr) -> [(step, value), ...] changes only
        self.writes = []           # (step, op, addr, bytes)
        self.readonly = [tuple(h) for h in readonly]

    def exists(self, table, addr):
        if addr < 0 or addr > 0xffff:
            return False
        for a, b in self.holes:
            if a <= addr < b:
                return False
        return self.full or addr in self.mem[table]

    def initial(self, table, addr):
        return hash16(self.tag, table, addr, 0)

    def get(self, table, addr):
        m = self.mem[table]
        if addr in m:
            return m[addr]
        return self.initial(table, addr)

    def set(self, table, addr, value):
        key = (table, addr)
        if key not in self.hist:
            self.hist[key] = [(-1, self.get(table, addr))]
        self.hist[key].append((self.w.tick(), value))
        self.mem[table][addr] = value

    def mutate(self, spec):
        """The device changes its own registers: spec = [table, addr, count, version]."""
        table, addr, count, version = spec
        for a in range(addr, addr + count):
            if self.exists(table, a):
                self.set(table, a, hash16(self.tag, table, a, version))

    def poke(self, pairs, table=3):
        for a, v in pairs:
            if self.exists(table, a):
                self.set(table, a, v)

    def values_during(self, table, addr, s0, s1):
        """All values the register held between steps s0 and s1."""
        h = self.hist.get((table, addr))
        if h is None:
            return [self.get(table, addr)]
        out = []
        for i, (s, v) in enumerate(h):
            end = h[i + 1][0] if i + 1 < len(h) else None
            if s <= s1 and (end is None or end >= s0):
                out.append(v)
        return out

    def value_at(self, table, addr, step):
        h = self.hist.get((table, addr))
        if h is None:
            return self.get(table, addr)
        cur = h[0][1]
        for s, v in h:
            if s <= step:
                cur = v
        return cur

    def read_regs(self, table, addr, count):
        return b''.join(struct.pack('>H', self.get(table, a)) for a in range(addr, addr + count))

    def check(self, fc, pdu):
        """Parse a request PDU.  Returns (addr, count, data) or an exception code."""
        if fc in (3, 4):
            addr, count = struct.unpack('>HH', pdu[1:5])
            if not 1 <= count <= 125:
                return 3
            if addr + count > 0x10000:
                return 2
            for a in range(addr, addr + count):
                if not self.exists(fc, a):
                    return 2
            return addr, count, None
        if fc == 16:
            addr, count, nbytes = struct.unpack('>HHB', pdu[1:6])
            if not 1 <= count <= 123 or nbytes != 2 * count:
                return 3
            if addr + count > 0x10000:
                return 2
            for a in range(addr, addr + count):
                if not self.exists(3, a):
                    return 2
            for a, b in self.readonly:
                if addr < b and addr + count > a:
                    return 2
            return addr, count, pdu[6:]
        return 1

    def apply(self, fc, parsed):
        """Execute a checked request and return the response PDU."""
        addr, count, data = parsed
        if fc in (3, 4):
            body = self.read_regs(fc, addr, count)
            return struct.pack('>BB', fc, len(body)) + body
        for i in range(count):
            self.set(3, addr + i, struct.unpack('>H', data[2 * i:2 * i + 2])[0])
        self.writes.append((self.w.step, addr, data))
        return struct.pack('>BHH', fc, addr, count)


def pdu_len(buf):
    """Length of the request PDU at the start of buf (without checksum), or None if not known yet,
    or -1 if it is not a request the client may send."""
    if len(buf) < 1:
        return None
    fc = buf[0]
    if fc in (3, 4):
        return 5
    if fc == 16:
        if len(buf) < 6:
            return None
        return 6 + buf[5]
    return -1


class Request(object):
    """What a device received, for the oracles."""

    __slots__ = ('step', 'opi', 'idx', 'link', 'unit', 'fc', 'addr', 'count', 'data', 'raw', 'fault',
                 'applied', 'code', 't', 'resp', 'delivered', 'conn', 'tid', 'dev', 'harmful', 'unread')

    def __init__(self, **kw):
        self.applied = False
        self.code = None
        self.resp = None
        self.delivered = False
        self.conn = None
        self.tid = 0
        self.dev = None
        self.harmful = None
        self.unread = False        # reading the reply from the port failed
        for k, v in kw.items():
            setattr(self, k, v)
