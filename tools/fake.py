"""Stand-ins for socket.socket and serial.Serial with a register table behind them (used by the demos of
the planted bugs; a copy lies beside each demo)."""
import socket
import struct
import sys

sys.dont_write_bytecode = True
import serial  # noqa: E402


def crc(data):
    c = 0xffff
    for b in data:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xa001 if c & 1 else c >> 1
    return struct.pack('<H', c)


class Dev(object):
    """One unit: regs maps address to value; faults maps the number of a request to a fault."""

    def __init__(self, regs=None, faults=None):
        self.regs = dict(regs or {})
        self.faults = dict(faults or {})
        self.log = []              # (function, address, count or data)

    def handle(self, pdu):
        """Returns (reply pdu or None, fault or None)."""
        n = len(self.log)
        fc, addr, count = struct.unpack('>BHH', pdu[:5])
        self.log.append((fc, addr, count if fc != 16 else pdu[6:]))
        f = self.faults.get(n)
        if callable(f):
            f = f(self)
        if isinstance(f, int):
            return bytes([fc | 0x80, f]), None
        if f == 'drop_request':
            return None, 'drop'
        if any(a not in self.regs for a in range(addr, addr + count)):
            return bytes([fc | 0x80, 2]), None
        if fc == 16:
            for i in range(count):
                self.regs[addr + i] = struct.unpack('>H', pdu[6 + 2 * i:8 + 2 * i])[0]
            return pdu[:5], f
        return bytes([fc, 2 * count]) + b''.join(struct.pack('>H', self.regs[a]) for a in range(addr, addr + count)), f


class Sock(object):
    """faults of the device understood here: 'drop' (no reply), 'eof', 'late' (the reply comes with the
    next exchange), bytes (sent instead of the reply)."""
    units = {}
    all = []
    refuse = []                    # one entry per connect: an exception or None
    piece = None

    def __init__(self, *a, **kw):
        Sock.all.append(self)
        self.open = True
        self.rx = b''
        self.held = b''
        self.eof = False
        self.timeout = None

    def settimeout(self, t):
        self.timeout = t

    def connect(self, addr):
        e = Sock.refuse.pop(0) if Sock.refuse else None
        if e:
            raise e

    def sendall(self, data):
        if not self.open:
            raise OSError(9, 'Bad file descriptor')
        tid, pid, ln, unit = struct.unpack('>HHHB', data[:7])
        self.rx += self.held
        self.held = b''
        pdu, f = Sock.units[unit].handle(data[7:])
        if f == 'drop':
            return
        if f == 'eof':
            self.eof = True
            return
        rep = f if isinstance(f, bytes) else struct.pack('>HHHB', tid, 0, len(pdu) + 1, unit) + pdu
        if f == 'late':
            self.held = rep
        else:
            self.rx += rep

    def send(self, data):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        if not self.open:
            raise OSError(9, 'Bad file descriptor')
        if self.rx:
            if Sock.piece:
                n = min(n, Sock.piece)
            d, self.rx = self.rx[:n], self.rx[n:]
            return d
        if self.eof:
            return b''
        raise socket.timeout('timed out')

    def close(self):
        self.open = False

    def shutdown(self, how):
        pass

    def setsockopt(self, *a):
        pass


class Ser(object):
    """One serial line; faults: 'drop', bytes (sent instead of the reply)."""
    units = {}
    all = []
    refuse = []

    def __init__(self, port=None, baudrate=9600, bytesize=8, parity='N', stopbits=1, timeout=None, writeTimeout=None, **kw):
        e = Ser.refuse.pop(0) if Ser.refuse else None
        if e:
            raise e
        self.port, self.baudrate, self.bytesize, self.parity, self.stopbits = port, baudrate, bytesize, parity, stopbits
        self.timeout = timeout
        self.writeTimeout = self.write_timeout = writeTimeout
        self.is_open = True
        self.rx = b''
        self.timeouts = []
        Ser.all.append(self)

    def _need(self):
        if not self.is_open:
            raise serial.SerialException('Attempting to use a port that is not open')

    def reset_input_buffer(self):
        self._need()
        self.rx = b''

    flushInput = reset_input_buffer

    def write(self, data):
        self._need()
        unit = data[0]
        if unit not in Ser.units:
            return len(data)
        pdu, f = Ser.units[unit].handle(bytes(data[1:-2]))
        if f == 'drop':
            return len(data)
        if isinstance(f, bytes):
            self.rx += f
        else:
            r = bytes([unit]) + pdu
            self.rx += r + crc(r)
        return len(data)

    def read(self, n=1):
        self._need()
        if not self.rx:
            self.timeouts.append(self.timeout)
        d, self.rx = self.rx[:n], self.rx[n:]
        return d

    def close(self):
        self.is_open = False

    def isOpen(self):
        return self.is_open


def install():
    socket.socket = Sock
    serial.Serial = Ser


# ---- SunSpec devices ------------------------------------------------------------------

def smdx(mid, fixed, repeating=None, name=None, folder=None):
    """Writes a model definition.  fixed, repeating: (length, [(id, offset, type, attributes)])."""
    import os
    out = ['<sunSpecModels v="1"><model id="%d" len="%d" name="%s">' % (mid, fixed[0] + (repeating[0] if repeating else 0), name or 'm%d' % mid)]
    for kind, b in (('fixed', fixed), ('repeating', repeating)):
        if b is None:
            continue
        out.append('<block %slen="%d">' % ('type="repeating" ' if kind == 'repeating' else '', b[0]))
        for p in b[1]:
            a = dict(p[3]) if len(p) > 3 else {}
            out.append('<point id="%s" offset="%d" type="%s" %s/>' % (p[0], p[1], p[2], ' '.join('%s="%s"' % kv for kv in sorted(a.items()))))
        out.append('</block>')
    out.append('</model></sunSpecModels>')
    folder = folder or models()
    with open(os.path.join(folder, 'smdx_%05d.xml' % mid), 'w') as f:
        f.write('\n'.join(out))


def models():
    import os
    d = os.path.join(os.environ['SCRATCH'], 'models')
    if not os.path.isdir(d):
        os.mkdir(d)
    return d


def use_models():
    import sunspec.core.device as device
    import sunspec.core.util as util
    device.file_pathlist = util.PathList([models()])


def layout(insts, base=40000, end=True):
    """Registers of a device: insts are (id, [registers])."""
    r = [0x5375, 0x6e53]
    for mid, regs in insts:
        r += [mid, len(regs)] + list(regs)
    if end:
        r += [0xffff, 0]
    return dict((base + i, v) for i, v in enumerate(r))
