"""Simulated serial lines (RS-485 with Modbus RTU units) and the port object standing in for
serial.Serial."""
import errno
import struct
import termios

import serial as _pyserial

from .kernel import EPS
from .net import build_reply, segments
from .regs import Request, crc16, pdu_len

SerialException = _pyserial.SerialException
SerialTimeoutException = _pyserial.SerialTimeoutException
PortNotOpenError = getattr(_pyserial, 'PortNotOpenError', SerialException)

# what opening a port raises besides errors of the port itself (pyserial does not wrap all of them)
OPEN_ERRORS = {
    'oserror': lambda: OSError(errno.EIO, 'Input/output error'),
    'termios': lambda: termios.error(errno.EIO, 'Input/output error'),
    'config': lambda: SerialException("Could not configure port: (5, 'Input/output error')"),
    'setting': lambda: ValueError("Invalid baud rate: 0"),
}


class Bus(object):

    def __init__(self, w, name, units, baud=9600, parity='N'):
        self.w = w
        self.name = name
        self.units = units
        self.baud = baud
        self.parity = parity
        self.present = True
        self.ports = []            # open SimSerial objects on this line
        self.opened = 0
        self.buf = b''             # what is on the line now
        self.start = 0             # where in it the newest request starts
        self.strict = False
        self.collided = False
        self.read_failed = False   # the port's owner gave up reading while its request was being sent
        self.ctx = None
        self.frame_ev = 0
        self.pending = None        # (unit, fc, addr, count) of the request awaiting its reply
        self.pending_idx = 0

    def char_time(self):
        return 11.0 / self.baud

    # client -> units
    def transmit(self, data, port):
        w = self.w
        if self.buf and self.ctx is not w.ctx:
            # the frame of an interrupted operation is still on the line: neither gets through
            w.hit('line_collision')
            self.collided = True
            self.start = len(self.buf)
        self.ctx = w.ctx
        if not self.buf:
            self.start = 0
        if len(self.buf) == self.start:
            self.pending_idx += 1
        self.buf += data
        if len(self.buf) >= self.start + 6:
            self.pending = struct.unpack('>BBHH', self.buf[self.start:self.start + 6])     # what is awaited now
        self.read_failed = False
        self.settings = (port.baudrate, port.parity, port.bytesize, port.stopbits)
        self.frame_ev += 1
        ev = self.frame_ev
        ctx = w.ctx
        w.progress(False)
        w.after(len(self.buf) * self.char_time() + 3.5 * self.char_time(),
                lambda: self.frame_end(ev, ctx), 'frame')

    def frame_end(self, ev, ctx):
        if ev != self.frame_ev:
            return
        w = self.w
        raw, self.buf = self.buf, b''
        w.note('frame', self.name, raw.hex())
        if self.collided:
            self.collided = False
            return
        if self.settings != (self.baud, self.parity, 8, 1):
            w.hit('line_settings_mismatch', harm=not self.strict, ctx=ctx)
            return
        why = None
        if len(raw) < 4:
            why = 'short frame'
        else:
            need = pdu_len(raw[1:])
            if need in (None, -1):
                why = 'not a request'
            elif len(raw) != need + 3:
                why = 'frame length %d instead of %d' % (len(raw), need + 3)
            elif crc16(raw[:-2]) != raw[-2:]:
                why = 'checksum'
        if why:
            w.malformed.append((w.step, ctx.opi, 'rtu', why, raw, ctx.tid))
            w.note('malformed', why, raw.hex())
            return
        self.request(raw, ctx)

    def request(self, raw, ctx):
        n0 = len(ctx.harm)
        self._request(raw, ctx)
        self.w.reqlog[-1].harmful = ctx.harm[n0:]
        self.w.reqlog[-1].unread = self.read_failed
        self.read_failed = False

    def _request(self, raw, ctx):
        w = self.w
        idx, f = ctx.next_fault()
        unit = raw[0]
        pdu = raw[1:-2]
        fc = pdu[0]
        addr, count = struct.unpack('>HH', pdu[1:5])
        rq = Request(step=w.tick(), opi=ctx.opi, tid=ctx.tid, idx=idx, link='rtu', unit=unit, fc=fc, addr=addr, count=count,
                     data=pdu[6:] if fc == 16 else None, raw=raw, fault=f, t=w.now)
        w.reqlog.append(rq)
        w.note('request', self.name, raw.hex())
        dev = rq.dev = self.units.get(unit)
        if dev is None:
            w.hit('no_such_unit', ctx=ctx)
            return
        if f.get('mut'):
            w.hit('device_changes_registers', harm=False)
            for spec in f['mut']:
                dev.mutate(spec)
        if f.get('poke'):
            w.hit('device_changes_registers', harm=False)
            dev.poke(f['poke'])
        kind = f.get('kind')
        if kind in ('close_req', 'rst_req', 'crash'):
            f = dict(f, kind='drop_req')
        elif kind in ('close_rep', 'rst_rep'):
            f = dict(f, kind='drop_rep')
        elif kind in ('close_mid', 'rst_mid'):
            f = dict(f, kind='trunc')
        kind = f.get('kind')
        runit, resp, applied, code, harmful = build_reply(w, dev, f, fc, pdu, unit)
        rq.applied = applied
        rq.code = code
        rq.step = w.step
        if kind in ('drop_req', 'drop_rep'):
            w.hit(kind, ctx=ctx)
            return
        frame = bytes([runit]) + resp
        frame += crc16(frame)
        rq.resp = frame
        good = frame
        if kind == 'corrupt':
            b = bytearray(frame)
            for pos, mask in f.get('flips', [[0, 1]]):
                b[pos % (len(b) - 2 if 'half' in f else len(b))] ^= (mask & 0xff) or 1
            if 'half' in f:
                c = crc16(bytes(b[:-2]))
                b[-2], b[-1] = (c[0], c[1] ^ 0x55) if f['half'] else (c[0] ^ 0x55, c[1])
            if bytes(b) == frame or accepted(bytes(b), unit, fc, addr, count):
                b[-1] ^= 0x55
            if accepted(bytes(b), unit, fc, addr, count):
                b = bytearray(frame)
            else:
                w.hit('corrupt', ctx=ctx)
            frame = bytes(b)
        elif kind == 'noise':
            noise = bytes(f.get('bytes', [0]))
            if noise and not accepted(noise + frame, unit, fc, addr, count):
                w.hit('noise', ctx=ctx)
                frame = noise + frame
        elif kind == 'insert':
            # a byte appears or disappears in the middle of the frame
            p = f.get('pos', 1) % len(frame)
            g = frame[:p] + bytes(f.get('bytes', [])) + frame[p + f.get('del', 0):]
            if g != frame and not accepted(g, unit, fc, addr, count):
                w.hit('line_slip', ctx=ctx)
                frame = g
        elif kind == 'trunc':
            frame = frame[:min(f.get('n', 1), len(frame) - 1)]
            w.hit('trunc', ctx=ctx)
        elif harmful and code is not None:
            w.hit('exc' if kind == 'exc' else 'refused', ctx=ctx)
        elif harmful:
            if accepted(frame, unit, fc, addr, count):
                w.note('indistinguishable reply not sent')
                frame = b''
                w.hit('drop_rep', ctx=ctx)
            else:
                w.hit(kind, ctx=ctx)
        delay = f.get('delay', w.cfg.get('lat', 0.001))
        late = kind == 'late'
        if late:
            delay = f.get('d', 5.0)
            w.hit('late', ctx=ctx)
        if f.get('delay'):
            w.hit('delay', harm=False)
        if not frame:
            return
        if kind == 'dup':
            w.hit('dup', harm=False)
        pieces = segments(frame, f, w.cfg)
        if len(pieces) > 1:
            w.hit('segmentation', harm=False)
        # bytes trickle in at line speed
        chunk = w.cfg.get('chunk', 8)
        pieces = [(gap if k == 0 else 0.0, p[k:k + chunk]) for gap, p in pieces for k in range(0, len(p), chunk)]
        me = self.pending_idx
        t = delay
        for i, (gap, piece) in enumerate(pieces):
            t += gap + len(piece) * self.char_time()
            last = i == len(pieces) - 1
            w.after(t, lambda piece=piece, last=last: self.deliver(rq, me, piece, last, frame == good), 'reply')
        if kind == 'dup':
            t += max(f.get('again', 0.0), 0.002)
            for gap, piece in pieces:
                t += len(piece) * self.char_time()
                w.after(t, lambda piece=piece: self.deliver(rq, me, piece, False, False), 'copy')

    def deliver(self, rq, me, piece, last, good):
        w = self.w
        if me != self.pending_idx:
            # the reply to an earlier request arrives while a later one is awaited
            if self.pending == (rq.unit, rq.fc, rq.addr, rq.count) or (
                    self.pending is not None and rq.fc == self.pending[1] and rq.fc != 16
                    and rq.unit == self.pending[0] and rq.count == self.pending[3]):
                w.note('indistinguishable late reply suppressed')
                w.probes['late_reply_suppressed'] += 1
                return
            w.hit('stale_reply_arrives', ctx=self.ctx)
            w.probes['stale_reply_during_request'] += 1
        if last and good:
            rq.delivered = True
        for p in self.ports:
            p.rx += piece


def accepted(stream, unit, fc, addr, count):
    """Whether an RTU master could take a frame at the start of this byte stream for the reply."""
    for k in range(len(stream)):
        s = stream[k:]
        if len(s) < 5 or s[0] != unit or (s[1] & 0x7f) != fc:
            continue
        n = 5 if s[1] & 0x80 else (8 if fc == 16 else s[2] + 5)
        if len(s) >= n and crc16(s[:n - 2]) == s[n - 2:n]:
            if k == 0:
                if s[1] & 0x80:
                    return True
                return s[2:6] == struct.pack('>HH', addr, count) if fc == 16 else s[2] == 2 * count
            if fc == 16 or s[1] & 0x80 or s[2] == 2 * count:
                # a tolerant master may resynchronise on the real frame: that is legitimate
                continue
    return False


class SimSerial(object):
    """Stands in for serial.Serial (pyserial 3.5 semantics)."""

    w = None

    def __init__(self, port=None, baudrate=9600, bytesize=8, parity='N', stopbits=1, timeout=None,
                 xonxoff=False, rtscts=False, write_timeout=None, dsrdtr=False, inter_byte_timeout=None,
                 exclusive=None, **kwargs):
        self._port = port
        self.baudrate = int(baudrate)
        self.bytesize = bytesize
        self.parity = parity
        self.stopbits = stopbits
        self._timeout = timeout
        self.xonxoff = xonxoff
        self.rtscts = rtscts
        self.dsrdtr = dsrdtr
        self._write_timeout = kwargs.pop('writeTimeout', write_timeout)
        self.inter_byte_timeout = kwargs.pop('interCharTimeout', inter_byte_timeout)
        self.exclusive = exclusive
        if kwargs:
            raise ValueError('unexpected keyword arguments: {!r}'.format(kwargs))
        self.is_open = False
        self.rx = b''
        self.bus = None
        self.owner_op = self.w.ctx.opi
        if port is not None:
            self.open()

    port = property(lambda self: self._port, lambda self, v: setattr(self, '_port', v))
    portstr = property(lambda self: self._port)
    name = property(lambda self: self._port)

    def isOpen(self):
        return self.is_open

    def _reconfigure(self):
        """Changing a setting of an open port goes to the driver, which can refuse."""
        if self.is_open and self._port_fault('s', self.w.ctx.sends).get('kind') == 'config_error':
            self.w.hit('serial_config_error')
            raise SerialException("Could not configure port: (5, 'Input/output error')")

    def _get_timeout(self):
        return self._timeout

    def _set_timeout(self, t):
        if t is not None and t < 0:
            raise ValueError('Not a valid timeout: {!r}'.format(t))
        self._reconfigure()
        self._timeout = t

    timeout = property(_get_timeout, _set_timeout)

    def _get_write_timeout(self):
        return self._write_timeout

    def _set_write_timeout(self, t):
        if t is not None and t < 0:
            raise ValueError('Not a valid timeout: {!r}'.format(t))
        self._reconfigure()
        self._write_timeout = t

    write_timeout = property(_get_write_timeout, _set_write_timeout)
    writeTimeout = property(_get_write_timeout, _set_write_timeout)

    def open(self):
        w = self.w
        w.enter_io('serial open')
        if self._port is None:
            raise SerialException('Port must be configured before it can be used.')
        if self.is_open:
            raise SerialException('Port is already open.')
        ctx = w.ctx
        k = ctx.conns
        ctx.conns += 1
        f = (ctx.op.get('c') or {}).get(str(k)) or {}
        bus = w.buses.get(self._port)
        if f.get('kind') == 'open_error' or bus is None or not bus.present:
            w.hit('serial_open_error', harm=bus is not None)
            raise SerialException(errno.ENOENT, "could not open port %s: [Errno 2] No such file or directory: '%s'"
                                  % (self._port, self._port))
        if f.get('kind') == 'busy':
            w.hit('serial_open_busy')
            raise SerialException(errno.EBUSY, 'could not open port %s: [Errno 16] Device or resource busy' % self._port)
        if f.get('kind') in OPEN_ERRORS:
            w.hit('serial_open_' + f['kind'])
            raise OPEN_ERRORS[f['kind']]()
        self.bus = bus
        self.is_open = True
        bus.ports.append(self)
        bus.opened += 1
        w.port_log.append((w.tick(), ctx.opi, 'open', self._port, self.baudrate, self.parity, self.bytesize, self.stopbits))
        w.note('serial open', self._port, self.baudrate, self.parity)

    def close(self):
        w = self.w
        if not self.is_open:
            return
        self.is_open = False
        if self in self.bus.ports:
            self.bus.ports.remove(self)
        w.port_log.append((w.tick(), w.ctx.opi, 'close', self._port))
        w.note('serial close', self._port)
        k = w.ctx.closes
        w.ctx.closes += 1
        f = (w.ctx.op.get('x') or {}).get(str(k)) or {}
        if f.get('kind') == 'close_error':
            w.hit('serial_close_error')
            raise OSError(errno.EIO, 'Input/output error')

    def __enter__(self):
        if not self.is_open:
            self.open()
        return self

    def __exit__(self, *a):
        self.close()

    def _need_open(self):
        if not self.is_open:
            raise PortNotOpenError()

    def _port_fault(self, table, k):
        f = (self.w.ctx.op.get(table) or {}).get(str(k)) or {}
        return f

    def reset_input_buffer(self):
        self._need_open()
        self.w.enter_io('flush')
        w = self.w
        f = self._port_fault('s', w.ctx.sends)
        if f.get('kind') == 'flush_error':
            w.hit('serial_flush_error')
            w.ctx.sends += 1
            # the real thing does not wrap this one either
            raise termios.error(errno.EIO, 'Input/output error') if f.get('termios') else OSError(errno.EIO, 'Input/output error')
        if self.rx:
            w.probes['flushed_stale_input'] += 1
        self.rx = b''

    flushInput = reset_input_buffer

    def reset_output_buffer(self):
        self._need_open()

    flushOutput = reset_output_buffer

    def flush(self):
        self._need_open()

    @property
    def in_waiting(self):
        self._need_open()
        self.w.enter_io('in_waiting')
        return len(self.rx)

    def inWaiting(self):
        return self.in_waiting

    def write(self, data):
        w = self.w
        self._need_open()
        data = bytes(data)
        w.enter_io('serial write')
        ctx = w.ctx
        k = ctx.sends
        ctx.sends += 1
        f = self._port_fault('s', k)
        kind = f.get('kind')
        if kind in ('epipe', 'reset', 'write_error'):
            w.hit('serial_write_error')
            raise SerialException('write failed: [Errno 5] Input/output error')
        if kind == 'stall':
            w.hit('serial_write_stall')
            if self._write_timeout is None:
                w.block('serial write', lambda: False, None)
            w.block('serial write', lambda: False, self._write_timeout)
            raise SerialTimeoutException('Write timeout')
        w.note('serial write', self._port, data.hex())
        self.bus.transmit(data, self)
        return len(data)

    def read(self, size=1):
        w = self.w
        self._need_open()
        ctx = w.ctx
        k = ctx.recvs
        ctx.recvs += 1
        f = self._port_fault('r', k)
        kind = f.get('kind')
        if kind in ('read_error', 'disconnected'):
            if self.bus.buf:
                self.bus.read_failed = True       # before the request has got through
            elif w.reqlog and w.reqlog[-1].opi == ctx.opi:
                w.reqlog[-1].unread = True
        if kind == 'read_error':
            w.hit('serial_read_error')
            raise SerialException('read failed: [Errno 5] Input/output error')
        if kind == 'disconnected':
            w.hit('serial_disconnected')
            raise SerialException('device reports readiness to read but returned no data '
                                  '(device disconnected or multiple access on port?)')
        if size <= 0:
            return b''
        w.block('serial read', lambda: len(self.rx) >= size, self._timeout)
        data, self.rx = self.rx[:size], self.rx[size:]
        if data:
            w.progress(True)
        w.note('serial read', self._port, data.hex())
        return data

    def read_until(self, expected=b'\n', size=None):
        out = b''
        while not out.endswith(expected) and (size is None or len(out) < size):
            c = self.read(1)
            if not c:
                break
            out += c
        return out

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)
