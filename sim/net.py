"""Simulated TCP/IP network, Modbus/TCP servers and TLS.

SimSocket stands in for socket.socket.  Server behaviour and every fault come from the plan."""
import errno
import os
import socket as _socket
import ssl as _ssl
import struct

from .kernel import EPS
from .regs import Request, hash16, pdu_len

_timeout = _socket.timeout
_gaierror = _socket.gaierror

BENIGN = (None, 'ok', 'mut')


def build_reply(w, dev, f, fc, pdu, unit):
    """Common to TCP and RTU: run the request against the device and shape the reply PDU.

    Returns (unit, reply pdu or None, applied, exception code, harmful)."""
    kind = f.get('kind')
    parsed = dev.check(fc, pdu)
    if kind in ('drop_req', 'close_req', 'rst_req', 'crash'):
        return unit, None, False, None, True
    if kind == 'exc':
        return unit, struct.pack('>BB', fc | 0x80, f.get('code', 4)), False, f.get('code', 4), True
    if isinstance(parsed, int):
        # the device itself refuses: not a fault, the caller asked for something that does not exist
        return unit, struct.pack('>BB', fc | 0x80, parsed), False, parsed, True
    resp = dev.apply(fc, parsed)
    harmful = False
    if kind == 'unit':
        unit = (unit + f.get('delta', 1)) & 0xff
        resp = _foreign(resp, fc, f)
        harmful = True
    elif kind == 'func':
        newfc = {3: 4, 4: 3, 16: 6}[fc] if f.get('delta', 0) == 0 else (fc + f['delta']) & 0x7f
        if newfc == fc:
            newfc = (fc + 1) & 0x7f
        resp = bytes([newfc]) + _foreign(resp, fc, f)[1:]
        harmful = True
    elif kind == 'short' and fc != 16:
        n = parsed[1]
        k = f.get('n', 1)
        m = max(0, n - k) if not f.get('long') else min(127, n + k)
        if m == n:
            m = n - 1
        body = resp[2:]
        body = body[:2 * m] if m < n else body + b''.join(
            struct.pack('>H', hash16('extra', i)) for i in range(m - n))
        resp = struct.pack('>BB', fc, len(body)) + body
        harmful = True
    elif kind == 'bytecount' and fc != 16:
        # the byte count disagrees with the amount of data that follows it
        bc = (resp[1] + f.get('delta', 2)) & 0xff
        resp = bytes([fc, bc]) + resp[2:]
        harmful = True
    elif kind == 'echo' and fc == 16:
        addr, count, _ = parsed
        if f.get('what') == 'count':
            count = (count + f.get('delta', 1)) & 0xffff
        else:
            addr = (addr + f.get('delta', 1)) & 0xffff
        resp = struct.pack('>BHH', fc, addr, count)
        harmful = True
    elif kind == 'babble':
        # other replies than the one asked for, without end
        resp = _foreign(resp, fc, f)
        harmful = True
    elif kind == 'tid':
        # the reply to a request somebody else made
        resp = _foreign(resp, fc, f)
        harmful = True
    if kind in ('drop_rep', 'close_rep', 'rst_rep'):
        return unit, None, True, None, True
    return unit, resp, True, None, harmful


def _foreign(resp, fc, f):
    if fc == 16:
        return resp
    n = (len(resp) - 2) // 2
    return resp[:2] + b''.join(struct.pack('>H', hash16('foreign', f.get('delta', 1), i)) for i in range(n))


def segments(data, f, cfg):
    """Cut a reply into the pieces in which it arrives: [(gap before piece, bytes)]."""
    seg = f.get('seg') or []
    gap = f.get('gap', cfg.get('gap', 0.0))
    out = []
    pos = 0
    for n in seg:
        if n <= 0 or pos + n >= len(data):
            continue
        out.append((gap if out else 0.0, data[pos:pos + n]))
        pos += n
    out.append((gap if out else 0.0, data[pos:]))
    return out


class Conn(object):
    """One established TCP connection, as the server sees it."""

    def __init__(self, sock, server, cid):
        self.sock = sock
        self.server = server
        self.cid = cid
        self.ctx = sock.w.ctx
        self.buf = b''
        self.server_closed = False
        self.client_closed = False
        self.hs_done = False
        self.unanswered = 0
        self.stray = 0             # copies of earlier replies that have arrived between requests
        self.pending = 0           # replies scheduled but not yet delivered
        self.cut = False           # the server stopped in the middle of a reply
        self.pieces_from = self.pieces_to = 0.0    # when the latest reply arriving in pieces does


class Network(object):

    def __init__(self, w):
        self.w = w
        self.servers = {}          # (host, port) -> Server
        self.socks = []            # every socket ever created
        self.conns = []            # every connection ever established
        self.conn_peak = {}

    def add(self, server):
        self.servers[(server.host, server.port)] = server

    def open_sockets(self):
        return [s for s in self.socks if not s.closed]

    def open_conns(self):
        return [c for c in self.conns if not c.client_closed]


class Server(object):
    """A Modbus/TCP endpoint (device or gateway) with one or more units behind it."""

    def __init__(self, w, host, port, units, tls=None):
        self.w = w
        self.host = host
        self.port = port
        self.units = units         # unit id -> Device
        self.tls = tls
        self.down_until = -1.0
        self.conns = []

    def receive(self, conn, data):
        w = self.w
        if conn.server_closed:
            # data for a connection the server has closed is answered by a reset
            w.after(w.cfg.get('lat', 0.001), lambda: conn.sock.on_error(
                ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')), 'rst')
            return
        if self.tls is not None and not conn.hs_done:
            w.plain_to_tls.append((w.step, conn.ctx.opi, data))
            w.note('plain data to TLS server', data.hex())
            self.close(conn)
            return
        conn.buf += data
        while True:
            if len(conn.buf) < 8:
                return
            tid, pid, ln, unit = struct.unpack('>HHHB', conn.buf[:7])
            need = pdu_len(conn.buf[7:])
            if pid != 0 or ln < 2 or need == -1:
                self.bad(conn, 'header', conn.buf)
                return
            if need is None:
                return
            if ln != need + 1:
                self.bad(conn, 'mbap length %d for a %d byte request' % (ln, need + 1), conn.buf)
                return
            if len(conn.buf) < 6 + ln:
                return
            raw = conn.buf[:6 + ln]
            conn.buf = conn.buf[6 + ln:]
            self.request(conn, tid, unit, raw)

    def bad(self, conn, why, raw):
        self.w.malformed.append((self.w.step, conn.ctx.opi, 'tcp', why, raw, conn.ctx.tid))
        self.w.note('malformed', why, raw.hex())
        conn.buf = b''
        self.close(conn)

    def close(self, conn):
        if not conn.server_closed:
            conn.server_closed = True
            self.w.after(self.w.cfg.get('lat', 0.001), conn.sock.on_eof, 'fin')

    def reset(self, conn):
        if not conn.server_closed:
            conn.server_closed = True
            self.w.after(self.w.cfg.get('lat', 0.001), lambda: conn.sock.on_error(
                ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')), 'rst')

    def request(self, conn, tid, unit, raw):
        ctx = conn.ctx
        n0 = len(ctx.harm)
        self._request(conn, tid, unit, raw, ctx)
        self.w.reqlog[-1].harmful = ctx.harm[n0:]

    def _request(self, conn, tid, unit, raw, ctx):
        w = self.w
        idx, f = ctx.next_fault()
        pdu = raw[7:]
        fc = pdu[0]
        addr, count = struct.unpack('>HH', pdu[1:5])
        rq = Request(step=w.tick(), opi=ctx.opi, tid=ctx.tid, idx=idx, link='tcp', unit=unit, fc=fc, addr=addr,
                     count=count, data=pdu[6:] if fc == 16 else None, raw=raw, fault=f, t=w.now,
                     conn=conn)
        rq.step = w.step
        w.reqlog.append(rq)
        w.note('request', conn.cid, raw.hex())
        if conn.stray:
            conn.stray = 0
            w.hit('stray_reply', ctx=ctx)
        if conn.unanswered:
            w.malformed.append((w.step, ctx.opi, 'tcp', 'request sent while another is unanswered', raw, ctx.tid))
        dev = rq.dev = self.units.get(unit)
        if dev is None:
            w.hit('no_such_unit', ctx=ctx)
            conn.unanswered += 1
            return
        if f.get('mut'):
            w.hit('device_changes_registers', harm=False)
            for spec in f['mut']:
                dev.mutate(spec)
        if f.get('poke'):
            w.hit('device_changes_registers', harm=False)
            dev.poke(f['poke'])
        kind = f.get('kind')
        runit, resp, applied, code, harmful = build_reply(w, dev, f, fc, pdu, unit)
        rq.applied = applied
        rq.code = code
        rq.step = w.step
        if kind == 'crash':
            w.hit('device_crash', ctx=ctx)
            self.down_until = w.now + f.get('down', 0.0)
            for c in list(self.conns):
                if not c.client_closed:
                    self.reset(c)
            self.conns = []
            return
        if kind in ('drop_req', 'drop_rep'):
            w.hit(kind, ctx=ctx)
            conn.unanswered += 1
            return
        if kind in ('close_req', 'close_rep'):
            w.hit(kind, ctx=ctx)
            self.close(conn)
            return
        if kind in ('rst_req', 'rst_rep'):
            w.hit(kind, ctx=ctx)
            self.reset(conn)
            return
        ln = len(resp) + 1
        if kind == 'mbaplen':
            ln = f.get('ln', 0)
            if ln == len(resp) + 1:
                ln += 1
            harmful = True
        if kind == 'mbaplen' or (harmful and code is None):
            w.hit(kind, ctx=ctx)
        elif harmful and kind == 'exc':
            w.hit('exc', ctx=ctx)
        elif harmful:
            w.hit('refused', ctx=ctx)
        if kind == 'tid' and code is None:
            tid = (tid + f.get('delta', 1)) & 0xffff
        frame = struct.pack('>HHHB', tid, 0, ln, runit) + resp
        delay = f.get('delay', w.cfg.get('lat', 0.001))
        rq.resp = frame
        cut = None
        if kind in ('trunc', 'close_mid', 'rst_mid'):
            cut = min(f.get('n', 1), len(frame) - 1)
            frame = frame[:cut]
            conn.cut = True
            w.hit(kind, ctx=ctx)
        if kind == 'late':
            delay = f.get('d', 5.0)
            w.hit('late', ctx=ctx)
        if f.get('seg') and len(segments(frame, f, w.cfg)) > 1:
            w.hit('segmentation', harm=False)
        if f.get('delay'):
            w.hit('delay', harm=False)
        conn.unanswered += 1
        if kind == 'babble' and code is None:
            self.babble(conn, frame, f, 1)
            return
        t = delay
        pieces = segments(frame, f, w.cfg) if frame else []
        if len(pieces) > 1:
            conn.pieces_from = w.now + t
            conn.pieces_to = w.now + t + sum(gap for gap, _ in pieces)
        for i, (gap, piece) in enumerate(pieces):
            t += gap
            last = i == len(pieces) - 1 and cut is None
            w.after(t, lambda piece=piece, last=last: self.deliver(conn, rq, piece, last), 'reply')
        if kind == 'dup':
            w.hit('dup', harm=False)
            w.after(t + f.get('again', 0.0), lambda: self.copy(conn, frame), 'copy')
        if kind == 'close_mid':
            w.after(t, lambda: self.close(conn), 'close')
        elif kind == 'rst_mid':
            w.after(t, lambda: self.reset(conn), 'rst')

    def babble(self, conn, frame, f, n):
        """Replies to requests nobody made, one after the other, until the client hangs up."""
        def speak():
            if conn.server_closed or conn.client_closed:
                return
            tid = struct.unpack('>H', frame[:2])[0]
            conn.sock.on_data(struct.pack('>H', (tid + f['delta'] + n % 200) & 0xffff) + frame[2:])
            self.babble(conn, frame, f, n + 1)
        self.w.after(f['gap'], speak, 'babble')

    def copy(self, conn, frame):
        """The same reply once more."""
        if conn.server_closed or conn.client_closed or conn.cut:
            return
        if conn.pieces_from - EPS <= self.w.now < conn.pieces_to + EPS:
            # a server writes one reply after the other
            self.w.after(conn.pieces_to - self.w.now + 2 * EPS, lambda: self.copy(conn, frame), 'copy')
            return
        if conn.unanswered:
            self.w.hit('stray_reply', ctx=conn.ctx)
        else:
            conn.stray += 1
        conn.sock.on_data(frame)

    def deliver(self, conn, rq, piece, last):
        if conn.server_closed and rq.fault.get('kind') not in ('close_mid', 'rst_mid'):
            return
        if last:
            conn.unanswered -= 1
            rq.delivered = True
        conn.sock.on_data(piece)


class SimSocket(object):
    """Stands in for socket.socket (TCP client side)."""

    w = None                       # set for the duration of a run

    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        self.w.enter_io('socket')
        ctx = self.w.ctx
        f = (ctx.op.get('c') or {}).get(str(ctx.conns)) or {}
        if f.get('kind') == 'emfile':
            ctx.conns += 1
            self.w.hit('connect_emfile')
            self.closed = True
            raise OSError(errno.EMFILE, 'Too many open files')
        self.family = family
        self.type = type
        self.proto = proto
        self.tmo = None
        self.closed = False
        self.conn = None
        self.rx = []
        self.eof = False
        self.err = None
        self.owner_op = self.w.ctx.opi
        self.n = len(self.w.net.socks)
        self.new_step = self.w.tick()
        self.est_step = None       # when the connection was established
        self.est_time = None
        self.close_step = None     # when it was closed by the client
        self.w.net.socks.append(self)
        self.w.note('socket', self.n)

    # ---- options ----------------------------------------------------------

    def settimeout(self, t):
        if t is not None:
            t = float(t)
            if t != t:
                raise ValueError('Invalid value NaN (not a number)')
            if t > 9.2e9:
                raise OverflowError('timestamp out of range for platform time_t')
            if t < 0:
                raise ValueError('Timeout value out of range')
        self.tmo = t

    def gettimeout(self):
        return self.tmo

    timeout = property(gettimeout)

    def setblocking(self, flag):
        self.tmo = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1 if self.closed else 1000 + self.n

    def getpeername(self):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        return (self.conn.server.host, self.conn.server.port)

    def getsockname(self):
        return ('127.0.0.1', 40000 + self.n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- connection -------------------------------------------------------

    def _open(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def connect(self, address):
        w = self.w
        self._open()
        host, port = address[0], address[1]
        if not 0 <= port <= 65535:
            raise OverflowError('connect(): port must be 0-65535.')
        ctx = w.ctx
        k = ctx.conns
        ctx.conns += 1
        f = (ctx.op.get('c') or {}).get(str(k)) or {}
        kind = f.get('kind')
        w.note('connect', self.n, host, port)
        server = w.net.servers.get((host, port))
        lat = f.get('delay', w.cfg.get('lat', 0.001))
        if kind == 'noresolve':
            w.hit('connect_noresolve')
            raise _gaierror(-2, 'Name or service not known')
        if kind == 'badname':
            # a name that cannot be encoded for the resolver
            w.hit('connect_badname')
            raise UnicodeError('label empty or too long')
        if kind is None and server is not None and server.down_until > w.now:
            kind = 'refused'
        nobody = kind is None and server is None
        if nobody:
            # the plans name no such address: nothing excuses the failure
            kind = 'refused'
        state = {}
        if kind == 'timeout':
            w.hit('connect_timeout')
        elif kind in ('refused', 'unreachable', 'reset', 'nolocal'):
            w.hit('connect_' + kind, harm=not nobody)
            exc = {'refused': ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'),
                   'reset': ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
                   'nolocal': OSError(errno.EADDRNOTAVAIL, 'Cannot assign requested address'),
                   'unreachable': OSError(errno.EHOSTUNREACH, 'No route to host')}[kind]
            w.after(lat, lambda: state.setdefault('exc', exc), 'connect')
        else:
            if f.get('delay'):
                w.hit('connect_delay', harm=False)
            w.after(lat, lambda: state.setdefault('ok', True), 'connect')
        if not w.block('connect', lambda: bool(state), self.tmo):
            if kind is None:
                w.hit('connect_slow')
            raise _timeout('timed out')
        if 'exc' in state:
            raise state['exc']
        conn = Conn(self, server, len(w.net.conns))
        self.conn = conn
        self.est_step = w.tick()
        self.est_time = w.now
        w.progress()
        w.net.conns.append(conn)
        server.conns.append(conn)
        w.note('established', conn.cid)

    def connect_ex(self, address):
        try:
            self.connect(address)
            return 0
        except OSError as e:
            return e.errno or errno.ETIMEDOUT

    def close(self):
        w = self.w
        if self.closed:
            return
        self.closed = True
        self.close_step = w.tick()
        w.note('close', self.n)
        if self.conn is not None:
            self.conn.client_closed = True
            if self.rx:
                w.probes['closed_with_unread_data'] += 1
        k = w.ctx.closes
        w.ctx.closes += 1
        f = (w.ctx.op.get('x') or {}).get(str(k)) or {}
        if f.get('kind') == 'close_error':
            w.hit('close_error', harm=False)
            raise OSError(errno.EIO, 'close failed')

    def shutdown(self, how):
        self._open()
        if self.conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))

    def detach(self):
        self.closed = True
        self.close_step = self.w.tick()
        return -1

    # ---- data -------------------------------------------------------------

    def on_data(self, data):
        if not self.closed:
            self.rx.append(data)

    def on_eof(self):
        self.eof = True

    def on_error(self, exc):
        if self.err is None:
            self.err = exc

    def send(self, data, flags=0):
        data = bytes(data)
        n = self.w.cfg.get('max_send')
        if n and len(data) > n:
            self.w.hit('short_send', harm=False)
            data = data[:n]
        self._send(data)
        return len(data)

    def sendall(self, data, flags=0):
        self._send(bytes(data))

    def _send(self, data):
        w = self.w
        self._open()
        ctx = w.ctx
        w.enter_io('send')
        k = ctx.sends
        ctx.sends += 1
        f = (ctx.op.get('s') or {}).get(str(k)) or {}
        kind = f.get('kind')
        if self.conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN)) if self.tmo is not None else \
                BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.err is not None:
            exc, self.err = self.err, None
            self.eof = True
            w.hit('connection_lost')
            raise exc
        if kind in ('epipe', 'reset'):
            w.hit('send_' + kind)
            n = f.get('n', 0)
            if n:
                self._transmit(data[:n])
            self.conn.server_closed = True
            raise (BrokenPipeError(errno.EPIPE, 'Broken pipe') if kind == 'epipe' else
                   ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'))
        if kind == 'stall':
            w.hit('send_stall')
            n = f.get('n', 0)
            if n:
                self._transmit(data[:n])
            w.block('send', lambda: False, self.tmo)
            raise _timeout('timed out')
        if kind == 'slow':
            w.hit('send_slow', harm=False)
            if not w.block('send', _after(w, f.get('delay', 0.01)), self.tmo):
                raise _timeout('timed out')
        w.note('send', self.conn.cid, data.hex())
        self._transmit(data)

    def _transmit(self, data):
        conn = self.conn
        ctx = self.w.ctx
        self.w.progress(False)
        self.w.after(self.w.cfg.get('lat', 0.001), lambda: self._arrive(conn, data, ctx), 'arrive')

    def _arrive(self, conn, data, ctx):
        conn.ctx = ctx
        conn.server.receive(conn, data)

    def recv(self, bufsize, flags=0):
        w = self.w
        self._open()
        if self.conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        if bufsize < 0:
            raise ValueError('negative buffersize in recv')
        if bufsize == 0:
            w.enter_io('recv')
            return b''
        ok = w.block('recv', lambda: bool(self.rx) or self.eof or self.err is not None or self.closed, self.tmo)
        if not ok:
            w.note('recv timeout', self.n)
            if self.tmo == 0.0:
                raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            raise _timeout('timed out')
        if self.rx:
            data = self.rx.pop(0)
            if w.cfg.get('coalesce'):
                while self.rx and len(data) < bufsize:
                    data += self.rx.pop(0)
            if len(data) > bufsize:
                self.rx.insert(0, data[bufsize:])
                data = data[:bufsize]
            if flags & _socket.MSG_PEEK:
                self.rx.insert(0, data)
            w.progress(True)
            w.note('recv', self.n, data.hex())
            return data
        if self.err is not None:
            exc, self.err = self.err, None
            self.eof = True
            w.hit('connection_lost')
            raise exc
        self._open()
        w.hit('connection_lost')
        w.note('recv eof', self.n)
        return b''

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        data = self.recv(n, flags)
        buf[:len(data)] = data
        return len(data)


def _after(w, dt):
    t = w.now + dt
    w.at(t, lambda: None, 'slow')
    return lambda: w.now >= t - EPS


def create_connection(address, timeout=_socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, **kw):
    s = SimSocket()
    try:
        if timeout is not _socket._GLOBAL_DEFAULT_TIMEOUT:
            s.settimeout(timeout)
        s.connect(address)
        return s
    except BaseException:
        s.close()
        raise


# ---- TLS ------------------------------------------------------------------

class SimSSLSocket(object):
    """Result of SSLContext.wrap_socket on a SimSocket: the handshake is decided from the real
    context's settings (verify mode, host name check, trusted authorities, client certificate) and the
    certificate the simulated server presents."""

    def __init__(self, context, sock, server_hostname, do_handshake_on_connect=True):
        self.context = context
        self.sock = sock
        self.server_hostname = server_hostname
        self.auto = do_handshake_on_connect
        self.done = False
        if context.check_hostname and not server_hostname:
            raise ValueError('check_hostname requires server_hostname')
        if sock.conn is not None and self.auto:
            self.do_handshake()

    def __getattr__(self, name):
        return getattr(self.sock, name)

    def connect(self, address):
        self.sock.connect(address)
        if self.auto:
            self.do_handshake()

    def do_handshake(self):
        w = self.sock.w
        conn = self.sock.conn
        ctx = w.ctx
        f = (ctx.op.get('h') or {}).get(str(ctx.conns - 1)) or {}
        kind = f.get('kind')
        w.tick()
        if kind == 'stall':
            w.hit('tls_stall')
            w.block('handshake', lambda: False, self.sock.tmo)
            raise _timeout('_ssl.c: The handshake operation timed out')
        if not w.block('handshake', _after(w, f.get('delay', w.cfg.get('lat', 0.001))), self.sock.tmo):
            w.hit('tls_slow')
            raise _timeout('_ssl.c: The handshake operation timed out')
        if kind == 'reset':
            w.hit('tls_reset')
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if kind == 'eof':
            w.hit('tls_eof')
            raise _ssl.SSLEOFError(8, 'EOF occurred in violation of protocol')
        server = conn.server
        cert = server.tls
        if 'cert' in f:            # another server answers this time
            cert = dict(cert or {}, **f['cert'])
            w.hit('tls_other_server', harm=False)
        if cert is None:
            w.hit('tls_plain_server')
            raise _ssl.SSLError(1, '[SSL: WRONG_VERSION_NUMBER] wrong version number')
        conn.cert = cert
        problem = None
        if self.context.verify_mode != _ssl.CERT_NONE:
            names = [dict(x[0] for x in ca['subject']).get('commonName') for ca in self.context.get_ca_certs()]
            if cert.get('issuer') not in names:
                problem = 'unable to get local issuer certificate'
            elif cert.get('expired'):
                problem = 'certificate has expired'
            elif self.context.check_hostname and self.server_hostname not in cert.get('names', ()):
                problem = "Hostname mismatch, certificate is not valid for '%s'" % self.server_hostname
        if problem:
            w.hit('tls_verify_failed')
            raise _ssl.SSLCertVerificationError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed: ' + problem)
        if cert.get('want_client') and not w.client_certs.get(self.context):
            w.hit('tls_client_cert_missing')
            raise _ssl.SSLError(1, '[SSL: TLSV13_ALERT_CERTIFICATE_REQUIRED] tlsv13 alert certificate required')
        conn.hs_done = True
        conn.client_cert = w.client_certs.get(self.context)
        conn.verified = (self.context.verify_mode, self.context.check_hostname)
        self.done = True
        w.progress()
        w.note('handshake', conn.cid)

    def _ready(self):
        if not self.done:
            if self.sock.conn is None:
                raise OSError(errno.ENOTCONN, 'Socket is not connected')
            self.do_handshake()

    def send(self, data, flags=0):
        self._ready()
        return self.sock.send(data, flags)

    def sendall(self, data, flags=0):
        self._ready()
        return self.sock.sendall(data, flags)

    def recv(self, n=1024, flags=0):
        self._ready()
        return self.sock.recv(n, flags)

    def recv_into(self, *a, **kw):
        self._ready()
        return self.sock.recv_into(*a, **kw)

    read = recv

    def write(self, data):
        self.sendall(data)
        return len(data)

    def close(self):
        self.sock.close()

    def unwrap(self):
        return self.sock

    def getpeercert(self, binary_form=False):
        return {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def wrap_socket(self, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True,
                server_hostname=None, session=None):
    if isinstance(sock, SimSSLSocket):
        sock = sock.sock
    if not isinstance(sock, SimSocket):
        raise TypeError('not a simulated socket')
    if self.protocol == _ssl.PROTOCOL_TLS_SERVER and not server_side:
        raise _ssl.SSLError('Cannot create a client socket with a PROTOCOL_TLS_SERVER context')
    if server_side:
        raise _ssl.SSLError('a server socket')
    return SimSSLSocket(self, sock, server_hostname, do_handshake_on_connect)
