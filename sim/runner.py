"""Executes a plan: sets the world up, drives the code under test through its public API one operation
after the other and records what happened."""
import importlib
import os
import re
import signal
import sys
import threading

from . import certs
from .bus import Bus
from .env import Env, loader
from .kernel import HarnessError, SimCpuHang, SimFatal, World
from .net import Network, Server
from .regs import Device

CPU_LIMIT = float(os.environ.get('VERIF_CPU_LIMIT', '10'))


class Result(object):
    """What one operation did."""

    __slots__ = ('i', 'op', 'status', 'value', 'exc', 'text', 'kind', 'harm', 's0', 's1', 't0', 't1', 'ctx',
                 'socks', 'extra', 'tid', 'tb')

    def __init__(self, i, op):
        self.i = i
        self.op = op
        self.status = None         # ok, err, fatal
        self.value = None
        self.exc = None            # exception class name
        self.kind = ()             # names of its base classes
        self.text = ''
        self.extra = {}
        self.tb = ''

    def is_a(self, name):
        return name in self.kind

    def show(self):
        if self.status == 'ok':
            v = self.value
            v = v.hex() if isinstance(v, bytes) else repr(v)
            return 'returned %s' % (v if len(v) < 80 else v[:77] + '...')
        return 'raised %s: %s' % (self.exc, self.text)


class Violation(object):

    def __init__(self, prop, sig, msg, opi=None):
        self.prop = prop
        self.sig = sig             # violation class, kept the same while minimising
        self.msg = msg
        self.opi = opi

    def __repr__(self):
        return '%s[%s] op %s: %s' % (self.prop, self.sig, self.opi, self.msg)


def arm_cpu(limit):
    def on_alarm(sig, frame):
        if Run.current is not None and Run.current.w.fatal is None:
            Run.current.w.fatal = SimCpuHang('no answer after %g s of processor time' % limit)
        raise SimCpuHang('no answer after %g s of processor time' % limit)
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, limit, 1.0)


def disarm_cpu():
    if threading.current_thread() is threading.main_thread():
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Run(object):
    """Base of the workloads.  Subclasses provide setup() and do_<operation>(op, result)."""

    current = None

    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.w = World(plan)
        self.results = []
        self.objs = {}
        self.devices = {}          # name -> Device
        self.env = None

    # ---- world --------------------------------------------------------------

    def build_world(self):
        w = self.w
        cfg = self.plan['cfg']
        w.net = Network(w)
        for li, s in enumerate(cfg.get('tcp', ())):
            units = {}
            for uid, spec in sorted(s['units'].items()):
                units[int(uid)] = self.device('tcp%d.%s' % (li, uid), spec)
            w.net.add(Server(w, s['host'], s['port'], units, s.get('tls')))
        for bi, b in enumerate(cfg.get('bus', ())):
            units = {}
            for uid, spec in sorted(b['units'].items()):
                units[int(uid)] = self.device('bus%d.%s' % (bi, uid), spec)
            bus = w.buses[b['port']] = Bus(w, b['port'], units, b.get('baud', 9600), b.get('parity', 'N'))
            # whoever uses this line asks for its settings, so a frame sent with others is the library's doing
            asked = [(op.get('baudrate', 9600), op.get('parity', 'N')) for op in self.plan['ops'] if op.get('port') == b['port']]
            asked += [(bus.baud, 'N') for op in self.plan['ops'] if op['op'] == 'script']
            bus.strict = all(x == (bus.baud, bus.parity) for x in asked)
        self.servers = list(w.net.servers.values())
        for rel, text in sorted(cfg.get('files', {}).items()):
            self.env.write(rel, self.file_bytes(text))
        if cfg.get('certs'):
            for rel, text in (('ca.pem', certs.CA), ('other.pem', certs.OTHER_CA), ('system.pem', certs.SYSTEM_CA), ('client.pem', certs.CLIENT_CERT),
                              ('client.key', certs.CLIENT_KEY), ('both.pem', certs.CLIENT_KEY + certs.CLIENT_CERT), ('wrong.key', certs.WRONG_KEY),
                              ('garbage.pem', 'not a certificate\n')):
                self.env.write('certs/' + rel, text)

    def file_bytes(self, text):
        if isinstance(text, dict):
            return bytes.fromhex(text['hex'])
        return text.encode('utf-8')

    def device(self, name, spec):
        mem = None
        if 'mem' in spec:
            mem = {}
            for addr, hx in spec['mem']:
                b = bytes.fromhex(hx)
                for i in range(0, len(b), 2):
                    mem[addr + i // 2] = (b[i] << 8) | b[i + 1]
        d = Device(self.w, name, spec.get('tag', 0), spec.get('full', False), spec.get('holes', ()), mem,
                   spec.get('readonly', ()))
        self.devices[name] = d
        return d

    # ---- execution ------------------------------------------------------------

    def mod(self, name):
        return importlib.import_module(name)

    def execute(self):
        if Run.current is not None:
            raise HarnessError('nested run')
        cfg = self.plan['cfg']
        self.w.io_cap = cfg.get('io_cap', 6000)
        Run.current = self
        self.env = Env(self.w, self.scratch, cfg.get('tz', 'UTC'))
        try:
            with self.env:
                self.build_world()
                arm_cpu(CPU_LIMIT)
                try:
                    self.w.begin(-1, {'op': 'import'})
                    self.setup()
                    self.run_ops()
                finally:
                    disarm_cpu()
                self.finish()
                self.out = self.env.out.getvalue()
        finally:
            Run.current = None
        return self

    def setup(self):
        pass

    def finish(self):
        pass

    def run_ops(self):
        for i, op in enumerate(self.plan['ops']):
            self.run_op(i, op)
            if self.w.fatal is not None:
                break

    def run_op(self, i, op, tid=0):
        r = Result(i, op)
        r.tid = tid
        w = self.w
        ctx = w.begin(i, op, tid)
        r.ctx = ctx
        r.s0 = w.tick()
        r.t0 = w.now
        fn = getattr(self, 'do_' + op['op'])
        w.note('op', op['op'], op.get('id'))
        try:
            r.value = fn(op, r)
            r.status = 'ok'
        except SimFatal as e:
            r.status = 'fatal'
            self.set_exc(r, e)
        except HarnessError:
            raise
        except BaseException as e:
            r.status = 'err'
            self.set_exc(r, e)
        if w.fatal is not None and r.status != 'fatal':
            r.status = 'fatal'
            self.set_exc(r, w.fatal)
        r.s1 = w.tick()
        r.t1 = w.now
        r.harm = ctx.harm
        self.results.append(r)
        w.note('result', r.status, r.exc, self.digest_value(r.value) if r.status == 'ok' else r.text)
        return r

    def digest_value(self, v):
        return v.hex() if isinstance(v, bytes) else self.clean(repr(v))

    def clean(self, s):
        """Free of anything that differs between two executions of the same plan."""
        return re.sub('0x[0-9a-f]{8,}', '0x..', s.replace(self.env.scratch, '<scratch>'))

    def set_exc(self, r, e):
        r.exc = type(e).__name__
        r.kind = tuple(c.__name__ for c in type(e).__mro__)
        try:
            r.text = self.clean(str(e))
        except Exception:
            r.text = '?'
        tb = e.__traceback__
        where = []
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if 'sunspec' in fn or 'scripts' in fn:
                where.append('%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name))
            tb = tb.tb_next
        r.tb = ' > '.join(where[-4:])
        e.__traceback__ = None

    def reqs(self, i, tid=0):
        return [rq for rq in self.w.reqlog if rq.opi == i and rq.tid == tid]
