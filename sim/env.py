"""The seams: everything nondeterministic the code under test can reach is replaced for the duration of
one run (sockets, serial ports, clocks, sleep, TLS handshakes, file access, time zone, stdout), and the
sunspec package is executed afresh from the working tree of the repository, so no state survives from
one run to the next."""
import builtins
import datetime as _dt
import errno
import importlib.abc
import importlib.util
import io
import os
import select as _select
import shutil
import socket as _socket
import ssl as _ssl
import sys
import time as _time
import warnings

import serial as _serial

from . import bus as _bus
from . import net as _net

REPO = os.environ.get('VERIF_REPO', '/repo')

_real = {
    'time': _time.time, 'gmtime': _time.gmtime, 'localtime': _time.localtime, 'ctime': _time.ctime,
    'strftime': _time.strftime, 'asctime': _time.asctime, 'open': builtins.open, 'load_cert_chain': _ssl.SSLContext.load_cert_chain,
    'datetime': _dt.datetime, 'date': _dt.date, 'select': _select.select,
}


# ---- the code under test ------------------------------------------------------

class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads sunspec.* from the repository; compiled code is kept for the life of the process, module
    objects are not."""

    def __init__(self, root):
        self.root = root
        self.code = {}

    def locate(self, name):
        base = os.path.join(self.root, *name.split('.'))
        p = os.path.join(base, '__init__.py')
        if os.path.isfile(p):
            return p, True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        if os.path.isdir(base):
            return None, True
        return None

    def find_spec(self, name, path=None, target=None):
        if name != 'sunspec' and not name.startswith('sunspec.'):
            return None
        if name in self.code:
            path_, pkg, _ = self.code[name]
        else:
            loc = self.locate(name)
            if loc is None:
                return None
            path_, pkg = loc
            code = None
            if path_ is not None:
                with _real['open'](path_, 'rb') as f:
                    code = compile(f.read(), path_, 'exec', dont_inherit=True)
            self.code[name] = (path_, pkg, code)
        spec = importlib.util.spec_from_file_location(
            name, path_ or os.path.join(self.root, *name.split('.'), '__init__.py'), loader=self,
            submodule_search_locations=[os.path.join(self.root, *name.split('.'))] if pkg else None)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = self.code[module.__name__][2]
        if code is not None:
            exec(code, module.__dict__)

    def script(self, rel):
        key = 'script:' + rel
        if key not in self.code:
            p = os.path.join(self.root, rel)
            with _real['open'](p, 'rb') as f:
                self.code[key] = (p, False, compile(f.read(), p, 'exec', dont_inherit=True))
        return self.code[key]

    def purge(self):
        for name in [n for n in sys.modules if n == 'sunspec' or n.startswith('sunspec.')]:
            del sys.modules[name]


warnings.simplefilter('ignore')
loader = Loader(REPO)


def preload():
    """Compile everything once (in the parent, before workers are forked)."""
    for base, dirs, files in os.walk(os.path.join(REPO, 'sunspec')):
        if os.path.basename(base) == 'test':
            dirs[:] = []
            continue
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(base, f), REPO)[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel = rel[:-1]
                loader.find_spec('.'.join(rel))
    loader.script('scripts/suns.py')


# ---- files ----------------------------------------------------------------------

class FaultyFile(object):
    """A file whose contents cannot be read."""

    def __init__(self, f, kind):
        self.f = f
        self.kind = kind

    def _fail(self, *a):
        raise OSError(errno.EIO, os.strerror(errno.EIO))

    def read(self, n=-1):
        if self.kind == 'eio':
            self._fail()
        return self.f.read(n)

    def readline(self, *a):
        self._fail()

    readlines = readinto = readline
    __iter__ = readline

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


class Env(object):

    def __init__(self, world, scratch, tz='UTC', argv=None):
        self.w = world
        self.scratch = os.path.realpath(scratch)
        self.tz = tz
        self.saved = []
        self.out = io.StringIO()
        self.err = io.StringIO()
        self.open_files = []

    def put(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        w = self.w
        self.cwd = os.getcwd()
        for name in sorted(os.listdir(self.scratch)):
            p = os.path.join(self.scratch, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        os.mkdir(os.path.join(self.scratch, 'cwd'))
        os.chdir(os.path.join(self.scratch, 'cwd'))
        self.env0 = dict((k, os.environ.get(k)) for k in ('SSL_CERT_FILE', 'SSL_CERT_DIR'))
        # the authorities the system trusts
        os.environ['SSL_CERT_FILE'] = os.path.join(self.scratch, 'certs', 'system.pem')
        os.environ['SSL_CERT_DIR'] = os.path.join(self.scratch, 'certs', 'none')
        self.tz0 = os.environ.get('TZ')
        os.environ['TZ'] = self.tz
        _time.tzset()
        self.put(sys, 'stdout', self.out)
        self.put(sys, 'stderr', self.err)
        self.put(sys, 'argv', ['prog'])
        self.put(sys, 'meta_path', [loader] + sys.meta_path)
        loader.purge()
        _net.SimSocket.w = w
        _bus.SimSerial.w = w
        self.put(_socket, 'socket', _net.SimSocket)
        self.put(_socket, 'create_connection', _net.create_connection)
        self.put(_socket, 'gethostbyname', lambda host: host)
        self.put(_socket, 'getaddrinfo', self.getaddrinfo)
        self.put(_select, 'select', self.select)
        self.put(_serial, 'Serial', _bus.SimSerial)
        self.put(_serial, 'serial_for_url', lambda url, *a, **kw: _bus.SimSerial(url, *a, **kw))
        self.put(_ssl.SSLContext, 'wrap_socket', _net.wrap_socket)
        self.put(_ssl.SSLContext, 'load_cert_chain', self.load_cert_chain())
        self.put(_time, 'time', w.wall)
        self.put(_time, 'time_ns', lambda: int(w.wall() * 10 ** 9))
        self.put(_time, 'monotonic', lambda: 5000.0 + w.now)
        self.put(_time, 'monotonic_ns', lambda: int((5000.0 + w.now) * 10 ** 9))
        self.put(_time, 'perf_counter', lambda: 100.0 + w.now)
        self.put(_time, 'perf_counter_ns', lambda: int((100.0 + w.now) * 10 ** 9))
        self.put(_time, 'sleep', w.sleep)
        self.put(_time, 'gmtime', lambda s=None: _real['gmtime'](w.wall() if s is None else s))
        self.put(_time, 'localtime', lambda s=None: _real['localtime'](w.wall() if s is None else s))
        self.put(_time, 'ctime', lambda s=None: _real['ctime'](w.wall() if s is None else s))
        self.put(_time, 'asctime', lambda t=None: _real['asctime'](t if t is not None else _time.localtime()))
        self.put(_time, 'strftime', lambda fmt, t=None: _real['strftime'](fmt, t if t is not None else _time.localtime()))
        self.patch_datetime()
        self.put(builtins, 'open', self.fopen)
        self.put(io, 'open', self.fopen)
        return self

    def __exit__(self, *a):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)
        self.saved = []
        _net.SimSocket.w = None
        _bus.SimSerial.w = None
        loader.purge()
        if self.tz0 is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.tz0
        _time.tzset()
        for k, v in self.env0.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        os.chdir(self.cwd)
        return False

    def patch_datetime(self):
        w = self.w
        real = _real['datetime']
        rdate = _real['date']

        class Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, real)

            def __subclasscheck__(cls, sub):
                return issubclass(sub, real)

        class datetime(real, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return real.fromtimestamp(w.wall(), tz)

            @classmethod
            def utcnow(cls):
                return real.fromtimestamp(w.wall(), _dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return real.fromtimestamp(w.wall())

        class DMeta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, rdate)

        class date(rdate, metaclass=DMeta):
            @classmethod
            def today(cls):
                return real.fromtimestamp(w.wall()).date()

        self.put(_dt, 'datetime', datetime)
        self.put(_dt, 'date', date)

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, '', (host, int(port or 0)))]

    def select(self, r, wr, x, timeout=None):
        w = self.w

        def ready():
            return [s for s in r if getattr(s, 'rx', None) or getattr(s, 'eof', False) or getattr(s, 'err', None)]
        if wr:
            return ready(), list(wr), []
        w.block('select', lambda: bool(ready()), timeout)
        return ready(), [], []

    def load_cert_chain(self):
        w = self.w

        def load(ctx, certfile, keyfile=None, password=None):
            _real['load_cert_chain'](ctx, certfile, keyfile, password)
            w.client_certs[ctx] = certfile
            w.contexts.append(ctx)          # keeps the id from being used again
        return load

    # ---- files: faults apply to files below the scratch directory only -------

    def fopen(self, file, mode='r', *a, **kw):
        w = self.w
        if isinstance(file, (str, bytes)) or hasattr(file, '__fspath__'):
            path = os.path.realpath(os.fspath(file))
            if isinstance(path, bytes):
                path = path.decode()
            if path.startswith(self.scratch + os.sep):
                ctx = w.ctx
                k = ctx.opens
                ctx.opens += 1
                w.note('open', os.path.relpath(path, self.scratch), mode)
                f = (ctx.op.get('o') or {}).get(str(k)) or {}
                kind = f.get('kind')
                if kind is None and w.files:
                    kind = w.files.get(os.path.relpath(path, self.scratch))
                if kind in ('eacces', 'emfile', 'enoent', 'open_eio'):
                    w.hit('file_' + kind)
                    ctx.harm[-1] += ':' + os.path.basename(path)
                    no = {'eacces': errno.EACCES, 'emfile': errno.EMFILE, 'enoent': errno.ENOENT,
                          'open_eio': errno.EIO}[kind]
                    raise OSError(no, os.strerror(no), os.fspath(file))
                if kind == 'eio':
                    w.hit('file_eio')
                    ctx.harm[-1] += ':' + os.path.basename(path)
                    return FaultyFile(_real['open'](file, mode, *a, **kw), 'eio')
                fo = _real['open'](file, mode, *a, **kw)
                self.open_files.append((ctx.opi, os.path.basename(path), fo))
                return fo
        return _real['open'](file, mode, *a, **kw)

    def write(self, rel, data):
        p = os.path.join(self.scratch, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _real['open'](p, 'wb') as f:
            f.write(data.encode() if isinstance(data, str) else data)
        return p

    def remove(self, rel):
        p = os.path.join(self.scratch, rel)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.unlink(p)
