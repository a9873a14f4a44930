"""Workload 4: the suns script, run in this process with simulated devices; its output is compared with
what the devices hold.  Decides C20."""
import re
import struct
import sys
import time

from . import ref
from .env import loader
from .kernel import SimFatal
from .runner import Run, Violation
from .w16 import SOFT


class W20(Run):

    nontrivial = True

    def setup(self):
        self.defs = dict((int(k), v) for k, v in self.plan['cfg']['defs'].items())

    def do_script(self, op, r):
        """One run of the script in a process of its own."""
        loader.purge()
        dev = self.mod('sunspec.core.device')
        if hasattr(dev, 'model_type_path_default'):
            dev.model_type_path_default = self.env.scratch + '/default'
        path, _, code = loader.script('scripts/suns.py')
        a = len(self.env.out.getvalue())
        b = len(self.env.err.getvalue())
        sys.argv = ['suns.py'] + op['argv']
        status = 0
        try:
            exec(code, {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__})
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        finally:
            r.extra['out'] = self.env.out.getvalue()[a:].replace(self.env.scratch, '<scratch>')
            r.extra['err'] = self.env.err.getvalue()[b:].replace(self.env.scratch, '<scratch>')
            r.extra['wall'] = self.w.wall()
        return status

    def run_op(self, i, op, tid=0):
        wall = self.w.wall()
        r = Run.run_op(self, i, op, tid)
        r.extra['wall0'] = wall
        if op['op'] == 'script' and self.w.fatal is None:
            # the process ends
            self.w.begin(i, {'op': 'exit'})
            for bus in self.w.buses.values():
                for p in list(bus.ports):
                    p.close()
            for s in self.w.net.socks:
                if not s.closed:
                    s.close()
            r.harm = list(r.harm)
        return r

    from .w2 import W2
    do_wait = W2.do_wait
    do_jump = W2.do_jump
    do_poke = W2.do_poke
    do_plug = W2.do_plug
    do_file = W2.do_file
    del W2


class Judge(object):

    def __init__(self, run):
        self.run = run
        self.out = []

    def say(self, sig, msg, r):
        self.out.append(Violation('C20', sig, '%s: %s' % (' '.join(['suns.py'] + r.op['argv']), msg), r.i))

    def analyse(self):
        for r in self.run.results:
            if r.op['op'] == 'script':
                self.script(r)
        return self.out

    def script(self, r):
        out = r.extra.get('out', '')
        if r.status == 'fatal':
            self.say('hang', r.text, r)
            return
        if r.status == 'err':
            self.say('traceback', 'ended with %s: %s in %s' % (r.exc, r.text, r.tb), r)
            return
        if 'Traceback' in out + r.extra.get('err', ''):
            self.say('traceback', 'printed a traceback', r)
            return
        lines = out.splitlines()
        harm = self.real_harm(r)
        if r.value != 0:
            if r.op.get('bad') in ('number', 'unknown'):
                if not (out + r.extra['err']).strip():
                    self.say('silent', 'exit status %s without a message' % r.value, r)
                return
            said = [x for x in lines if x.strip() and not x.startswith('Timestamp:')]
            if r.op.get('bad') != 'map':
                pass
            if not said or not (said[-1].startswith('Error:') or '-t' in said[-1] and r.op.get('bad') == 'transport'):
                self.say('no_error_line', 'exit status %s, last line %r' % (r.value, said[-1:] or ''), r)
            if r.value != 1:
                self.say('status', 'exit status %s' % r.value, r)
            if any(x.startswith('model:') for x in lines):
                self.say('partial', 'models printed although it failed', r)
            sun = self.run.plan['cfg']['sun'].get(r.op['dev'])
            if not harm and not r.op.get('bad') and not (sun and (sun.get('endless') or sun.get('foreign'))):
                self.say('failed', 'failed without any fault: %s' % said[-1:], r)
            return
        if r.op.get('bad'):
            self.say('bad_accepted', 'exit status 0 (bad %s)' % r.op['bad'], r)
            return
        if (self.run.plan['cfg']['sun'].get(r.op['dev']) or {}).get('foreign'):
            self.say('foreign_accepted', 'exit status 0 for a device that is no SunSpec device', r)
            return
        if [x for x in lines if x.startswith('Error')]:
            self.say('status', 'exit status 0 with an error line', r)
        self.timestamp(r, lines)
        self.models(r, lines)

    def real_harm(self, r):
        harm = list(r.harm)
        sun = self.run.plan['cfg']['sun'].get(r.op['dev'])
        for q in self.run.reqs(r.i, r.tid):
            if sun and q.addr in (0, 40000, 50000) and q.addr != sun['base'] and q.code == 2 and not q.fault.get('kind') and 'refused' in harm:
                harm.remove('refused')
        return [h for h in harm if not (h.startswith('file_') and 'smdx_' in h)]

    def timestamp(self, r, lines):
        ts = [x for x in lines if x.startswith('Timestamp: ')]
        if len(ts) != 1:
            self.say('timestamp', '%d timestamp lines' % len(ts), r)
            return
        m = re.match(r'Timestamp: (\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z$', ts[0].strip())
        if not m:
            self.say('timestamp', 'timestamp line %r' % ts[0], r)
            return
        import calendar
        t = calendar.timegm(tuple(int(x) for x in m.groups()))
        if not int(r.extra['wall0']) - 1 <= t <= r.extra['wall'] + 1:
            self.say('timestamp', '%s, the clock said %.2f to %.2f' % (ts[0], r.extra['wall0'], r.extra['wall']), r)

    # ---- printed models ---------------------------------------------------------------

    def models(self, r, lines):
        run = self.run
        cfg = run.plan['cfg']
        got = []
        for x in lines:
            if x.startswith('model: '):
                got.append((x[7:].strip(), []))
            elif x.strip() and got:
                got[-1][1].append(x)
        want = cfg['sun'][r.op['dev']]['models']
        ids = []
        for label, _ in got:
            m = re.search(r'\((\d+)\)$', label)
            ids.append(int(m.group(1)) if m else None)
        if ids != [m['id'] for m in want]:
            self.say('models', 'printed models %s, the device has %s' % (ids, [m['id'] for m in want]), r)
            return
        for k, (m, (label, pts)) in enumerate(zip(want, got)):
            d = run.defs.get(m['id'])
            bad = cfg['spoiled'].get(str(m['id']))
            err = None
            blocks = []
            if d is None:
                err = 'unknown'
            else:
                blocks, err = ref.expand(d, m['len'], m['addr'])
                if bad and not (bad['kind'] in SOFT and m['len'] == d['fixed']['len']):
                    err = bad['kind']
            soft = err is not None or bad is not None or any(h.startswith('file_') and ref.file_name(m['id']) in h for h in r.harm)
            if not soft and d.get('label') and d['label'] not in label:
                self.say('label', 'model %d is labelled %r, expected %r' % (m['id'], label, d['label']), r)
            self.points(r, m, k, pts, blocks, soft, bad, d)

    def points(self, r, m, k, lines, blocks, soft, bad, d):
        """lines: printed points; soft: points may be missing, but none may be wrong."""
        exp = []
        for b in blocks:
            for q in sorted(b.points.values(), key=lambda q: q.addr):
                if bad and q.id == bad.get('point') and len([1 for c in (d['fixed'], d.get('rep')) for p in (c['points'] if c else ()) if p['id'] == q.id]) == 1:
                    continue               # its scale factor is nowhere: whatever it shows is wrong
                exp.append((b, q, self.values(r, q)))
        what = 'model %d (number %d)' % (m['id'], k)
        pos = 0
        for line in lines:
            hit = None
            why = 'it is no point of the model'
            for n in range(pos, len(exp)):
                b, q, vs = exp[n]
                rest = self.match(line, b, q)
                if rest is not None:
                    texts = [v for v in vs if v is not None]
                    if any(self.agrees(rest, q, v) for v in texts):
                        hit = n
                        break
                    why = 'the device has %s' % ' or '.join(repr(v) for v in vs)
                if not soft and None not in vs:
                    if rest is None:
                        why = 'point %s (block %d) should be printed before' % (q.id, b.index)
                    break
            if hit is None:
                self.say('wrong_point', '%s prints %r, but %s' % (what, line.strip(), why), r)
                return
            pos = hit + 1
        if not soft:
            for b, q, vs in exp[pos:]:
                if None not in vs:
                    self.say('missing_point', '%s does not print point %s of block %d (%s)' % (what, q.id, b.index, vs[0]), r)
                    return

    def match(self, line, b, q):
        """What follows the label of this point, if it is this point's line."""
        i = line.find('(%s):' % q.id)
        if i < 0:
            return None
        head = line[:i]
        m = re.match(r'\s*(\d+):', head)
        if (int(m.group(1)) if m else 0) != b.index:
            return None
        label = q.defn.get('label')
        if label and label not in head:
            return None
        return line[i + len(q.id) + 3:]

    def agrees(self, rest, q, v):
        units = q.defn.get('units') or ''
        if isinstance(v, str):
            return rest.split() == (v + ' ' + units).split()
        words = rest.split()
        if words[1:] != units.split() or not words:
            return False
        try:
            got = int(words[0], 0) if words[0].lower().startswith('0x') else int(words[0]) if re.match(r'-?\d+$', words[0]) else float(words[0])
        except ValueError:
            return False
        if q.type in ('bitfield16', 'bitfield32') and not words[0].startswith('0x'):
            return False
        return ref.same(got, v)

    def values(self, r, q):
        """What the point may show: its value at any moment of the run."""
        dev = self.run.devices.get(r.op['dev'])
        steps = {r.s0}
        for a in [q.addr + n for n in range(q.len)] + ([q.sfp.addr] if q.sfp is not None else []):
            if dev is not None:
                for s, _ in dev.hist.get((3, a), ()):
                    if r.s0 < s <= r.s1:
                        steps.add(s)
        out = []
        for s in sorted(steps):
            base = ref.decode(q.type, self.regs(r, q.addr, q.len, s))
            sf = q.sf
            if q.sfp is not None:
                sf = ref.decode('sunssf', self.regs(r, q.sfp.addr, 1, s))
            if base is not None and q.sfp is not None and sf is None:
                out += [base, None]
                continue
            out += ref.scaled(base, sf)
        return out

    def regs(self, r, addr, n, step):
        dev = self.run.devices.get(r.op['dev'])
        if dev is not None:
            return b''.join(struct.pack('>H', dev.value_at(3, a, step)) for a in range(addr, addr + n))
        for a, hx in self.run.plan['cfg']['mapmem'][r.op['dev']]:
            if a <= addr and addr + n <= a + len(hx) // 4:
                return bytes.fromhex(hx[4 * (addr - a):4 * (addr - a + n)])
        raise KeyError(addr)


def judge(plan, prop, scratch):
    run = W20(plan, scratch).execute()
    return Judge(run).analyse(), [run]
