"""The same history over TCP, over a serial line and on a register map, compared step by step (C19)."""
from .gen19 import FILE
from .oracle2 import equal
from .runner import Violation
from .w2 import W2

KINDS = ('tcp', 'rtu', 'map')
BASES = ('SunSpecClientError', 'SunSpecError', 'ModbusClientError', 'Exception')


def as_kind(plan, kind):
    """The plan with its device reached another way."""
    if kind == 'tcp':
        return plan
    bus = plan['cfg']['bus'][0]
    ops = []
    for op in plan['ops']:
        if op['op'] == 'open':
            new = dict(op, kind=kind)
            for k in ('host', 'port'):
                new.pop(k, None)
            if kind == 'rtu':
                new.update(port=bus['port'], baudrate=bus['baud'], parity=bus['parity'], dev=op['dev'].replace('tcp0', 'bus0'))
            else:
                new.update(file=FILE, dev='map:' + FILE)
            op = new
        ops.append(op)
    return dict(plan, ops=ops)


def outcome(r):
    """What the caller sees of one operation."""
    if r.extra.get('skip'):
        return 'skipped'
    if r.status == 'fatal':
        return 'never ended'
    if r.status == 'ok':
        return 'returned ' + (r.value.hex() if isinstance(r.value, bytes) else repr(r.value) if r.op['op'] == 'rawread' else 'ok')
    for b in BASES:
        if r.is_a(b):
            return 'raised ' + b
    return 'raised ' + str(r.exc)


def progress(r):
    return [c[2] for c in r.extra.get('progress', ())]


def contents(run, kind):
    """Contents of the device after the run."""
    o = run.objs.get('d0')
    out = {}
    for a, hx in run.plan['cfg']['mapmem']['map:' + FILE]:
        for k in range(len(hx) // 4):
            if kind == 'map':
                out[a + k] = None
            else:
                dev = list(run.devices.values())[0 if kind == 'tcp' else 1]
                out[a + k] = dev.value_at(3, a + k, run.w.step + 1)
    if kind == 'map':
        got = None
        for r in reversed(run.results):
            if 'map' in r.extra:
                got = r.extra['map']
                break
        if not isinstance(got, dict):
            return None
        for a in out:
            out[a] = int.from_bytes(got[a], 'big')
    return out


def compare(a, b, ka, kb):
    for x, y in zip(a.results, b.results):
        name = x.op['op']
        if x.op.get('cancel_with') == 'raise' and 'cancelled' in x.extra:
            pass
        if outcome(x) != outcome(y):
            return Violation('C19', 'outcome', '%s: %s over %s (%s), %s over %s (%s)' % (
                name, outcome(x)[:120], ka, x.text, outcome(y)[:120], kb, y.text), x.i)
        if progress(x) != progress(y):
            return Violation('C19', 'progress', '%s reports other models over %s than over %s' % (name, ka, kb), x.i)
        sx, sy = x.extra.get('state') or {}, y.extra.get('state') or {}
        if sorted(sx) != sorted(sy):
            return Violation('C19', 'objects', 'after %s other objects exist over %s than over %s' % (name, ka, kb), x.i)
        for oid in sx:
            mx = [(m['id'], m['addr'], m['len'], m['err'] is None, m['typed']) for m in sx[oid]]
            my = [(m['id'], m['addr'], m['len'], m['err'] is None, m['typed']) for m in sy[oid]]
            if mx != my:
                return Violation('C19', 'models', 'after %s the models are %s over %s, %s over %s' % (name, str(mx)[:150], ka, str(my)[:150], kb), x.i)
            for m, n in zip(sx[oid], sy[oid]):
                if not equal(m['blocks'], n['blocks']):
                    return Violation('C19', 'values', 'after %s model %d shows %s over %s, %s over %s' % (
                        name, m['id'], difference(m, n), ka, difference(n, m), kb), x.i)
        if not equal(x.extra.get('names'), y.extra.get('names')):
            return Violation('C19', 'names', 'after %s the device has other attributes over %s than over %s' % (name, ka, kb), x.i)
    if len(a.results) != len(b.results):
        return Violation('C19', 'outcome', 'the run ended early over %s or %s' % (ka, kb), None)
    ca, cb = contents(a, ka), contents(b, kb)
    if ca is not None and cb is not None and ca != cb:
        d = [k for k in sorted(ca) if ca[k] != cb[k]]
        return Violation('C19', 'contents', 'in the end register %d is %s over %s, %s over %s' % (d[0], ca[d[0]], ka, cb[d[0]], kb), None)
    return None


def difference(m, n):
    for (i, v, _), (_, w, _) in zip(m['blocks'], n['blocks']):
        for p in v:
            if not equal(v[p], w.get(p)):
                return '%s = %r' % (p, v[p])
    return 'others'


def judge(plan, prop, scratch):
    runs = [W2(as_kind(plan, k), scratch).execute() for k in KINDS]
    out = []
    for k in (1, 2):
        v = compare(runs[0], runs[k], KINDS[0], KINDS[k])
        if v is not None:
            out.append(v)
    return out, runs
