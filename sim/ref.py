"""Reference for SunSpec: model definitions, their layout in a device and the meaning of register data.
Written from the SunSpec information model specification, independently of the code under test.

A definition is a JSON document:
  {'id': 103, 'name': 'inverter' or None, 'len': 50, 'label': ..., 'fixed': block, 'rep': block or None}
  block: {'len': n, 'name': ... or None, 'points': [{'id','off','type','len'(strings),'sf','access','label','units'}]}
"""
import math
import struct
from xml.sax.saxutils import escape, quoteattr

LEN = {'int16': 1, 'uint16': 1, 'count': 1, 'acc16': 1, 'enum16': 1, 'bitfield16': 1, 'pad': 1, 'int32': 2, 'uint32': 2,
       'acc32': 2, 'enum32': 2, 'bitfield32': 2, 'ipaddr': 2, 'int64': 4, 'uint64': 4, 'acc64': 4, 'ipv6addr': 8,
       'float32': 2, 'sunssf': 1, 'eui48': 4}
SIGNED = ('int16', 'int32', 'int64', 'sunssf')
INTS = ('int16', 'uint16', 'count', 'acc16', 'enum16', 'bitfield16', 'int32', 'uint32', 'acc32', 'enum32', 'bitfield32',
        'ipaddr', 'int64', 'uint64', 'acc64')
SCALED = ('int16', 'uint16', 'acc16', 'int32', 'uint32', 'acc32', 'int64', 'uint64', 'acc64')
ZERO_UNIMPL = ('acc16', 'acc32', 'acc64', 'ipaddr')


def plen(p):
    return p.get('len') or LEN[p['type']]


# ---- files ----------------------------------------------------------------------

def file_name(mid):
    return 'smdx_%05d.xml' % mid


def _block_xml(b, kind):
    out = ['  <block%s len="%d"%s>' % ('' if kind == 'fixed' and not b.get('explicit') else ' type="%s"' % kind, b['len'],
                                        ' name=%s' % quoteattr(b['name']) if b.get('name') else '')]
    for p in b['points']:
        a = 'id=%s offset="%d" type="%s"' % (quoteattr(p['id']), p['off'], p['type'])
        if p.get('len'):
            a += ' len="%d"' % p['len']
        if p.get('sf') is not None:
            a += ' sf=%s' % quoteattr(p['sf'])
        if p.get('access'):
            a += ' access="%s"' % p['access']
        if p.get('units'):
            a += ' units=%s' % quoteattr(p['units'])
        if p.get('mandatory'):
            a += ' mandatory="true"'
        inside = text_xml(p['text'], symbols=False) if p.get('inline') else ''
        if p.get('syms'):
            inside += ''.join('<symbol id=%s>%s</symbol>' % (quoteattr(s['id']), s['value']) for s in p['syms'])
        if inside:
            out.append('   <point %s>%s</point>' % (a, inside))
        elif p.get('symbols'):
            out.append('   <point %s>%s</point>' % (a, ''.join('<symbol id="%s">%d</symbol>' % (s, i) for i, s in enumerate(p['symbols']))))
        else:
            out.append('   <point %s />' % a)
    out.append('  </block>')
    return out


def text_xml(t, symbols=True):
    """Label, description, notes and symbols in a strings section."""
    out = ''
    for k in t.get('order', ('label', 'description', 'notes')):
        if t.get(k) is not None:
            out += '<%s>%s</%s>' % (k, escape(t[k]), k)
    for s in t.get('syms', ()) if symbols else ():
        out += '<symbol id=%s>%s</symbol>' % (quoteattr(s['id']), text_xml(s))
    return t.get('before', '') + out + t.get('after', '')


def strings_xml(d, mid):
    out = [' <strings id="%d" locale="en">' % mid]
    if d.get('text'):
        out.append('  <model>%s</model>' % text_xml(d['text']))
    pts = [p for b in (d['fixed'], d.get('rep')) for p in (b['points'] if b else ()) if p.get('text') or p.get('syms')]
    if d.get('shuffled'):
        pts.reverse()
    for p in pts:
        x = text_xml(dict(p.get('text') or {}, syms=[s for s in p.get('syms', ()) if any(k in s for k in ('label', 'description', 'notes'))])
                     if not p.get('inline') else {})
        if x:
            out.append('  <point id=%s>%s</point>' % (quoteattr(p['id']), x))
    return out + [' </strings>']


def to_xml(d):
    if d.get('rich'):
        model = to_xml(dict(d, rich=False)).split('\n')
        i = model.index(' <strings id="%d" locale="en">' % d['id'])
        out = model[1:i]
        more = strings_xml(d, d['id'])
        if d.get('others') is not None:
            # texts of another model
            e = dict(d, text={'label': 'Another', 'notes': 'nothing'})
            more = strings_xml(e, d['others']) + more if d.get('shuffled') else more + strings_xml(e, d['others'])
        out = more + out if d.get('early') else out + more
        return '\n'.join(([d['head']] if d.get('head') else []) + model[:1] + out + ['</sunSpecModels>', ''])
    out = ['<sunSpecModels v="1">', ' <model id="%d" len="%d"%s>' % (d['id'], d['len'], ' name=%s' % quoteattr(d['name']) if d.get('name') else '')]
    if not d.get('nofixed'):
        out += _block_xml(d['fixed'], 'fixed')
    if d.get('rep'):
        out += _block_xml(d['rep'], 'repeating')
    out.append(' </model>')
    out.append(' <strings id="%d" locale="en">' % d['id'])
    if d.get('label'):
        out.append('  <model><label>%s</label><description>d</description></model>' % escape(d['label']))
    for b in (d['fixed'], d.get('rep')):
        for p in (b['points'] if b else ()):
            if p.get('label'):
                out.append('  <point id=%s><label>%s</label></point>' % (quoteattr(p['id']), escape(p['label'])))
    out += [' </strings>', '</sunSpecModels>', '']
    return '\n'.join(out)


# ---- layout -----------------------------------------------------------------------

class P(object):
    """One point instance."""

    __slots__ = ('block', 'id', 'type', 'addr', 'len', 'sf', 'sfp', 'defn')


class B(object):
    """One block instance."""

    __slots__ = ('index', 'addr', 'len', 'points', 'sfs', 'all', 'name')


def expand(d, mlen, addr):
    """Blocks of a model instance of mlen registers whose first point is at addr.
    Returns (blocks, None), or (leading blocks, why) if the definition does not fit."""
    blocks = []
    end = addr + mlen
    a = addr
    index = 0
    bt = d['fixed']
    blen = bt['len']
    if d['id'] == 1 and mlen == 65:
        blen = 65
    while True:
        if a + blen > end:
            return blocks, 'misfit'
        b = B()
        b.index, b.addr, b.len = index, a, blen
        b.name = bt.get('name')
        b.points, b.sfs, b.all = {}, {}, {}
        for p in bt['points']:
            q = P()
            q.block, q.id, q.type, q.addr, q.len, q.defn = b, p['id'], p['type'], a + p['off'], plen(p), p
            q.sf = q.sfp = None
            if p['type'] == 'pad':
                continue
            b.all[p['id']] = q
            if p['type'] == 'sunssf':
                b.sfs[p['id']] = q
            else:
                b.points[p['id']] = q
        for q in b.points.values():
            s = q.defn.get('sf')
            if s is None:
                continue
            try:
                q.sf = int(s)
            except ValueError:
                q.sfp = b.sfs.get(s)
                if q.sfp is None and index > 0:
                    q.sfp = blocks[0].sfs.get(s)
                if q.sfp is None:
                    return blocks, 'sf'
        blocks.append(b)
        a += blen
        if not d.get('rep') or a == end:
            return blocks, None
        bt = d['rep']
        blen = bt['len']
        index += 1


# ---- register data ------------------------------------------------------------------

def decode(t, raw):
    """Value of register data without scale factor; None when the data means 'not implemented'."""
    if t in INTS or t == 'sunssf':
        v = int.from_bytes(raw, 'big')
        bits = 8 * len(raw)
        if t in SIGNED:
            if v >> (bits - 1):
                v -= 1 << bits
            return None if v == -(1 << (bits - 1)) else v
        if t in ZERO_UNIMPL:
            return None if v == 0 else v
        return None if v == (1 << bits) - 1 else v
    if t == 'float32':
        v = struct.unpack('>f', raw)[0]
        return None if v != v else v
    if t == 'ipv6addr':
        if raw == bytes(16):
            return None
        h = raw.hex().upper()
        return ':'.join(h[i:i + 8] for i in range(0, 32, 8))
    if t == 'eui48':
        if raw == bytes(8) or raw[2:] == b'\xff' * 6:
            return None
        return ':'.join('%02X' % b for b in raw[2:])
    if t == 'string':
        if raw[0] == 0:
            return None
        return raw.decode('latin-1').rstrip('\0')
    raise ValueError(t)


def encode(t, n, v):
    """Register data of a value without scale factor (n registers)."""
    if t in INTS or t == 'sunssf':
        return (v & ((1 << 16 * n) - 1)).to_bytes(2 * n, 'big')
    if t == 'float32':
        return struct.pack('>f', v)
    if t == 'ipv6addr':
        return bytes.fromhex(v.replace(':', ''))
    if t == 'eui48':
        return b'\0\0' + bytes.fromhex(v.replace(':', ''))
    if t == 'string':
        return v.encode('latin-1').ljust(2 * n, b'\0')
    raise ValueError(t)


def limits(t):
    n = 16 * LEN[t]
    if t in SIGNED:
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    return 0, (1 << n) - 1


def scaled(base, sf):
    """The possible values of a point with base value 'base' and scale factor value 'sf' (None: not
    implemented or none)."""
    if base is None:
        return [None]
    if sf:
        return [base * (10.0 ** sf)]
    return [base]


def same(a, b):
    """Is the value a reported by the code the expected value b?"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) or not isinstance(a, (int, float)):
        return False
    if isinstance(b, int) and isinstance(a, int):
        return a == b
    try:
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    except OverflowError:
        return False
