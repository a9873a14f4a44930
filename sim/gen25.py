"""Plan generator for what definitions say about models and points (C25): gen16 with texts, symbols and all that."""
from . import gen16, ref

TEXT = ('Amps', 'DC Power', 'Status & Mode', 'Wert <x>', ' padded ', 'two\nlines', 'x' * 200, 'W\u00e4rme \u00b0C', '"quoted"', '0', 'None', '\u6e29\u5ea6')
ENCODINGS = ('iso-8859-1', 'utf-16', 'utf-8-sig', 'us-ascii', 'UTF-8')
SYM = ('OFF', 'ON', 'FAULT', 'NONE', 'STARTING', 'MPPT')
VALUES = ('0', '1', '2', '7', '15', '65534', '0x10')


class Gen(gen16.Gen):
    workload = 'w25'

    def text(self, p=0.6, extra=True):
        rng = self.rng
        t = {}
        for k in ('label', 'description', 'notes'):
            if rng.random() < p:
                t[k] = rng.choice(TEXT)
        if rng.random() < 0.3:
            t['order'] = ['notes', 'description', 'label']
        for k in ('before', 'after'):
            # what the library does not know is left alone
            if extra and rng.random() < 0.15:
                t[k] = rng.choice(('<!-- label -->', '<vendor>V</vendor>', '<remark><label>L</label></remark>', '<!--<notes>n</notes>-->', '<Label>upper</Label>'))
        return t

    def symbols(self):
        rng = self.rng
        out = []
        for s in rng.sample(SYM, rng.randint(1, len(SYM))):
            e = {'id': s, 'value': rng.choice(VALUES)}
            if rng.random() < 0.6:
                e.update(self.text(0.5))
            out.append(e)
        return out

    def encoded(self, d):
        text = ref.to_xml(d)
        enc = self.rng.choice((None,) * 5 + ENCODINGS)
        if enc is None:
            return text
        if text.startswith('<?xml'):
            text = text.split('?>', 1)[1].lstrip()
        if enc != 'utf-8-sig':
            text = '<?xml version="1.0" encoding="%s"?>\n%s' % (enc, text)
        return {'hex': text.encode(enc, 'xmlcharrefreplace').hex()}

    def enrich(self):
        rng = self.rng
        for mid, d in sorted(self.defs.items()):
            d['rich'] = True
            d.pop('label', None)
            d['text'] = self.text()
            if rng.random() < 0.4:
                d['shuffled'] = True
            if rng.random() < 0.3:
                d['early'] = True
            if rng.random() < 0.4:
                d['others'] = rng.choice((mid + 1, mid * 10, 1 if mid != 1 else 2))
            if rng.random() < 0.3:
                d['head'] = '<?xml version="1.0" encoding="UTF-8"?>' if rng.random() < 0.5 else '<?xml version="1.0"?>'
            ids = [set(p['id'] for p in b['points']) if b else set() for b in (d['fixed'], d.get('rep'))]
            both = ids[0] & ids[1]
            for b in (d['fixed'], d.get('rep')):
                for p in (b['points'] if b else ()):
                    p.pop('label', None)
                    p.pop('symbols', None)
                    inline = rng.random() < 0.15
                    if rng.random() < 0.7 and (inline or p['id'] not in both):
                        p['text'] = self.text(extra=not inline)
                        if inline:
                            p['inline'] = True
                    if p['type'] in ('enum16', 'bitfield16', 'enum32', 'bitfield32', 'uint16') and rng.random() < 0.6:
                        p['syms'] = self.symbols()
                        if p.get('inline') or p['id'] in both:
                            # texts of symbols stand in the strings section only
                            p['syms'] = [{'id': s['id'], 'value': s['value']} for s in p['syms']]


def gen(rng, prop):
    return Gen(rng, prop).plan()
