"""Workload 3: model definition files.  Workload 2 with a search path of directories and zip archives whose
contents are good, bad, missing, unreadable or changing while devices are scanned.  Decides C16."""
import contextlib
import io
import os
import pathlib
import zipfile

from . import ref
from .w2 import W2


def zip_bytes(spec, contents):
    """A zip archive: {'members': {name: key}, 'broken': None, 'garbage', 'trunc' or 'crc'}."""
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w', zipfile.ZIP_STORED) as z:
        for name in sorted(spec['members']):
            info = zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0))
            z.writestr(info, text_bytes(contents[spec['members'][name]]['text']))
    data = bytearray(buf.getvalue())
    if spec.get('broken') == 'garbage':
        return b'PK\x03\x04 this is no archive'
    if spec.get('broken') == 'trunc':
        return bytes(data[:len(data) // 2])
    if spec.get('broken') == 'crc':
        # a flipped byte in the data of every member
        with zipfile.ZipFile(io.BytesIO(bytes(data))) as z:
            for info in z.infolist():
                if info.file_size:
                    data[info.header_offset + 30 + len(info.filename)] ^= 1
    return bytes(data)


def text_bytes(text):
    return bytes.fromhex(text['hex']) if isinstance(text, dict) else text.encode('utf-8')


SOFT = ('outside', 'latepoint', 'sf', 'repnolen')


class W16(W2):

    def setup(self):
        cfg = self.plan['cfg']
        self.contents = cfg['contents']
        self.fs = {}
        self.loaded = {}           # model id -> definitions scans have used
        self.w.files = {}
        self.path = list(cfg['path'] or ())
        for rel in sorted(cfg['fs']):
            self.place(rel, cfg['fs'][rel])
        W2.setup(self)
        self.has_default = hasattr(self.devmod, 'model_type_path_default')
        if self.has_default:
            self.devmod.model_type_path_default = os.path.join(self.env.scratch, 'default')

    def place(self, rel, spec):
        self.env.remove(rel)
        self.fs.pop(rel, None)
        if spec is None:
            return
        self.fs[rel] = spec
        if isinstance(spec, dict):
            self.env.write(rel, zip_bytes(spec, self.contents))
        else:
            self.env.write(rel, text_bytes(self.contents[spec]['text']))

    def do_deffile(self, op, r):
        self.place(op['path'], op['to'])
        self.w.fired['definition_file_changed'] += 1

    def do_addpath(self, op, r):
        """A place more at the end of the search path."""
        if self.devmod.file_pathlist is not None:
            self.devmod.file_pathlist.add(os.path.join(self.env.scratch, op['path']))
            self.path.append(op['path'])
            self.w.probes['search_path_extended'] += 1

    def fresh(self, op):
        """The operation uses a search path of its own."""
        if op.get('fresh') is None or not hasattr(self.devmod, 'fresh_file_pathlist'):
            return contextlib.nullcontext()
        self.w.probes['own_search_path'] += 1
        paths = [os.path.join(self.env.scratch, p) for p in op['fresh']]
        return self.devmod.fresh_file_pathlist(*[pathlib.Path(p) if op.get('as_path') else p for p in paths])

    def do_open(self, op, r):
        with self.fresh(op):
            W2.do_open(self, op, r)

    def do_scan(self, op, r):
        with self.fresh(op):
            W2.do_scan(self, op, r)

    def do_filefault(self, op, r):
        if op['kind'] is None:
            self.w.files.pop(op['path'], None)
        else:
            self.w.files[op['path']] = op['kind']

    # ---- which definition a model has ------------------------------------------------------------

    def resolve(self, mid, mlen, harm, own=None):
        """Acceptable outcomes of loading the definition of a model: definitions or 'err'."""
        name = ref.file_name(mid)
        alts = []
        self.unscaled = set()      # points whose scale factor does not exist, if that is what is wrong
        kinds = set()
        several = False            # which place counts is not settled
        places = list(self.path if own is None else own) + ['cwd'] + (['default'] if self.has_default else [])
        struck = [h.split(':', 1)[1] for h in harm if h.startswith('file_') and ':' in h]
        for p in places:
            rel, member = self.member(p, name)
            spec = self.fs.get(rel)
            if spec is None:
                continue
            if isinstance(spec, dict) != (member is not None):
                continue
            if rel in self.w.files or os.path.basename(rel) in struck:
                self.w.probes['definition_unreadable'] += 1
                alts.append('err')
                if rel in self.w.files:
                    continue
            if isinstance(spec, dict):
                self.w.probes['definition_from_zip'] += 1
                if spec.get('broken') in ('garbage', 'trunc'):
                    alts.append('err')
                    continue
                if member not in spec['members']:
                    continue
                if spec.get('broken') == 'crc' and self.contents[spec['members'][member]]['text']:
                    alts.append('err')
                    if several:
                        continue
                    break
                c = self.contents[spec['members'][member]]
            else:
                c = self.contents[spec]
            if c['bad'] == 'empty':
                alts.append('err')
                several = True
                continue
            alts.append('err' if c['bad'] else c['def'])
            kinds.add(c['bad'])
            if c['bad'] == 'sf':
                if len([q for b in (c['def']['fixed'], c['def'].get('rep')) for q in (b['points'] if b else ()) if q['id'] == c['point']]) == 1:
                    self.unscaled.add(c['point'])
            if c['bad'] in SOFT and mlen == c['def']['fixed']['len']:
                alts.append(c['def'])     # what is wrong may lie in a block the model does not have
            self.w.probes['definition_' + (c['bad'] or 'ok')] += 1
            if not several:
                break
        else:
            alts.append('err')
        if kinds - {'sf'}:
            self.unscaled = set()
        for d in self.loaded.get(mid, ()):
            alts.append(d)
        return alts

    def member(self, place, name):
        parts = place.split('/')
        for k, e in enumerate(parts):
            if e.endswith('.zip'):
                return '/'.join(parts[:k + 1]), '/'.join(parts[k + 1:] + [name])
        return place + '/' + name, None

    def relayout(self, o, r):
        """After a scan: what the device has to show, given the files as they are."""
        if r.op['op'] == 'scan' and r.status != 'ok' and not r.extra.get('fresh', True):
            return
        out = []
        models = o.dev.models_list
        for i, m in enumerate(self.plan['cfg']['sun'][o.op['dev']]['models']):
            got = models[i] if i < len(models) else None
            alts = self.resolve(m['id'], m['len'], r.harm, r.op.get('fresh'))
            cands = []
            for d in alts:
                e = {'id': m['id'], 'len': m['len'], 'addr': m['addr'], 'blocks': [], 'err': None, 'name': 'model_%d' % m['id'], 'def': d,
                     'unscaled': self.unscaled}
                if d == 'err':
                    e['err'] = 'unusable'
                    if got is not None and got.model_type is not None and getattr(got.model_type, 'name', None):
                        e['name'] = got.model_type.name
                else:
                    e['blocks'], e['err'] = ref.expand(d, m['len'], m['addr'])
                    e['name'] = d.get('name') or 'model_%d' % m['id']
                cands.append(e)
            best = cands[0]
            if got is not None:
                for e in cands:
                    if self.fits(e, got):
                        best = e
                        break
            if isinstance(best['def'], dict) and r.status == 'ok':
                if best['def'] not in self.loaded.setdefault(m['id'], []):
                    self.loaded[m['id']].append(best['def'])
            out.append(best)
        o.layout = out
        r.extra['layout'] = out

    def fits(self, e, got):
        if (e['err'] is not None) != (got.load_error is not None):
            return False
        if e['err'] is not None:
            return True
        if got.model_type is None or getattr(got.model_type, 'name', e['name']) != e['name']:
            return False
        return [(b.index, sorted(b.points)) for b in e['blocks']] == [(b.index, sorted(b.points)) for b in got.blocks]


def judge(plan, prop, scratch):
    from . import oracle2
    run = W16(plan, scratch).execute()
    return oracle2.check(run, prop), [run]


def shrinks(plan):
    """Plans without one file or one place of the search path."""
    cfg = plan['cfg']
    for rel in sorted(cfg['fs']):
        c = dict(cfg, fs=dict(cfg['fs']))
        del c['fs'][rel]
        yield dict(plan, cfg=c)
    if cfg['path']:
        for k in range(len(cfg['path'])):
            yield dict(plan, cfg=dict(cfg, path=cfg['path'][:k] + cfg['path'][k + 1:]))
