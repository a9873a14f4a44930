"""Workload 3 with definitions that say much about their models and points.  Decides C25."""
from . import ref
from .runner import Violation
from .w16 import W16


class W25(W16):

    def setup(self):
        W16.setup(self)
        self.viol = []
        self.known = {}            # object id -> [(model, definition)]

    def relayout(self, o, r):
        W16.relayout(self, o, r)
        if 'layout' not in r.extra:
            return
        pairs = []
        for e, m in zip(r.extra['layout'], o.dev.models_list):
            if e['err'] is None and m.load_error is None and self.fits(e, m):
                pairs.append([m, e['def'], self.alternatives(m, e, r)])
        self.known[r.op['id']] = pairs

    def alternatives(self, m, e, r):
        """Definitions that may have been used for the model."""
        out = []
        for d in self.resolve(m.id, m.len, r.harm, r.op.get('fresh')):
            if isinstance(d, dict):
                blocks, err = ref.expand(d, m.len, m.addr)
                if err is None and self.fits(dict(e, blocks=blocks, name=d.get('name') or 'model_%d' % m.id), m):
                    out.append(d)
        return out or [e['def']]

    def observe(self, r):
        W16.observe(self, r)
        for oid in sorted(self.known):
            if oid not in self.objs:
                continue
            for m, d, alts in self.known[oid]:
                bad = [self.differs(m, a) for a in alts]
                bad = None if None in bad else bad[0]
                self.w.probes['models_described'] += 1
                if bad is not None:
                    self.viol.append(Violation(self.plan['prop'], bad[0], 'after %s: %s model %d: %s' % (r.op['op'], oid, m.id, bad[1]), r.i))

    def differs(self, m, d):
        """Where the model object says something else than the definition."""
        t = m.model_type
        text = d.get('text') or {}
        for k, want in (('id', d['id']), ('len', d['len']), ('name', d.get('name') or 'model_%d' % d['id']), ('label', text.get('label')),
                        ('description', text.get('description')), ('notes', text.get('notes'))):
            got = getattr(t, k)
            if got != want:
                return k, '%s is %r instead of %r' % (k, got, want)
        for b in m.blocks:
            bd = d['fixed'] if b.index == 0 else d['rep']
            if b.type != ('fixed' if b.index == 0 else 'repeating') or b.block_type.type != b.type:
                return 'block', 'block %d is %r' % (b.index, b.type)
            if b.index > 0 and b.block_type.name != (bd.get('name') or 'repeating'):
                return 'block', 'repeating block is named %r' % b.block_type.name
            if bd['len'] != int(b.block_type.len) and not d.get('nofixed'):
                return 'block', 'block %d has length %r instead of %r' % (b.index, b.block_type.len, bd['len'])
            want = dict((p['id'], p) for p in bd['points'])
            order = [p['id'] for p in bd['points'] if p['type'] not in ('pad', 'sunssf')]
            if [p.point_type.id for p in b.points_list] != order:
                return 'order', 'points of block %d are %s instead of %s' % (b.index, [p.point_type.id for p in b.points_list], order)
            for pid, p in list(b.points.items()) + list(b.points_sf.items()):
                bad = self.point_differs(p.point_type, want[pid])
                if bad:
                    return bad[0], 'block %d point %s: %s' % (b.index, pid, bad[1])
        return None

    def point_differs(self, t, p):
        text = p.get('text') or {}
        for k, want in (('id', p['id']), ('type', p['type']), ('offset', p['off']), ('len', ref.plen(p)), ('access', p.get('access') or 'r'),
                        ('mandatory', 'true' if p.get('mandatory') else 'false'), ('units', p.get('units')), ('sf', p.get('sf')),
                        ('label', text.get('label')), ('description', text.get('description')), ('notes', text.get('notes'))):
            got = getattr(t, k)
            if got != want:
                return k, '%s is %r instead of %r' % (k, got, want)
        want = [(s['id'], s['value'], s.get('label'), s.get('description'), s.get('notes')) for s in p.get('syms') or ()]
        got = [(s.id, s.value, s.label, s.description, s.notes) for s in t.symbols]
        if got != want:
            return 'symbols', 'symbols (id, value, label, description, notes) are %s instead of %s' % (got, want)
        return None


def judge(plan, prop, scratch):
    from . import oracle2
    run = W25(plan, scratch).execute()
    return run.viol + oracle2.check(run, prop), [run]


def shrinks(plan):
    from . import w16
    return w16.shrinks(plan)
