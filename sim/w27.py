"""Workload 2 with everything the scripting objects say about a device in text.  Decides C27."""
from . import oracle2
from .runner import Violation
from .w2 import W2


class Raised(object):

    def __init__(self, e):
        self.text = '%s: %s' % (type(e).__name__, e)

    def __repr__(self):
        return self.text


def guard(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return Raised(e)


class W27(W2):

    def observe(self, r):
        W2.observe(self, r)
        o = self.objs.get(r.op.get('id'))
        if o is not None and self.w.fatal is None:
            r.extra['said'] = self.said(o)

    def said(self, o):
        out = {'core': [], 'sun': None}
        for x in self.parts(o.dev):
            out['core'].append((type(x).__name__, guard(str, x)))
        if o.sun is not None:
            models = []
            for name in list(o.sun.models):
                a = o.sun[name]
                for x in (a[1:] if isinstance(a, list) else [a]):
                    models.append(self.speaker(x))
            out['sun'] = (guard(str, o.sun), models)
        return out

    def parts(self, dev):
        yield dev
        for m in dev.models_list:
            yield m
            for b in m.blocks:
                yield b
                for p in b.points_list:
                    yield p
            if m.model_type is not None:
                yield m.model_type

    def speaker(self, x):
        def values(y):
            return [(pid, guard(getattr, y, pid), guard(y.__getitem__, pid)) for pid in y.points]
        return {'text': guard(str, x), 'name': x.name, 'id': x.model.id, 'addr': x.model.addr, 'points': values(x),
                'absent': guard(x.__getitem__, 'no_such_point'),
                'rep': [(b.name, b.block.index, guard(str, b), values(b)) for b in x.repeating[1:]]}


def words(s):
    return ' '.join(s.split())


def lines(vals):
    return ''.join('\n%s: %s' % (pid, v) for pid, v, _ in vals if v is not None)


def expected_block(name, index, vals):
    return '\n%s[%d]:%s' % (name, index, lines(vals))


def expected_model(x):
    s = '\n%s (%s):%s' % (x['name'], x['id'], lines(x['points']))
    for name, index, _, vals in x['rep']:
        s += expected_block(name, index, vals)
    return s


def judge_said(run, r, lay, out):
    said = r.extra.get('said')
    if said is None:
        return

    def say(sig, msg):
        out.append(Violation(run.plan['prop'], sig, 'after %s of %s: %s' % (r.op['op'], r.op['id'], msg), r.i))
    for kind, s in said['core']:
        if isinstance(s, Raised):
            say('text_raises', 'the text of a %s raises %s' % (kind, s))
            return
    if said['sun'] is None:
        return
    text, models = said['sun']
    by_addr = dict((e['addr'], e) for e in lay)
    unknown = False
    for x in models:
        what = 'model %s at %s' % (x['name'], x['addr'])
        e = by_addr.get(x['addr'])
        for vals, k in [(x['points'], 0)] + [(b[3], n + 1) for n, b in enumerate(x['rep'])]:
            for pid, v, item in vals:
                if isinstance(v, Raised):
                    unknown = True
                elif isinstance(item, Raised) or not oracle2.same_value(v, item):
                    say('item', '%s block %d: item %s is %r, the attribute %r' % (what, k, pid, item, v))
                    return
            if e is not None and e['err'] is None and k < len(e['blocks']) and x['id'] == e['id']:
                order = [q.id for q in sorted(e['blocks'][k].points.values(), key=lambda q: q.addr)]
                if [v[0] for v in vals] != order:
                    say('points', '%s block %d lists points %s, its definition %s' % (
                        what, k, oracle2.brief([v[0] for v in vals]), oracle2.brief(order)))
                    return
        if x['absent'] is not None and not (isinstance(x['absent'], Raised) and x['absent'].text.startswith('KeyError')):
            say('absent_item', '%s: a point it does not have is %r' % (what, x['absent']))
        if unknown:
            continue
        if not isinstance(x['text'], str) or words(x['text']) != words(expected_model(x)):
            say('text', 'the text of %s is %s, expected %s' % (what, shown(x['text']), shown(expected_model(x))))
            return
        for name, index, s, vals in x['rep']:
            if not isinstance(s, str) or words(s) != words(expected_block(name, index, vals)):
                say('text', 'the text of %s[%d] of %s is %s, expected %s' % (name, index, what, shown(s), shown(expected_block(name, index, vals))))
                return
        run.w.probes['model_texts'] = run.w.probes.get('model_texts', 0) + 1
    if unknown:
        return
    # instances of one model stand together or in device order
    wants = [models, sorted(models, key=lambda x: x['addr'])]
    if not isinstance(text, str) or words(text) not in [words(''.join(expected_model(x) for x in w)) for w in wants]:
        say('device_text', 'the text of the device is %s, expected %s' % (shown(text), shown(''.join(expected_model(x) for x in models))))
        return
    run.w.probes['device_texts'] = run.w.probes.get('device_texts', 0) + 1
    if len(set(x['name'] for x in models)) < len(models):
        run.w.probes['device_texts_with_instances'] = run.w.probes.get('device_texts_with_instances', 0) + 1


def shown(s):
    return oracle2.brief(repr(words(s)) if isinstance(s, str) else repr(s))


def judge(plan, prop, scratch):
    run = W27(plan, scratch).execute()
    out = oracle2.check(run, prop)
    for r in run.results:
        if r.status == 'fatal':
            break
        if not r.extra.get('skip') and r.op.get('id') in run.objs:
            judge_said(run, r, run.objs[r.op['id']].layout or [], out)
    out.sort(key=lambda v: v.opi if getattr(v, 'opi', None) is not None else 1 << 30)
    return out, [run]
