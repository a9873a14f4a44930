"""What the not_equal() methods of devices, models, blocks, points and their types have to say: the harness takes a picture of
both objects from their documented attributes; equal pictures must compare as equal, different ones as different."""

POINT_ATTRS = ('id', 'offset', 'type', 'len', 'mandatory', 'access', 'units', 'sf', 'label', 'description', 'notes')
SYMBOL_ATTRS = ('id', 'value', 'label', 'description', 'notes')


def point_type(t):
    return tuple((k, getattr(t, k)) for k in POINT_ATTRS) + (('symbols', tuple(tuple((k, getattr(s, k)) for k in SYMBOL_ATTRS) for s in t.symbols)),)


def block_type(t):
    if t is None:
        return None
    return (('type', t.type), ('len', t.len), ('points', tuple(sorted((k, point_type(p)) for k, p in t.points.items()))))


def model_type(t):
    if t is None:
        return None
    return (('id', t.id), ('len', t.len), ('label', t.label), ('description', t.description), ('notes', t.notes),
            ('fixed', block_type(t.fixed_block)), ('repeating', block_type(t.repeating_block)))


def point(p):
    return (('type', point_type(p.point_type)), ('value', value(p.value_base)), ('sf', p.value_sf))


def value(v):
    return 'nan' if v != v else v


def block(b):
    return (('type', block_type(b.block_type)), ('points', tuple(sorted((p.point_type.id, point(p)) for p in b.points_list))),
            ('sf', tuple(sorted((k, p.value_base) for k, p in b.points_sf.items()))))


def model(m):
    return (('id', m.id), ('type', model_type(m.model_type)), ('blocks', tuple(block(b) for b in m.blocks)))


def device(d):
    return tuple(model(m) for m in d.models_list)


def first(a, b, path=''):
    """Where two pictures differ first."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return '%s: %d and %d' % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                name = x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(y, tuple) and len(y) == 2 and x[0] == y[0] and isinstance(x[0], str) else None
                return first(x[1], y[1], path + '.' + name) if name else first(x, y, '%s[%d]' % (path, k))
    return '%s: %r and %r' % (path, a, b)


def pairs(a, b):
    """Pairs of things to compare, found in two devices: (kind, what, x, y, picture)."""
    yield 'device', 'devices', a, b, device
    for m, n in zip(a.models_list, b.models_list):
        what = 'models %s' % m.id
        yield 'model', what, m, n, model
        if m.model_type is not None and n.model_type is not None:
            yield 'type', what + ' (types)', m.model_type, n.model_type, model_type
        for x, y in zip(m.blocks, n.blocks):
            w = '%s blocks %d' % (what, x.index)
            yield 'block', w, x, y, block
            yield 'type', w + ' (types)', x.block_type, y.block_type, block_type
            for p in x.points_list:
                if p.point_type.id in y.points:
                    q = y.points[p.point_type.id]
                    yield 'point', '%s points %s' % (w, p.point_type.id), p, q, point
                    yield 'type', '%s points %s (types)' % (w, p.point_type.id), p.point_type, q.point_type, point_type


def judge(a, b, probes):
    """What is wrong with the comparisons of two devices: (kind, text) or None."""
    for kind, what, x, y, picture in pairs(a, b):
        px, py = picture(x), picture(y)
        for u, v in ((x, y), (y, x)):
            try:
                ne = u.not_equal(v)
            except Exception as e:
                return 'compare', 'comparing %s raised %s: %s' % (what, type(e).__name__, e)
            probes['compared_%ss_%s' % (kind, 'equal' if px == py else 'different')] += 1
            if px == py and ne:
                return 'compare_equal', '%s are equal and compare as: %s' % (what, ne)
            if px != py and not ne:
                return 'compare_different', '%s differ in %s and compare as equal' % (what, first(px, py))
    return None
