"""C17: sorting configurations by parameter values is a stable sort of the input."""
from whatami import What
from whatami.whatutils import sort_whats, sort_whatids, whatvalues
from sx.job import Job
from sx import harvest
from .common import other_value, odd_value, LANDMARKS

ASSUMPTIONS = ['The values of each sort key are mutually comparable and each item has every sort key.',
               'Ids to sort are given in a list or tuple.']


def before(a, b):
    """Lexicographic order of tuples of values."""
    for x, y in zip(a, b):
        if x < y:
            return True
        if y < x:
            return False
    return False


def stable(tuples):
    """Positions, sorted (stable insertion sort)."""
    order = []
    for i in range(len(tuples)):
        j = len(order)
        while j > 0 and before(tuples[i], tuples[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return order


def expect(c, result, items, tuples, same):
    order = stable(tuples)
    c.check(len(result) == 2, 'items and values are returned')
    got, values = list(result[0]), list(result[1])
    c.check(len(got) == len(items), 'as many items as given')
    c.check(len(values) == len(items), 'as many value tuples as items')
    for i, g, v in zip(order, got, values):
        c.check(same(g, items[i]), 'items are stably sorted by the values of the keys')
        c.check_same(v, tuples[i], 'values match the sorted items')


def run_whats(c, whats, keys, tuples):
    given = list(whats)
    ids = [w.id() for w in whats]
    c.show(whats, keys)
    expect(c, sort_whats(whats, *keys), given, tuples, lambda a, b: a is b)
    c.check(len(whats) == len(given) and all([a is b for a, b in zip(whats, given)]), 'the input list is not modified')
    for w, i in zip(whats, ids):
        c.check_same(w.id(), i, 'the configurations are not modified')


def whats_one(n):
    def harness(c):
        m = c.choose(n + 1, 'items')
        vs = [c.int(-9, 99) for _ in range(m)]
        run_whats(c, [What('n', {'x': v, 'y': i}) for i, v in enumerate(vs)], ('x',), [(v,) for v in vs])
    return harness


def whats_keys(c):
    """Several keys in any order, nested ones too, repeated configurations."""
    m = c.choose(4, 'items')
    data = [(c.int(0, 9), c.str(0, 1), c.int(-2, 2)) for _ in range(m)]
    whats = [What('n', {'x': x, 's': s, 'w': What('b', {'z': z, 'l': [z, x]}), 'out': 3 - i}, out_name='o%d' % (i % 2))
             for i, (x, s, z) in enumerate(data)]
    paths = ['x', 's', ('w', 'z'), ('w', 'l', 1)]
    keys = [c.pick(paths, 'key') for _ in range(1 + c.choose(4, 'keys'))]
    idx = {'x': 0, 's': 1, ('w', 'z'): 2, ('w', 'l', 1): 0}
    run_whats(c, whats, keys, [tuple([d[idx[k]] for k in keys]) for d in data])


def last_key(c):
    """Items that differ only in the last of several keys."""
    n = c.pick(sorted(set([3, 5, 9] + harvest.sizes(40))), 'keys')
    m = 2 + c.choose(2, 'items')
    vs = [c.int(-9, 9) for _ in range(m)]
    names = ['k%02d' % i for i in range(n)]
    whats = [What('n', dict([(k, 1) for k in names[:-1]] + [(names[-1], v), ('i', i)])) for i, v in enumerate(vs)]
    tuples = [tuple([1] * (n - 1) + [v]) for v in vs]
    if c.bool('ids'):
        check_ids(c, [w.id() for w in whats], tuple(names), tuples)
    else:
        run_whats(c, whats, tuple(names), tuples)


def whats_floats(c):
    m = 2 + c.choose(2, 'items')
    vs = [c.pick([0.5, -1.5, 2.0, float('inf'), float('-inf')], 'value') for _ in range(m)]
    run_whats(c, [What('n', {'x': v}) for v in vs], ('x',), [(v,) for v in vs])


def same_what(c):
    """The same object several times; no keys at all."""
    a = What('n', {'x': c.int(0, 9)})
    b = What('n', {'x': c.int(0, 9)})
    whats = [c.pick([a, b], 'which') for _ in range(3)]
    nokeys = c.bool('no keys')
    if nokeys:
        run_whats(c, whats, (), [() for _ in whats])
    else:
        run_whats(c, whats, ('x',), [(w.conf['x'],) for w in whats])


def ids(n, lo, hi):
    """Ids, with values parsed from them."""
    def harness(c):
        m = c.choose(n + 1, 'items')
        vs = [c.int(lo, hi) for _ in range(m)]
        texts = ['n(x=%d,y=%d)' % (v, i) for i, v in enumerate(vs)]
        check_ids(c, texts, ('x',), [(v,) for v in vs])
    return harness


def check_ids(c, texts, keys, tuples):
    given = tuple(texts) if c.bool('tuple') else list(texts)
    c.show(given, keys)
    expect(c, sort_whatids(given, *keys), list(texts), tuples, c.same)
    c.check_same(list(given), list(texts), 'the input is not modified')


def ids_keys(c):
    """Ids written with different spaces, string values, nested keys and ties."""
    m = 2 + c.choose(2, 'items')
    data = [(c.pick([1, 2], 'x'), c.str(0, 1, ((97, 122),)), c.int(-2, 2)) for _ in range(m)]
    texts = ["n( s = '%s', w=b(z=%d),x=%d)" % (s, z, x) if i % 2 else "n(x=%d,s='%s',w=b(z=%d))" % (x, s, z)
             for i, (x, s, z) in enumerate(data)]
    keys = c.pick([('x', 's'), (('w', 'z'),), ('s', ('w', 'z')), ('x', ('w', 'z'))], 'keys')
    idx = {'x': 0, 's': 1, ('w', 'z'): 2}
    check_ids(c, texts, keys, [tuple([d[idx[k]] for k in keys]) for d in data])


def many(c):
    """Long inputs: two arbitrary items among many."""
    n = c.pick(sorted(set([8, 17] + harvest.sizes())), 'items')
    vs = [(i * 7) % 5 for i in range(n)]
    i = c.pick([0, n // 2, n - 1], 'position')
    vs[i] = c.int(-1, 6)
    whats = [What('n', {'x': v, 'y': j}) for j, v in enumerate(vs)]
    if c.bool('ids'):
        check_ids(c, [w.id() for w in whats], ('x',), [(v,) for v in vs])
    else:
        run_whats(c, whats, ('x',), [(v,) for v in vs])


def values(c):
    """whatvalues: one value per key, in the order given."""
    x, y, z = c.int(), c.str(0, 1), c.scalar()
    w = What('n', {'x': x, 'y': y, 'w': What('b', {'z': z}), 'l': [x, y]}, non_id_keys=['y'] if c.bool('nonid') else None)
    table = {'x': x, 'y': y, 'z': z}
    options = [('x', 'x'), ('y', 'y'), (('w', 'z'), 'z'), (('l', 0), 'x'), (('l', 1), 'y')]
    chosen = [c.pick(options, 'key') for _ in range(c.choose(4, 'keys'))]
    c.show(w, [k for k, _ in chosen])
    got = whatvalues(w, tuple([k for k, _ in chosen]))
    c.check_same(got, tuple([table[v] for _, v in chosen]), 'one value per key, in order')
    c.check_same(whatvalues(w, 'x'), (x,), 'a single key gives a tuple with its value')
    c.check(c.raises(KeyError, whatvalues, w, ('x', 'nope')) is not None, 'missing keys raise KeyError')


def missing(c):
    """Keys that some configuration does not have."""
    m = 1 + c.choose(3, 'items')
    at = c.choose(m, 'which')
    key = c.pick(['x', ('w', 'z'), ('w', 'w', 'z'), ('l', 'x'), ('d', 'x')], 'key')
    whats = []
    for i in range(m):
        v = c.int(-1, 3)
        k = 'x' if i != at else c.pick(['y', '_x', 'X', 'xx'], 'instead')
        z = 'z' if i != at else 'y'
        whats.append(What('n', {k: v, 'w': What('b', {z: v, 'w': What('c', {z: v})}), 'l': What('b', {k: v}), 'd': {k: v}}))
    keys = [key] if c.bool('alone') else [key, ('w',)] if c.bool('first') else ['w', key]
    c.show(whats, keys)
    c.check(c.raises(KeyError, whatvalues, whats[at], key) is not None, 'missing keys raise KeyError')
    c.check(c.raises(KeyError, whatvalues, whats[at], tuple(keys)) is not None, 'missing keys raise KeyError')
    c.check(c.raises(KeyError, sort_whats, whats, *keys) is not None, 'missing keys raise KeyError')
    c.check(c.raises(KeyError, sort_whatids, [w.id() for w in whats], *keys) is not None, 'missing keys raise KeyError')


def mixed(c):
    """Booleans, integers and floats among each other."""
    m = 2 + c.choose(2, 'items')
    vs = []
    for _ in range(m):
        k = c.choose(3, 'kind')
        vs.append(c.int(-1, 2) if k == 0 else c.bool() if k == 1 else c.pick([0.0, 0.5, 1.0, -0.5, 1.5], 'float'))
    ws = [What('n', {'x': v, 'y': i}) for i, v in enumerate(vs)]
    if c.bool('ids'):
        check_ids(c, [w.id() for w in ws], ('x',), [(v,) for v in vs])
    else:
        run_whats(c, ws, ('x',), [(v,) for v in vs])


def landmarks(c):
    """Numbers around the limits of the usual representations."""
    n = c.pick(LANDMARKS[:-1], 'landmark')
    n = -n if c.bool('negative') else n
    ids = c.bool('ids')
    k = 2 if ids else 2 + c.choose(2, 'items')
    values = [c.int(n - 3, n + 3, n + 1 - i) for i in range(k)]
    ws = [What('n', {'x': v, 'i': i}) for i, v in enumerate(values)]
    order = stable([(v,) for v in values])
    c.show(values)
    if ids:
        got, keys = sort_whatids([w.id() for w in ws], 'x')
        c.check_same(list(got), [ws[i].id() for i in order], 'ids are stably sorted by the values of the keys')
    else:
        got, keys = sort_whats(ws, 'x')
        c.check(all([g is ws[i] for g, i in zip(got, order)]) and len(got) == k, 'items are stably sorted by the values of the keys')
    c.check_same([t[0] for t in keys], [values[i] for i in order], 'with their keys')


def odd_values(c):
    """Values are given back themselves, whatever they are."""
    o, p = odd_value(c), other_value(c)
    w = What('n', {'x': o, 'w': What('b', {'z': p}), 'l': [p, o]})
    table = {'x': o, ('w', 'z'): p, ('l', 0): p, ('l', 1): o}
    keys = tuple([c.pick(sorted(table, key=str), 'key') for _ in range(c.choose(3, 'keys'))])
    c.show(type(o), type(p), keys)
    got = whatvalues(w, keys)
    c.check(len(got) == len(keys) and all([table[k] is v for k, v in zip(keys, got)]), 'one value per key, in order')
    others = [What('n', {'x': c.int(0, 3), 'y': o, 'z': p}, non_id_keys=['y', 'z']) for _ in range(2)]
    (got, values) = sort_whats(others, 'x')
    order = (0, 1) if others[0].conf['x'] <= others[1].conf['x'] else (1, 0)
    c.check(len(got) == 2 and all([g is others[i] for g, i in zip(got, order)]), 'items are stably sorted by the values of the keys')
    c.check(all([g.conf['y'] is o and g.conf['z'] is p for g in got]), 'the configurations are not modified')


def jobs(tier):
    n = 6 if tier == 'thorough' else 4
    return [Job('whats_one', whats_one(n), 'up to %d configurations, any values -9..99' % n, 2),
            Job('whats_keys', whats_keys, 'up to 3 configurations with 3 values each, 1..4 of 4 keys', 3),
            Job('last_key', last_key, '2 or 3 items that differ in the last of 3, 5, 9 or harvested numbers of keys'),
            Job('whats_floats', whats_floats, '2 or 3 configurations, 5 floats'),
            Job('same_what', same_what, '3 items out of 2 configurations, with and without keys'),
            Job('odd_values', odd_values, 'objects of 32 and 7 kinds, with special methods or meanings, up to 2 keys', .5),
            Job('ids', ids(n - 1, -9, 99), 'up to %d ids, any values -9..99' % (n - 1), 3),
            Job('ids_keys', ids_keys, '2 or 3 ids with 3 values each, 1 or 2 keys', 3),
            Job('many', many, '8, 17 and harvested numbers of items, one with any value -1..6'),
            Job('landmarks', landmarks, '2 or 3 items, numbers within 3 of powers of 2 and 10', 1),
            Job('missing', missing, 'up to 3 configurations, one without the key, five keys', 1),
            Job('mixed', mixed, '2 or 3 items, integers -1..2, booleans and five floats', 1),
            Job('values', values, 'up to 3 keys out of 5 paths')]
