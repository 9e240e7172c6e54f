"""C18: matching to a template but for some keys."""
from whatami import What, parse_whatid
from whatami.whatutils import match_whatids
from sx.job import Job
from sx import harvest
from .common import sorted_keys, iterable

ASSUMPTIONS = ['Ignored keys are written as flatten() gives them: a string for a top-level key, a tuple for a longer path.',
               'Values are compared with ==, so 1, True and 1.0 are the same, and nan differs from itself.',
               'Two nested configurations are compared as such by name and output name; their values have their own keys, '
               'which match (or are ignored) on their own when recursing.']


def listing(w, colls, recursive):
    out = []

    def visit(v, path):
        if isinstance(v, What):
            kvs = [(k, v.conf[k]) for k in sorted_keys(v.conf, v.non_id_keys)]
        elif colls and isinstance(v, (list, tuple)):
            kvs = [(i, v[i]) for i in range(len(v))]
        elif colls and isinstance(v, dict):
            kvs = [(k, v[k]) for k in sorted_keys(v)]
        else:
            return
        for k, x in kvs:
            out.append((path + (k,), x))
            if recursive:
                visit(x, path + (k,))
    visit(w, ())
    return out


def path_of(key):
    return key if isinstance(key, tuple) else (key,)


def ignored(path, ignores):
    for key in ignores:
        p = path_of(key)
        if len(p) <= len(path):
            hit = True
            for a, b in zip(p, path):
                if type(a) is not type(b) and not (isinstance(a, str) and isinstance(b, str)) or a != b:
                    hit = False
                    break
            if hit:
                return True
    return False


def equal(a, b):
    if isinstance(a, What) and isinstance(b, What):
        return a.name == b.name and a.out_name == b.out_name
    return a == b


def matches(w, t, ignores, colls, recursive):
    if w.name != t.name:
        return False
    a, b = listing(w, colls, recursive), listing(t, colls, recursive)
    if len(a) != len(b):
        return False
    for (p, _), (q, _) in zip(a, b):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if x != y:
                return False
    for (p, x), (_, y) in zip(a, b):
        if not ignored(p, ignores) and not equal(x, y):
            return False
    return True


def run(c, whats, template, ignores, flags=None):
    """whats and template are configurations whose parse is themselves (no escaped strings)."""
    texts = [w.id() for w in whats]
    t = template.id()
    if flags is None:
        flags = {}
        if c.bool('collections'):
            flags['collections_too'] = True
        if c.bool('flat'):
            flags['recursive'] = False
    given = c.pick([list, tuple, iter], 'ids')(texts)
    ign = iterable(c, ignores)
    c.show(texts, t, ignores, flags)
    got = match_whatids(given, t, ignored_keys=ign, **flags)
    colls, rec = flags.get('collections_too', False), flags.get('recursive', True)
    expected = [x for x, w in zip(texts, whats) if matches(w, template, ignores, colls, rec)]
    c.check(isinstance(got, list), 'a list is returned')
    c.check(len(got) == len(expected), 'exactly the matching ids are selected')
    for a, b in zip(got, expected):
        c.check_same(a, b, 'exactly the matching ids are selected, in input order')
    if isinstance(given, (list, tuple)):
        c.check_same(list(given), texts, 'the input is not modified')


def flat_what(c, keys, lo=0, hi=2):
    conf = {}
    for k in keys:
        if c.bool('has'):
            conf[k] = c.int(lo, hi)
    return What(c.pick(['A', 'B'], 'name'), conf)


def flat(c):
    """Names, keys and values of flat configurations."""
    keys = ('x', 'xy')
    t = flat_what(c, keys)
    w = flat_what(c, keys)
    ignores = [k for k in ('x', 'xy', 'z', 'y', ('x', 'y')) if c.bool('ignore')]
    run(c, [w], t, ignores, {})


def names(c):
    """Any names and keys of up to 2 characters."""
    k1, k2 = c.ident(1, 2, reserved=False), c.ident(1, 2, reserved=False)
    t = What(c.ident(1, 2), {k1: 1}, out_name='o' if c.bool('out') else None)
    w = What(c.ident(1, 2), {k2: c.int(0, 2)})
    run(c, [w, t], t, [c.ident(1, 2, reserved=False)] if c.bool('ignore') else [], {})


def nested_what(c, depth=1):
    conf = {'x': c.int(0, 1)}
    k = c.choose(4 if depth else 1, 'value')
    if k == 1:
        conf['y'] = What(c.pick(['B', 'C'], 'name'), {'x': c.int(0, 1)}, out_name='o' if c.bool('out') else None)
    elif k == 2:
        conf['y'] = What('B', {'x': What('D', {'x': c.int(0, 1)}), 'z': c.int(0, 1)})
    elif k == 3:
        conf['y'] = c.int(0, 1)
    return What('A', conf)


PATHS = ['x', 'y', ('y', 'x'), ('y', 'z'), ('y', 'x', 'x'), ('x', 'x'), ('x', 'y')]


def nested(c):
    """Ignored key paths of nested configurations."""
    t, w = nested_what(c), nested_what(c)
    ignores = [p for p in PATHS[:5] if c.bool('ignore')]
    run(c, [w], t, ignores, {'recursive': False} if c.bool('flat') else {})


def nested_one(c):
    """Two candidates and one ignored path."""
    t = nested_what(c)
    ws = [nested_what(c), nested_what(c)]
    ignores = [c.pick(PATHS, 'path')] if c.bool('ignore') else []
    run(c, ws, t, ignores)


def collection(c):
    k = c.choose(5, 'collection')
    a, b = c.int(0, 1), c.int(0, 1)
    if k == 0:
        return [a, b]
    if k == 1:
        return (a, What('B', {'x': b}))
    if k == 2:
        return {'x': a, 'z': b}
    if k == 3:
        return {'x': [a, b]}
    return [a]


def collections(c):
    t = What('A', {'x': c.int(0, 1), 'y': collection(c)})
    w = What('A', {'x': c.int(0, 1), 'y': collection(c)})
    ignores = [c.pick(['x', 'y', ('y', 0), ('y', 1), ('y', 'x'), ('y', 'z'), ('y', 1, 'x'), ('y', 'x', 0)], 'path')
               for _ in range(c.choose(3, 'ignored'))]
    run(c, [w], t, ignores)


def scalar(c):
    k = c.choose(5, 'scalar')
    return c.int(-2, 2) if k == 0 else c.str(0, 1, ((97, 98), (32, 32))) if k == 1 else None if k == 2 else \
        c.bool() if k == 3 else c.pick([0.5, 1.0, float('inf')])


def scalars(c):
    """Values of any kinds."""
    t = What('A', {'x': scalar(c), 'y': scalar(c)})
    w = What('A', {'x': scalar(c), 'y': scalar(c)})
    run(c, [w], t, [k for k in ('x', 'y') if c.bool('ignore')], {})


def order(c):
    """Several candidates, repeated, in input order."""
    pool = [What('A', {'x': c.int(0, 1), 'y': c.int(0, 1)}) for _ in range(2)] + [What('B', {'x': 0, 'y': 0})]
    ws = [c.pick(pool, 'candidate') for _ in range(c.choose(4, 'candidates'))]
    t = What('A', {'x': c.int(0, 1), 'y': 0})
    run(c, ws, t, ['y'] if c.bool('ignore') else [], {})


def spelled(c):
    """Ids are matched by what they say, and returned as given."""
    x, y = c.int(0, 2), c.int(0, 2)
    texts = ["A( x = %d ,y=%d)" % (x, y), "A(y=%d,x=%d)" % (y, x), "o=A(x=%d,y=%d)" % (x, y)]
    tx = c.int(0, 2)
    c.show(texts, tx)
    ign = [k for k in ('x', 'y') if c.bool('ignore')]
    got = match_whatids(texts, 'A(y=1, x=%d)' % tx, ignored_keys=ign)
    ok = ('x' in ign or x == tx) and ('y' in ign or y == 1)
    c.check_same(got, texts if ok else [], 'ids are matched by content and returned as given')


def deep(c):
    """Long paths: ignoring a key ignores everything under it."""
    n = c.pick([1, 3, 5], 'depth')
    a, b = c.int(0, 1), c.int(0, 1)
    x, y = c.int(0, 1), c.int(0, 1)
    t, w = What('Z', {'k': a, 'l': x}), What('Z', {'k': b, 'l': y})
    for _ in range(n):
        t, w = What('N', {'k': t}), What('N', {'k': w})
    p = tuple(['k'] * (1 + c.choose(n + 2, 'prefix')))
    if c.bool('l'):
        p = p[:n] + ('l',)
    run(c, [w], t, [p if len(p) > 1 else p[0]], {})


def many(c):
    n = c.pick(sorted(set([9, 17] + harvest.sizes())), 'keys')
    i = c.pick([0, n // 2, n - 1], 'position')
    conf = {'k%02d' % j: j for j in range(n)}
    other = dict(conf)
    other['k%02d' % i] = c.int(0, 99)
    run(c, [What('A', other), What('A', conf)], What('A', conf), ['k%02d' % c.pick([0, n // 2, n - 1], 'ignored')], {})


def many_ids(c):
    """Many ids, one of them off."""
    n = c.pick(sorted(set([5, 9] + harvest.sizes(33))), 'ids')
    at = c.pick([0, 1, n // 2, n - 1], 'position')
    whats = [What('A', {'k': i, 'x': 1}) for i in range(n)]
    whats[at] = What(c.ident(1, 1), {'k': c.int(0, 9), 'x': c.int(0, 2)})
    run(c, whats, What('A', {'k': 0, 'x': 1}), ['k'], {})


def many_ignored(c):
    n = c.pick(sorted(set([5, 9] + harvest.sizes(33))), 'ignored')
    at = c.pick([0, 1, n // 2, n - 1], 'position')
    ignored = ['k%02d' % i for i in range(n)]
    name = ignored[at] = c.ident(1, 1)
    conf = {k: 0 for k in ignored if k != name}
    conf['x'] = c.int(0, 2)
    conf['y'] = c.int(0, 2)
    run(c, [What('A', conf)], What('A', dict(conf, x=1, y=1)), ignored, {})


def jobs(tier):
    return [Job('flat', flat, 'template and id with up to 2 keys, values 0..2, any of 5 ignored keys', 2),
            Job('names', names, 'names and keys of up to 2 characters', 2),
            Job('nested', nested, 'depth 3, values 0..1, any of 5 ignored paths', 3),
            Job('nested_one', nested_one, 'two ids of depth 3, one of 7 ignored paths, all flags', 2),
            Job('collections', collections, 'collections of two values, up to 2 of 8 ignored paths, all flags', 2),
            Job('scalars', scalars, 'two values of 5 kinds'),
            Job('order', order, 'up to 3 ids'),
            Job('spelled', spelled, 'ids with other spaces, orders and output names'),
            Job('deep', deep, 'paths of up to 7 components'),
            Job('many', many, '9, 17 and harvested numbers of keys'),
            Job('many_ids', many_ids, '5, 9 and harvested numbers of ids'),
            Job('many_ignored', many_ignored, '5, 9 and harvested numbers of ignored keys')]
