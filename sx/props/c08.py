"""C08: flattened keys, values and item access."""
from collections import Counter, OrderedDict, defaultdict, namedtuple
from whatami import What, whatable
from sx.job import Job
from sx import harvest
from .common import other_value, odd_value, value, what, sorted_keys, implicit

ASSUMPTIONS = ['Keys of nested dictionaries are strings, integers or None; tuples and other containers are not keys.',
               'Key paths do not index into strings.']

DEFAULT = ['default']


def listing(w, nonids, colls, recursive):
    """[(path, value)] as documented."""
    out = []

    def visit(v, path):
        if isinstance(v, What):
            kvs = [(k, v.conf[k]) for k in sorted_keys(v.conf, () if nonids else v.non_id_keys)]
        elif colls and isinstance(v, (list, tuple)):
            kvs = [(i, v[i]) for i in range(len(v))]
        elif colls and isinstance(v, dict):
            kvs = [(k, v[k]) for k in sorted_keys(v)]
        else:
            return
        for k, x in kvs:
            out.append((path + (k,), x))
            if recursive:
                visit(x, path + (k,))
    visit(w, ())
    return out


def check(c, w, flags=None):
    nonids, colls, recursive = flags or (c.bool('nonids'), c.bool('collections'), c.bool('recursive'))
    c.show(w, nonids, colls, recursive)
    expected = listing(w, nonids, colls, recursive)
    flags = implicit(c, dict(non_ids_too=nonids, collections_too=colls, recursive=recursive),
                     non_ids_too=False, collections_too=False, recursive=True)
    keys, values = w.flatten(**flags)
    c.check(len(keys) == len(expected) and len(values) == len(expected), 'each parameter is listed once')
    for k, v, (path, x) in zip(keys, values, expected):
        c.check_same(k, path[0] if len(path) == 1 else path, 'keys are in depth-first, sorted order')
        c.check(v is x, 'values are at the positions of their keys')
        c.check(w[k] is x, 'indexing with a key gives the value')
        c.check(w.get(k, DEFAULT) is x, 'get with a key gives the value')
    c.check_same(w.keys(**flags), keys, 'keys() are the flattened keys')
    vs = w.values(**flags)
    c.check(len(vs) == len(values) and all([a is b for a, b in zip(vs, values)]), 'values() are the flattened values')


def keyed(c, v, depth):
    """A value with keys of usual types."""
    k = c.choose(5 if depth > 0 else 1, 'kind')
    if k == 0:
        return [c.int(0, 99)] if v == 'box' else c.int(0, 99)
    n = c.choose(3, 'size')
    if k == 1:
        return [keyed(c, v, depth - 1) for _ in range(n)]
    if k == 2:
        return tuple([keyed(c, v, depth - 1) for _ in range(n)])
    if k == 3:
        ints = c.bool('int keys')
        return {(c.int(-9, 99) if ints else c.str(0, 1)): keyed(c, v, depth - 1) for _ in range(n)}
    return configuration(c, depth - 1, n)


def configuration(c, depth, n=None):
    n = c.choose(3, 'params') if n is None else n
    conf = {}
    for _ in range(n):
        conf[c.ident(1, 1, reserved=False)] = keyed(c, 'int', depth)
    non = [k for k in list(conf) if c.bool('nonid')]
    return What('n', conf, non_id_keys=non)


def flat(c):
    check(c, configuration(c, 1))


def deep(c):
    check(c, configuration(c, 2))


def chain(c):
    """Long paths."""
    v = c.int(0, 9)
    for i in range(c.choose(6, 'depth')):
        k = c.choose(6, 'kind')
        v = What('m', {c.ident(1, 2): v, 'zzz': None}) if k == 0 else [None, v] if k == 1 else (v, None) if k == 2 else \
            {c.str(0, 2): v} if k == 3 else [i, (), [v], v, 5] if k == 4 else (i, [], v, 5)
    check(c, What('a', {c.ident(1, 2): v, 'a0': 1}), (c.bool('nonids'), True, True))


def ladder(c):
    """Paths of harvested lengths."""
    n = c.pick(sorted(set([7, 12, 30] + harvest.sizes(60))), 'depth')
    v = c.int(0, 9)
    first, k = c.choose(5, 'kind'), c.choose(5, 'other')
    for i in range(n):
        k, first = first, k
        v = What('m', {'k': v, 'l': None}) if k == 0 else [None, None, v] if k == 1 else (v, None) if k == 2 else \
            {'k': v} if k == 3 else {i: v}
    w = What('a', {c.ident(1, 2): v, 'a0': 1})
    recursive = c.bool('recursive')
    check(c, w, (c.bool('nonids'), True, recursive))


def layers(c):
    """Long paths with non-id parameters at any level, all the flags."""
    n = 1 + c.choose(4, 'depth')
    v = c.int(0, 9)
    for i in range(n):
        k = c.choose(4, 'kind')
        if k == 0:
            v = What('m', {c.ident(1, 1): v, 'zz': i, 'yy': [i]},
                     non_id_keys=c.pick([None, ['zz'], ['yy', 'zz']], 'nonids'))
        else:
            v = [v, [i]] if k == 1 else (i, v) if k == 2 else {'k': v, c.str(2, 2): i}
    check(c, What('a', {'x': v, 'b': 1, 'c': v}, non_id_keys=['b']))


def wide(c):
    n = c.pick(sorted(set([6, 11] + harvest.sizes())), 'size')
    conf = {}
    for i in range(n):
        conf['k%02d' % ((i * 7) % n)] = i
    conf[c.ident(2, 3)] = c.int(0, 9)
    k = c.choose(4, 'where')
    w = What('a', conf if k == 0 else {'x': What('b', conf)} if k == 1 else {'x': [conf, conf]} if k == 2 else
             {'x': list(range(n)) + [conf]})
    check(c, w)


def mixed(c):
    """Dictionaries with keys of several types: every entry is listed once and can be addressed."""
    d = {c.int(-9, 9): 1, c.str(0, 1): [2, {'y': 3}], None: What('b', {'z': 4})}
    if c.bool('alike'):
        d = {k: 7 for k in d}
    w = What('a', {'x': d if c.bool('direct') else [0, d], 'y': 5})
    c.show(w)
    keys, values = w.flatten(collections_too=True)
    c.check(len(keys) == len(values), 'as many keys as values')
    for k, v in zip(keys, values):
        c.check(w[k] is v, 'indexing with a key gives the value at its position')
    seen = [k[-1] for k in keys if isinstance(k, tuple) and len(k) == (2 if w['x'] is d else 3) and
            (w['x'] is d or k[1] == 1)]
    c.check(len(seen) == len(d), 'each entry is listed once')
    for k in d:
        c.check(len([x for x in seen if x is k]) == 1, 'each entry is listed once')
    for i in range(len(keys)):
        for j in range(i):
            c.check(c.differ(keys[i], keys[j]), 'no key is listed twice')
    again = dict(list(d.items())[::-1] if c.bool('reverse') else list(d.items())[1:] + list(d.items())[:1])
    keys2, values2 = What('a', {'y': 5, 'x': again if w['x'] is d else [0, again]}).flatten(collections_too=True)
    c.check_same(keys2, keys, 'whatever the order of insertion')
    c.check_same(values2[1:], [again if v is d else v for v in values[1:]], 'whatever the order of insertion')


def odd_values(c):
    """Values with unusual special methods are values as any other."""
    o, p = odd_value(c), other_value(c)
    w = What('a', {'x': o, 'y': [p, {'k': o}], 'z': (o,)})
    flags = (c.bool('nonids'), c.bool('collections'), c.bool('recursive'))
    check(c, w, flags)
    c.check(w.get('x', p) is o and w.get('none', p) is p and w.get(('y', 7), p) is p, 'get gives the value, or the default')


Pair = namedtuple('Pair', 'one other')


class Several(list):
    pass


class Both(tuple):
    pass


class Table(dict):
    pass


def derived(c):
    """Named tuples, and others of derived types, are listed as those they derive from."""
    v = [c.int(0, 99)]
    for _ in range(1 + c.choose(3, 'depth')):
        k = c.choose(8, 'kind')
        v = Pair(v, 1) if k == 0 else Several([1, v]) if k == 1 else Both((v, 1)) if k == 2 else \
            Table({'z': 1, c.ident(1, 1): v}) if k == 3 else OrderedDict([('z', 1), (c.ident(1, 1), v)]) if k == 4 else \
            defaultdict(list, {'z': 1, 'k': v}) if k == 5 else Pair({'z': v, 'k': 2}, (v,)) if k == 6 else Counter({'z': 1, 'k': 2})
    check(c, What('a', {'x': v, 'y': Pair(2, v)}))


class Boxed(object):
    def __init__(self, w):
        self.w = w

    def what(self):
        return self.w


MISSING = object()


def resolve(v, path):
    """The value at the end of the path, MISSING if there is none."""
    for p in path:
        if isinstance(v, Boxed):
            v = v.what()
        if isinstance(v, What):
            v = v.conf
        if isinstance(v, dict):
            if p not in v:
                return MISSING
            v = v[p]
        elif isinstance(v, (list, tuple)):
            if isinstance(p, str) or p is None or not -len(v) <= p < len(v):
                return MISSING
            v = v[p]
        else:
            return MISSING
    return v


def component(c):
    k = c.choose(3, 'component')
    return c.ident(1, 1, reserved=False) if k == 0 else c.int(-4, 4) if k == 1 else None


def got(c):
    """get() for any key or key path."""
    x = c.ident(1, 1, reserved=False)
    inner = What('b', {c.ident(1, 1, reserved=False): c.int(0, 9), 'q': [7, {'r': 8}]})
    k = c.choose(5, 'value')
    v = inner if k == 0 else [inner, 1, (2, inner)] if k == 1 else {'y': inner, 3: None, None: 1} if k == 2 else \
        Boxed(inner) if k == 3 else c.int(0, 9)
    w = What('a', {x: v, 'f': None})
    n = c.choose(4, 'path')
    path = (component(c),) if n == 0 else tuple([component(c) for _ in range(n)])
    key = path[0] if n == 0 else path
    c.show(w, key)
    expected = resolve(w, path)
    default = DEFAULT if c.bool('default') else None
    if expected is MISSING:
        c.check(w.get(key, default) is default, 'get gives the default for missing keys')
        c.check(c.raises(KeyError, lambda: w[key]) is not None, 'indexing raises KeyError for missing keys')
    else:
        c.check(w.get(key, default) is expected, 'get gives the value')
        c.check(w[key] is expected, 'indexing gives the value')


def got_alike(c):
    """Keys of the same text and other types."""
    some = [1, '1', 0, '0', None, 'None', '', 'x', '-1', -1]
    most = c.bool('most')
    one = c.pick(some, 'key')
    inner = {k: [i, str(i)] for i, k in enumerate(some) if k is not one} if most else {one: c.int(0, 9)}
    k = c.choose(4, 'where')
    w = What('a', {'x': inner if k == 0 else [inner] if k == 1 else {'1': inner} if k == 2 else (0, inner), '1': 5})
    path = ('x',) + ((0,) if k == 1 else ('1',) if k == 2 else (1,) if k == 3 else ()) + (c.pick(some, 'component'),)
    if c.bool('longer'):
        path += (c.pick([0, 1, '0', 2, None], 'component'),)
    if c.bool('other'):
        path = (c.pick([1, '1', 'x', None, 0, ''], 'first'),) + path[1:]
    c.show(w, path)
    expected = resolve(w, path)
    if expected is MISSING:
        c.check(w.get(path, DEFAULT) is DEFAULT, 'get gives the default for missing keys')
        c.check(c.raises(KeyError, lambda: w[path]) is not None, 'indexing raises KeyError for missing keys')
    else:
        c.check(w.get(path, DEFAULT) is expected and w[path] is expected, 'get gives the value')


def got_wrong(c):
    """Paths through values without items."""
    leaf = c.pick([None, 1, True, 1.5, set(), frozenset([1]), len, object(), Boxed], 'leaf')
    k = c.choose(4, 'where')
    w = What('a', {'x': leaf if k == 0 else [leaf] if k == 1 else {'y': leaf} if k == 2 else What('b', {'y': leaf})})
    first = ('x',) if k == 0 else ('x', 0) if k == 1 else ('x', 'y')
    path = first + tuple([component(c) for _ in range(1 + c.choose(2, 'more'))])
    c.show(w, path)
    c.check(w.get(path, DEFAULT) is DEFAULT, 'get gives the default for paths through values without items')
    c.check(w.get(first, DEFAULT) is leaf, 'get gives the value')


def jobs(tier):
    return [Job('flat', flat, 'up to 2 parameters, collections of up to 2 integers, all flags', 2),
            Job('deep', deep, 'depth 2, up to 2 elements at each level, all flags', 3),
            Job('chain', chain, 'paths of up to 6 components'),
            Job('ladder', ladder, 'paths of 7, 12, 30 and harvested numbers of components', .7),
            Job('layers', layers, 'up to 4 nested levels with non-id parameters at any level, all flags', 2),
            Job('wide', wide, '7, 12 and harvested numbers of parameters'),
            Job('derived', derived, 'eight kinds of derived collections (named tuples and such) of depth 1..3'),
            Job('mixed', mixed, 'dictionaries with an int, a str and a None key'),
            Job('odd_values', odd_values, 'an object of 32 kinds, with special methods or meanings, and another of 7', .5),
            Job('got', got, 'paths of up to 3 components (1-character names, -4..4, None)', 2),
            Job('got_alike', got_alike, 'keys and paths with 10 components, some with the same text', 1),
            Job('got_wrong', got_wrong, 'paths of up to 2 components through 9 kinds of leaves')]
