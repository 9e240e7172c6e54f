"""C01: ids are canonical."""
from collections import Counter, OrderedDict, defaultdict
from sx.job import Job
from sx import harvest
from whatami import What
from .common import value, render_what, render, SCALARS, COLLS, WORDY

ASSUMPTIONS = ['Values are None, booleans, integers, floats, strings, (nested) builtin collections and configurations.']


def order(c, xs):
    """xs in any order."""
    xs = list(xs)
    out = []
    while len(xs) > 1:
        out.append(xs.pop(c.choose(len(xs), 'order')))
    return out + xs


def reordered(c, v):
    """v with everything unordered inserted in another order."""
    if isinstance(v, What):
        return What(v.name, dict(order(c, [(k, reordered(c, x)) for k, x in v.conf.items()])),
                    non_id_keys=v.non_id_keys, out_name=v.out_name)
    if isinstance(v, OrderedDict):
        return OrderedDict([(k, reordered(c, x)) for k, x in v.items()])
    if isinstance(v, dict):
        return dict(order(c, [(reordered(c, k), reordered(c, x)) for k, x in v.items()]))
    if isinstance(v, set):
        return set(order(c, [reordered(c, x) for x in v]))
    if isinstance(v, frozenset):
        return frozenset(order(c, [reordered(c, x) for x in v]))
    if isinstance(v, list):
        return [reordered(c, x) for x in v]
    if isinstance(v, tuple):
        return tuple([reordered(c, x) for x in v])
    return v


def canonical(c, w, oracle=True):
    w2 = reordered(c, w)
    c.show(w, w2)
    i = w.id()
    c.check_same(w2.id(), i, 'same id whatever the insertion order')
    c.check_same(str(w2), str(w), 'same string whatever the insertion order')
    c.check_same(w2.id(maxlength=1), w.id(maxlength=1), 'same short id whatever the insertion order')
    if oracle:
        c.check_same(i, render_what(w), 'the id is name(key=value,...) with sorted keys')


def keys(c):
    n = 2 + c.choose(2, 'params')
    canonical(c, What(c.ident(1, 1), {c.ident(1, 3, reserved=False): c.int(0, 99) for _ in range(n)}))


def many_keys(c):
    n = c.pick(sorted(set([4, 6, 11] + harvest.sizes())), 'params')
    items = [('k%d' % i, i) for i in range(n - 2)] + [(c.ident(2, 3, reserved=False), 'u'), (c.ident(2, 2, reserved=False), 'v')]
    k = c.choose(4, 'rotation')
    w = What('a', dict(items))
    w2 = What('a', dict(items[::-1] if k == 0 else items[1:] + items[:1] if k == 1 else items[-1:] + items[:-1] if k == 2
                        else items[1::2] + items[::2]))
    c.assume(len(w.conf) == n)
    c.show(w2)
    c.check_same(w2.id(), w.id(), 'same id whatever the insertion order')
    c.check_same(w.id(), render_what(w), 'the id is name(key=value,...) with sorted keys')


def unordered(kind, kinds, strlen, n):
    def harness(c):
        m = 2 + c.choose(n - 1, 'size')
        if kind == 'dict':
            v = {value(c, kinds, 0, 1, strlen, hashable=True): value(c, kinds, 0, 1, strlen) for _ in range(m)}
        else:
            v = set([value(c, kinds, 0, 1, strlen, hashable=True) for _ in range(m)])
            v = v if kind == 'set' else frozenset(v)
        canonical(c, What('a', {'x': v}))
    return harness


def long_elements(c):
    """Elements with common prefixes and equal lengths."""
    n = c.pick(sorted(set([3, 9, 17] + harvest.lengths(4, 300))), 'length')
    p = 'p' * n
    xs = [p + c.str(1, 1), p + c.str(1, 1), c.str(1, 1, WORDY) + p]
    k = c.choose(3, 'kind')
    canonical(c, What('a', {'x': set(xs) if k == 0 else frozenset(xs) if k == 1 else {x: i for i, x in enumerate(xs)}}))


def big(c):
    """Larger collections, in any of several orders."""
    n = c.pick(sorted(set([5, 7, 12] + harvest.sizes())), 'size')
    xs = ['k%02d' % i for i in range(n - 1)] + [c.str(1, 2, WORDY)]
    r = c.choose(4, 'order')
    xs = xs[::-1] if r == 0 else xs[3:] + xs[:3] if r == 1 else xs[1::2] + xs[::2] if r == 2 else xs
    k = c.choose(6, 'kind')
    v = xs if k == 0 else tuple(xs) if k == 1 else set(xs) if k == 2 else frozenset(xs) if k == 3 else \
        {x: i for i, x in enumerate(xs)} if k == 4 else OrderedDict([(x, n - i) for i, x in enumerate(xs)])
    w = What('a', {'x': v if c.bool('direct') else [v]})
    c.show(w)
    c.check_same(w.id(), render_what(w), 'unordered collections are sorted and the others keep their order')


def nested(c):
    canonical(c, What('a', {'x': value(c, COLLS + ('what', 'int', 'str'), 2, 2, 1)}))


def nested_hashable(c):
    """Collections within sets and keys."""
    xs = [value(c, ('int', 'tuple', 'frozenset'), 2, 2, 1, hashable=True) for _ in range(2)]
    k = c.choose(4, 'kind')
    canonical(c, What('a', {'x': set(xs) if k == 0 else frozenset(xs) if k == 1 else
                            {xs[0]: 1, xs[1]: 2} if k == 2 else {'k': set(xs), 'l': 1}}))


def sequences(c):
    """Ordered things keep their order."""
    xs = [value(c, SCALARS, 0, 1, 1) for _ in range(c.choose(4, 'size'))]
    k = c.choose(3, 'kind')
    if k < 2:
        v = xs if k == 0 else tuple(xs)
    else:
        v = OrderedDict([(c.str(0, 2), x) for x in xs])
    w = What('a', {'x': v})
    c.show(w)
    c.check_same(w.id(), 'a(x=' + render(v) + ')', 'sequences and ordered dictionaries keep their order')


def ordered_in_unordered(c):
    od = OrderedDict([(c.str(1, 1), {c.int(0, 9): 1, c.int(0, 9): 2}), (c.str(1, 1), [c.int(0, 9), set([c.int(0, 9), c.int(0, 9)])])])
    canonical(c, What('a', {c.ident(1, 1): od, c.ident(1, 1): {'z': od, c.str(1, 1): None}}))


def derived(c):
    """Subclasses of collections and hash of the state of counters."""
    k = c.choose(8, 'class')
    xs = [c.int(0, 99) for _ in range(3)]
    ys = order(c, xs)

    def one(xs, last):
        if k == 0:
            return Bag(xs)
        if k == 1:
            return Cold(xs)
        if k == 2:
            return Table({x: 1 for x in xs})
        if k == 3:
            return Table({'l': 2, 'k': set(xs)} if last else {'k': set(xs), 'l': 2})
        r = Counter() if k in (4, 5) else defaultdict(list) if k == 6 else defaultdict()
        for x in xs:
            r[x] = [1] if k == 6 else {y: 2 for y in xs} if k == 5 else 3
        return r
    a, b = one(xs, False), one(ys, True)
    a, b = (a, b) if c.bool('direct') else ([a], [b])
    c.show(xs, ys, k)
    c.check_same(What('a', {'x': a}).id(), What('a', {'x': b}).id(), 'same id whatever the insertion order (derived)')


class Bag(set):
    pass


class Cold(frozenset):
    pass


class Table(dict):
    pass


def jobs(tier):
    t = tier == 'thorough'
    js = [Job('keys', keys, '2..3 parameters with symbolic keys of 1..3 characters, any order', 2),
          Job('many_keys', many_keys, '4, 6, 11 parameters and sizes around the code constants'),
          Job('long_elements', long_elements, 'three strings with long common parts in sets and dict keys'),
          Job('big', big, 'collections of sizes 5, 7, 12 and around the code constants in four orders'),
          Job('nested', nested, 'values of depth 2 with up to 2 elements, any order', 3),
          Job('nested_hashable', nested_hashable, 'tuples and frozensets of depth 2 within sets and dict keys', 2),
          Job('sequences', sequences, 'lists, tuples and OrderedDicts of up to 3 scalars'),
          Job('ordered_in_unordered', ordered_in_unordered, 'OrderedDicts holding dicts and sets'),
          Job('derived', derived, 'eight uses of subclasses of set, frozenset and dict (counters and such) with 3 integers in any order')]
    for kind in ('dict', 'set', 'frozenset'):
        js.append(Job(kind + '_scalars', unordered(kind, SCALARS, 1, 2), '%s of 2 scalars of any kind' % kind, 2))
        js.append(Job(kind + '_ints', unordered(kind, ('int', 'str'), 2, 3 if t or kind != 'dict' else 2), '%s of 2..3 integers or strings' % kind, 2))
    return js
