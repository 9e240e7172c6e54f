"""C22: content hashes depend only on content."""
import sys
from collections import OrderedDict, defaultdict

import numpy  # noqa (the hasher uses its numpy variant when it is loaded)

from whatami.minijoblib import hashing
from whatami.minijoblib.hashing import Hasher, NumpyHasher, hasher
from sx import ops, vals as V
from sx.core import H
from sx.job import Job
from sx import harvest
from .common import insertion_sort, implicit

ASSUMPTIONS = ['The pickler of the standard library runs natively: symbolic integers (0..255 and -128..-1) and ascii strings '
               'of up to 255 characters are written by stand-ins of its save functions, with the bytes it would write '
               '(checked against native runs on witnesses of the explored paths).',
               'Digests that decide the order of unorderable elements are in an arbitrary order (the same for the same content).',
               'Only strings and bytes are shared in several positions (shared mutable objects and tuples are pickled as '
               'references by design).',
               'Arrays are in C32. No element equals another of other type '
               '(1, 1.0 and True) within a set or the keys of a dict.']

MARK = b'\x00\xffsx'
END = b'\xff\x00'


class Marks(object):
    values = []


def mark(pickler, obj):
    Marks.values.append(obj)
    pickler.write(MARK + b'%06d' % (len(Marks.values) - 1) + END)


def save_symstr(self, obj):
    mark(self, obj)
    self.memoize(obj)


def save_symint(self, obj):
    mark(self, obj)


def save_symfloat(self, obj):
    mark(self, obj)


def encoding(v):
    """The bytes (as text) or digest for a marked value."""
    if V.is_digest(v):
        return ['\x8c' + chr(len(v)), v]
    if isinstance(v, str):
        for ch in v:
            if not ch < '\x80':
                raise ValueError('only ascii strings are modelled')
        return ['\x8c' + chr(len(v)) + v]
    if isinstance(v, int):
        if v >= 0:
            return ['K' + chr(v)]
        return ['J' + chr(256 + v) + '\xff\xff\xff']
    return ['G' + repr(v) + ';']


def latin(b):
    return b.decode('latin-1')


decoder = [latin]       # how bytes (without marks) become text


def message(parts):
    """The hashed bytes, as text and digests (without the frame headers, whose only content is a length)."""
    out = ['']
    for p in parts:
        b = bytes(p)
        if b[:1] == b'\x80' and b[2:3] == b'\x95':
            b = b[:2] + b[11:]
        while True:
            i = b.find(MARK)
            if i < 0:
                out[-1] = out[-1] + decoder[0](b)
                break
            out[-1] = out[-1] + decoder[0](b[:i])
            j = i + len(MARK)
            for e in encoding(Marks.values[int(b[j:j + 6])]):
                if V.is_digest(e):
                    out.append(e)
                    out.append('')
                else:
                    out[-1] = out[-1] + e
            b = b[j + 6 + len(END):]
    return tuple(out)


def install():
    for cls in (Hasher, NumpyHasher):
        if 'dispatch' in vars(cls):
            cls.dispatch[V.SymStr] = save_symstr
            cls.dispatch[V.Digest] = save_symstr
            cls.dispatch[V.SymInt] = save_symint
            cls.dispatch[V.SymFloat] = save_symfloat


def digest(c, x):
    if not c.symbolic:
        return hasher(x)
    if not c.cache.get('c22'):
        install()
        c.cache['c22'] = True
        Marks.values = []
    ops.SymDigestObject.decode = message
    try:
        return hasher(x)
    finally:
        ops.SymDigestObject.decode = None


ASCII = ((0, 127),)


def integer(c):
    return c.int(0, 255)


def text(c, lo=0, hi=2):
    return c.str(lo, hi, ASCII)


def copy(x):
    """An equal string, another object."""
    return V.mkstr(list(V.items_of(x))) if V.is_sym(x) else ''.join(list(x))


def rebuild(x, flip):
    """Equal content, with other objects everywhere (other than scalars) and other insertion orders."""
    if isinstance(x, str):
        return copy(x)
    if isinstance(x, list):
        return [rebuild(y, flip) for y in x]
    if isinstance(x, tuple):
        return tuple([rebuild(y, flip) for y in x])
    if isinstance(x, OrderedDict):
        return OrderedDict([(rebuild(k, flip), rebuild(v, flip)) for k, v in x.items()])
    if isinstance(x, dict):
        kvs = [(rebuild(k, flip), rebuild(v, flip)) for k, v in x.items()]
        r = defaultdict(x.default_factory) if isinstance(x, defaultdict) else {}
        for k, v in order(kvs, flip):
            r[k] = v
        return r
    if isinstance(x, set):
        return set(order([rebuild(y, flip) for y in x], flip))
    if isinstance(x, frozenset):
        return frozenset(order([rebuild(y, flip) for y in x], flip))
    return x


def order(xs, flip):
    n = len(xs)
    if n < 2:
        return xs
    if flip == 0:
        return xs[::-1]
    if flip == 1:
        return xs[1:] + xs[:1]
    return [xs[1], xs[0]] + xs[2:]


def element(c, depth, negative=False):
    """Hashable values."""
    k = c.choose(7 if depth > 0 else 4, 'element')
    if k == 0:
        return c.int(-128, -1) if negative and c.bool('negative') else integer(c)
    if k == 1:
        return text(c)
    if k == 2:
        return None
    if k == 3:
        return c.pick([2.5, -1.5, 1e30], 'float')
    n = c.choose(3, 'size')
    if k == 4:
        return tuple([element(c, depth - 1) for _ in range(n)])
    if k == 5:
        return frozenset([element(c, depth - 1) for _ in range(n)])
    return b'ab' if n else b''


def container(c, depth, kinds=5):
    k = c.choose(kinds, 'kind')
    n = c.choose(3, 'size')
    if k == 0:
        return [value(c, depth - 1) for _ in range(n)]
    if k == 1:
        return tuple([value(c, depth - 1) for _ in range(n)])
    if k == 2:
        return {element(c, depth - 1): value(c, depth - 1) for _ in range(n)}
    if k == 3:
        return set([element(c, depth - 1) for _ in range(n)])
    return frozenset([element(c, depth - 1) for _ in range(n)])


def value(c, depth):
    if depth > 0 and c.bool('nested'):
        return container(c, depth)
    return element(c, 0, True)


def equal(depth):
    """Equal content, other order and other objects."""
    def harness(c):
        x = container(c, depth)
        y = rebuild(x, 0)
        c.show(x)
        c.check_same(digest(c, x), digest(c, y), 'equal content gives equal hashes')
    return harness


def orders(kind):
    """Three elements in any order."""
    def harness(c):
        if kind == 'ints':
            xs = [c.int(-3, 255) for _ in range(3)]
        elif kind == 'strings':
            xs = [text(c, 0, 1) for _ in range(3)]
        elif kind == 'mixed':
            xs = [integer(c), text(c, 0, 1), c.pick([None, 2.5, (1, 2)]), integer(c)]
        elif kind == 'tuples':
            xs = [(integer(c), text(c, 0, 1)) for _ in range(2)] + [(3, None)]
        elif kind == 'nans':
            xs = [c.pick([1.5, 2.5]), float('nan'), c.pick([-1.5, 3.5, float('inf')])]
        else:
            xs = [frozenset([integer(c)]), frozenset([integer(c), integer(c)]), frozenset()]
        flip = c.choose(3, 'order')
        k = c.choose(4, 'container')
        a = order(xs, flip)
        if k == 0:
            x, y = set(xs), set(a)
        elif k == 1:
            x, y = frozenset(xs), frozenset(a)
        else:
            vs = [7, 'v', None, 4]
            if k == 2:
                x, y = {}, {}
            else:
                x, y = defaultdict(int), defaultdict(int)
            pairs = list(zip(xs, vs))
            for i in range(len(pairs)):
                for j in range(i):
                    c.assume(c.differ(pairs[i][0], pairs[j][0]))
            for p, q in pairs:
                x[p] = q
            for p, q in order(pairs, flip):
                y[p] = q
        if c.bool('nested'):
            x, y = [x, 1], [y, 1]
        c.show(x, y)
        c.check_same(digest(c, x), digest(c, y), 'the insertion order does not matter')
    return harness


def shared(c):
    """The same string object or equal ones."""
    s = c.str(2, 3, ASCII)
    t = copy(s)
    k = c.choose(6, 'container')
    if k == 0:
        x, y = [s, s], [s, t]
    elif k == 1:
        x, y = (s, [s]), (s, [t])
    elif k == 2:
        x, y = {s: s}, {s: t}
    elif k == 3:
        x, y = [set([s]), {1: s}], [set([t]), {1: s}]
    elif k == 4:
        x, y = {1: s, 2: s}, {2: t, 1: s}
    else:
        b = bytes(bytearray([97, 98]))
        b2 = bytes(bytearray([97, 98]))
        x, y = [b, s, b], [b, t, b2]
    c.show(x)
    c.check_same(digest(c, x), digest(c, y), 'sharing strings does not matter')


def longer(c):
    """Long strings, shared or not."""
    n = c.pick(sorted(set([40, 200] + [x for x in harvest.sizes(250)])), 'length')
    s = c.str(2, 2, ASCII) + 'x' * n
    t = copy(s)
    c.show(s)
    c.check_same(digest(c, [s, s]), digest(c, [s, t]), 'sharing strings does not matter')
    u = s[:-1] + text(c, 1, 1)
    c.check(iff(c, c.same(digest(c, [s]), digest(c, [u])), c.same(s, u)), 'different content gives different hashes')


def iff(c, a, b):
    return c.all(c.implies(a, b), c.implies(b, a))


def differ(depth, kinds=5):
    """Hashes are the same just for the same content (of the same types)."""
    def harness(c):
        x, y = container(c, depth, kinds), container(c, depth, kinds)
        c.show(x, y)
        c.check(iff(c, c.same(digest(c, x), digest(c, y)), c.same(x, y)), 'hashes are equal for equal content only')
    return harness


def scalars(c):
    x, y = element(c, 1, True), element(c, 1, True)
    c.show(x, y)
    c.check(iff(c, c.same(digest(c, x), digest(c, y)), c.same(x, y)), 'hashes are equal for equal content only')


def positions(c):
    """Ordered containers: order matters."""
    a, b, d = integer(c), text(c, 0, 1), integer(c)
    k = c.choose(4, 'container')
    x, y = ([a, b, d], [d, b, a]) if k == 0 else ((a, b, d), (d, b, a)) if k == 1 else ([[a, d], b], [[d, a], b]) if k == 2 \
        else ([a, [d]], [[a], d])
    c.show(x, y)
    c.check(iff(c, c.same(digest(c, x), digest(c, y)), c.same(x, y)), 'the order of lists and tuples matters')


def swapped(c):
    """Keys with other values."""
    k1, k2 = element(c, 1), element(c, 1)
    c.assume(c.differ(k1, k2))
    v1, v2 = integer(c), integer(c)
    kind = c.choose(3, 'type')
    x, y = ({}, {}) if kind == 0 else (defaultdict(int), defaultdict(int)) if kind == 1 else (OrderedDict(), OrderedDict())
    x[k1], x[k2] = v1, v2
    y[k1], y[k2] = v2, v1
    c.show(x, y)
    c.check(iff(c, c.same(digest(c, x), digest(c, y)), c.same(v1, v2)), 'different values give different hashes')


def types(c):
    """Containers of other types with the same elements."""
    a, b = integer(c), text(c, 0, 1)
    made = [[a, b], (a, b), set([a, b]), frozenset([a, b]), {a: b}, [(a, b)], {a: None, b: None}, set([(a, b)]), [[a, b]],
            [a, b, None], [set([a, b])]]
    i = c.choose(len(made), 'first')
    j = c.choose(len(made), 'second')
    if i == j:
        return
    c.show(made[i], made[j])
    c.check(c.differ(digest(c, made[i]), digest(c, made[j])), 'containers of other types have other hashes')


def tagged(c):
    """Containers, and others that say what those are."""
    a, b = integer(c), integer(c)
    c.assume(a < b)
    k = c.choose(5, 'kind')
    x = [set([a, b]), frozenset([a, b]), {a: b}, {a: None, b: None}, OrderedDict([(a, b)])][k]
    name = c.pick(['set', 'frozenset', 'dict', 'list', '_ConsistentSet', 'OrderedDict', 'builtins', ''], 'name')
    seq = c.pick([[a, b], (a, b), [b, a], [(a, b)], [(a, None), (b, None)], [a, b, None, None], {a: b}, frozenset([a, b])], 'elements')
    y = c.pick([(name, seq), [name, seq], {name: seq}, seq, (seq,), [seq], {'_sequence': seq}, (name,) + tuple(seq)], 'shape')
    c.assume(type(x) is not type(y) or x != y)
    c.show(x, y)
    c.check(c.differ(digest(c, x), digest(c, y)), 'containers of other types have other hashes')


def sized(c):
    """Many elements."""
    n = c.pick(sorted(set([8, 20] + harvest.sizes())), 'size')
    v = c.int(0, 255)
    k = c.choose(3, 'container')
    xs = [(i * 7) % n for i in range(n)] + [v]
    ys = xs[::-1]
    if k == 0:
        x, y = set(xs), set(ys)
    elif k == 1:
        x, y = {i: 1 for i in xs}, {i: 1 for i in ys}
    else:
        x, y = {'k%02d' % i: [i] for i in xs[:-1]}, {'k%02d' % i: [i] for i in ys[1:]}
        x['kv'], y['kv'] = v, v
    c.show(n, v)
    c.check_same(digest(c, x), digest(c, y), 'the insertion order does not matter')
    w = c.int(0, 255)
    lst = list(range(n)) + [v]
    other = list(range(n)) + [w]
    c.check(iff(c, c.same(digest(c, lst), digest(c, other)), c.same(v, w)), 'all the elements matter')


def all_elements(c):
    """Every element of big containers, and their types."""
    n = c.pick(sorted(set([5, 12, 40] + harvest.sizes())), 'size')
    m = n if c.bool('same size') else n + 1
    names = ('list', 'tuple', 'dict', 'nested', 'ordered')
    i, j = c.choose(5, 'first'), c.choose(5, 'second')

    def one(k, n):
        xs = [integer(c) for _ in range(n)]
        return xs if k == 0 else tuple(xs) if k == 1 else {a: x for a, x in enumerate(xs)} if k == 2 else [[x] for x in xs] if k == 3 \
            else OrderedDict([(a, x) for a, x in enumerate(xs)])
    x, y = one(i, n), one(j, m)
    c.show(names[i], names[j], n, m)
    if i == j and m == n:
        c.check(iff(c, c.same(digest(c, x), digest(c, y)), c.same(x, y)), 'hashes are equal for equal content only')
    else:
        c.check(c.differ(digest(c, x), digest(c, y)), 'containers of other types have other hashes')


def algorithms(c):
    """Other algorithms, and without the numpy variant."""
    x = container(c, 1)
    y = rebuild(x, 0)
    z = container(c, 1)
    name = c.pick(['md5', 'sha1'])
    cls = c.pick([Hasher, NumpyHasher])
    if c.symbolic:
        digest(c, 1)
        ops.SymDigestObject.decode = message
    try:
        a, b, d = cls(hash_name=name).hash(x), cls(hash_name=name).hash(y), cls(hash_name=name).hash(z)
        given = implicit(c, {'hash_name': name}, hash_name='md5')
        e = hasher(x, **given)
        f = cls(**given).hash(x)
    finally:
        ops.SymDigestObject.decode = None
    c.show(x, z, name)
    c.check_same(a, b, 'equal content gives equal hashes')
    c.check_same(a, e, 'hasher does not depend on numpy being loaded')
    c.check_same(a, f, 'md5 is the default')
    c.check(iff(c, c.same(a, d), c.same(x, z)), 'hashes are equal for equal content only')


class Counter(object):
    def __init__(self, n, s):
        self.n = n
        self.s = s

    def get(self):
        return self.n

    def other(self):
        return self.s


class Derived(Counter):
    pass


def objects(c):
    """Instances by class and state, bound methods by object and name."""
    def one():
        o = (Derived if c.bool('derived') else Counter)(integer(c), text(c, 0, 1))
        k = c.choose(3, 'what')
        return (type(o), k, o.n, o.s), o if k == 0 else o.get if k == 1 else o.other
    (a, x), (b, y) = one(), one()
    if c.bool('nested'):
        x, y = [x, 1], [y, 1]
    c.show(a, b)
    c.check(iff(c, c.same(digest(c, x), digest(c, y)), c.all(a[0] is b[0], a[1] == b[1], c.same(a[2:], b[2:]))),
            'objects and their methods are hashed by class and state')


def repeated(c):
    """Hashing leaves nothing behind, with or without numpy."""
    xs = [container(c, 1) for _ in range(2)]
    c.show(xs)
    without = c.bool('without numpy')
    first = [digest(c, x) for x in xs]
    loaded = sys.modules['numpy']
    try:
        if without:
            del sys.modules['numpy']
        again = [digest(c, xs[i]) for i in (1, 0, 0)]
    finally:
        sys.modules['numpy'] = loaded
    for i, d in zip((1, 0, 0), again):
        c.check_same(d, first[i], 'hashes do not depend on what was hashed before')


NUMBERS = [0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1,
           2 ** 64, 2 ** 64 + 1, 2 ** 128, 10 ** 30]
ALIKE = NUMBERS + [-n for n in NUMBERS[1:]] + [
    True, False, None, '', b'', '0', '1', b'0', b'1', 'True', 'None', 0.0, -0.0, 1.0, -1.0, 2. ** 53, 2. ** 64, float('inf'), 1j, 0j, (), (1,), ('1',), (True,),
    bytearray(b'1'), frozenset(), frozenset([1]), frozenset([True]), frozenset(['1']), Ellipsis, int, float, str, bool, len, range(1), slice(1), 'é', b'\xe9']


def alike(c):
    """Values at times mistaken for others, on their own and within containers."""
    i, j = c.choose(len(ALIKE), 'first'), c.choose(len(ALIKE), 'second')
    k = c.choose(7, 'where')
    c.assume(i < j)
    if k:
        c.assume(j - i < 4 or i in (0, 1) or j in (NUMBERS.index(2 ** 64 - 1), len(NUMBERS), len(NUMBERS) + 1))

    def one(v):
        return v if k == 0 else [v] if k == 1 else (v, 2) if k == 2 else {'k': v} if k == 3 else [[1, {'x': (v,)}]] if k == 4 else \
            OrderedDict([('k', v)]) if k == 5 else [2, v, v]
    c.show(i, j, k)
    c.check(c.differ(digest(c, one(ALIKE[i])), digest(c, one(ALIKE[j]))), 'hashes are equal for equal content only')


def jobs(tier):
    deep = tier == 'thorough'
    out = [Job('equal', equal(3 if deep else 2), 'containers of depth %d with up to 2 elements' % (3 if deep else 2), 2),
           Job('differ', differ(1), 'pairs of flat containers with up to 2 elements', 3),
           Job('differ2', differ(2), 'pairs of containers of depth 2 with up to 2 elements', 3)]
    for k in ('ints', 'strings', 'mixed', 'tuples', 'frozensets', 'nans'):
        out.append(Job('orders_' + k, orders(k), 'sets and dicts of 3 or 4 %s, 3 other orders' % k, 1.))
    return out + [Job('shared', shared, 'strings of 2 or 3 characters in 6 containers'),
                  Job('longer', longer, 'strings of 42, 202 and harvested lengths'),
                  Job('scalars', scalars, 'pairs of scalars, tuples and frozensets of up to 2 elements', 2),
                  Job('positions', positions, '4 containers of 3 elements'),
                  Job('swapped', swapped, 'dictionaries with two keys', 1.5),
                  Job('alike', alike, 'pairs of %d values, alone and in six containers' % len(ALIKE), 1.5),
                  Job('types', types, 'pairs of 11 containers'),
                  Job('tagged', tagged, 'five containers, and 512 descriptions of their type and elements', 1),
                  Job('all_elements', all_elements, '5, 12, 40 and harvested numbers of elements, all symbolic'),
                  Job('sized', sized, '8, 20 and harvested numbers of elements'),
                  Job('objects', objects, 'pairs of instances and methods of two classes', 1),
                  Job('repeated', repeated, 'three times two flat containers, with and without numpy', 1),
                  Job('algorithms', algorithms, 'flat containers, md5 and sha1, both hashers')]
