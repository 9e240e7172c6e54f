"""C03: different configurations have different ids."""
from collections import Counter, OrderedDict
from sx.job import Job
from sx import harvest
from whatami import What
from .common import value, what, parsed_value, SCALARS, COLLS, WORDY, precise_float, float_of, extreme_float

ASSUMPTIONS = ['Values are None, booleans, integers, floats, strings, (nested) builtin collections and configurations '
               'whose names are not constants of the id language.']


def injective(c, a, b):
    c.show(a, b)
    x, y = parsed_value(a), parsed_value(b)
    i, j = a.id(), b.id()
    c.check(c.any(c.same(x, y), c.differ(i, j)), 'different configurations have different ids')
    c.check(c.implies(c.all(c.same(a.name, b.name), c.same(a.out_name, b.out_name), c.same(a.conf, b.conf)), c.same(i, j)),
            'same configuration, same id')


def W(v):
    return What('a', {'x': v})


def strings(c):
    injective(c, W(c.str(0, 3)), W(c.str(0, 3)))


def long_strings(c):
    n = c.pick(sorted(set([5, 11, 33, 65] + harvest.lengths(5, 300))), 'length')
    m = c.choose(3, 'where')
    a, b = c.str(2, 2), c.str(2, 2)
    p = 'p' * n
    f = (lambda s: s + p) if m == 0 else (lambda s: p + s) if m == 1 else (lambda s: p[: n // 2] + s + p[n // 2:])
    injective(c, W(f(a)), W(f(b)))


def all_texts(c):
    """Every character of long texts."""
    n = c.pick(sorted(set([7, 40, 150] + harvest.lengths(5, 300))), 'length')
    k = c.choose(5, 'where')
    m = n if c.bool('same length') else n + 1
    if k < 2:
        a, b = c.str(n, n, WORDY), c.str(m, m, WORDY)
        a, b = [What('a', {'x': s}) if k == 0 else What('a', {'x': [{s: s}]}) for s in (a, b)]
    else:
        a, b = c.ident(n, n), c.ident(m, m)
        a, b = [What(s, {}) if k == 2 else What('a', {}, out_name=s) if k == 3 else What('a', {s: 1}) for s in (a, b)]
    injective(c, a, b)


def all_elements(c):
    """Every element of big collections."""
    n = c.pick(sorted(set([6, 12, 60] + harvest.sizes())), 'size')
    m = n if c.bool('same size') else n + 1
    k = c.choose(6, 'kind')

    def one(n):
        xs = [c.str(1, 1, WORDY) for _ in range(n)]
        return xs if k == 0 else tuple(xs) if k == 1 else {'k%d' % i: x for i, x in enumerate(xs)} if k == 2 else \
            What('b', {'k%d' % i: x for i, x in enumerate(xs)}) if k == 3 else \
            set([(i, x) for i, x in enumerate(xs)]) if k == 4 else {i: [x] for i, x in enumerate(xs)}
    injective(c, W(one(n)), W(one(m)))


def scalars(c):
    injective(c, W(value(c, SCALARS, 0, 1, 2)), W(value(c, SCALARS, 0, 1, 2)))


def numbers(c):
    kinds = ('int', 'float', 'bool')
    a = c.int(-10 ** 20, 10 ** 20) if c.bool('big') else value(c, kinds, 0)
    injective(c, W(a), W(value(c, kinds, 0, ints=(-10 ** 20, 10 ** 20))))


def precise(c):
    """Floats of many digits."""
    injective(c, W(precise_float(c)), W(precise_float(c)))


def extremes(c):
    f, g = extreme_float(c), extreme_float(c)
    injective(c, W([f, c.int(0, 9)]), W([g, c.int(0, 9)]))


def close(c):
    """Floats of the same magnitude which differ in any of 15 digits."""
    k = c.choose(3, 'float')
    after = '' if k == 0 else 'e+20' if k == 1 else 'e-20'
    injective(c, W(float_of(c, '', '.', 14, after)), W(float_of(c, '', '.', 14, after)))


def adjacent(c):
    """Doubles whose texts have 17 digits."""
    x, y = c.pick(ADJACENT, 'pair')
    s = c.pick([1, -1], 'sign')
    d = c.int(0, 9)
    injective(c, W([x * s, d]), W([y * s, d] if c.bool('same') else [y * s, c.int(0, 9)]))


ADJACENT = [(0.1, 0.1 + 2 ** -56), (0.1 + 0.2, 0.3), (1.0, 1 + 2 ** -52), (1.0, 1 - 2 ** -53), (2.0 ** 53, 2.0 ** 53 + 2),
            (1e22, 1.0000000000000002e22), (5e-324, 1e-323), (1.7976931348623157e308, 1.7976931348623155e308),
            (0.0, 5e-324), (0.0, -0.0), (123456789.12345678, 123456789.1234568), (1e16, 1e16 + 2), (1e100, 1e100 + 2e84)]


def whole(c):
    """Floats without decimals against integers of the same value."""
    k = c.choose(3, 'shape')
    if k == 0:
        e = c.pick([16, 17, 20, 22, 50], 'exponent')
        f = c.mkfloat(c.str(1, 1, ((49, 57),), 'digit', 49) + 'e+%d' % e)
        i = c.int(1, 9, 1) * 10 ** e
    elif k == 1:
        n = c.choose(15, 'digits')
        f = c.mkfloat(c.str(1, 1, ((49, 57),), 'digit', 49) + c.str(n, n, ((48, 57),), 'digits', 48) + '.0')
        i = c.int(10 ** n, 10 ** (n + 1) - 1)
    else:
        f = c.mkfloat(c.str(1, 1, ((49, 57),), 'digit', 49) + '.' + c.str(1, 1, ((49, 57),), 'digit', 49) + 'e+20')
        i = c.int(11, 99, 11) * 10 ** 19
    s = c.choose(3, 'other')
    injective(c, W(f), W(i if s == 0 else str(i) if s == 1 else (i,)))


def names(c):
    def one():
        out = c.ident(1, 2, reserved=False) if c.bool('out') else None
        return What(c.ident(1, 3), {c.ident(1, 2, reserved=False): c.int(0, 9)} if c.bool('params') else {}, out_name=out)
    injective(c, one(), one())


def long_names(c):
    n = c.pick(sorted(set([6, 12, 33] + harvest.lengths(5, 300))), 'length')
    k = c.choose(3, 'where')
    p = 'p' * n
    a, b = p + c.ident(1, 1) + 'q', p + c.ident(1, 1) + 'q'
    injective(c, *[What(x, {}) if k == 0 else What('a', {}, out_name=x) if k == 1 else What('a', {x: 1}) for x in (a, b)])


def params(c):
    """Different sets of parameters."""
    def one():
        return {c.ident(1, 2, reserved=False): c.int(0, 99) for _ in range(c.choose(3, 'params'))}
    injective(c, What('a', one()), What('a', one()))


def collections(c):
    """Collections of up to 2 elements of any two kinds."""
    kinds = COLLS + ('what',)

    def one():
        return coll(c, c.pick(kinds, 'kind'))
    injective(c, W(one()), W(one()))


def coll(c, k, kinds=('str', 'int'), n=None):
    n = c.choose(3, 'size') if n is None else n
    xs = [value(c, kinds, 0, 1, 1, ints=(0, 20)) for _ in range(n)]
    if k == 'list':
        return xs
    if k == 'tuple':
        return tuple(xs)
    if k == 'set':
        return set(xs)
    if k == 'frozenset':
        return frozenset(xs)
    if k == 'dict':
        return {x: value(c, kinds, 0, 1, 1, ints=(0, 20)) for x in xs}
    if k == 'odict':
        return OrderedDict([(x, value(c, kinds, 0, 1, 1, ints=(0, 20))) for x in xs])
    return What('b', {'k%d' % i: x for i, x in enumerate(xs)})


def twins(kind):
    """Same kind and size, all the leaves different symbols."""
    def harness(c):
        n = 1 + c.choose(3, 'size')
        injective(c, W(coll(c, kind, ('str', 'int', 'bool', 'none'), n)), W(coll(c, kind, ('str', 'int', 'bool', 'none'), n)))
    return harness


def twin(c, v):
    """The same shape with fresh leaves."""
    if isinstance(v, What):
        return What(v.name if c.bool('keep') else c.ident(1, 1), {k: twin(c, x) for k, x in v.conf.items()}, out_name=v.out_name)
    if isinstance(v, list):
        return [twin(c, x) for x in v]
    if isinstance(v, tuple):
        return tuple([twin(c, x) for x in v])
    if isinstance(v, dict):
        return {twin(c, k): twin(c, x) for k, x in v.items()}
    if isinstance(v, set):
        return set([twin(c, x) for x in v])
    if isinstance(v, frozenset):
        return frozenset([twin(c, x) for x in v])
    if isinstance(v, str):
        return c.str(len(v), len(v))
    if isinstance(v, bool):
        return c.bool()
    if isinstance(v, int):
        return c.int(-99, 999)
    return v


def nested_twins(c):
    v = value(c, COLLS + ('what', 'str', 'int'), 2, 2, 1)
    injective(c, W(v), W(twin(c, v)))


def deep_twins(c):
    v = value(c, COLLS + ('what', 'str', 'int', 'none'), 4, 1, 1)
    injective(c, W(v), W(twin(c, v)))


def moved(c):
    """The same leaves in different places."""
    s, t = c.str(0, 1), c.int(0, 9)
    shapes = [lambda: [[s], t], lambda: [s, [t]], lambda: [[s, t]], lambda: [s, t], lambda: (s, (t,)), lambda: ((s, t),),
              lambda: [(s, t)], lambda: ([s], t), lambda: [{s: t}], lambda: {s: [t]}, lambda: {t: s}, lambda: {s: t},
              lambda: {(s, t)}, lambda: What('b', {'y': s, 'z': t}), lambda: What('b', {'y': t, 'z': s}),
              lambda: What('b', {'y': What('c', {'z': t}), 'w': s}), lambda: What('b', {'y': [s, t]}),
              lambda: [What('b', {'y': s}), t], lambda: frozenset([s, t]), lambda: frozenset([(s, t)]), lambda: [s, t, s],
              lambda: [s, s, t], lambda: [t, s], lambda: (t, s), lambda: {s: {t: s}}, lambda: [[], s, t], lambda: [s, t, []],
              lambda: [s, t, None], lambda: OrderedDict([(s, t)]), lambda: OrderedDict([(t, s)]), lambda: [(s,), (t,)],
              lambda: What('b', {'y': s, 'z': t}, out_name='o'), lambda: [s, t, False], lambda: [s, t, 0], lambda: [s, t, '0']]
    injective(c, W(c.pick(shapes, 'shape')()), W(c.pick(shapes, 'shape')()))


ALIKE = [b'a', 'a', ['a'], ('a',), frozenset(['a']), {'a': None}, {'a': 'a'}, [('a', 'a')], OrderedDict([('a', 'a')]), 1, True, 1.0, 1j,
         '1', b'1', b'', '', None, 'None', [], (), {}, frozenset(), 0, False, 0.0, -0.0, '0', b'0', 'True', '1.0', [1], (1,), frozenset([1]),
         {1: None}, range(1), b"'a'", "'a'", b'\xff', '\xff', '\\xff', bytearray(b'a'), Counter('a'), {'a': 1}, What('a', {}), 'a()', int, 'int',
         float('inf'), 'inf', float('nan'), 'nan', [None], [False], [[]], [()], [''], Ellipsis, 'Ellipsis', slice(1), complex(1), 'b']


def alike(c):
    """Values that are at times mistaken for others."""
    i = c.choose(len(ALIKE), 'one')
    n = c.choose(len(ALIKE), 'other')
    a, b = ALIKE[i], ALIKE[n]
    k = c.choose(4, 'where')
    c.assume(i < n)
    if k == 3:
        c.assume(n - i < 9)

    def W2(x):
        return W(x) if k == 0 else W([x]) if k == 1 else W({'k': x}) if k == 2 else W(What('b', {'y': (x, 2)}))
    c.show(i, n, k)
    c.check(W2(a).id() != W2(b).id(), 'different configurations have different ids')


def two_params(c):
    """Values cannot be shifted between parameters."""
    a, b = c.str(0, 2), c.str(0, 2)
    d, e = c.str(0, 2), c.str(0, 2)
    injective(c, What('a', {'x': a, 'y': b}), What('a', {'x': d, 'y': e}))


def big(c):
    n = c.pick(sorted(set([7, 12] + harvest.sizes())), 'size')
    k = c.choose(5, 'kind')
    at = c.pick(['first', 'middle', 'last'], 'where')

    def one():
        x = c.int(100, 999)
        xs = list(range(n))
        xs[0 if at == 'first' else n - 1 if at == 'last' else n // 2] = x
        return xs if k == 0 else tuple(xs) if k == 1 else set(xs) if k == 2 else {y: y for y in xs} if k == 3 else \
            What('b', {'k%d' % i: y for i, y in enumerate(xs)})
    injective(c, W(one()), W(one()))


def short(c):
    """Length limited ids."""
    a, b = W(c.str(0, 2)), W(c.str(0, 2))
    n = c.choose(12, 'maxlength')
    c.show(a, b, n)
    c.check(c.any(c.same(parsed_value(a), parsed_value(b)), c.differ(a.id(maxlength=n), b.id(maxlength=n))),
            'different configurations have different short ids')


def jobs(tier):
    js = [Job('strings', strings, 'two strings of up to 3 arbitrary characters', 2),
          Job('long_strings', long_strings, 'long strings differing in two arbitrary characters'),
          Job('scalars', scalars, 'two scalars of any kind', 3),
          Job('numbers', numbers, 'two numbers, integers up to 10**20'),
          Job('precise', precise, 'two floats of 15 digits', 1.5),
          Job('extremes', extremes, 'pairs of 33 floats at the limits of the representation, both signs', 1.5),
          Job('close', close, 'two floats of the same magnitude, 15 digits', 2),
          Job('adjacent', adjacent, '13 pairs of close floats'),
          Job('whole', whole, 'floats without decimals of up to 51 digits against integers, strings and tuples', 1.5),
          Job('names', names, 'two configurations with symbolic names, keys and output names', 2),
          Job('long_names', long_names, 'long names, keys and output names differing in one character'),
          Job('params', params, 'two sets of up to 2 parameters', 2),
          Job('collections', collections, 'two collections of any kinds, up to 2 elements', 4),
          Job('nested_twins', nested_twins, 'values of depth 2 and same shape', 3),
          Job('deep_twins', deep_twins, 'values of depth 4 and same shape', 2),
          Job('moved', moved, 'the same two leaves arranged in 35 ways', 3),
          Job('alike', alike, '%d values of different types or values, at four places' % len(ALIKE), 2),
          Job('two_params', two_params, 'two string parameters of up to 2 characters', 2),
          Job('big', big, 'collections of sizes 7, 12 and around the code constants'),
          Job('all_texts', all_texts, 'texts, names and keys of 7, 40, 150 characters and harvested lengths, all symbolic'),
          Job('all_elements', all_elements, 'collections of 6, 12, 60 and harvested sizes, all their elements symbolic'),
          Job('short', short, 'ids limited to 0..11 characters')]
    for k in COLLS + ('odict', 'what'):
        js.append(Job('twin_' + k, twins(k), 'two %ss of the same size up to 3' % k, 1.5))
    return js
