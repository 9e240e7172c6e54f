"""C02: parsing an id gives back the configuration it was generated from."""
from sx.job import Job
from sx import harvest
from whatami import What, parse_whatid
from .common import value, what, parsed_value, count, SCALARS, COLLS, NOSQ, WORDY, LANDMARKS, precise_float, extreme_float

ASSUMPTIONS = ['Collections do not hold two strings that differ only in the escaping of quotes (they are identified).',
               'Names and keys are ascii identifiers; names are not constants of the language (None, True, False, nan, '
               'inf, set, frozenset).']


def roundtrip(c, w):
    c.show(w)
    expected = parsed_value(w)
    c.assume(count(expected) == count(w))
    i = w.id()
    back = parse_whatid(i)
    c.check(isinstance(back, What), 'parsing gives a configuration')
    c.check_same(back.name, w.name, 'same name')
    c.check_same(back.out_name, w.out_name, 'same output name')
    c.check_same(back.conf, expected.conf, 'same parameters, values and types')
    c.check_same(back.id(), i, 'rendering the parsed configuration gives the same id')


def strings(c):
    roundtrip(c, What('a', {'x': c.str(0, 4)}))


def texts(c):
    n = c.pick(sorted(set(list(range(5, 18)) + harvest.lengths(5, 300))), 'length')
    roundtrip(c, What('a', {'x': c.str(n, n, WORDY)}))


def texts_ends(c):
    n = c.pick(sorted(set([5, 9, 17, 33] + harvest.lengths(5, 300))), 'length')
    s = c.str(2, 2) + c.str(n - 4, n - 4, WORDY) + c.str(2, 2)
    roundtrip(c, What('a', {'x': s}))


def ints(c):
    roundtrip(c, What('a', {'x': c.int(-10 ** 21, 10 ** 21)}))


def landmarks(c):
    """Integers around the limits of the usual representations."""
    n = c.pick(LANDMARKS, 'landmark')
    n = -n if c.bool('negative') else n
    i = c.int(n - 9, n + 9, n + 1)
    roundtrip(c, What('a', {'x': i if c.bool('direct') else {i: (i,)}}))


def floats(c):
    roundtrip(c, What('a', {'x': c.float()}))


def precise(c):
    roundtrip(c, What('a', {'x': precise_float(c)}))


def extremes(c):
    f = extreme_float(c)
    k = c.choose(4, 'where')
    roundtrip(c, What('a', {'x': f if k == 0 else [f] if k == 1 else {f: f} if k == 2 else What('b', {'y': (f,)}),
                            c.ident(1, 1, reserved=False): c.int(0, 9)}))


def twice(c):
    """Parsing the same text again, after changing what the first parse gave."""
    v = value(c, ('list', 'dict', 'what', 'tuple', 'set', 'str'), 2, 1, 1)
    w = What('a', {'x': v, c.ident(1, 2, reserved=False): [c.int(0, 9)]})
    i = w.id()
    first = parse_whatid(i)
    change(c, first, c.choose(4, 'change'))
    c.show(w, first)
    roundtrip(c, w)


def change(c, v, how):
    """Changes the configuration, or something within it."""
    if how == 0:
        v.name = 'changed'
        v.out_name = 'changed'
    elif how == 1:
        v.conf.clear()
    elif how == 2:
        v.conf['changed'] = 1
    else:
        for x in list(v.conf.values()):
            spoil(x)


def spoil(v):
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('changed')
    elif isinstance(v, tuple):
        for x in v:
            spoil(x)
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['changed'] = 1
    elif isinstance(v, set):
        v.add('changed')
    elif isinstance(v, What):
        for x in v.conf.values():
            spoil(x)
        v.conf['changed'] = 1
        v.name = 'changed'


def names(c):
    n = c.choose(17, 'name')
    out = c.ident(1, 3, reserved=False) if c.bool('out') else None
    name = c.ident(n + 1, n + 1)
    conf = {}
    if c.bool('params'):
        m = c.choose(17, 'key')
        conf[c.ident(m + 1, m + 1, reserved=False)] = c.int(0, 9)
    roundtrip(c, What(name, conf, out_name=out))


def long_names(c):
    """Long names and keys."""
    n = c.pick(sorted(set([20, 33, 70, 130, 300] + harvest.lengths(18, 300))), 'length')
    k = c.choose(4, 'which')
    long = [c.ident(1, 1) + 'n' * (n - 2) + c.ident(1, 1), 'a', 'o', 'm']
    long = long[-k:] + long[:-k]
    roundtrip(c, What(long[0], {long[1]: What(long[3], {}, out_name=c.pick([None, long[1]], 'nested out'))}, out_name=long[2]))


def nested_names(c):
    """Nested names that look like constants, numbers..."""
    n = c.choose(12, 'name')
    w = What(c.ident(n + 1, n + 1), {'z': 1} if c.bool('params') else {},
             out_name=c.ident(1, 3, reserved=False) if c.bool('out') else None)
    k = c.choose(5, 'where')
    roundtrip(c, What('a', {'x': w if k == 0 else [w] if k == 1 else {'k': w} if k == 2 else (1, w) if k == 3 else
                            What('b', {'y': w})}))


def collection(kind):
    def harness(c):
        roundtrip(c, What('a', {'x': value_of(c, kind, SCALARS, 2, 1)}))
    return harness


def value_of(c, kind, kinds, size, strlen, depth=1):
    """A collection of the kind."""
    n = c.choose(size + 1, 'size')
    hashable = kind in ('set', 'frozenset')
    xs = [value(c, kinds, depth - 1, size, strlen, hashable=hashable) for _ in range(n)]
    if kind == 'list':
        return xs
    if kind == 'tuple':
        return tuple(xs)
    if kind == 'dict':
        return {value(c, kinds, depth - 1, size, strlen, hashable=True): x for x in xs}
    return set(xs) if kind == 'set' else frozenset(xs)


def nested(c):
    roundtrip(c, What('a', {'x': value(c, COLLS + ('what', 'str', 'int', 'none'), 2, 2, 1)}))


def deep(c):
    roundtrip(c, What('a', {'x': value(c, COLLS + ('what', 'bool'), 4, 1, 1)}))


def whole(c):
    roundtrip(c, what(c, ('str', 'int', 'list', 'what'), 2, 2, 1))


def hashable_whats(c):
    w = What(c.ident(1, 1), {'y': value(c, ('str', 'int'), 0)}, out_name=c.ident(1, 1) if c.bool('out') else None)
    k = c.choose(4, 'where')
    roundtrip(c, What('a', {'x': set([w]) if k == 0 else frozenset([w, 1]) if k == 1 else {w: 2} if k == 2
                            else {(w, 'a'): w}}))


def big(c):
    """Larger collections, one kind at a time."""
    n = c.pick(sorted(set([7, 12] + harvest.sizes())), 'size')
    xs = [i * 3 for i in range(n - 1)] + [c.int(-9, 999)]
    k = c.choose(7, 'kind')
    v = xs if k == 0 else tuple(xs) if k == 1 else set(xs) if k == 2 else frozenset(xs) if k == 3 else \
        {x: 'v' for x in xs} if k == 4 else What('b', {'k%d' % i: x for i, x in enumerate(xs)}, out_name=c.pick([None, 'o']))
    roundtrip(c, What('a', {'x': v}) if k < 6 else What('a', v.conf, out_name=v.out_name))


def long_nested(c):
    """Nested configurations with long ids."""
    n = c.pick(sorted(set([130, 300] + harvest.lengths(100, 5000))), 'length')
    k = c.choose(4, 'where')
    m = c.choose(3, 'kind')
    x = c.str(1, 1, WORDY)
    long = 'x' * (n - 1) + x if m == 0 else 'x' * n if m == 1 else ['y' * (n // 2), x, 'z' * (n // 2)]
    w = What('b', {'y': long, 'z': x}, out_name=c.pick([None, 'o']))
    roundtrip(c, What('a', {'x': w if k == 0 else [w] if k == 1 else {'k': w} if k == 2 else What('d', {'w': w})}))


def classes(c):
    """Builtin classes are values too."""
    t = c.pick([str, bytes, list, dict, set, tuple, object, What], 'class')
    roundtrip(c, What('a', {'x': t if c.bool('alone') else [t, c.str(0, 1)], c.ident(1, 1): c.int(0, 9)}))


def jobs(tier):
    deepen = tier == 'thorough'
    js = [Job('strings', strings, 'one string parameter of 0..4 arbitrary characters', 2),
          Job('texts', texts, 'one string of 5..17 printable characters and lengths around the code constants'),
          Job('texts_ends', texts_ends, 'long strings, two arbitrary characters at each end'),
          Job('ints', ints, 'one integer in -10**21..10**21'),
          Job('landmarks', landmarks, 'integers within 9 of powers of 2 and 10, both signs', 1.5),
          Job('floats', floats, 'floats: inf, nan, -0.0, d.d, dd.ddd, d.de+-dd, both signs'),
          Job('precise', precise, 'floats of 15 significant digits, with and without exponents', 1.5),
          Job('extremes', extremes, '33 floats at the limits of the representation, both signs, in four places'),
          Job('twice', twice, 'values of depth 2 parsed twice, with changes to the first result in between', 1.5),
          Job('names', names, 'name and key of 1..17 characters, output name of up to 3', 2),
          Job('long_names', long_names, 'names and keys of 20, 33, 70, 130, 300 and harvested lengths', 1),
          Job('nested_names', nested_names, 'nested names of 1..12 characters in five positions', 2),
          Job('nested', nested, 'values of depth 2, up to 2 elements', 3),
          Job('deep', deep, 'values of depth 4, up to 1 element', 2),
          Job('whole', whole, 'configurations of depth 2 with symbolic names, keys and output names', 2),
          Job('hashable_whats', hashable_whats, 'configurations within sets and as dict keys'),
          Job('big', big, 'collections of sizes 7, 12 and around the code constants'),
          Job('long_nested', long_nested, 'nested configurations with ids of 130, 300 and harvested lengths', 1),
          Job('classes', classes, 'builtin classes as values')]
    for k in COLLS:
        js.append(Job('coll_' + k, collection(k), '%s of up to 2 scalars' % k, 1.5))
    return js
