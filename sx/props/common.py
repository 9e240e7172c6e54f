"""Configuration generators and oracles shared by the harnesses."""
import collections
import keyword
from collections import OrderedDict
from functools import partial

from sx import harvest

from whatami import What

SCALARS = ('str', 'int', 'none', 'bool', 'float')
COLLS = ('list', 'tuple', 'dict', 'set', 'frozenset')
HASHABLE = ('str', 'int', 'none', 'bool', 'float', 'tuple', 'frozenset')
NOSQ = ((0, 38), (40, 91), (93, 0xD7FF), (0xE000, 0x10FFFF))     # anything but quote and backslash
WORDY = ((32, 38), (40, 91), (93, 126))


def value(c, kinds, depth=1, size=2, strlen=1, hashable=False, ints=(-99, 999)):
    """A value of one of the kinds; collections hold values of depth - 1."""
    ks = [k for k in kinds if (not hashable or k in HASHABLE) and (depth > 0 or k not in COLLS and k != 'what')]
    if not ks:
        ks = ['int']
    k = c.pick(ks, 'kind')
    if k == 'str':
        return c.str(0, strlen)
    if k == 'int':
        return c.int(*ints)
    if k == 'none':
        return None
    if k == 'bool':
        return c.bool()
    if k == 'float':
        return c.float()
    if k == 'what':
        return what(c, kinds, depth - 1, size, strlen)
    n = c.choose(size + 1, 'size')
    sub = dict(kinds=kinds, depth=depth - 1, size=size, strlen=strlen, ints=ints)
    if k == 'list':
        return [value(c, **sub) for _ in range(n)]
    if k == 'tuple':
        return tuple([value(c, hashable=hashable, **sub) for _ in range(n)])
    if k == 'dict':
        return {value(c, hashable=True, **sub): value(c, **sub) for _ in range(n)}
    r = set([value(c, hashable=True, **sub) for _ in range(n)])
    return r if k == 'set' else frozenset(r)


class Undecided(object):
    """The result of comparisons with arrays and the like."""

    def __bool__(self):
        raise ValueError('neither true nor false')


def nothing(*_, **__):
    return None


ODDITIES = (
    {},
    {'__eq__': lambda self, other: True, '__ne__': lambda self, other: False, '__hash__': None},
    {'__eq__': lambda self, other: False, '__ne__': lambda self, other: True, '__hash__': lambda self: 7},
    {'__eq__': lambda self, other: Undecided(), '__ne__': lambda self, other: Undecided(), '__hash__': None},
    {'__bool__': lambda self: False, '__len__': lambda self: 0},
    {'__bool__': lambda self: Undecided().__bool__()},
    {'__getattr__': lambda self, name: object.__getattribute__(self, name) if name.startswith('__') or name in ('what', 'id')
     else nothing},
    {'__call__': lambda self, *args: None},
    {'__call__': lambda self, *args: None, '__eq__': lambda self, other: True, '__hash__': lambda self: hash(int)},
    {'__iter__': lambda self: iter(()), '__len__': lambda self: 0, '__getitem__': lambda self, k: None},
    {'__iter__': nothing, '__contains__': lambda self, x: True, '__len__': lambda self: 3},
    {'__int__': lambda self: 1, '__float__': lambda self: 1., '__index__': lambda self: 1},
    {'__lt__': lambda self, other: True, '__gt__': lambda self, other: True},
)


def odd(c, cls):
    """The class, or one alike whose instances answer to some special method in an unusual way."""
    k = c.choose(len(ODDITIES), 'oddity')
    return type(cls.__name__, (cls,), dict(ODDITIES[k])) if k else cls


def is_hashable(o):
    return type(o).__hash__ is not None


class Thing(object):
    pass


OBJECTS = [None, False, 0, 0.0, '', b'', int, type, Thing, len, nothing, collections, partial(nothing, 1), ValueError('why'), Ellipsis,
           NotImplemented, Thing().__init__, property(nothing), Exception]


def odd_value(c):
    """An object with some special method, or one of those that are at times mistaken for others."""
    k = c.choose(len(ODDITIES) + len(OBJECTS), 'oddity')
    return type('Thing', (Thing,), dict(ODDITIES[k]))() if k < len(ODDITIES) else OBJECTS[k - len(ODDITIES)]


def other_value(c):
    """Some of the above, to go with another."""
    k = c.pick([3, 4, 7, len(ODDITIES), len(ODDITIES) + 2, len(ODDITIES) + 8, len(ODDITIES) + 6], 'other')
    return type('Thing', (Thing,), dict(ODDITIES[k]))() if k < len(ODDITIES) else OBJECTS[k - len(ODDITIES)]


# names with a meaning somewhere, and others of unusual shape
WORDS = [w for w in harvest.STRS if not keyword.iskeyword(w)] + [
    '__', '___', '_x', '__x', 'x_', 'x__', '__x__', '_0', 'a_b', 'args', 'kwargs', 'func', 'f', 'obj', 'key', 'keys', 'value', 'values',
    'x', 'd', 'deep', 'copy', 'string', 'params', 'default', 'defaults', 'names', 'ids', 'o', 'k', 'v', 'n', 'fun', 'partial', 'object',
    'type', 'dict', 'list', 'str', 'int', '__class__', '__dict__', '__doc__', '__wrapped__', 'Whatable', 'X', 'ABC', 'camelCase']


def iterable(c, names):
    """The same names in any iterable, some of which can be iterated only once."""
    return None if names is None else c.pick([list, tuple, set, iter, lambda xs: (x for x in xs)], 'iterable')(names)


def longer(c):
    """A longer text, or an integer (-999..999)."""
    if c.bool('integer'):
        return c.int()
    n = c.choose(14, 'length') + 2
    return c.str(n, n)


def word(c):
    return c.pick(WORDS, 'word')


def implicit(c, given, **defaults):
    """The arguments; in some cases those having their documented default are left out."""
    given = dict(given)
    if c.bool('implicit'):
        for k, v in defaults.items():
            if k in given and (bool(given[k]) == v if isinstance(v, bool) else given[k] is v):
                del given[k]
    return given


def what(c, kinds, depth=1, size=2, strlen=1, name=None, out='maybe', nkeys=None, keys=None):
    """A configuration with up to size parameters."""
    name = c.ident(1, 1) if name is None else name
    n = c.choose(size + 1, 'params') if nkeys is None else nkeys
    conf = {}
    for i in range(n):
        key = c.ident(1, 1, reserved=False) if keys is None else keys[i]
        conf[key] = value(c, kinds, depth, size, strlen)
    out_name = None
    if out == 'maybe' and c.bool('out'):
        out_name = c.ident(1, 1, reserved=False)
    return What(name, conf, out_name=out_name)


LANDMARKS = [2 ** 15, 2 ** 31, 2 ** 53 + 1, 2 ** 63, 2 ** 64, 10 ** 16, 10 ** 20, 10 ** 50]


EXTREMES = [0.0, 1.0, 1e-5, 1e-4, 0.1, 1e15, 1e16, 123456789012345680.0, 1e17, 1e21, 1e22, 1e100, 1e299, 1e300, 1.5e300, 1e305, 1e308,
            1.7976931348623157e308, 1e-100, 1e-300, 1e-305, 2.2250738585072014e-308, 1e-310, 5e-324, 2.0 ** 31, 2.0 ** 53,
            2.0 ** 53 + 2, 2.0 ** 63, 2.0 ** 64, 1 + 2.0 ** -52, 1 - 2.0 ** -53, 0.1 + 0.2, 1 / 3.0]


def extreme_float(c):
    """Floats at the limits of the representation."""
    x = c.pick(EXTREMES, 'float')
    return -x if c.bool('negative') else x


def precise_float(c, sign=True):
    """Floats of 15 significant digits."""
    k = c.choose(4, 'float')
    sign = '-' if sign and c.bool('negative') else ''
    if k == 0:
        return float_of(c, sign, '.', 14, '')
    if k == 1:
        return float_of(c, sign + '0.', '', 14, '')
    if k == 2:
        return float_of(c, sign, '.', 14, 'e' + ('+' if c.bool('plus') else '-') + c.pick(['17', '20', '99', '100', '299', '301', '307'], 'exponent'))
    return float_of(c, sign, '12345678.', 6, '')


def float_of(c, before, between, n, after):
    """A float whose text is: before, a digit, between, n digits (the last one not zero), after."""
    return c.mkfloat(before + c.str(1, 1, ((49, 57),), 'digit', 49) + between + c.str(n - 1, n - 1, ((48, 57),), 'digits', 53) +
                     c.str(1, 1, ((49, 57),), 'digit', 52) + after)


def is_char(c, ch, x):
    return ch == x


def escaped(s):
    """The documented escaping: bare single quotes get a backslash, escaped pairs stay, a final lone backslash is paired."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch == '\\':
            out.append(ch)
            i += 1
            out.append(s[i] if i < n else '\\')
        elif ch == "'":
            out.append("\\'")
        else:
            out.append(ch)
        i += 1
    return ''.join(out)


def parsed_value(v):
    """What parsing the id of v should give: strings come back escaped."""
    if isinstance(v, str):
        return escaped(v)
    if isinstance(v, What):
        return What(v.name, {k: parsed_value(x) for k, x in v.conf.items() if k not in v.non_id_keys},
                    out_name=v.out_name)
    if isinstance(v, list):
        return [parsed_value(x) for x in v]
    if isinstance(v, tuple):
        return tuple([parsed_value(x) for x in v])
    if isinstance(v, dict):
        return {parsed_value(k): parsed_value(x) for k, x in v.items()}
    if isinstance(v, set):
        return set([parsed_value(x) for x in v])
    if isinstance(v, frozenset):
        return frozenset([parsed_value(x) for x in v])
    return v


def count(v):
    """Number of elements at all levels (identified elements collapse when parsed)."""
    if isinstance(v, What):
        return 1 + sum([count(x) for k, x in v.conf.items() if k not in v.non_id_keys])
    if isinstance(v, dict):
        return 1 + sum([count(k) + count(x) for k, x in v.items()])
    if isinstance(v, (list, tuple, set, frozenset)):
        return 1 + sum([count(x) for x in v])
    return 1


def render(v):
    """Independent rendering of a value, as documented."""
    if isinstance(v, What):
        return render_what(v)
    if isinstance(v, str):
        return "'" + escaped(v) + "'"
    if isinstance(v, list):
        return '[' + ','.join([render(x) for x in v]) + ']'
    if isinstance(v, tuple):
        return '(' + ','.join([render(x) for x in v]) + ')'
    if isinstance(v, OrderedDict):
        return 'OrderedDict(seq=' + render(list(v.items())) + ')'
    if isinstance(v, dict):
        return '{' + ','.join(insertion_sort([render(k) + ':' + render(x) for k, x in v.items()])) + '}'
    if isinstance(v, set):
        return '{' + ','.join(insertion_sort([render(x) for x in v])) + '}' if len(v) else 'set()'
    if isinstance(v, frozenset):
        return 'frozenset({' + ','.join(insertion_sort([render(x) for x in v])) + '})' if len(v) else 'frozenset()'
    return str(v)


def insertion_sort(xs):
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and x < out[i - 1]:
            i -= 1
        out.insert(i, x)
    return out


def sorted_keys(conf, exclude=()):
    return insertion_sort([k for k in conf.keys() if k not in exclude])


def render_what(w, nonids=False):
    r = w.name + '(' + ','.join([k + '=' + render(w.conf[k])
                                 for k in sorted_keys(w.conf, () if nonids else w.non_id_keys)]) + ')'
    return r if w.out_name is None else w.out_name + '=' + r
