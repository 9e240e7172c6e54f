"""C28: objects in configurations are rendered as what describes them."""
from collections import OrderedDict, namedtuple
from functools import partial
from toolz import curry
from whatami import What, whatable, is_whatable, whatareyou
from whatami.plugins import WhatamiPluginManager
from sx.job import Job
from sx import harvest
from .common import value, odd, is_hashable, what, render, render_what, sorted_keys, insertion_sort
from .c10 import NAMES

ASSUMPTIONS = ['Texts of objects without a description of their own are not None.',
               'Functions have named parameters only.',
               'Modules, builtin functions and properties are not values (they are refused).']
PLACES = 11


class Described(object):
    """An object with its own what."""

    def __init__(self, w):
        self._w = w
        self.other = 'not in the description'

    def what(self):
        return self._w


class Later(object):
    """Its description comes with the object it wraps."""

    def __init__(self, x):
        self.x = x

    def what(self):
        return What('Later', {'x': self.x})


def placed(c, x, k=None):
    """A value holding x somewhere, with the matching value holding y."""
    k = c.choose(PLACES, 'place') if k is None else k
    i, s = c.int(0, 9), c.str(0, 1)
    f = [lambda x: x, lambda x: [x], lambda x: [i, x, s], lambda x: (x,), lambda x: (x, x, i), lambda x: {'k': x},
         lambda x: {x: i, 'z': s}, lambda x: set([x, 1, 'z']), lambda x: frozenset([x]),
         lambda x: What('n', {'y': x, 'z': i}), lambda x: OrderedDict([(s, x)])][k]
    return f


def same_id(c, f, x, y, msg):
    """x is rendered as y wherever f puts it."""
    c.check_same(What('a', {'p': f(x), 'b': 1}).id(), What('a', {'p': f(y), 'b': 1}).id(), msg)


def described(c):
    """Objects with a what."""
    w = what(c, ('str', 'int', 'none', 'list'), 1, 2)
    non = [k for k in w.conf if c.bool('nonid')]
    w = What(w.name, w.conf, non_id_keys=non, out_name=w.out_name)
    o = odd(c, Described)(w)
    k = c.choose(PLACES, 'place')
    f = placed(c, None, k if is_hashable(o) or k not in (6, 7, 8) else 1)
    c.show(w)
    same_id(c, f, o, w, 'an object is rendered as its what')
    c.check_same(What('a', {'x': o}).id(), 'a(x=' + render_what(w) + ')', 'an object is rendered as the id of its what')
    c.check(o._w is w and o.__dict__ == {'_w': w, 'other': 'not in the description'}, 'the object is left as it was')


def changing(c):
    """The description is that at the moment."""
    o = Described(None)
    f = placed(c, None)
    for _ in range(2):
        o._w = What(c.ident(1, 1), {c.ident(1, 1): c.int(0, 9)})
        c.show(o._w)
        same_id(c, f, o, o._w, 'an object is rendered as its what at that moment')


def chained(c):
    """Objects within the descriptions of objects."""
    n = 1 + c.choose(4, 'depth')
    x = expected = c.scalar(strlen=1)
    for i in range(n):
        k = c.choose(4, 'link')
        if k == 0:
            x, expected = Later(x), What('Later', {'x': expected})
        elif k == 1:
            x, expected = Described(What('d', {'y': x}, out_name='o')), What('d', {'y': expected}, out_name='o')
        elif k == 2:
            x, expected = [x, i], [expected, i]
        else:
            x, expected = Later((x,)), What('Later', {'x': (expected,)})
    c.show(expected)
    c.check_same(What('a', {'x': x}).id(), 'a(x=' + render(expected) + ')', 'objects in descriptions are rendered as their what')


def decorated(c):
    """Instances of decorated classes."""
    non = ('n',) if c.bool('nonids') else ()

    @whatable(non_id_keys=non)
    class Thing(object):
        def __init__(self, v, n):
            self.v = v
            self.n = n
            self._hidden = 1

        @property
        def p(self):
            return [self.n]
    v, n = value(c, ('str', 'int', 'none', 'list', 'dict'), 1, 1), c.int(0, 9)
    t = Thing(v, n)
    f = placed(c, None)
    c.show(v, n, non)
    conf = {'v': v, 'n': n, 'p': [n]}
    for k in non:
        del conf[k]
    same_id(c, f, t, What('Thing', conf), 'an instance of a whatable class is rendered as its public state')
    m = c.int(10, 19)
    t.n = m
    conf = dict(conf, p=[m])
    if not non:
        conf['n'] = m
    same_id(c, f, t, What('Thing', conf), 'an instance of a whatable class is rendered as its current public state')


def collections(c):
    """Collections with their own what."""
    i, j = c.int(0, 9), c.int(10, 99)
    w = What('own', {'i': i})

    class L(list):
        def what(self):
            return w

    class T(tuple):
        def what(self):
            return w

    class D(dict):
        def what(self):
            return w

    class S(str):
        def what(self):
            return w

    class N(int):
        def what(self):
            return w
    o = [L([j]), T([j]), D(a=j), S('text'), N(3)][c.choose(5, 'class')]
    k = c.pick([0, 1, 2, 3, 5, 9, 10], 'place')
    c.show(i, j, k)
    same_id(c, placed(c, None, k), o, w, 'collections with a what are rendered as their what')


def function(names, defaults, name='fun'):
    ns = {}
    required = len(names) - len(defaults)
    args = list(names[:required]) + ['%s=None' % n for n in names[required:]]
    exec('def %s(%s):\n    return 0\n' % (name, ', '.join(args)), ns)
    ns[name].__defaults__ = tuple(defaults) if defaults else None
    return ns[name]


def functions(c):
    """Functions, lambdas, partials and curried functions."""
    names = NAMES[:c.choose(4, 'parameters')]
    defaults = [value(c, ('int', 'str', 'list', 'tuple'), 1, 1) for _ in range(c.choose(len(names) + 1, 'defaults'))]
    lam = c.bool('lambda')
    f = function(names, defaults)
    if lam:
        f.__name__ = '<lambda>'
    bound = dict(zip(names[len(names) - len(defaults):], defaults))
    kws = {n: c.int(100, 199) for n in names if c.bool('keyword')}
    k = c.choose(3, 'kind')
    if k == 0:
        o = f
    else:
        bound = dict(bound, **kws)
        o = partial(f, **kws) if k == 1 else curry(f, **kws)
    c.show(names, defaults, kws, k)
    w = What('lambda' if lam else 'fun', bound)
    same_id(c, placed(c, None, c.pick([0, 1, 4, 5, 9, 10], 'place')), o, w, 'functions are rendered as their name with their bound arguments')


def nested_functions(c):
    """Functions, objects and partials as the arguments of others."""
    n = 1 + c.choose(3, 'depth')
    x = expected = c.int(0, 9)
    for i in range(n):
        k = c.choose(5, 'link')
        if k == 0:
            x, expected = function(('x',), [x], 'f%d' % i), What('f%d' % i, {'x': expected})
        elif k == 1:
            x, expected = partial(function(('y', 'x'), [1], 'f%d' % i), x=x), What('f%d' % i, {'x': expected})
        elif k == 2:
            x, expected = partial(function(('y', 'x'), [1], 'f%d' % i), x), What('f%d' % i, {'x': 1, 'y': expected})
        elif k == 3:
            x, expected = Later([x]), What('Later', {'x': [expected]})
        else:
            x, expected = curry(function(('y', 'x'), [x], 'f%d' % i)), What('f%d' % i, {'x': expected})
    c.show(expected)
    c.check_same(What('a', {'x': x}).id(), 'a(x=' + render(expected) + ')', 'functions are rendered as their name with their bound arguments')


class Plain(object):
    def __init__(self, v):
        self.v = v


class Unset(object):
    """Any attribute does."""
    __slots__ = ()


def addresses(c):
    """Objects without any description."""
    v = c.scalar(strlen=2)
    f = placed(c, None, c.pick([0, 1, 3, 5, 6, 7, 9], 'place'))
    k = c.choose(4, 'kind')

    class Own(Plain):
        def __repr__(self):
            return '<thing at 0x%s>' % 'beef'
    p = Plain(v)
    setattr(p, c.pick(['v', '__name__', 'name', 'id', 'out_name', 'conf', '__doc__', 'func', 'keywords', 'seq'], 'attribute'), v)
    if k == 2 and not c.bool('bare'):
        p, k = odd(c, Plain)(v), 0
        f = f if is_hashable(p) else placed(c, None, 1)
    x, name = [(p, 'Plain'), (Unset(), 'Unset'), (object(), 'object'), (Own(v), 'Own')][k]
    y = [Plain(1), Unset(), object(), Own(2)][k]
    c.show(v, name)
    i = What('a', {'p': f(x), 'b': 1}).id()
    c.check(' at 0x' not in i, 'ids have no memory addresses')
    c.check_same(i, What('a', {'p': f(y), 'b': 1}).id(), 'ids do not depend on memory addresses')
    same_id(c, f, x, What(name, {}), 'an object without description is rendered as its class')


def texts(c):
    """Objects with a text of their own."""
    s = c.str(1, 4)

    class Text(object):
        def __str__(self):
            return s
    c.show(s)
    k = c.choose(3, 'place')
    o = odd(c, Text)()
    v, before, after = [(o, '', ''), ([o, 1], '[', ',1]'), ({'k': o}, "{'k':", '}')][k]
    c.check_same(What('a', {'x': v}).id(), 'a(x=' + before + s + after + ')', 'other objects are rendered as their text')


def near_addresses(c):
    """Texts with and without addresses."""
    before, after = c.str(0, 2, ((32, 126),)), c.str(0, 2, ((32, 126),))
    middle = c.pick([' at 0x', 'at 0x', ' at 0', ' at 0X', ' At 0x', ' at  0x'], 'middle')
    s = before + middle + after

    class Text(object):
        def __str__(self):
            return s
    c.show(s)
    expected = 'Text()' if ' at 0x' in s else s
    c.check_same(What('a', {'x': Text()}).id(), 'a(x=' + expected + ')', 'texts with addresses are never part of ids')


class Marked(object):
    def what(self):
        return What('Marked', {})
    what.whatami = True


class Unmarked(object):
    def what(self):
        return What('Unmarked', {})


def recognised(c):
    """What is and what is not whatable."""
    k = c.choose(12, 'kind')
    x = c.scalar(strlen=1)

    class Duck(object):
        name, conf, out_name, non_id_keys = 'a', {}, None, ()

        def id(self):
            return 'duck'

    class Sub(What):
        pass

    class Odd(object):
        if k == 1:
            def what(self, more):
                return What('a', {})
        elif k == 2:
            def what(self):
                return x
        elif k == 3:
            def what(self):
                raise c.pick([ValueError, KeyError, AttributeError, TypeError], 'error')('why')
        elif k == 4:
            what = What('a', {})
        elif k == 5:
            def what(self, more=1, *args, **kwargs):
                return What('a', {})
        elif k == 6:
            @property
            def what(self):
                raise ValueError('why')
        elif k == 7:
            @property
            def what(self):
                return x
        elif k == 8:
            def what(self):
                return self
        elif k == 9:
            def what(self):
                return Duck()
        elif k == 10:
            def what(self):
                return Sub('a', {})
        elif k == 11:
            what = 'not callable'

        def __str__(self):
            return 'text'
    o = Odd()
    c.show(k, x)
    good = k in (5, 10)
    c.check_same(is_whatable(o), good, 'objects are whatable if their what gives a configuration')
    c.check_same(What('y', {'x': [o]}).id(), 'y(x=[a()])' if good else 'y(x=[text])', 'other objects are rendered as their text')
    c.check_same(is_whatable(x), False, 'scalars are not whatable')
    c.check_same((is_whatable(Marked), is_whatable(Unmarked), is_whatable(Marked()), is_whatable(Unmarked())),
                 (True, False, True, True), 'classes are whatable if their what is marked')


def by_turns(c):
    """Each object on its own, whatever others of its class say."""
    k = c.choose(4, 'class')

    class Slots(object):
        __slots__ = ('x', 'what')

    class Attributes(object):
        pass

    class Property(object):
        @property
        def what(self):
            return self.__dict__['given']

        def __str__(self):
            return 'text'

    class Method(object):
        def what(self):
            return self.state() if callable(self.state) else self.state
    cls = [Slots, Attributes, Property, Method][k]
    shown = []
    for _ in range(3):
        o = cls()
        good = c.bool('whatable')
        w = What('w', {'i': c.int(0, 9)})
        if k < 2:
            if good:
                whatable(o, whatfunc=lambda o, w=w: w)
        elif k == 2:
            good = False
            o.__dict__['given'] = w
        else:
            o.state = w if good else c.pick([None, 'text', ValueError], 'result')
        shown.append((good, w.conf['i']))
        expected = render_what(w) if good else 'text' if k == 2 else cls.__name__ + '()'
        if k != 2:
            c.check_same(is_whatable(o), good, 'whether this object gives a configuration')
            c.check_same(What('a', {'x': o}).id(), 'a(x=' + expected + ')', 'each object is rendered on its own')
    c.show(k, shown)


def one_by_one(c):
    """Each kind of value, its own rendering."""
    i = c.int(0, 9)
    NT = namedtuple('NT', ('u', 'v'))
    E = namedtuple('E', ())

    class L(list):
        pass

    class Tx(str):
        pass

    class D(dict):
        pass

    class S(frozenset):
        pass
    v, e = [(int, 'int()'), (float, 'float()'), (complex, 'complex()'),
            (NT(i, 'x'), 'NT(seq=(%d,\'x\'))' % i), (L([i]), 'L(seq=[%d])' % i), (Tx('it'), "'it'"),
            (D(k=i), "D(seq={'k':%d})" % i), (S([i]), 'S(seq={%d})' % i), (S(), 'S(seq=set())'), (L(), 'L(seq=[])'),
            (D(), 'D(seq={})'), (OrderedDict(b=i), "OrderedDict(seq=[('b',%d)])" % i),
            (OrderedDict(), 'OrderedDict(seq=[])'), (E(), 'E(seq=())'), (NT(v=i, u=None), 'NT(seq=(None,%d))' % i)][c.choose(15, 'value')]
    c.show(v)
    c.check_same(What('a', {'x': v}).id(), 'a(x=' + e + ')', 'values of derived types are named by their type')
    c.check_same(What('a', {'x': [v, {'k': v}]}).id(), 'a(x=[' + e + ",{'k':" + e + '}])', 'also nested')


def own_text(c):
    """Values of the standard library with a text of their own."""
    from datetime import date, timedelta
    from decimal import Decimal
    from enum import Enum
    from fractions import Fraction
    from pathlib import PurePosixPath
    from uuid import UUID

    class N(Enum):
        c = 1
        d = 'it'

    i = c.int(0, 9)
    v, e = [(N.c, 'N.c'), (N.d, 'N.d'), (Decimal('1.50'), '1.50'), (Fraction(1, 2), '1/2'), (date(2020, 1, 2), '2020-01-02'),
            (PurePosixPath('/a'), '/a'), (UUID(int=5), '00000000-0000-0000-0000-000000000005'),
            (timedelta(1), '1 day, 0:00:00'), (range(0, 5), 'range(0, 5)'), (1 + 2j, '(1+2j)')][c.choose(10, 'value')]
    c.show(v)
    c.check_same(What('a', {'x': v}).id(), 'a(x=' + e + ')', 'other objects are rendered as their own text')
    c.check_same(What('a', {'x': [i, v], 'y': {'k': (v, i)}}).id(), 'a(x=[%d,' % i + e + "],y={'k':(" + e + ',%d)})' % i, 'also nested')
    c.check_same(What('a', {'x': What('b', {'y': {i: v}})}).id(), 'a(x=b(y={%d:' % i + e + '}))', 'also in nested configurations')


def many(c):
    n = c.pick(sorted(set([5, 9] + harvest.sizes())), 'objects')
    i = c.int(0, 99)
    at = c.pick(sorted(set([0, n // 2, n - 1])), 'position')
    ws = [What('w', {'i': i if j == at else j}) for j in range(n)]
    c.show(n, at, i)
    c.check_same(What('a', {'x': [Described(w) for w in ws]}).id(), 'a(x=[' + ','.join([render_what(w) for w in ws]) + '])',
                 'objects are rendered as their what')


def jobs(tier):
    return [Job('described', described, 'up to 2 parameters of depth 1, any non-ids, 11 places', 2),
            Job('changing', changing, '1-character names and keys, 11 places'),
            Job('chained', chained, 'up to 4 levels of objects within objects', 1.5),
            Job('decorated', decorated, 'attributes of depth 1, 11 places', 1.5),
            Job('collections', collections, '5 kinds of collections and scalars with their own what, 7 places', .5),
            Job('functions', functions, 'up to 3 parameters with defaults of depth 1, any keywords, 6 places', 2),
            Job('nested_functions', nested_functions, 'up to 3 levels of functions, partials, curries and objects', 1.5),
            Job('addresses', addresses, 'four kinds of objects with any scalar, 7 places'),
            Job('texts', texts, 'texts of 1..4 arbitrary characters, 3 places'),
            Job('near_addresses', near_addresses, 'six texts with up to 2 characters around'),
            Job('recognised', recognised, 'twelve kinds of what attributes'),
            Job('by_turns', by_turns, 'three objects of a class, of four kinds', 1),
            Job('one_by_one', one_by_one, '15 kinds of values', .5),
            Job('own_text', own_text, '10 kinds of values with a text of their own', .4),
            Job('many', many, '5, 9 and harvested numbers of objects', .5)]
