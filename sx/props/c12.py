"""C12: inferred configurations hold exactly the public state of the object."""
from collections import OrderedDict, namedtuple
from whatami import What, whatareyou, whatable, obj2what, config_dict_for_object, trim_dict
from sx.job import Job
from sx import harvest
from .common import longer, other_value, nothing, odd, odd_value, value, render_what, implicit, iterable

ASSUMPTIONS = ['No names are excluded by an empty (or None) prefix or postfix.', 'Attributes found in several sources: the property, slot, '
               'instance and class values prevail in that order.']


def public(names, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
    out = []
    for k in names:
        if exclude_prefix and k.startswith(exclude_prefix):
            continue
        if exclude_postfix and k.endswith(exclude_postfix):
            continue
        if k in excludes:
            continue
        out.append(k)
    return out


def key(c, lo=1, hi=3):
    return c.ident(lo, hi, reserved=False)


def affix(c):
    return None if c.bool('none') else c.str(0, 2, ((95, 95), (97, 98)))


def trimmed(c):
    """The selection of names."""
    n = c.choose(3, 'names')
    cd = {}
    for _ in range(n):
        cd[key(c)] = c.int(0, 9)
    given = {}
    if c.bool('prefix'):
        given['exclude_prefix'] = affix(c)
    if c.bool('postfix'):
        given['exclude_postfix'] = affix(c)
    if c.bool('excludes'):
        ex = [key(c) for _ in range(c.choose(3, 'excludes'))]
        given['excludes'] = ex
    c.show(cd, given)
    before = dict(cd)
    got = trim_dict(cd, **dict(given, **({'excludes': iterable(c, ex)} if 'excludes' in given else {})))
    names = public(list(cd), given.get('exclude_prefix', '_'), given.get('exclude_postfix', '_'),
                   given.get('excludes', ('what',)))
    c.check_same(got, {k: cd[k] for k in names}, 'exactly the public names are kept, with their values')
    c.check_same(cd, before, 'the original dictionary is unchanged')


def trimmed_words(c):
    """Longer names, the default selection."""
    n = c.pick(sorted(set([1, 2, 3, 4, 5, 8] + harvest.word_lengths())), 'length')
    k = key(c, n, n)
    cd = {k: 1, 'x': 2}
    c.show(cd)
    c.check_same(trim_dict(cd), {k: cd[k] for k in public(list(cd))}, 'exactly the public names are kept')


class Plain(object):
    pass


class Slots(object):
    __slots__ = ('s', '_t', 'u_', 'what', '__dict__')


class Sub(Slots):
    __slots__ = ('v',)


class Props(object):
    k = 'class'
    _hidden = 'class'
    other_ = 'class'

    def __init__(self):
        self.n = 0
        self._log = []

    @property
    def p(self):
        return self._p

    @property
    def _q(self):
        return 1

    @property
    def r_(self):
        return 1


class Mixed(Props):
    __slots__ = ('s',)
    k = 'subclass'

    @property
    def x(self):
        return self.n


class CallablePlain(Plain):
    def __call__(self, a, b=3):
        return a


def snapshot(o):
    return dict(vars(o))


def attributes(c):
    """Instance attributes with symbolic names."""
    o = (odd(c, Plain) if c.bool('plain') else CallablePlain)()
    n = c.choose(3, 'attributes')
    values = {}
    for _ in range(n):
        values[key(c, 1, 4)] = c.int(0, 9)
    vars(o).update(values)
    c.show(values)
    w = whatareyou(o)
    c.check_same(w.name, type(o).__name__, 'the name is that of the class')
    c.check_same(w.conf, {k: values[k] for k in public(list(values))}, 'exactly the public attributes')
    c.check_same(snapshot(o), values, 'the object is unchanged')
    c.check_same(whatareyou(o).conf, w.conf, 'inferring again gives the same')


def longer_values(c):
    """Longer texts and integers, in each place."""
    k = c.choose(4, 'place')
    o = [Plain, Slots, Mixed, CallablePlain][k]()
    v = longer(c)
    values = {}
    if k == 1:
        o.s = values['s'] = v
        o.x = values['x'] = v
    elif k == 2:
        o.n, o.s, o._p = v, v, v
        values = {'n': v, 's': v, 'p': v, 'x': v}
    else:
        o.a = values['a'] = v
        o._b = o.b_ = v
    c.show(k, v)
    c.check_same(whatareyou(o).conf, values, 'exactly the public attributes')
    c.check_same({a: b for a, b in config_dict_for_object(o).items() if a in values}, values, 'exactly the public attributes')


def odd_attributes(c):
    """Attributes with unusual special methods."""
    v, u = odd_value(c), other_value(c)
    o = odd(c, Plain)()
    o.v, o._u, o.u, o.u_ = v, v, u, u
    c.show(type(v), type(u), type(o))
    w = whatareyou(o)
    c.check(sorted(w.conf) == ['u', 'v'] and w.conf['v'] is v and w.conf['u'] is u, 'exactly the public attributes')
    c.check(w.name == 'Plain', 'the name is that of the class')
    got = trim_dict({'v': v, '_u': u, 'what': v})
    c.check(list(got) == ['v'] and got['v'] is v, 'exactly the public names are kept')
    c.check(sorted(vars(o)) == ['_u', 'u', 'u_', 'v'] and o.v is v and o.u is u, 'the object is unchanged')


class Methods(object):
    def method(self):
        return 1

    @classmethod
    def of_class(cls):
        return 2

    @staticmethod
    def static():
        return 3


def own_attributes(c):
    """Attributes that are the object, or belong to it, its class or another object."""
    o, p = Methods(), Methods()
    values = [o.method, p.method, Methods.method, Methods.of_class, o.static, Methods, o, p, vars(o), o.__init__, property(nothing),
              o.__class__, o.__str__, own_attributes, super(Methods, o)]
    k = c.choose(len(values), 'value')
    name = c.pick(['method', 'of_class', 'x', 'static', 'o'], 'name')
    c.show(k, name)
    vars(o)[name] = values[k]
    o.y = c.int(0, 9)
    w = whatareyou(o)
    c.check_same(sorted(w.conf), sorted([name, 'y']), 'exactly the public attributes')
    c.check(w.conf[name] is values[k] and w.conf['y'] is o.y, 'exactly the public attributes')
    c.check(w.name == 'Methods', 'the name is that of the class')


def expected_mixed(o, values, flags):
    conf = {}
    if flags['add_class']:
        conf['k'] = type(o).k
    if flags['add_dict']:
        conf.update({'n': values['n'], 'a': values['a']})
    if flags['add_slots']:
        conf['s'] = values['s']
    if flags['add_properties']:
        conf.update({'p': values['p'], 'x': values['n']})
    return conf


SOURCES = {'add_dict': True, 'add_slots': True, 'add_properties': True, 'add_class': False}


def sources(c):
    """Each combination of sources."""
    o = Mixed()
    values = {'n': c.int(0, 9), 'a': c.str(0, 1), 's': c.int(10, 19), 'p': c.bool('p')}
    o.n, o.a, o.s, o._p, o.z_ = values['n'], values['a'], values['s'], values['p'], 'hidden'
    flags = {k: c.bool(k) for k in ('add_dict', 'add_slots', 'add_properties', 'add_class')}
    non = ['n'] if c.bool('nonid') else None
    name = 'given' if c.bool('name') else None
    ex = ('what', 'a', 'x') if c.bool('excludes') else ('what',)
    c.show(values, flags, non, name, ex)
    before = snapshot(o)
    given = implicit(c, dict(flags, name_override=name, non_id_keys=non), name_override=None, non_id_keys=None, **SOURCES)
    w = whatareyou(o, excludes=iterable(c, ex), **dict(given, **({'non_id_keys': iter(non)} if 'non_id_keys' in given and non else {})))
    conf = {k: v for k, v in expected_mixed(o, values, flags).items() if k not in ex}
    if flags['add_class']:
        # slots, properties and methods are class attributes too
        got = w.conf
        for k in ('s', 'p', 'x'):
            if k not in conf and k not in ex:
                c.check(k in got, 'class attributes are found')
                got = {kk: v for kk, v in got.items() if kk != k}
        c.check_same(got, conf, 'exactly the attributes of the enabled sources')
    else:
        c.check_same(w.conf, conf, 'exactly the attributes of the enabled sources')
        if 'add_class' not in given:
            c.check_same(obj2what(o, excludes=iter(ex), **given).conf, conf, 'obj2what infers the same')
            given.pop('name_override', None)
            whatable(o, excludes=iter(ex), **given)
            o.what()
            c.check_same({k: v for k, v in o.what().conf.items() if k != 'what'}, conf, 'decorated objects infer the same')
            del o.what
        given = implicit(c, flags, **SOURCES)
        c.check_same({k: v for k, v in config_dict_for_object(o, **given).items()
                      if not k.startswith('_') and not k.endswith('_') and k not in ex}, conf, 'config_dict_for_object too')
    c.check_same(w.name, name or 'Mixed', 'the name is that of the class, or the given one')
    c.check_same(sorted(w.non_id_keys), non or [], 'the non-id keys are the given ones')
    c.check_same(snapshot(o), before, 'the object is unchanged')


class Shadow(object):
    @property
    def a(self):
        return self._a

    b = property(lambda self: self._b + 1)


def shadowed(c):
    """Properties prevail over entries of the instance dictionary of the same name."""
    o = Shadow()
    o._a, o._b = c.int(0, 9), c.int(0, 9)
    values = {'a': o._a, 'b': o._b + 1}
    for k in ('a', 'b', 'c'):
        if c.bool('entry'):
            vars(o)[k] = c.int(10, 19)
    if 'c' in vars(o):
        values['c'] = vars(o)['c']
    props = c.bool('properties')
    c.show(vars(o), props)
    w = whatareyou(o, add_properties=props)
    c.check_same(w.conf, values if props else {k: v for k, v in vars(o).items() if k in ('a', 'b', 'c')},
                 'properties prevail')


def slots(c):
    cls = Slots if c.bool('base') else Sub
    o = cls()
    values = {'s': c.int(0, 9), '_t': 1, 'u_': 2, 'what': 3}
    if cls is Sub:
        values['v'] = c.str(0, 1)
    for k in ('s', '_t', 'what', 'v'):
        if k in values and c.bool('unset'):
            del values[k]
    for k in values:
        setattr(o, k, values[k])
    kw = {}
    if c.bool('prefix'):
        kw['exclude_prefix'] = c.pick(['s', 'v', 'x', '_t', '', None], 'prefix')
    if c.bool('postfix'):
        kw['exclude_postfix'] = c.pick(['s', 't', 'x', '', None], 'postfix')
    c.show(values, kw)
    w = whatareyou(o, **kw)
    c.check_same(w.conf, {k: values[k] for k in public(list(values), **kw)}, 'exactly the public slots')
    c.check_same(config_dict_for_object(o, add_dict=False, add_properties=False), values, 'all slots')
    c.check_same(obj2what(o, **kw).conf, w.conf, 'obj2what infers the same')


class L(list):
    pass


class T(tuple):
    pass


class D(dict):
    pass


class S(set):
    pass


class F(frozenset):
    pass


NT = namedtuple('NT', ('first', 'second'))
BUILTIN = {L: list, T: tuple, D: dict, S: set, F: set, OrderedDict: dict, list: list, tuple: tuple, dict: dict, set: set,
           frozenset: frozenset}


def collections(c):
    """Collections carry their elements; also derived ones, along with their attributes."""
    cls = c.pick([L, T, D, S, F, OrderedDict, list, tuple, dict, set, frozenset], 'class')
    n = c.choose(3, 'size')
    kinds = [c.choose(3, 'element') for _ in range(n)]
    xs = [c.int(0, 9) if k == 0 else c.str(0, 1) if k == 1 else None for k in kinds]
    o = cls([(x, None if k == 2 or c.bool('none') else i) for i, (x, k) in enumerate(zip(xs, kinds))] if issubclass(cls, dict) else xs)
    conf = {}
    if cls in (L, T, D, S, F):
        a = c.int(10, 19)
        if c.bool('attribute'):
            o.attr = conf['attr'] = a
            o._hidden = 1
    base = BUILTIN[cls]
    content = base(list(o.items())) if base is dict else base(list(o))
    conf['seq'] = content
    c.show(cls, content)
    w = whatareyou(o)
    c.check_same(w.name, cls.__name__, 'the name is that of the class')
    c.check_same(w.conf, conf, 'the elements and attributes of the collection')
    c.check(len(o) == len(content), 'the collection is unchanged')


def named(c):
    a, b = c.int(0, 9), c.str(0, 1)
    o = NT(a, b)
    c.show(a, b)
    w = whatareyou(o, add_properties=False)
    c.check_same(w.conf, {'seq': (a, b)}, 'the elements of a named tuple')
    w = whatareyou(o)
    c.check_same({k: v for k, v in w.conf.items() if k == 'seq'}, {'seq': (a, b)}, 'the elements of a named tuple')


class Member(object):
    def __init__(self, a, b):
        self.a = a
        self.b = b
        self._c = 1
        self.d_ = 1


class MemberCall(Member):
    def __call__(self, x):
        return x


def decorated(c):
    """Decorated classes and objects."""
    base = Member if c.bool('plain') else MemberCall
    cls = type(base.__name__, (base,), {})
    a, b = c.int(0, 9), value(c, ('str', 'int', 'list', 'none'), 1, 1)
    non = ['a'] if c.bool('nonid') else None
    ex = ('b', 'what') if c.bool('excludes') else ('what',)
    on_class = c.bool('class')
    if on_class:
        given = {'non_id_keys': iterable(c, non), 'excludes': iterable(c, ex)}
        k = whatable(cls, **given) if c.bool('direct') else whatable(**given)(cls)
        c.check(k is cls, 'the class is the same')
        o = cls(a, b)
    else:
        o = cls(a, b)
        c.check(whatable(o, non_id_keys=iterable(c, non), excludes=iterable(c, ex)) is o, 'the object is the same')
    c.show(a, b, non, ex)
    conf = {'a': a} if ex[0] == 'b' else {'a': a, 'b': b}
    expected = What(base.__name__, conf, non_id_keys=non)
    for _ in range(2):
        w = o.what()
        c.check_same(w.name, base.__name__, 'the name is that of the class')
        c.check_same(w.conf, conf, 'exactly the public attributes')
        c.check_same(w.id(), render_what(expected), 'the id')
        w.conf['a'] = 'changed'
        w.conf['other'] = 1
    # current values
    o.a = conf['a'] = c.int(20, 29)
    o.new = conf['new'] = c.int(30, 39)
    c.check_same(o.what().conf, conf, 'the current values of the attributes')
    c.check_same(What('w', {'o': o}).id(), 'w(o=' + render_what(expected) + ')', 'as a value too')
    c.check_same(obj2what(o).conf, conf, 'obj2what uses what()')
    if on_class:
        p = cls(1, 2)
        c.check_same(p.what().conf, {'a': 1} if ex[0] == 'b' else {'a': 1, 'b': 2}, 'each object has its own')


def options(c):
    """Options of the decorator reach the inference."""
    cls = type('Opt', (Mixed,), {})
    flags = {k: c.bool(k) for k in ('add_dict', 'add_slots', 'add_properties')}
    kw = dict(flags)
    if c.bool('prefix'):
        kw['exclude_prefix'] = c.pick(['n', 'x', 'q'], 'prefix')
    if c.bool('postfix'):
        kw['exclude_postfix'] = c.pick(['a', 's', 'q'], 'postfix')
    given = implicit(c, kw, **SOURCES)
    whatable(cls, **given) if c.bool('direct') else whatable(**given)(cls)
    o = cls()
    values = {'n': c.int(0, 9), 'a': c.str(0, 1), 's': c.int(10, 19), 'p': c.bool('p')}
    o.n, o.a, o.s, o._p = values['n'], values['a'], values['s'], values['p']
    c.show(values, kw)
    conf = expected_mixed(o, values, dict(flags, add_class=False))
    names = [k for k in list(conf) + ['_log', '_p'] if not k.startswith(kw.get('exclude_prefix', '_')) and
             not k.endswith(kw.get('exclude_postfix', '_'))]
    got = o.what().conf
    for k in conf:
        c.check((k in got) == (k in names), 'names are selected as asked')
        if k in names:
            c.check_same(got[k], conf[k], 'with their current values')
    for k in ('n', 'a', 's', 'p', 'x', 'k'):
        c.check(k in conf or k not in got, 'only the sources asked for')
    for k in got:
        c.check(not k.startswith(kw.get('exclude_prefix', '_')) and not k.endswith(kw.get('exclude_postfix', '_')),
                'no excluded name')


def many(c):
    """Many attributes, properties and slots."""
    n = c.pick(sorted(set([9, 17] + harvest.sizes(70))), 'attributes')
    k = c.choose(4, 'source')
    values = {'k%02d' % i: i for i in range(n)}
    at = c.pick([0, n // 2, n - 1], 'symbolic')
    values['k%02d' % at] = c.int(0, 999)
    other = key(c, 1, 2)
    hidden = ['_h', 'h_'] + ['what'] * c.bool('hidden')
    if k == 0:
        o = Plain()
        vars(o).update(values)
    elif k == 1:
        o = type('Many', (object,), {'__slots__': tuple(values) + tuple(hidden) + ('__dict__',)})()
        for a in values:
            setattr(o, a, values[a])
    elif k == 2:
        o = type('Many', (object,), {a: property(lambda self, a=a: values[a]) for a in values})()
    else:
        o = Plain()
        vars(o).update({'_' + a: 0 for a in values})
        vars(o).update(values)
    for h in hidden:
        vars(o).pop(h, None)
        setattr(o, h, 'hidden')
    vars(o)[other] = 'other'
    c.show(n, k, other)
    conf = dict(values)
    conf.update({a: 'other' for a in public([other])})
    w = whatareyou(o)
    c.check_same(w.conf, conf, 'exactly the public attributes')
    c.check_same(whatareyou(o).conf, conf, 'exactly the public attributes, again')


def many_excluded(c):
    """Many excluded names."""
    n = c.pick(sorted(set([9, 17] + harvest.sizes(70))), 'names')
    names = ['k%02d' % i for i in range(n)]
    name = key(c, 1, 2)
    ex = list(names)
    ex[c.pick([0, n // 2, n - 1], 'position')] = name
    cd = {'a': 1, 'bc': 2, 'k00': 3, names[-1]: 4}
    c.show(n, name)
    c.check_same(trim_dict(cd, excludes=iterable(c, ex)),
                 {k: cd[k] for k in public(list(cd), excludes=ex)}, 'exactly the public names are kept')


def many_elements(c):
    cls = c.pick([L, T, D, S, F], 'class')
    n = c.pick(sorted(set([9, 17] + harvest.sizes(70))), 'size')
    xs = list(range(n))
    xs[c.pick([0, n // 2, n - 1], 'symbolic')] = c.int(100, 999)
    o = cls([(x, x) for x in xs]) if cls is D else cls(xs)
    c.show(cls, n)
    base = BUILTIN[cls]
    c.check_same(whatareyou(o).conf, {'seq': {x: x for x in xs} if cls is D else base(xs)}, 'the elements of the collection')


def many_classes(c):
    """Slots and properties inherited through many classes."""
    n = c.pick(sorted(set([5, 9] + harvest.sizes(33))), 'classes')
    at = c.pick([0, 1, n // 2, n - 1], 'symbolic')
    slots = c.bool('slots')
    values = {'k%02d' % i: i for i in range(n)}
    values['k%02d' % at] = c.int(100, 999)
    cls = object
    for a in values:
        cls = type('C' + a, (cls,), {'__slots__': (a,)} if slots else {a: property(lambda self, a=a: values[a])})
    o = cls()
    if slots:
        for a in values:
            setattr(o, a, values[a])
    c.show(n, slots)
    w = whatareyou(o)
    c.check_same(w.conf, values, 'exactly the public attributes')
    c.check_same(w.name, cls.__name__, 'the name is that of the class')


FALSY = [(), [], {}, None, 0, '', False, 0.0, frozenset(), b'', ((),), [None], (None,), ' ', 1, '()', 'None']


def falsy(c):
    """Values that are empty, or alike, are values as any others, whatever their source."""
    v, u = c.pick(FALSY, 'value'), c.pick(FALSY[:10], 'other')
    name = key(c, 1, 2)
    k = c.choose(6, 'source')
    if k == 0:
        cls = type('O', (object,), {'__slots__': ('s', 't')})
    elif k == 1:
        cls = type('O', (object,), {'s': property(lambda self: v), 't': property(lambda self: u)})
    elif k == 2:
        cls = type('O', (object,), {})
    elif k == 3:
        cls = type('O', (type('P', (object,), {'__slots__': ('t',)}),), {'s': property(lambda self: v)})
    elif k == 4:
        cls = type('O', (list,), {})
    else:
        cls = type('O', (object,), {'s': v, 't': u})
    if c.bool('decorated'):
        cls = whatable(cls, add_class=k == 5)
    o = cls()
    if k in (0, 2, 4):
        o.s = v
    if k in (0, 2, 3, 4):
        o.t = u
    if k in (2, 4, 5):
        setattr(o, name, v)
    conf = {'s': v, 't': u}
    if k in (2, 4, 5):
        conf.update({a: v for a in public([name])})
    if k == 4:
        conf['seq'] = conf.get('seq', []) if name == 'seq' else []
    c.show(v, u, k, name)
    w = o.what() if hasattr(o, 'what') else whatareyou(o, add_class=k == 5)
    c.check_same(w.conf, conf, 'exactly the public attributes, with their values')
    c.check(all([w.conf[a] is v for a in ('s',) if a in conf]), 'exactly the public attributes, with their values')


def jobs(tier):
    return [Job('falsy', falsy, '17 kinds of values that are empty or alike, from six sources', 1),
            Job('trimmed', trimmed, 'up to 2 names of 1..3 characters, any prefix and postfix of 1..2, up to 2 excluded names', 3),
            Job('trimmed_words', trimmed_words, 'a name of usual lengths'),
            Job('attributes', attributes, 'up to 2 attributes with names of 1..4 characters', 2),
            Job('longer_values', longer_values, 'a text of 2..15 characters or an integer of -999..999, in 4 kinds of objects', .5),
            Job('odd_attributes', odd_attributes, 'three of 13 kinds of objects with special methods', .5),
            Job('own_attributes', own_attributes, '15 values related to the object itself, five names', .5),
            Job('sources', sources, 'an object with slots, properties, class and instance attributes', 2),
            Job('shadowed', shadowed, 'properties and instance attributes of the same names', .5),
            Job('slots', slots, 'objects with slots', 1.5),
            Job('collections', collections, '11 kinds of collections of up to 2 elements', 2),
            Job('named', named, 'named tuples'),
            Job('decorated', decorated, 'decorated classes and objects', 2),
            Job('options', options, 'options of the decorator', 1.5),
            Job('many', many, '9, 17 and harvested numbers of attributes', 1),
            Job('many_excluded', many_excluded, '9, 17 and harvested numbers of excluded names', .5),
            Job('many_elements', many_elements, '9, 17 and harvested numbers of elements', .5),
            Job('many_classes', many_classes, 'slots and properties of 5, 9 and harvested numbers of classes', .5)]
