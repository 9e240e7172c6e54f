"""C09: copies, equality, hashes and whatadd."""
from whatami import What
from whatami.whatutils import whatadd
from sx.job import Job
from sx import harvest
from .common import other_value, odd_value, value, what, render_what, implicit

ASSUMPTIONS = ['Equality of values other than configurations and builtin containers is that of python.']
KINDS = ('str', 'int', 'none', 'bool', 'list', 'dict', 'tuple', 'what')


def snapshot(v):
    """A structural copy, sharing nothing mutable."""
    if isinstance(v, What):
        return What(v.name, snapshot(v.conf), non_id_keys=list(v.non_id_keys), out_name=v.out_name)
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return type(v)([snapshot(x) for x in v])
    return v


def unchanged(c, w, before, msg):
    c.check_same(w.name, before.name, msg + ': name')
    c.check_same(w.out_name, before.out_name, msg + ': output name')
    c.check_same(w.conf, before.conf, msg + ': parameters')
    c.check_same(list(w.non_id_keys), list(before.non_id_keys), msg + ': non-id keys')


def configuration(c, kinds=KINDS, depth=1, size=2):
    w = what(c, kinds, depth, size)
    if w.out_name is not None and c.bool('empty out'):
        w.out_name = ''
    for k in list(w.conf):
        if c.bool('nonid'):
            w.non_id_keys.add(k)
    if c.bool('extra nonid'):
        w.non_id_keys.add(c.ident(1, 1, reserved=False))
    return w


def copies(c):
    w = configuration(c)
    deep = c.bool('deep')
    c.show(w, deep)
    before = snapshot(w)
    i, full = w.id(), w.id(nonids_too=True)
    d = w.copy(**implicit(c, {'deep': deep}, deep=False))
    c.check(d is not w, 'a copy is another object')
    c.check(d == w, 'a copy equals the original')
    c.check(not (d != w), 'a copy is not different to the original')
    c.check_same(d.id(), i, 'a copy has the same id')
    c.check_same(d.id(nonids_too=True), full, 'a copy has the same non-ids')
    unchanged(c, d, before, 'a copy')
    c.check(deep or all([d.conf[k] is w.conf[k] for k in w.conf]), 'a shallow copy has the same values')
    # changes to the copy
    key = c.ident(1, 1, reserved=False)
    r = d.set(key, 'changed')
    c.check(r is d, 'set returns the configuration')
    c.check_same(d.conf[key], 'changed', 'set sets the parameter')
    unchanged(c, w, before, 'the original is unchanged when its copy changes')
    c.check_same(w.id(), i, 'the original id is unchanged when its copy changes')
    d.non_id_keys.add('other')
    d.name = 'other'
    d.out_name = 'other'
    unchanged(c, w, before, 'the original is unchanged when its copy changes')


def deep_copies(c):
    """Deep copies do not share mutable values."""
    kind = c.choose(4, 'kinds')
    w = configuration(c, (('int', 'list', 'dict', 'what'), ('list', 'tuple', 'set', 'int'), ('dict', 'tuple', 'what', 'list', 'set'),
                          ('what', 'tuple', 'set', 'frozenset', 'dict'))[kind], 2, 1)
    c.show(w)
    before = snapshot(w)
    d = w.copy(deep=True)
    unchanged(c, d, before, 'a deep copy')

    def spoil(v):
        if isinstance(v, What):
            v.name = 'spoiled'
            spoil(v.conf)
        elif isinstance(v, list):
            for x in v:
                spoil(x)
            v.append('spoiled')
        elif isinstance(v, tuple):
            for x in v:
                spoil(x)
        elif isinstance(v, set):
            v.add('spoiled')
        elif isinstance(v, dict):
            for x in list(v.values()):
                spoil(x)
            v['spoiled'] = 1
    spoil(d)
    unchanged(c, w, before, 'the original is unchanged when its deep copy changes')


def set_copy(c):
    w = configuration(c)
    key = c.ident(1, 2, reserved=False)
    v = c.int(0, 99)
    c.show(w, key)
    before = snapshot(w)
    d = w.set(key, v, copy=True)
    c.check(d is not w, 'set on a copy gives another configuration')
    unchanged(c, w, before, 'the original is unchanged by set on a copy')
    expected = dict(before.conf)
    expected[key] = v
    c.check_same(d.conf, expected, 'set on a copy changes just that parameter')
    c.check_same(d.name, before.name, 'set on a copy keeps the name')
    c.check_same(d.out_name, before.out_name, 'set on a copy keeps the output name')
    c.check_same(d.id(), What(w.name, expected, non_id_keys=list(w.non_id_keys), out_name=w.out_name).id(),
                 'set on a copy gives the id with that parameter')
    w.set(key, v)
    c.check_same(w.conf, expected, 'set changes just that parameter')


def equal(a, b):
    """Python equality, configurations by name, output name and parameters."""
    if isinstance(a, What) or isinstance(b, What):
        if not (isinstance(a, What) and isinstance(b, What)):
            return False
        if a.name != b.name:
            return False
        if (a.out_name is None) != (b.out_name is None):
            return False
        if a.out_name is not None and a.out_name != b.out_name:
            return False
        return equal(a.conf, b.conf)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not equal(a[k], b[k]):
                return False
        return True
    for t in (list, tuple):
        if isinstance(a, t) or isinstance(b, t):
            if not (isinstance(a, t) and isinstance(b, t)) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not equal(x, y):
                    return False
            return True
    return a == b


def compared(c, a, b):
    c.show(a, b)
    e = equal(a, b)
    c.check((a == b) == e, 'equality is that of name, output name and parameters')
    c.check((b == a) == e, 'equality is symmetric')
    c.check((a != b) == (not e), 'difference is the opposite of equality')
    c.check(a == a, 'a configuration equals itself')
    if e:
        c.check(hash(a) == hash(b), 'equal configurations hash alike')
        c.check(len(set([a, b])) == 1, 'equal configurations are the same set element')


def equality(c):
    """Configurations built alike, but for symbolic names, keys and values."""
    def one(n):
        out = c.str(0, 1) if c.bool('out') else None
        conf = {}
        for _ in range(n):
            conf[c.ident(1, 1)] = c.pick([0, 1, 2, None], 'kind') if c.bool('fixed') else c.int(0, 9)
        return What(c.ident(1, 1), conf, non_id_keys=list(conf) if c.bool('nonid') else None, out_name=out)
    n = c.choose(3, 'params')
    compared(c, one(n), one(n if c.bool('alike') else c.choose(3, 'params')))


def equality_words(c):
    """Names and keys are compared as they are."""
    def one():
        return What(c.pick(['a', '', 'A', 'a ', 'None'], 'name'), {c.pick(['x', 'X', '_x', ''], 'key'): c.pick([0, None, '', False, 1.], 'value')},
                    out_name=c.pick([None, '', 'a', ' ', 'None'], 'out'))
    a = one()
    k = c.choose(4, 'differ')
    b = What(a.name, dict(a.conf), out_name=a.out_name)
    if k == 0:
        b.name = c.pick(['a', '', 'A', 'a ', 'None', None], 'name')
    elif k == 1:
        b.out_name = c.pick([None, '', 'a', ' ', 'None'], 'out')
    elif k == 2:
        b.conf = {c.pick(['x', 'X', '_x', ''], 'key'): x for x in a.conf.values()}
    else:
        b.conf = {key: c.pick([0, None, '', False, 1.], 'value') for key in a.conf}
    compared(c, a, b)


def equality_nested(c):
    def one():
        k = c.choose(4, 'kind')
        w = What('b' if c.bool('b') else 'c', {'x': c.int(0, 9)}, out_name='o' if c.bool('out') else None)
        return What('a', {'x': w if k == 0 else [w, 1] if k == 1 else {'k': w} if k == 2 else (1, w)})
    compared(c, one(), one())


class Similar(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def odd_values(c):
    """Values with unusual special methods."""
    o, p = odd_value(c), other_value(c)
    w = What('a', {'x': o, 'y': [p]}, non_id_keys=['y'], out_name='z')
    c.show(type(o), type(p))
    u = w.copy()
    c.check(u.conf is not w.conf and u.conf['x'] is o and u.name == 'a' and u.out_name == 'z' and u.non_id_keys == {'y'},
            'copies have the same values')
    s = w.set('x', p, copy=True)
    c.check(s.conf['x'] is p and w.conf['x'] is o and w.set('x', p) is w and w.conf['x'] is p, 'set changes only what it is asked to')
    c.check(What('a', {'x': o}) == What('a', {'x': o}), 'configurations with the same values are equal')
    c.check(not What('a', {'x': o}) == What('b', {'x': o}), 'configurations with different names are not')
    c.check(not What('a', {'x': o}) == o or type(o).__eq__ is not object.__eq__, 'a configuration is not its value')


def wide(c):
    """Configurations of many parameters."""
    n = c.pick(sorted(set([5, 9, 30] + harvest.sizes())), 'params')
    at = c.pick([0, n // 2, n - 1], 'which')

    def one(x):
        conf = {'k%d' % i: i for i in range(n - 1)}
        conf['k%d' % at] = [x]
        conf[c.ident(3, 3, reserved=False)] = x
        return What('a', conf, non_id_keys=['k%d' % i for i in range(0, n, 2)] if c.bool('nonids') else None, out_name=c.pick([None, 'o']))
    w = one(c.int(0, 9))
    c.show(n)
    before = snapshot(w)
    i = w.id()
    d = w.copy(deep=c.bool('deep'))
    unchanged(c, d, before, 'a copy')
    c.check(d == w, 'a copy equals the original')
    r = w.set('k%d' % at, 'changed', copy=True)
    unchanged(c, w, before, 'the original is unchanged by set on a copy')
    expected = dict(before.conf)
    expected['k%d' % at] = 'changed'
    c.check_same(r.conf, expected, 'set on a copy changes just that parameter')
    c.check_same(list(r.non_id_keys), list(before.non_id_keys), 'set on a copy keeps the non-id keys')
    d.conf['k%d' % at] = 'changed'
    d.conf['new'] = 1
    d.non_id_keys.add('new')
    unchanged(c, w, before, 'the original is unchanged when its copy changes')
    c.check_same(w.id(), i, 'the original id is unchanged when its copy changes')
    compared(c, w, one(c.int(0, 9)))


def others(c):
    """Other objects."""
    w = configuration(c, size=1)
    o = c.pick([None, 0, 'a', (), {}, object(), Similar(name='a'), Similar(name='a', conf={}), Similar(conf={}, out_name=None)],
               'other')
    c.show(w, o)
    c.check(not w == o, 'a configuration does not equal other objects')
    c.check(w != o, 'a configuration is different to other objects')
    for attr in ('name', 'conf', 'out_name'):
        partial = {'name': w.name, 'conf': w.conf, 'out_name': w.out_name}
        del partial[attr]
        c.check(not w == Similar(**partial), 'an object without %s does not equal a configuration' % attr)


def adding(c):
    w = configuration(c, ('int', 'str'), 0)
    key = c.ident(1, 2, reserved=False)
    n = c.pick(sorted(set([0, 1, 2, 3] + harvest.sizes())), 'values')
    values = [c.int(0, 99) if i % 2 == 0 else c.str(0, 1) for i in range(min(n, 3))] + list(range(3, n))
    if n > 1 and c.bool('odd'):
        values[c.pick([0, n - 1], 'where')] = c.pick([None, False, 0, (), [], 1.5, 'zz'], 'value')
    if c.bool('there'):
        w.conf[key] = c.pick([None, False, 0, '', [], 3], 'there')
    c.show(w, key, values)
    before = snapshot(w)
    vs = values if c.bool('list') else (v for v in values)
    if key in w.conf:
        c.check(c.raises(ValueError, whatadd, w, key, vs) is not None, 'an existing parameter is not replaced')
    else:
        ids = whatadd(w, key, vs)
        c.check(len(ids) == n, 'one id per value')
        for i, v in zip(ids, values):
            conf = dict(before.conf)
            conf[key] = v
            c.check_same(i, render_what(What(w.name, conf, non_id_keys=list(before.non_id_keys), out_name=w.out_name)),
                         'the id of the configuration with that parameter')
    unchanged(c, w, before, 'whatadd leaves the configuration untouched')


def jobs(tier):
    return [Job('copies', copies, 'up to 2 parameters of depth 1, shallow and deep copies', 2),
            Job('deep_copies', deep_copies, 'up to 1 element at each of 3 levels'),
            Job('wide', wide, '5, 9, 30 and harvested numbers of parameters'),
            Job('set_copy', set_copy, 'up to 2 parameters of depth 1', 1.5),
            Job('equality', equality, 'two configurations of up to 2 parameters, 1-character names and keys', 2),
            Job('equality_words', equality_words, 'two configurations that differ in the name, output name, key or value, of 6 at most', 1),
            Job('equality_nested', equality_nested, 'two configurations nested in four ways', 1.5),
            Job('others', others, 'other objects, with and without the same attributes'),
            Job('odd_values', odd_values, 'an object of 32 kinds, with special methods or meanings, and another of 7', .5),
            Job('adding', adding, '0..3 and harvested numbers of values', 1.5)]
