"""C21: dictionary and id views of a configuration are faithful."""
from collections import OrderedDict

from whatami import What, id2dict, what2id, obj2what, id2what
from sx.job import Job
from sx import harvest
from .common import WORDY, WORDS, word, odd, value, what, parsed_value, count, escaped, SCALARS, COLLS

ASSUMPTIONS = ['Collections do not hold two strings that differ only in the escaping of quotes (they are identified).',
               'Names and keys are ascii identifiers.',
               'In sets and as dictionary keys (where a dictionary cannot be) a configuration becomes its id.']


def converted(v):
    """v, as parsed, without configurations."""
    if isinstance(v, What):
        return as_dict(v)
    if isinstance(v, list):
        return [converted(x) for x in v]
    if isinstance(v, tuple):
        return tuple([converted(x) for x in v])
    if isinstance(v, dict):
        return {hashable(k): converted(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return type(v)([hashable(x) for x in v])
    return v


def hashable(v):
    if isinstance(v, What):
        return v.id()
    if isinstance(v, tuple):
        return tuple([hashable(x) for x in v])
    if isinstance(v, frozenset):
        return frozenset([hashable(x) for x in v])
    return v


def as_dict(w):
    return {'whatami_name': w.name, 'whatami_out_name': w.out_name,
            'whatami_conf': {k: converted(v) for k, v in w.conf.items() if k not in w.non_id_keys}}


def holds_what(v):
    if isinstance(v, What):
        return True
    if isinstance(v, dict):
        return any([holds_what(k) or holds_what(x) for k, x in v.items()])
    if isinstance(v, (list, tuple, set, frozenset)):
        return any([holds_what(x) for x in v])
    return False


def dictionary(c, w, non_ids_too=False):
    c.show(w, non_ids_too)
    shown = What(w.name, w.conf, non_id_keys=() if non_ids_too else w.non_id_keys, out_name=w.out_name)
    parsed = parsed_value(shown)
    c.assume(count(parsed) == count(shown))
    expected = as_dict(parsed)
    got = w.to_dict(nonids_too=True) if non_ids_too else w.to_dict()
    c.check(not holds_what(got), 'no configuration remains')
    c.check_same(got, expected, 'name, output name and parameters, with nested configurations as dictionaries')
    c.check_same(id2dict(w.id(nonids_too=non_ids_too)), got, 'the dictionary of the id is that of the configuration')


def scalars(c):
    dictionary(c, what(c, SCALARS, 0, 2, 1))


def strings(c):
    dictionary(c, What('a', {'x': c.str(0, 4), 'y': What('b', {'z': c.str(0, 1)})}))


def words(c):
    """Names of any meaning."""
    k = c.choose(5, 'what')
    name, out, key = [word(c) if k == i else d for i, d in enumerate(('n', 'o', 'k'))]
    v = What(word(c) if k == 3 else 'm', {word(c) if k == 4 else 'z': c.int(0, 9)})
    w = What(name, {key: v, 'a': [v, c.int(0, 9)]}, out_name=out, non_id_keys=['a'] if c.bool('non id') else None)
    if c.bool('parsed'):
        dictionary(c, w)
    else:
        c.show(w)
        c.check_same(w.to_dict(nonids_too=True), as_dict(What(w.name, w.conf, out_name=w.out_name)),
                     'name, output name and parameters, with nested configurations as dictionaries')


def nested(c):
    dictionary(c, what(c, ('what', 'list', 'tuple', 'dict', 'int'), 2, 2, 1))


def leaf(c):
    return What(c.ident(1, 1), {'z': value(c, ('int', 'str', 'none'), 0)} if c.bool('params') else {},
                out_name=c.ident(1, 1, reserved=False) if c.bool('out') else None)


def wrap(c, v):
    """v within some collection."""
    k = c.pick(('list', 'tuple', 'dict', 'what', 'set', 'frozenset', 'key'), 'collection')
    if k == 'list':
        return [c.int(0, 9), v] if c.bool('more') else [v]
    if k == 'tuple':
        return (v, c.int(0, 9)) if c.bool('more') else (v,)
    if k == 'dict':
        return {c.str(0, 1): v}
    if k == 'what':
        return What('b', {'k': v})
    if k == 'key':
        return {v: 1}
    return set([v]) if k == 'set' else frozenset([v])


def wrapped(c):
    """Configurations within collections of all kinds."""
    depth = c.choose(4, 'depth')
    v = leaf(c)
    for i in range(depth):
        v = wrap(c, v) if is_hashable(v) else wrap_plain(c, v)
    dictionary(c, What('a', {'x': v}))


def is_hashable(v):
    if isinstance(v, tuple):
        return all([is_hashable(x) for x in v])
    return isinstance(v, (What, int, str, frozenset)) and not (isinstance(v, What) and not all(
        [is_hashable(x) for x in v.conf.values()]))


def wrap_plain(c, v):
    k = c.pick(('list', 'tuple', 'dict', 'what'), 'collection')
    return [v] if k == 'list' else (v,) if k == 'tuple' else {c.str(0, 1): v} if k == 'dict' else What('b', {'k': v})


def non_ids(c):
    """Non-ids are there only when asked for, and never those of nested configurations."""
    inner = What('b', {'p': c.int(0, 9), 'q': 1}, non_id_keys=['p'] if c.bool('inner') else ['q'])
    conf = {'x': inner if c.bool('bare') else [inner], 'y': c.str(0, 1), 'w': c.bool()}
    dictionary(c, What('a', conf, non_id_keys=[k for k in conf if c.bool('non id')]), c.bool('non ids too'))


def sets(c):
    dictionary(c, What('a', {'x': value(c, ('set', 'frozenset', 'tuple', 'int', 'str'), 2, 2, 1)}))


def big(c):
    n = c.pick(sorted(set([7] + harvest.sizes())), 'size')
    i = c.int(-9, 999)
    w = What('b', {'z': i})
    k = c.choose(4, 'kind')
    dictionary(c, What('a', {'x': [w] * n if k == 0 else tuple(range(n)) + (w,) if k == 1 else
                             {j: w for j in range(n)} if k == 2 else What('c', {'k%d' % j: w for j in range(n)})}))


class Owner(object):
    def __init__(self, w):
        self.w = w

    def what(self):
        return self.w


class Named(object):
    def __init__(self, an_id):
        self.an_id = an_id

    def id(self):
        return self.an_id


class Both(Owner):
    def id(self):
        return 'not this one'


class Plain(object):
    def __init__(self, x, y):
        self.x = x
        self.y = y


class Text(str):
    pass


def ids(c):
    """what2id of whatever has an id."""
    k = c.choose(8, 'object')
    if k == 0:
        c.check(what2id(None) is None, 'None gives None')
        return
    if k == 1:
        s = c.str(0, 3)
        c.show(s)
        c.check_same(what2id(s), s, 'strings are left alone')
        return
    w = what(c, ('int', 'str', 'list', 'what'), 1, 2, 1)
    c.show(k, w)
    i = w.id()
    if k == 2:
        c.check_same(what2id(w), i, 'the id of a configuration')
    elif k == 3:
        c.check_same(what2id(odd(c, Owner)(w)), i, 'the id of the configuration of an object')
    elif k == 4:
        c.check_same(what2id(id2what(i)), i, 'the id of the parsed id')
    elif k == 5:
        c.check_same(what2id(i), i, 'the id itself')
    elif k == 6:
        c.check_same(what2id(odd(c, Both)(w)), i, 'the configuration of an object goes before its id')
    else:
        c.check_same(what2id(odd(c, Named)(i)), i, 'the id of an object that has one')


def long_ids(c):
    n = c.pick(sorted(set([30, 63, 126, 254, 510, 1022] + harvest.lengths(5, 300))), 'length')
    w = What('a', {'x': c.str(n, n + 3, WORDY)})
    i = w.id()
    k = c.choose(5, 'object')
    o = [lambda: w, lambda: Owner(w), lambda: Both(w), lambda: Named(i), lambda: i][k]()
    c.show(k, w)
    c.check_same(what2id(o), i, 'the id, however long')


def ids_non_ids(c):
    """Non-ids are not in the id."""
    conf = {'x': c.int(0, 9), 'y': c.str(0, 1)}
    w = What('a', conf, non_id_keys=[k for k in conf if c.bool('non id')])
    c.show(w)
    c.check_same(what2id(w), w.id(), 'the id of a configuration')
    c.check_same(what2id(Owner(w)), w.id(), 'the id of the configuration of an object')
    c.check_same(what2id(Owner(w)), What('a', {k: v for k, v in conf.items() if k not in w.non_id_keys}).id(),
                 'non-ids are not there')


def plain_objects(c):
    """Objects with neither are inspected."""
    x, y = value(c, ('int', 'str', 'what'), 1, 1, 1), c.int(0, 9)
    o = odd(c, Plain)(x, y)
    c.show(x, y)
    expected = What('Plain', {'x': x, 'y': y})
    c.check_same(what2id(o), expected.id(), 'plain objects are inspected')
    c.check_same(obj2what(o), expected, 'plain objects are inspected')
    o.what = 3
    c.check_same(obj2what(o), expected, 'an attribute that is not a method does not count')


def objects(c):
    """obj2what: the configuration of objects that have one."""
    w = what(c, ('int', 'str', 'what'), 1, 2, 1)
    c.show(w)
    o = odd(c, Owner)(w)
    c.check(obj2what(o) is w, 'the configuration of the object')
    c.check_same(obj2what(o).id(), what2id(o), 'and its id')
    c.check_same(obj2what(o, force_inspect=True), What('Owner', {'w': w}), 'unless inspection is forced')


def jobs(tier):
    return [
        Job('scalars', scalars, {'parameters': '0..2', 'strings': '0..1'}, 1),
        Job('strings', strings, {'strings': '0..4'}, 0.5),
        Job('words', words, {'names': len(WORDS)}, 1),
        Job('nested', nested, {'depth': 3, 'size': '0..2', 'strings': '0..1'}, 2),
        Job('wrapped', wrapped, {'depth': '0..3'}, 3),
        Job('non_ids', non_ids, {'parameters': 3, 'depth': 2}, 0.5),
        Job('sets', sets, {'depth': 2, 'size': '0..2', 'strings': '0..1'}, 1),
        Job('big', big, {'size': '7 and around the integer constants of the code up to 130'}, 0.5),
        Job('ids', ids, {'depth': 2, 'size': '0..2', 'strings': '0..3'}, 1),
        Job('long_ids', long_ids, {'strings': '30 to 1025 and harvested lengths'}, 0.5),
        Job('ids_non_ids', ids_non_ids, {'parameters': 2}, 0.3),
        Job('plain_objects', plain_objects, {'attributes': 2}, 0.5),
        Job('objects', objects, {'parameters': '0..2', 'depth': 2}, 0.5),
    ]
