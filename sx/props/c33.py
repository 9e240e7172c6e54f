"""C33: threads that parse, show and describe at the same time do not interfere."""
from functools import partial

from arpeggio import NoMatch
from whatami import What, whatable, parse_whatid
from whatami.parsers import build_whatami_parser, WhatamiTreeVisitor
from whatami.whatutils import oldid2what, id2whatami4, id2what, obj2what, call2what, id2dict, what2id, whatadd, whatvalues
from whatami.minijoblib.hashing import hasher
from whatami.registry import Recorder
from sx.job import Job
from sx.sched import Scheduler
from . import common

ASSUMPTIONS = ['Two or three threads, that change before statements of whatami and (jobs parse*, given, invalid, old) at calls in its parser library '
               '(up to the stated number of times), and when they wait for a lock.',
               'No thread changes the configurations, objects or plugins used by another.']


STEP = 16       # the step of a change is looked for in blocks
WORD = 'as if there were no other threads'


def run(c, changes, *fns, **where):
    """The results of the functions when run at the same time; the changes of thread happen at any steps."""
    at = [c.int(0, 20000) for _ in range(changes)]
    for x, y in zip(at, at[1:]):
        c.assume(x < y)
    left = list(at)
    near = [None]

    def switch(n):
        if not left:
            return False
        if n % STEP == 0 or near[0] is None:
            near[0] = left[0] < n - n % STEP + STEP
        if near[0] and left[0] == n:
            left.pop(0)
            near[0] = None
            return True
        return False
    s = Scheduler(switch, **where)
    try:
        return s.run(fns)
    finally:
        if not c.symbolic:
            c.show('changes at', at, 'of', s.steps)


def value_of(c, r, msg):
    c.check(r[0] == 'value', msg)
    return r[1]


def small(c, n=3, k=None):
    """A configuration."""
    k = c.choose(n, 'configuration') if k is None else k
    x = c.int(0, 9)
    if k == 0:
        return What(c.ident(1, 1), {})
    if k == 1:
        return What('b', {'x': x})
    if k == 2:
        return What('c', {'s': c.str(1, 1, common.WORDY)})
    if k == 3:
        return What('d', {'l': [x, 'v'], 'n': What('e', {})}, out_name='o')
    v = [{x: 'v'}, {x}, frozenset([x]), (x,), {}, set(), None, x - 5, 1.5, What('b', {'y': x}), [[x]], x > 4][k - 4]
    return What('f', {'v': v})


def good(c, w, r):
    msg = 'an id is parsed ' + WORD
    got = value_of(c, r, msg)
    c.check(isinstance(got, What), msg)
    c.check(c.same([got.name, got.out_name], [w.name, w.out_name]), msg)
    c.check_same(got.id(), w.id(), msg)
    c.check(sorted(got.conf) == sorted(w.conf), msg)
    for k, v in w.conf.items():
        c.check(isinstance(v, What) or c.same(got[k], v), msg)


def parse(c, changes, n=3, threads=2):
    """Ids parsed at the same time."""
    ws = [small(c, n) for _ in range(threads)]
    ids = [w.id() for w in ws]
    c.show(ids)
    for w, r in zip(ws, run(c, changes, *[partial(parse_whatid, i) for i in ids])):
        good(c, w, r)


def alike(c):
    """Ids of the same kind parsed at the same time."""
    k = c.choose(16, 'kind')
    v, w = small(c, 0, k), small(c, 0, k)
    i, j = v.id(), w.id()
    c.show(i, j)
    a, b = run(c, 1, lambda: parse_whatid(i), lambda: parse_whatid(j), libraries=False)
    good(c, v, a)
    good(c, w, b)


def given(c):
    """Ids parsed at the same time with the same parser and visitor, given or not."""
    v, w = small(c), small(c)
    i, j = v.id(), w.id()
    given = {}
    if c.bool('parser'):
        given['parser'] = build_whatami_parser()
    if c.bool('visitor'):
        given['visitor'] = WhatamiTreeVisitor()
    c.show(i, j, sorted(given))
    a, b = run(c, 1, lambda: parse_whatid(i, **given), lambda: parse_whatid(j, **given))
    good(c, v, a)
    good(c, w, b)


BAD = ['', 'a', 'a(', 'a(x=1', 'a(x=1))', 'a(x=[1,)', "a(x='b)", 'a()b', 'a(1)']


def invalid(c):
    """An id and something that is not, in any order."""
    w = small(c)
    i, bad = w.id(), c.pick(BAD, 'invalid')
    c.show(i, bad)
    msg = 'an invalid id is refused ' + WORD
    fns = [lambda: parse_whatid(i), lambda: parse_whatid(bad)]
    if c.bool('first'):
        b, a = run(c, 1, *fns[::-1])
    else:
        a, b = run(c, 1, *fns)
    good(c, w, a)
    c.check(b[0] == 'error' and isinstance(b[1], NoMatch), msg)
    good(c, w, ('value', parse_whatid(i)))


def old(c):
    """Old ids, together with old and new ones."""
    x, y = c.int(0, 9), c.str(1, 1, ((97, 122),))
    out = c.pick([None, 'o', 'out'], 'out')
    pre = '' if out is None else 'out=' + out + '#'
    fns = [lambda: oldid2what(pre + 'a#x=%d' % x), lambda: oldid2what("b#y='" + y + "'#z=3")]
    expected = [What('a', {'x': x} if out is None else {'x': x, 'out': out}), What('b', {'y': y, 'z': 3})]
    k = c.choose(4, 'together')
    if k == 1:
        fns[1], expected[1] = lambda: parse_whatid("c(y='" + y + "')"), What('c', {'y': y})
    elif k == 2:
        fns[0], expected[0] = lambda: parse_whatid('c(x=%d)' % x), What('c', {'x': x})
    elif out is not None and c.bool('both'):
        fns[1] = lambda: oldid2what("out=p#b#y='" + y + "'#z=3")
        expected[1].conf['out'] = 'p'
    elif k == 3:
        fns[1] = lambda: parse_whatid(id2whatami4("b#y='" + y + "'#z=3"))
    c.show(k, x, y)
    for w, r in zip(expected, run(c, 1, *fns)):
        good(c, w, r)


def use(c, w, k):
    if k == 0:
        return w.id()
    if k == 1:
        return w.id(nonids_too=True)
    if k == 2:
        return w.positional_id()
    if k == 3:
        return w.flatten(non_ids_too=True, collections_too=True)
    if k == 4:
        return w.to_dict()
    if k == 5:
        return w.copy(deep=True).id(nonids_too=True)
    if k == 6:
        return w.id(maxlength=1)
    if k == 7:
        return w.set('x', 3, copy=True).id()
    if k == 8:
        return [w == w.copy(), w[('n', 'y')], w.get('zz', 5)]
    return [w.id(), str(w), repr(w)]


def rich(x, s):
    return What('a', {'x': [x, {'k': (s,)}], 'n': What('b', {'y': x, 'q': s}, non_id_keys=('q',)), 's': {x}, 'f': partial(given, c=s)}, non_id_keys=('s',))


def shared(c):
    """The same configuration used in two threads."""
    x, s = c.int(0, 9), c.str(1, 1, common.WORDY)
    w = rich(x, s)
    uses(c, w, w, c.choose(10, 'use'), c.choose(10, 'other use'))


def separate(c):
    """Two configurations used in the same way."""
    v, w = rich(c.int(0, 9), c.str(1, 1, common.WORDY)), rich(c.int(0, 9), c.str(1, 1, common.WORDY))
    k = c.choose(10, 'use')
    uses(c, v, w, k, k)


def changing(c):
    """Own configurations, changed and rendered in each thread."""
    k = c.choose(7, 'change')
    x, y = c.int(0, 9), c.int(0, 9)

    def work(n, x):
        w = What(n, {'x': x})
        if k == 0:
            return w.set('y', x + 1).id()
        if k == 1:
            return [w.set('x', x + 1, copy=True).id(), w.id()]
        if k == 2:
            return whatadd(w, 'y', [x, 'v'])
        if k == 3:
            d = w.copy()
            d.conf['x'] = x + 1
            return [d.id(), w.id()]
        if k == 4:
            w.set('l', [x])
            d = w.copy(deep=True)
            d.conf['l'].append(1)
            return [d.id(), w.id()]
        if k == 5:
            w.conf['l'] = {'k': (x,)}
            return w.flatten(collections_too=True), w.keys(), w.values()
        w.conf['n'] = What(n + n, {'x': x})
        return [w['n', 'x'], w.get(('n', 'x')), w['n'].id(), whatvalues(w, ('x',))]
    expected = [work('a', x), work('b', y)]
    c.show(k, x, y)
    for e, r in zip(expected, run(c, 1, lambda: work('a', x), lambda: work('b', y), libraries=False)):
        c.check_same(value_of(c, r, 'a configuration is changed ' + WORD), e, 'a configuration is changed ' + WORD)


def uses(c, v, w, k, m):
    before = [use(c, v, k), use(c, w, m)]
    full = [v.id(nonids_too=True), w.id(nonids_too=True)]
    c.show(full, k, m)
    for e, r in zip(before, run(c, 1, lambda: use(c, v, k), lambda: use(c, w, m), libraries=False)):
        c.check(c.same(value_of(c, r, 'a configuration is used ' + WORD), e), 'a configuration is used ' + WORD)
    c.check_same([v.id(nonids_too=True), w.id(nonids_too=True)], full, 'using a configuration does not change it')


class Plain(object):
    def __init__(self, x, y):
        self.x = x
        self.y = y


@whatable
class Thing(object):
    def __init__(self, x, y):
        self.x = x
        self._h = x
        self.y = y


class Slotted(object):
    __slots__ = ('x', 'y')

    def __init__(self, x, y):
        self.x = x
        self.y = y


def captured(x, y):
    z = (x, y)
    del z
    return call2what()


@whatable
def function(x, y=3):
    return x, y


def described(k, x, y):
    if k == 0:
        return obj2what(Plain(x, y)), What('Plain', {'x': x, 'y': y})
    if k == 1:
        return Thing(x, y).what(), What('Thing', {'x': x, 'y': y})
    if k == 2:
        return captured(x, y), What('captured', {'x': x, 'y': y})
    if k == 3:
        return whatable(partial(function, x, y=y)).what(), What('function', {'x': x, 'y': y})
    if k == 4:
        return obj2what(Slotted(x, y)), What('Slotted', {'x': x, 'y': y})
    if k == 5:
        return What('a', {'x': x, 'y': Thing(x, y)}), What('a', {'x': x, 'y': What('Thing', {'x': x, 'y': y})})
    return parse_whatid("a(x=%d,y='" % x + y + "')"), What('a', {'x': x, 'y': y})


def describe(c):
    """Objects, functions and calls described in two threads."""
    n = 7
    cases = [(c.choose(n, 'kind'), c.int(0, 9), c.str(1, 1, ((97, 122),))) for _ in range(2)]
    c.show(cases)

    def fn(case):
        w, e = described(*case)
        return w.id(), e.id()
    for r in run(c, 1, *[partial(fn, case) for case in cases], libraries=False):
        a, b = value_of(c, r, 'things are described ' + WORD)
        c.check_same(a, b, 'things are described ' + WORD)


def views(c):
    """Functions of ids in two threads."""
    x, s = c.int(0, 9), c.str(1, 1, ((97, 122),))

    def fn(k, v):
        i = What('a', {'x': v, 'n': What('b', {'v': [v]})}).id()
        if k == 0:
            return id2dict(i), ('a', {'x': v, 'n': {'b': {'v': [v]}}}, None)
        if k == 2:
            return what2id(id2what(i)), i
        return id2what(i)[('n', 'v')], [v]
    k, m = c.pick([0, 2, 3], 'view'), c.pick([0, 2, 3], 'other view')
    alone = [fn(k, x), fn(m, s)]
    c.show(k, m, x, s)
    for r, e in zip(run(c, 1, lambda: fn(k, x), lambda: fn(m, s), libraries=False), alone):
        got = value_of(c, r, 'ids are converted ' + WORD)
        c.check(c.same(got[0], e[0]), 'ids are converted ' + WORD)


VALUES = [[1, 2], {'a': 1, 'b': 2}, {1, 2, 3}, ('x', 'y'), frozenset(['u', 'v']), [{'k': {1}}, 'x'], {1: (2,), 'z': 'z'}]


def hashes(c):
    """Content hashes in two threads."""
    x, y = c.pick(VALUES, 'value'), c.pick(VALUES, 'other value')
    alone = hasher(x), hasher(y)
    c.show(x, y)
    a, b = run(c, 1, lambda: hasher(x), lambda: hasher(y), libraries=False)
    msg = 'contents are hashed ' + WORD
    c.check(value_of(c, a, msg) == alone[0] and value_of(c, b, msg) == alone[1], msg)


def recorders(c):
    """A recorder in each thread."""
    x, s = c.int(0, 9), c.str(1, 1, ((97, 122),))

    def fn(v, name):
        r = Recorder(k=v)
        r.add([name, name + '2'], v=[v, 4])
        return [(p['id'], p['v'], p['k']) for p in r.get(name, name + '2')], len(r)
    c.show(x, s)
    a, b = run(c, 1, lambda: fn(x, 'i'), lambda: fn(s, 'j'), libraries=False)
    msg = 'records are added ' + WORD
    c.check(c.same(value_of(c, a, msg), ([('i', x, x), ('i2', 4, x)], 2)), msg)
    c.check(c.same(value_of(c, b, msg), ([('j', s, s), ('j2', 4, s)], 2)), msg)


def jobs(tier):
    deep = tier == 'thorough'
    return [Job('parse', lambda c: parse(c, 1), 'two ids of up to one parameter, one change of thread at any step', 2),
            Job('parse_nested', lambda c: parse(c, 1, 4), 'two ids of up to two parameters, one change of thread at any step'),
            Job('alike', alike, 'two ids with parameters of the same kind (16 kinds), one change of thread at any step', 1.5),
            Job('parse_twice', lambda c: parse(c, 2), 'two ids of up to one parameter, two changes of thread at any steps', 1.5),
            Job('parse_three', lambda c: parse(c, 3 if deep else 2, 2, 3), 'three ids of up to one parameter, %d changes of thread at any steps' % (3 if deep else 2)),
            Job('given', given, 'two ids, given parser or visitor, one change'),
            Job('invalid', invalid, 'an id and one of %d invalid texts, one change' % len(BAD), 1.5),
            Job('old', old, 'two old ids of up to two parameters, or an old and a new id, one change'),
            Job('shared', shared, '10 uses of the same configuration, one change', 1.5),
            Job('separate', separate, '10 uses of two configurations, the same in each thread, one change', 1.5),
            Job('changing', changing, '7 ways of making and changing own configurations, one change', 1.5),
            Job('describe', describe, '7 kinds of objects and calls, one change', 1.5),
            Job('views', views, '3 conversions of ids, one change'),
            Job('hashes', hashes, 'content hashes of %d containers, one change' % len(VALUES)),
            Job('recorders', recorders, 'a recorder of two records in each thread, one change')]
