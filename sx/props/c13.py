"""C13: the nickname registry is a one-to-one mapping."""
from whatami import What
from whatami.registry import WhatamiRegistry
from sx.job import Job
from sx import harvest
from .common import insertion_sort

ASSUMPTIONS = ['Nicknames are strings; ids are strings, configurations or objects with them.']
OPS = ('register', 'remove nick', 'remove id', 'remove both', 'reset')


class Thing(object):
    def __init__(self, w):
        self.w = w

    def what(self):
        return self.w


class Model(object):
    """The expected mapping: a list of (nickname, id)."""

    def __init__(self):
        self.pairs = []

    def id_of(self, nick):
        for n, i in self.pairs:
            if n == nick:
                return i
        return None

    def nick_of(self, whatid):
        for n, i in self.pairs:
            if i == whatid:
                return n
        return None

    def drop(self, nick):
        self.pairs = [(n, i) for n, i in self.pairs if not n == nick]


def agree(c, reg, model, extra_nicks=(), extra_ids=()):
    listed = reg.list()
    nicks = insertion_sort([n for n, _ in model.pairs])
    c.check(len(listed) == len(nicks), 'each entry is listed once')
    for (n, i), m in zip(listed, nicks):
        c.check_same(n, m, 'the list is sorted by nickname')
        c.check_same(i, model.id_of(m), 'nicknames are listed with their ids')
    for n, i in model.pairs:
        c.check_same(reg.nick2id(n), i, 'the nickname gives its id')
        c.check_same(reg.id2nick(i), n, 'the id gives its nickname')
        c.check_same(reg.nick_or_id(i), n, 'nick_or_id gives the nickname')
    for n in extra_nicks:
        c.check_same(reg.nick2id(n), model.id_of(n), 'unknown nicknames give None')
    for i in extra_ids:
        m = model.nick_of(i)
        c.check_same(reg.id2nick(i), m, 'unknown ids give None')
        c.check_same(reg.nick_or_id(i), i if m is None else m, 'nick_or_id gives the id if there is no nickname')


def step(c, reg, model, op, nick, what, whatid):
    if op == 'register':
        a, b = model.id_of(nick), model.nick_of(whatid)
        if (a is None or a == whatid) and (b is None or b == nick):
            r = reg.register(what, nick)
            c.check(r is what, 'register gives back what it gets')
            if a is None:
                model.pairs.append((nick, whatid))
        else:
            c.check(c.raises(Exception, reg.register, what, nick) is not None, 'conflicting registrations raise')
    elif op == 'remove nick':
        if model.id_of(nick) is None:
            c.check(c.raises(Exception, reg.remove, nick) is not None, 'removing unknown nicknames raises')
        else:
            reg.remove(nickname=nick)
            model.drop(nick)
    elif op == 'remove id':
        b = model.nick_of(whatid)
        if b is None:
            c.check(c.raises(Exception, reg.remove, None, what) is not None, 'removing unknown ids raises')
        else:
            reg.remove(what=what)
            model.drop(b)
    elif op == 'remove both':
        a = model.id_of(nick)
        if a is None or not a == whatid:
            c.check(c.raises(Exception, reg.remove, nick, what) is not None, 'removing a pair that is not registered raises')
        else:
            reg.remove(nickname=nick, what=what)
            model.drop(nick)
    else:
        reg.reset()
        model.pairs = []


def history(n, alphabet):
    def harness(c):
        reg, model = WhatamiRegistry(), Model()
        shown = []
        for _ in range(n):
            op = c.pick(OPS, 'op')
            nick = whatid = None
            if op in ('register', 'remove nick', 'remove both'):
                nick = c.str(1, 1, alphabet)
            if op in ('register', 'remove id', 'remove both'):
                whatid = c.str(1, 1, alphabet)
            shown.append((op, nick, whatid))
            step(c, reg, model, op, nick, whatid, whatid)
            agree(c, reg, model, () if nick is None else (nick,), () if whatid is None else (whatid,))
        c.show(shown)
    return harness


def crossed(c):
    """Three entries, then any two operations on nicknames and ids among them or not."""
    reg, model = WhatamiRegistry(), Model()
    for n, i in (('a', 'x'), ('b', 'y'), ('x', 'a')):
        step(c, reg, model, 'register', n, i, i)
    shown = []
    for _ in range(2):
        op = c.pick(OPS[:4], 'op')
        nick, whatid = c.str(1, 1, ((97, 99), (120, 122))), c.str(1, 1, ((97, 99), (120, 122)))
        shown.append((op, nick, whatid))
        step(c, reg, model, op, nick, whatid, whatid)
        agree(c, reg, model, ('a', 'b', 'x', nick), ('x', 'y', 'a', whatid))
    c.show(shown)


def whats(c):
    """Configurations and objects as ids."""
    reg, model = WhatamiRegistry(), Model()
    shown = []
    for _ in range(3):
        op = c.pick(OPS[:4], 'op')
        x = c.int(0, 3)
        out = 'o' if c.bool('out') else None
        w = What('w', {'x': x, 'n': c.int(0, 3)} if c.bool('nonids') else {'x': x}, non_id_keys=['n'], out_name=out)
        i = ('' if out is None else 'o=') + 'w(x=' + str(x) + ')'
        form = c.choose(3, 'form')
        nick = c.str(0, 1, ((97, 98),))
        shown.append((op, nick, i))
        step(c, reg, model, op, nick, w if form == 0 else Thing(w) if form == 1 else i, i)
        agree(c, reg, model, (nick,), (i,))
        m = model.nick_of(i)
        c.check_same(reg.nick_or_id(w), i if m is None else m, 'nick_or_id of a configuration')
    c.show(shown)


class Mutable(object):
    """An object whose description can change."""

    def __init__(self, x):
        self.x = x

    def what(self):
        return What('w', {'x': self.x})


def changing(c):
    """Configurations and objects that change between operations: what counts is their id at each time."""
    reg, model = WhatamiRegistry(), Model()
    o = Mutable(c.int(0, 3)) if c.bool('object') else What('w', {'x': c.int(0, 3)})
    shown = []
    for k in range(3):
        if k:
            x = c.int(0, 3)
            if isinstance(o, Mutable):
                o.x = x
            elif c.bool('set'):
                o.set('x', x)
            else:
                o.conf['x'] = x
        i = "w(x=%s)" % (o.x if isinstance(o, Mutable) else o.conf['x'])
        nick = c.str(1, 1, ((97, 98),))
        op = c.pick(OPS[:4], 'op')
        shown.append((op, nick, i))
        step(c, reg, model, op, nick, o, i)
        agree(c, reg, model, (nick,), (i,))
        m = model.nick_of(i)
        c.check_same(reg.nick_or_id(o), i if m is None else m, 'nick_or_id of what it is now')
    c.show(shown)


def strings(c):
    """Longer nicknames and ids, also equal or empty ones."""
    reg, model = WhatamiRegistry(), Model()
    shown = []
    for _ in range(2):
        nick, whatid = c.str(0, 3), c.str(0, 3)
        shown.append((nick, whatid))
        step(c, reg, model, 'register', nick, whatid, whatid)
        agree(c, reg, model)
    op = c.pick(OPS[1:], 'op')
    nick, whatid = c.str(0, 3), c.str(0, 3)
    shown.append((op, nick, whatid))
    step(c, reg, model, op, nick, whatid, whatid)
    agree(c, reg, model)
    c.show(shown)


def missing(c):
    """None is neither a nickname nor an id."""
    reg, model = WhatamiRegistry(), Model()
    nick, whatid = c.str(1, 1), c.str(1, 1)
    if c.bool('registered'):
        step(c, reg, model, 'register', nick, whatid, whatid)
    k = c.choose(4, 'how')
    f = [lambda: reg.register(None, nick), lambda: reg.register(whatid, None), lambda: reg.remove(),
         lambda: reg.remove(None, None)][k]
    c.show(nick, whatid, k)
    c.check(c.raises(ValueError, f) is not None, 'None is refused')
    agree(c, reg, model, (nick,), (whatid,))


def many(c):
    n = c.pick(sorted(set([5, 9] + harvest.sizes())), 'entries')
    reg, model = WhatamiRegistry(), Model()
    other = WhatamiRegistry()
    for k in range(n):
        reg.register('id%d' % k, 'nick%d' % (n - k))
        model.pairs.append(('nick%d' % (n - k), 'id%d' % k))
    op = c.pick(OPS[:4], 'op')
    nick, whatid = 'nick' + c.str(1, 1, ((48, 57),)), 'id' + c.str(1, 1, ((48, 57),))
    c.show(op, nick, whatid)
    step(c, reg, model, op, nick, whatid, whatid)
    agree(c, reg, model, (nick,), (whatid,))
    c.check_same(other.list(), [], 'registries are independent')


AB = ((97, 98),)
ANY1 = ((32, 126),)


def jobs(tier):
    n = 5 if tier == 'thorough' else 4
    return [Job('history3', history(3, ANY1), 'any 3 operations with 1-character nicknames and ids', 3),
            Job('history', history(n, AB), 'any %d operations with two nicknames and two ids' % n, 2),
            Job('crossed', crossed, 'any 2 operations on three entries', 2),
            Job('whats', whats, 'any 3 operations with configurations, objects and ids', 2),
            Job('changing', changing, 'any 3 operations with a configuration or object that changes in between', 2),
            Job('strings', strings, '2 registrations and another operation with strings of up to 3 characters', 1.5),
            Job('missing', missing, 'None as nickname or id'),
            Job('many', many, '5, 9 and harvested numbers of entries')]
