"""C04: non-id parameters never influence the id."""
from sx.job import Job
from sx import harvest
from whatami import What, whatareyou
from .common import value, render_what, SCALARS, sorted_keys


def declared(c, keys):
    """Some way to declare non-id keys."""
    k = c.choose(5, 'container')
    if k == 0:
        return list(keys)
    if k == 1:
        return tuple(keys)
    if k == 2:
        return set(keys)
    if k == 3:
        return frozenset(keys)
    return iter(list(keys))


def basic(c):
    n = 1 + c.choose(2, 'params')
    conf = {c.ident(1, 2, reserved=False): c.int(0, 99) for _ in range(n)}
    non = [c.ident(1, 2, reserved=False) for _ in range(c.choose(3, 'non ids'))]
    w = What(c.ident(1, 1), conf, non_id_keys=declared(c, non), out_name=c.ident(1, 1) if c.bool('out') else None)
    visible = {k: v for k, v in conf.items() if k not in non}
    c.show(w, non)
    c.check_same(w.id(), render_what(What(w.name, visible, out_name=w.out_name)), 'the id shows exactly the identifying parameters')
    c.check_same(str(w), render_what(What(w.name, conf, out_name=w.out_name)), 'str shows all the parameters')
    c.check_same(w.id(nonids_too=True), str(w), 'nonids_too shows all the parameters')
    c.check_same(w.id(), render_what(What(w.name, visible, out_name=w.out_name)), 'showing all does not change the id')


def changes(c):
    """Changing, adding or removing non-id parameters."""
    k1, k2 = c.ident(1, 2, reserved=False), c.ident(1, 2, reserved=False)
    c.assume(c.differ(k1, k2))
    non = [k2]
    a = value(c, SCALARS, 0)
    x, y = value(c, SCALARS, 0), value(c, SCALARS, 0)
    w1 = What('a', {k1: a, k2: x}, non_id_keys=non)
    w2 = What('a', {k2: y, k1: a}, non_id_keys=non)
    w3 = What('a', {k1: a}, non_id_keys=non)
    c.show(w1, w2)
    i = w1.id()
    c.check_same(w2.id(), i, 'changing a non-id parameter does not change the id')
    c.check_same(w3.id(), i, 'removing a non-id parameter does not change the id')
    c.check_same(What('a', {k1: a}).id(), i, 'an absent non-id key does not change the id')
    c.check_same(w3.set(k2, y).id(), i, 'adding a non-id parameter does not change the id')
    c.check_same(w1.copy().id(), i, 'non-id keys are copied')
    c.check_same(w1.copy(deep=True).id(), i, 'non-id keys are copied')
    c.check(c.differ(What('a', {k1: a, k2: x}).id(), i), 'the parameter shows up if it is not declared non-id')


def similar(c):
    """Only exact keys are hidden."""
    n = c.pick(sorted(set([2, 3, 6] + [x for x in harvest.lengths(4, 60)])), 'length')
    p = 'p' * (n - 1)
    k, d = (p + c.ident(1, 1), p + c.ident(1, 1)) if c.bool('suffix') else (c.ident(1, 1) + p, c.ident(1, 1) + p)
    d = d if c.bool('same length') else d + c.ident(1, 1)
    w = What('a', {k: 1}, non_id_keys=[d])
    c.show(w)
    hidden = k == d
    c.check_same(w.id(), 'a()' if hidden else 'a(' + k + '=1)', 'exactly the declared keys are hidden')
    c.check_same(w.id(nonids_too=True), 'a(' + k + '=1)', 'all keys are shown when asked for')


def nested(c):
    """Non-ids of nested configurations are always hidden."""
    k = c.ident(1, 1, reserved=False)
    inner = What('b', {k: c.int(0, 9), 'z': c.int(0, 9)}, non_id_keys=declared(c, [c.ident(1, 1, reserved=False)]),
                 out_name='o' if c.bool('out') else None)
    h = c.choose(6, 'where')
    v = inner if h == 0 else [inner] if h == 1 else (1, inner) if h == 2 else {'k': inner} if h == 3 else \
        What('c', {'y': inner, 'n': 1}, non_id_keys=['n']) if h == 4 else Thing(inner)
    hidden = [x for x in inner.conf if x in inner.non_id_keys]
    seen = What('b', {x: y for x, y in inner.conf.items() if x not in hidden}, out_name=inner.out_name)
    u = seen if h in (0, 5) else [seen] if h == 1 else (1, seen) if h == 2 else {'k': seen} if h == 3 else What('c', {'y': seen})
    w = What('a', {'x': v, 'm': 2}, non_id_keys=['m'])
    c.show(inner, h)
    c.check_same(w.id(), render_what(What('a', {'x': u})), 'nested non-ids are hidden')
    c.check_same(str(w), render_what(What('a', {'x': u, 'm': 2})), 'nested non-ids stay hidden when all parameters are asked for')


class Thing(object):
    """Something with a what."""
    def __init__(self, w):
        self.w = w

    def what(self):
        return self.w


def more(c):
    """Several parameters and non-ids."""
    n = c.pick(sorted(set([3, 5, 9] + harvest.sizes())), 'params')
    non = ['k%d' % i for i in range(n) if c.bool('non id')] if n <= 5 else \
        [['k1', 'k%d' % (n - 1)], ['k%d' % i for i in range(n)], ['k%d' % i for i in range(n) if i != n // 2]][c.choose(3, 'non ids')]
    non = non + [c.ident(2, 2)]
    conf = {'k%d' % i: c.int(0, 9) for i in range(n)}
    w = What('a', conf, non_id_keys=declared(c, non))
    c.show(w, non)
    keys = [k for k in sorted_keys(conf) if k not in non]
    c.check_same(w.id(), render_what(What('a', {k: conf[k] for k in keys})), 'the id shows exactly the identifying parameters')
    c.check_same(str(w), render_what(What('a', conf)), 'str shows all the parameters')
    c.check_same(w.id(maxlength=10000), w.id(), 'maxlength does not change what is shown')


def declared_later(c):
    """Keys declared in one configuration, once it exists, concern no other."""
    key = c.ident(1, 1)

    def one():
        k = c.choose(6, 'given')
        conf = {key: 1, 'w': 2}
        if k == 0:
            return What('a', conf)
        if k == 1:
            return What('a', conf, non_id_keys=None)
        if k == 2:
            return What('a', conf, non_id_keys=c.pick([(), [], set(), frozenset(), {}], 'empty'))
        if k == 3:
            return What('a', conf, None, 'o')
        if k == 4:
            return What('a', conf).copy(deep=c.bool('deep'))
        return whatareyou(Dicted(conf))
    first, second = one(), one()
    i = second.id()
    first.non_id_keys.add(key)
    c.check_same(first.id(), (first.out_name + '=' if first.out_name else '') + first.name + ('()' if key == 'w' else '(w=2)'),
                 'keys declared later are hidden')
    c.check_same(second.id(), i, 'non-ids of other configurations stay as they were')
    third = What('a', {key: 1})
    c.show(first, second, third)
    c.check_same(third.id(), 'a(' + key + '=1)', 'non-ids of other configurations do not hide parameters')
    first.non_id_keys.clear()
    c.check_same(first.id(), str(first), 'keys no longer declared are shown')


class Dicted(object):
    def __init__(self, conf):
        for k, v in conf.items():
            setattr(self, k, v)


def jobs(tier):
    return [Job('declared_later', declared_later, 'non-ids added to one of two configurations made in six ways'),
            Job('basic', basic, '1..2 parameters and 0..2 non-id keys of 1..2 characters, five kinds of iterables', 3),
            Job('changes', changes, 'one identifying and one non-id parameter with scalar values', 3),
            Job('similar', similar, 'keys similar to the non-id one, lengths around the code constants'),
            Job('nested', nested, 'nested configurations with non-ids in six positions', 2),
            Job('more', more, '3, 5, 9 parameters and sizes around the code constants')]
