"""C26: positional ids list exactly the identifying values in key order."""
from collections import OrderedDict

from whatami import What
from whatami.plugins import WhatamiPluginManager as PM, what_plugin
from sx.job import Job
from sx import harvest
from .common import longer, value, what, render, sorted_keys, implicit, SCALARS, COLLS

ASSUMPTIONS = ['Parameter names are strings.']


def expected(w, non_ids_too):
    keys = sorted_keys(w.conf, () if non_ids_too else w.non_id_keys)
    r = w.name + '(' + ','.join([render(w.conf[k]) for k in keys]) + ')'
    return r if w.out_name is None else w.out_name + '=' + r


def agrees(c, w, non_ids_too=None):
    too = c.bool('non ids too') if non_ids_too is None else non_ids_too
    if non_ids_too is None and w.out_name is None and c.bool('odd out'):
        w.out_name = c.pick(['', ' ', 'a', '='], 'odd out')
    c.show(w, too)
    got = w.positional_id(**implicit(c, {'non_ids_too': too, 'maxlength': 0}, non_ids_too=False, maxlength=0))
    c.check_same(got, expected(w, too), 'one value per identifying parameter, in key order')
    if not too:
        c.check_same(w.positional_id(), got, 'non-ids are left out by default')
    # as in the full id
    keys = sorted_keys(w.conf, () if too else w.non_id_keys)
    parts = []
    for k in keys:
        alone = What('a', {k: w.conf[k]}).id()
        parts.append(alone[len('a(') + len(k) + 1:-1])
    r = w.name + '(' + ','.join(parts) + ')'
    c.check_same(got, r if w.out_name is None else w.out_name + '=' + r, 'values are rendered as in the full id')


def with_non_ids(c, w, absent=True):
    non = [k for k in w.conf if c.bool('non id')]
    if absent and c.bool('absent'):
        non.append(c.ident(1, 1, reserved=False))
    kind = c.choose(3, 'collection of non ids')
    return What(w.name, w.conf, non_id_keys=non if kind == 0 else tuple(non) if kind == 1 else set(non),
                out_name=w.out_name)


def scalars(c):
    agrees(c, with_non_ids(c, what(c, SCALARS, 0, 2, 2)))


def keys(c):
    """More parameters, with longer names."""
    n = c.choose(4, 'params')
    conf = {}
    for i in range(n):
        conf[c.ident(1, 3, reserved=False)] = c.int(0, 9)
    agrees(c, with_non_ids(c, What('a', conf), absent=False))


def any_keys(c):
    """Parameter names need not be identifiers."""
    conf = {}
    for i in range(c.choose(3, 'params')):
        conf[c.str(0, 2)] = c.int(0, 9)
    w = with_non_ids(c, What('a', conf), absent=False)
    too = c.bool('non ids too')
    c.show(w, too)
    c.check_same(w.positional_id(non_ids_too=too), expected(w, too), 'one value per identifying parameter, in key order')


def nested(c):
    agrees(c, with_non_ids(c, what(c, ('what', 'int', 'list', 'dict'), 2, 2, 1), absent=False))


def nested_non_ids(c):
    """Non-ids of nested configurations are never shown."""
    inner = with_non_ids(c, What('b', {'p': c.int(0, 9), 'q': c.str(0, 1)}), absent=False)
    k = c.choose(4, 'where')
    agrees(c, with_non_ids(c, What('a', {'x': inner if k == 0 else [inner] if k == 1 else {'i': inner} if k == 2 else
                                         What('c', {'z': inner}), 'p': c.bool()}), absent=False))


def collections(c):
    agrees(c, What('a', {'x': value(c, COLLS + ('int', 'str'), 2, 2, 1), 'y': value(c, ('int', 'none'), 0)}))


def ordered(c):
    d = OrderedDict()
    for i in range(c.choose(3, 'size')):
        d[c.str(0, 1)] = c.int(0, 9)
    agrees(c, What('a', {'x': d, 'w': 1}))


def names(c):
    n = c.choose(9, 'name') + 1
    w = What(c.ident(n, n), {'x': c.int(0, 9)} if c.bool('params') else {},
             out_name=c.ident(1, 9, reserved=False) if c.bool('out') else None)
    agrees(c, w, False)


def any_names(c):
    """Names and output names need not be identifiers, nor be there."""
    w = What(c.str(0, 2), {'x': c.int(0, 9)}, out_name=c.str(0, 2) if c.bool('out') else None)
    agrees(c, w, False)
    full = w.id()
    c.check_same(full[:len(full) - 4 - len(str(w['x']))], w.positional_id()[:len(w.positional_id()) - 2 - len(str(w['x']))],
                 'the name and output name are those of the full id')


def many(c):
    n = c.pick(sorted(set([5, 9, 13] + harvest.sizes())), 'params')
    i = c.int(-9, 999)
    k = c.choose(n, 'which')
    j = c.choose(n, 'non id')
    conf = {('k%02d' % x): i if x == k else x for x in range(n)[::-1]}
    agrees(c, What('a', conf, non_id_keys=['k%02d' % j]))


def any_text(c):
    """Values of any text, as plugins may give."""
    s, marker, other = c.str(0, 2), object(), object()
    n = 1 + c.choose(3, 'params')
    conf = {'k%d' % i: marker if c.bool('text') else i for i in range(n)}
    w = What('a', conf, out_name=c.pick([None, 'o'], 'out'))
    c.show(s, [v is marker for v in conf.values()])
    texts = [s if conf[k] is marker else '%d' % conf[k] for k in sorted(conf)]
    out = '' if w.out_name is None else 'o='
    try:
        PM.insert(lambda v: s if v is marker else None, before=what_plugin)
        c.check_same(w.positional_id(), out + 'a(' + ','.join(texts) + ')', 'one value per identifying parameter, in key order')
        c.check_same(w.id(), out + 'a(' + ','.join([k + '=' + t for k, t in zip(sorted(conf), texts)]) + ')',
                     'values are rendered as in the full id')
    finally:
        PM.reset()


def alike(c):
    """Parameters of equal values that are told apart by their text."""
    i = c.int(0, 1)
    twins = [lambda: [1, True, 1.0, 1 + 0j][c.choose(4, 'one')], lambda: [0, False, 0.0, -0.0][c.choose(4, 'zero')],
             lambda: i]
    leaf = lambda: twins[c.choose(3, 'leaf')]()
    k = c.choose(8, 'where')
    wrap = lambda x: [lambda: x, lambda: (x,), lambda: (i, (x, 'a')), lambda: [x], lambda: {'a': x}, lambda: {x},
                      lambda: frozenset([x]), lambda: What('b', {'z': x})][k]()
    same = wrap(leaf())
    agrees(c, What('a', {'x': same, 'y': wrap(leaf()), 'z': same}), False)


def longer_values(c):
    """Longer texts and integers."""
    v = longer(c)
    agrees(c, What('a', {'x': v, 'y': [v, 1]}, out_name=c.pick([None, 'o'], 'out')), False)


def untouched(c):
    """Asking for the positional id changes nothing."""
    w = with_non_ids(c, What('a', {'y': [c.int(0, 9)], 'x': What('b', {'z': c.str(0, 1)})}), absent=False)
    before = (w.id(), w.id(nonids_too=True), list(w.conf))
    too = c.bool('non ids too')
    c.show(w, too)
    a = w.positional_id(non_ids_too=too)
    c.check_same(w.positional_id(non_ids_too=too), a, 'the same when asked again')
    c.check_same((w.id(), w.id(nonids_too=True), list(w.conf)), before, 'the configuration is left alone')


def after_set(c):
    """Parameters set later are there too."""
    w = What('a', {'x': c.int(0, 9), 'z': 1})
    w.positional_id()
    k = c.ident(1, 1, reserved=False)
    w.set(k, value(c, ('int', 'str', 'what'), 1, 1, 1))
    agrees(c, w, False)


def jobs(tier):
    return [
        Job('scalars', scalars, {'parameters': '0..2', 'names': '1 character', 'strings': '0..2'}, 2),
        Job('keys', keys, {'parameters': '0..3', 'names': '1..3 characters'}, 2),
        Job('any_keys', any_keys, {'parameters': '0..2', 'names': 'any text of 0..2 characters'}, 1),
        Job('nested', nested, {'depth': 3, 'size': '0..2', 'strings': '0..1'}, 2),
        Job('nested_non_ids', nested_non_ids, {'depth': 3}, 0.5),
        Job('collections', collections, {'depth': 3, 'size': '0..2'}, 2),
        Job('ordered', ordered, {'size': '0..2', 'strings': '0..1'}, 0.5),
        Job('names', names, {'name': '1..9 characters', 'out': '1..9 characters'}, 0.5),
        Job('any_names', any_names, {'name': 'any text of 0..2 characters', 'out': 'any text of 0..2 characters'}, 0.5),
        Job('many', many, {'parameters': '5, 9, 13 and around the integer constants of the code up to 130'}, 1),
        Job('any_text', any_text, {'parameters': '1..3', 'strings': '0..2'}, 0.5),
        Job('alike', alike, {'values': 'equal numbers of 5 types, alone and in 7 kinds of values'}, 0.7),
        Job('longer_values', longer_values, {'texts': '2..15 characters', 'integers': '-999..999'}, 0.5),
        Job('untouched', untouched, {'parameters': 2}, 0.3),
        Job('after_set', after_set, {'parameters': '2..3'}, 0.5),
    ]
