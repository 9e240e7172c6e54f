"""C15: the columns of a new record."""
from collections import OrderedDict, defaultdict
from functools import partial
from whatami.registry import Recorder
from sx.job import Job
from sx import harvest
from .common import longer, other_value, implicit, odd_value, word, WORDS

ASSUMPTIONS = ['Column names are not parameters of add; postprocessors do not add records to their recorder.',
               'Ids are hashable; iterables given as values have an order.',
               'Values left without an element of a shorter iterable get None.']

ABSENT = object()


class Deal(object):
    """An iterable without length."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


def column_value(ids, i, v, unbox):
    """The value of a column for the record number i, ABSENT if it has none."""
    if isinstance(v, dict):
        for k in v:
            if k == ids[i]:
                return v[k]
        return ABSENT
    if isinstance(v, Deal) and unbox:
        v = v.xs
    if isinstance(v, (list, tuple)) and unbox:
        return v[i] if i < len(v) else None
    return v


def expected_record(ids, i, columns, defaults, unbox, id_column='id'):
    r = {}
    for k, v in columns.items():
        x = column_value(ids, i, v, unbox)
        if x is not ABSENT:
            r[k] = x
    r[id_column] = ids[i]
    for k, v in defaults.items():
        if k not in r:
            r[k] = v
    return r


def agree(c, got, rec, ids, records):
    c.check_same(list(got.keys()), list(ids), 'one record per id, in order')
    for i, r in zip(ids, records):
        c.check_same(dict(got[i]), r, 'the record has exactly the given, default and id columns')
        c.check_same([dict(x) for x in rec.get(i)], [r], 'the record is that registered')


def distinct(c, ids):
    for i in range(len(ids)):
        for j in range(i):
            c.assume(c.differ(ids[i], ids[j]))


class Named(dict):
    pass


def column(c, ids):
    """A value for a column."""
    k = c.choose(8, 'column')
    if k == 0:
        return c.int(0, 99)
    if k == 1:
        return c.str(0, 2)
    if k == 2:
        return None
    if k in (3, 4, 7):
        xs = [c.int(0, 99) for _ in range(c.choose(len(ids) + 2, 'dealt'))]
        if xs and c.bool('falsy'):
            xs[c.choose(len(xs), 'where')] = c.pick([None, '', (), [], False], 'dealt')
        return xs if k == 3 else tuple(xs) if k == 4 else Deal(xs)
    d = {}
    if c.bool('dictionary'):
        d = c.pick([OrderedDict(), defaultdict(list), Named()], 'dictionary')
    for i in ids:
        if c.bool('named'):
            d[i] = [c.int(0, 9)] if k == 5 else c.int(0, 9)
    if c.bool('extra'):
        d['zz'] = 1
    return d


def simple(c):
    n = 1 + c.choose(3, 'ids')
    ids = [c.str(1, 1, ((97, 122),)) for _ in range(n)]
    distinct(c, ids)
    columns = {'x': column(c, ids)}
    unbox = c.bool('unbox')
    rec = Recorder()
    c.show(ids, columns, unbox)
    k = c.choose(3, 'form')
    given = ids if k == 0 else tuple(ids) if k == 1 else (i for i in ids)
    flags = implicit(c, {'unbox_iterables': unbox, 'override_postprocessors': False, 'record_postprocessors': None},
                     unbox_iterables=True, override_postprocessors=False, record_postprocessors=None)
    got = rec.add(given, **dict(flags, **columns))
    agree(c, got, rec, ids, [expected_record(ids, i, columns, {}, unbox) for i in range(n)])


def one(c):
    """A single id."""
    i = c.str(0, 2) if c.bool('str') else c.int(0, 99)
    extract = c.bool('extract')
    rec = Recorder(id_column_name=c.pick(['id', 'key'], 'id column'), **({} if extract else {'id_extractor': None}))
    ids = [str(i) if extract else i]
    columns = {'x': column(c, ids), 'y': c.int(0, 9)}
    c.show(i, columns)
    got = rec.add(i, **columns)
    agree(c, got, rec, ids, [expected_record(ids, 0, columns, {}, True, rec.id_column_name)])


def two_columns(c):
    ids = [c.str(1, 1, ((97, 122),)) for _ in range(2)]
    distinct(c, ids)
    columns = {'x': column(c, ids), 'y': column(c, ids)}
    defaults = {k: c.int(-9, 299) for k in ('x', 'y', 'z') if c.bool('default')}
    rec = Recorder(**defaults)
    c.show(ids, columns, defaults)
    got = rec.add(ids, **columns)
    agree(c, got, rec, ids, [expected_record(ids, i, columns, defaults, True) for i in range(2)])


def defaults(c):
    """Defaults added and removed; also named as the id column."""
    initial = {k: c.pick([c.int(-9, 299), None, ''], 'default') for k in ('x', 'y') if c.bool('default')}
    rec = Recorder(**initial)
    current = dict(initial)
    for _ in range(2):
        k = c.pick(['x', 'y', 'z', 'id'], 'column')
        if c.bool('remove'):
            rec.remove_column_defaults(k, 'other')
            current.pop(k, None)
        else:
            v = c.int(-9, 399)
            rec.add_column_defaults(**{k: v})
            current[k] = v
    columns = {k: c.int(0, 99) for k in ('x', 'z') if c.bool('given')}
    i = c.str(1, 1)
    c.show(initial, current, columns)
    c.check_same(rec.column_defaults, current, 'the defaults are those set')
    got = rec.add(i, **columns)
    agree(c, got, rec, [i], [expected_record([i], 0, columns, current, True)])


def views(c):
    """What is given and what is returned can be changed afterwards."""
    d = c.int(-9, 299)
    given_defaults = {'x': d}
    log = []
    mine = [marker('a', log, False)]
    form = c.choose(2, 'form')
    rec = Recorder(record_postprocessors=mine if form else tuple(mine), **given_defaults)
    k = c.choose(6, 'change')
    if k == 0:
        rec.column_defaults['x'] = 'spoiled'
        rec.column_defaults['other'] = 'spoiled'
    elif k == 1:
        view = rec.column_defaults
        view.clear()
    elif k == 2:
        given_defaults['x'] = 'spoiled'
    elif k == 3:
        before = rec.column_defaults
        rec.add_column_defaults(x=d, y=1)
        c.check_same(before, {'x': d}, 'the defaults as they were')
        rec.remove_column_defaults('y')
    elif k == 4:
        other = Recorder(record_postprocessors=mine)
        other.add_record_postprocessors(marker('b', log, False))
        other.add_column_defaults(x='spoiled')
    else:
        posts = [marker('c', log, False)]
        rec.add('first', record_postprocessors=posts, x=1)
        c.check(len(posts) == 1, 'the postprocessors given are left as they were')
        del log[:]
    c.show(d, k, form)
    c.check_same(rec.column_defaults, {'x': d}, 'the defaults are those set')
    column = {'second': c.int(0, 9)}
    values = [c.int(0, 9)]
    got = rec.add(['second'], y=column, z=values)
    r = {'x': d, 'y': column['second'], 'z': values[0], 'id': 'second', 'order': ('a',)}
    agree(c, got, rec, ['second'], [r])
    c.check_same(log, [('a', 'second')], 'the postprocessors are those of the recorder')
    c.check(len(mine) == 1 and len(column) == 1 and len(values) == 1, 'what is given is left as it was')


def kinds_of_ids(c):
    """Ids of any kind, also named like parameters of add or columns, given by an extractor or not."""
    k = c.choose(4, 'ids')
    if k == 0:
        xs = [c.int(0, 99), c.int(100, 199)]
    elif k == 1:
        xs = [c.pick(['ids', 'default', 'items', 'self', 'x', 'params', 'name', 'key', 'values', 'None'], 'word'), 'other']
    elif k == 2:
        xs = [(c.int(0, 9), 1), ('a', c.str(0, 1))]
    else:
        xs = [None, c.bool('b')]
    how = c.choose(3, 'extractor')
    rec = Recorder(id_extractor=None if how == 0 else (lambda x: x) if how == 1 else (lambda x: ('i', x)))
    ids = xs if how < 2 else [('i', x) for x in xs]
    columns = {'x': column(c, ids), 'y': [c.int(0, 9), c.int(10, 19)]}
    c.show(xs, columns, how)
    got = rec.add(xs, **columns)
    agree(c, got, rec, ids, [expected_record(ids, i, columns, {}, True) for i in range(2)])


def marker(label, log, replace):
    def post(i, record, recorder):
        log.append((label, i))
        order = record.get('order', ()) + (label,)
        if replace:
            return dict(record, order=order)
        record['order'] = order
        return record
    return post


def postprocessors(c):
    """Which ones are applied, and their order."""
    log = []
    replace = c.bool('replace')
    mine = [marker('a', log, replace), marker('b', log, replace)][:c.choose(3, 'recorder')]
    rec = Recorder(record_postprocessors=(mine if c.bool('list') else tuple(mine)) or None)
    labels = ['a', 'b'][:len(mine)]
    k = c.choose(4, 'change')
    if k == 1:
        rec.add_record_postprocessors(marker('c', log, replace), marker('d', log, replace))
        labels = labels + ['c', 'd']
    elif k == 2:
        rec.override_record_postprocessors(marker('e', log, replace))
        labels = ['e']
    elif k == 3:
        rec.override_record_postprocessors(marker('e', log, replace))
        if c.bool('list copy'):
            rec.override_record_postprocessors(*list(rec.record_postprocessors()))
        labels = ['e']
    kw = {}
    if c.bool('call'):
        n = c.choose(3, 'call')
        post = [marker('y', log, replace), marker('z', log, replace)][:n]
        form = c.choose(3, 'form')
        kw['record_postprocessors'] = post if form == 0 else tuple(post) if form == 1 else post
        added = ['y', 'z'][:n]
        if c.bool('override'):
            kw['override_postprocessors'] = True
            labels = added
        else:
            labels = labels + added
    elif c.bool('override'):
        kw['override_postprocessors'] = True
    ids = [c.str(1, 1, ((97, 122),)) for _ in range(1 + c.choose(2, 'ids'))]
    distinct(c, ids)
    c.show(ids, labels, kw)
    got = rec.add(ids, x=1, **kw)
    records = []
    for i in range(len(ids)):
        r = expected_record(ids, i, {'x': 1}, {}, True)
        if labels:
            r['order'] = tuple(labels)
        records.append(r)
    agree(c, got, rec, ids, records)
    c.check_same(log, [(label, i) for i in ids for label in labels], 'each postprocessor is called once per record, in order')


def seen_by_postprocessors(c):
    """Postprocessors see given, default and id columns."""
    seen = []
    i, x, y = c.str(1, 1), c.int(0, 9), c.int(10, 19)
    result = {'other': c.int(20, 29)}

    def post(an_id, record, recorder):
        seen.append((an_id, dict(record), recorder is rec, len(recorder)))
        return result
    rec = Recorder(record_postprocessors=[post], y=y)
    c.show(i, x, y)
    got = rec.add(i, x=x)
    c.check_same(seen, [(i, {'x': x, 'y': y, 'id': i}, True, 0)], 'postprocessors get the id, the record and the recorder')
    c.check_same(dict(got), {i: result}, 'the record is what the last postprocessor gives')
    c.check_same(rec.get(i), [result], 'the record is what the last postprocessor gives')
    c.check_same(rec.unique('other'), set([result['other']]), 'values of a column')
    c.check_same(rec.unique('x'), set(), 'values of a column that no record has')


def repeated(c):
    """The same postprocessor several times."""
    log = []
    a, b = marker('a', log, False), marker('b', log, False)
    names = {a: 'a', b: 'b'}
    rec = Recorder()
    steps = []
    expected = []
    for _ in range(1 + c.choose(3, 'changes')):
        posts = [c.pick([a, b], 'post') for _ in range(c.choose(3, 'posts'))]
        if c.bool('override'):
            rec.override_record_postprocessors(*posts)
            expected = []
        else:
            rec.add_record_postprocessors(*posts)
        expected = expected + [names[p] for p in posts]
        steps.append(posts)
    posts = [c.pick([a, b], 'post') for _ in range(c.choose(3, 'call'))]
    i = c.str(1, 1)
    c.show(i, steps, posts)
    c.check_same([names[p] for p in rec.record_postprocessors()], expected, 'the postprocessors are those added')
    rec.add(i, record_postprocessors=posts, x=1)
    c.check_same([label for label, _ in log], expected + [names[p] for p in posts], 'each postprocessor is called as many times as added')


def longer_values(c):
    """Longer texts and integers, in each place."""
    k = c.choose(5, 'place')
    v = longer(c)
    ids = ['a', 'b'] if k < 4 else [v]
    columns = [{'x': v}, {'x': [v, 1]}, {'x': {'b': v}}, {}, {'x': [1]}][k]
    defaults = {'y': v} if k == 3 else {'x': 0}
    rec = Recorder(id_extractor=None, **defaults)
    c.show(ids, columns, defaults)
    got = rec.add(list(ids), **columns)
    agree(c, got, rec, ids, [expected_record(ids, i, columns, defaults, True) for i in range(len(ids))])


def words(c):
    """Columns with any name."""
    k = word(c)
    c.assume(k not in ('self', 'ids', 'unbox_iterables', 'override_postprocessors', 'record_postprocessors', 'id', 'add',
                       'id_column_name', 'id_extractor', 'master'))
    other = c.pick(['zz', '_zz', 'Zz'], 'other')
    x = column(c, ['a', 'b'])
    default = k != 'name' and c.bool('default')
    rec = Recorder(**({k: 5} if default else {other: 5}))
    c.show(k, x, default)
    columns = {k: x, other: c.int(0, 9)}
    how = c.choose(3, 'how')
    got = rec.add(['a', 'b'], **columns) if how == 0 else rec.add(**columns)(['a', 'b']) if how == 1 else rec.padd(**columns)(['a', 'b'])
    agree(c, got, rec, ['a', 'b'], [expected_record(['a', 'b'], i, columns, {k if default else other: 5}, True) for i in range(2)])
    vs = [r[k] for r in got.values() if k in r]
    for v in vs if not any([isinstance(v, list) for v in vs]) else []:
        c.check(v in rec.unique(k), 'values of a column')


def calls(c):
    """Curried, partial and direct calls."""
    ids = [c.str(1, 1, ((97, 122),)) for _ in range(2)]
    distinct(c, ids)
    x, y, z = column(c, ids), c.int(0, 9), c.int(10, 19)
    rec = Recorder(d=1)
    how = c.choose(8, 'how')
    c.show(ids, x, y, z, how)
    if how == 0:
        got = rec.add(ids, x=x, y=y)
    elif how == 1:
        got = rec.add(x=x, y=y)(ids)
    elif how == 2:
        got = rec.add(x=x)(y=y)(ids)
    elif how == 3:
        got = rec.padd(x=x, y=z)(ids, y=y)
    elif how == 4:
        got = rec.padd(add=rec.padd(x=x, y=z), y=y)(ids)
    elif how == 5:
        got = rec.add(x=x, y=z)(ids, y=y)
    elif how == 6:
        f = rec.add(x=x)
        f(['first'], y=z)
        got = f(ids, y=y)
    else:
        got = partial(rec.add, x=x, y=y)(ids)
    agree(c, got, rec, ids, [expected_record(ids, i, {'x': x, 'y': y}, {'d': 1}, True) for i in range(2)])


def subclasses(c):
    class Sub(Recorder):
        def add(self, ids, color, **columns):
            return super(Sub, self).add(ids, color=color, **columns)
    rec = Sub()
    i, color, x = c.str(1, 1), c.int(0, 9), c.int(0, 9)
    c.show(i, color, x)
    k = c.choose(3, 'how')
    got = rec.add(i, color, x=x) if k == 0 else rec.add(i, x=x)(color=color) if k == 1 else rec.add(color=color, x=x)(i)
    agree(c, got, rec, [i], [{'id': i, 'color': color, 'x': x}])


def once(c):
    """Values given in iterables that can be consumed just once, or have no order of their own to index."""
    n = 1 + c.choose(3, 'ids')
    ids = ['r%d' % i for i in range(n)]
    xs = [c.int(0, 99) for _ in range(c.choose(n + 2, 'dealt'))]
    k = c.choose(7, 'iterable')
    v = [lambda: (x for x in xs), lambda: iter(xs), lambda: map(lambda x: x, xs), lambda: {j: x for j, x in enumerate(xs)}.values(),
         lambda: zip(xs, xs), lambda: range(len(xs)), lambda: filter(lambda x: True, xs)][k]()
    if k == 4:
        xs = [(x, x) for x in xs]
    if k == 5:
        xs = list(range(len(xs)))
    rec = Recorder()
    c.show(n, xs, k)
    got = rec.add(ids, x=v, y=1)
    agree(c, got, rec, ids, [expected_record(ids, i, {'x': xs, 'y': 1}, {}, True) for i in range(n)])
    w = (x for x in xs)
    got = rec.add('boxed', x=w, unbox_iterables=False)
    c.check(got['boxed']['x'] is w, 'iterables are added verbatim if asked')
    c.check_same(list(w), xs, 'and not consumed')


def odd_columns(c):
    """Values with unusual special methods."""
    o, d, e = odd_value(c), other_value(c), c.pick([None, Exception, 0, object()], 'given')
    deals = isinstance(o, str) or any([k.__dict__.get('__iter__') is not None and k.__dict__.get('__getitem__') is not None for k in (type(o), type(d))])
    unbox = c.bool('unbox') and not deals
    rec = Recorder(y=d)
    c.show(type(o), type(d), type(e), unbox)
    n = 1 + c.choose(2, 'ids')
    ids = ['a', 'b'][:n]
    how = c.choose(3, 'how')
    got = rec.add(ids, unbox_iterables=unbox, x=o if how == 0 else {'a': o, 'b': o} if how == 1 else [o] * n if unbox else o)
    for i in ids:
        r = rec.get(i)[0]
        c.check(got[i] is r or dict(got[i]).keys() == dict(r).keys(), 'the record is that registered')
        c.check(sorted(r) == ['id', 'x', 'y'] and r['x'] is o and r['y'] is d, 'the record has exactly the given, default and id columns')
    rec.add('c', unbox_iterables=False, y=e)
    r = rec.get('c')[0]
    c.check(sorted(r) == ['id', 'y'] and r['y'] is e, 'given values go before defaults')


def unique(c):
    rec = Recorder()
    xs = [c.int(0, 9) for _ in range(3)]
    rec.add(['a', 'b', 'c'], x=xs, y={'a': 5})
    c.show(xs)
    got = rec.unique('x')
    for x in xs:
        c.check(x in got, 'unique has all the values of the column')
    expected = set(xs)
    c.check(len(got) == len(expected), 'unique has no other values')
    c.check_same(rec.unique('y'), set([5]), 'records without the column do not count')
    k = c.str(1, 1)
    records = rec.get('a', k, 'c')
    names = ['a'] + ([k] if k in ('a', 'b', 'c') else []) + ['c']
    c.check_same([r['id'] for r in records], names, 'get gives the registered records in order')


def many(c):
    n = c.pick(sorted(set([6, 10] + harvest.sizes())), 'records')
    m = c.pick([0, 1, n - 1, n, n + 1], 'values')
    ids = ['r%d' % i for i in range(n)]
    ids = [ids, ids[::-1], ids[1::2] + ids[::2]][c.choose(3, 'order')]
    unbox = c.bool('unbox')
    columns = {'x': [c.int(0, 9)] * min(m, 1) + list(range(1, m)), 'y': c.int(0, 9), 'z': {'r%d' % c.choose(n, 'named'): 5}}
    c.show(n, columns)
    rec = Recorder(d=3)
    got = rec.add(ids, unbox_iterables=unbox, **columns)
    agree(c, got, rec, ids, [expected_record(ids, i, columns, {'d': 3}, unbox) for i in range(n)])


def jobs(tier):
    return [Job('simple', simple, 'up to 3 ids, a column of 8 kinds', 2),
            Job('one', one, 'one id of up to 2 characters or an integer, a column of 8 kinds', 1.5),
            Job('two_columns', two_columns, '2 ids, two columns of 8 kinds, any defaults', 3),
            Job('defaults', defaults, 'any 2 changes of defaults', 1.5),
            Job('views', views, 'six changes to what is given or returned', .5),
            Job('kinds_of_ids', kinds_of_ids, 'ids of 4 kinds, three extractors, a column of 8 kinds', 2),
            Job('postprocessors', postprocessors, 'up to 4 recorder and 2 call postprocessors', 2),
            Job('seen_by_postprocessors', seen_by_postprocessors, 'a postprocessor that replaces the record'),
            Job('repeated', repeated, 'up to 3 changes and a call with up to 2 postprocessors each, out of 2', 1.5),
            Job('longer_values', longer_values, 'a text of 2..15 characters or an integer of -999..999, in 5 places', .5),
            Job('words', words, '%d names of columns, a column of 8 kinds' % len(WORDS), 1.5),
            Job('calls', calls, 'eight kinds of calls, a column of 8 kinds', 2),
            Job('subclasses', subclasses, 'a subclass overriding add'),
            Job('once', once, 'up to 3 ids, seven kinds of iterables', 1),
            Job('odd_columns', odd_columns, 'two of 32 kinds of objects with special methods or meanings', 1),
            Job('unique', unique, '3 records'),
            Job('many', many, '6, 10 and harvested numbers of records')]
