"""C14: adding records is all or nothing, ids are unique."""
from whatami.registry import Recorder
from sx.job import Job
from sx import harvest

ASSUMPTIONS = ['Postprocessors do not add records to the recorder they are called from.',
               'Ids are strings, or integers given by the id extractor.']


class Refused(Exception):
    pass


class State(object):
    """What can be seen of a recorder."""

    def __init__(self, rec, ids):
        self.n = len(rec)
        self.records = [(i, [dict(r) for r in rec.get(i)]) for i in ids]
        self.columns = rec.column_defaults
        self.post = list(rec.record_postprocessors())


def unchanged(c, rec, state, msg):
    c.check(len(rec) == state.n, msg + ': number of records')
    for i, records in state.records:
        c.check_same([dict(r) for r in rec.get(i)], records, msg + ': records')
    c.check_same(rec.column_defaults, state.columns, msg + ': defaults')
    c.check(list(rec.record_postprocessors()) == state.post, msg + ': postprocessors')


def member(x, xs):
    for y in xs:
        if x == y:
            return True
    return False


def add(c, rec, known, ids, why=None, columns=None, **kw):
    """Adds the ids: succeeds when they are new and nothing else fails. known: the ids in the recorder."""
    columns = {} if columns is None else columns
    before = State(rec, known)
    fresh = []
    repeated = False
    for i in ids:
        if member(i, known) or member(i, fresh):
            repeated = True
        fresh.append(i)
    if repeated or why is not None:
        e = c.raises(Exception, lambda: rec.add(kw.pop('given', ids), **dict(columns, **kw)))
        c.check(e is not None, 'an addition that cannot be done raises')
        unchanged(c, rec, before, 'a failed addition changes nothing')
        for i in ids:
            if not member(i, known):
                c.check_same(rec.get(i), [], 'a failed addition adds no record')
        return None
    got = rec.add(kw.pop('given', ids), **dict(columns, **kw))
    c.check_same(list(got.keys()), list(ids), 'the new records, in order')
    for i, r in zip(ids, list(got.values())):
        c.check_same(r[rec.id_column_name], i, 'records have their id')
        c.check_same(rec.get(i), [r], 'records are registered under their id')
        c.check_same(rec[i], [r], 'records are retrieved by id')
    c.check(len(rec) == before.n + len(ids), 'exactly the new records are added')
    for i, records in before.records:
        c.check_same([dict(r) for r in rec.get(i)], records, 'earlier records are unchanged')
    c.check(len(rec.unique(rec.id_column_name)) == len(rec), 'no two records share an id')
    known.extend(ids)
    return got


def ident(c):
    return c.str(1, 1, ((97, 122),))


def history(n, most):
    """Batches of possibly repeated ids."""
    def harness(c):
        rec = Recorder(kind='k')
        known = []
        shown = []
        for b in range(n):
            ids = [ident(c) for _ in range(c.choose(most + 1, 'batch'))]
            shown.append(ids)
            add(c, rec, known, ids, columns={'batch': b, 'value': c.int(0, 9)})
        c.show(shown)
    return harness


def strings(c):
    rec = Recorder()
    known = []
    a, b, d = c.str(0, 2), c.str(0, 2), c.str(0, 2)
    c.show(a, b, d)
    add(c, rec, known, [a], given=a) if c.bool('one') else add(c, rec, known, [a, b])
    add(c, rec, known, [d, b] if c.bool('swap') else [b, d])


def extracted(c):
    """Ids given by the extractor, which fails at some position."""
    n = 1 + c.choose(3, 'ids')
    xs = [c.int(0, 9) for _ in range(n)]
    fails = c.choose(n + 1, 'failing')
    calls = []

    def extractor(x):
        calls.append(x)
        if len(calls) == fails:
            raise Refused()
        return x if x < 5 else 0
    rec = Recorder(id_extractor=lambda x: x)
    known = []
    add(c, rec, known, [c.int(0, 9)])
    rec.id_extractor = extractor
    ids = [x if x < 5 else 0 for x in xs]
    c.show(xs, fails, known)
    before = State(rec, known)
    if fails:
        c.check(c.raises(Refused, rec.add, xs) is not None, 'the failure of the extractor is seen')
        unchanged(c, rec, before, 'a failed addition changes nothing')
        c.check_same(len(rec), 1, 'a failed addition adds no record')
    else:
        add(c, rec, known, ids, given=xs)


def postprocessed(c):
    """Postprocessors that fail for some record, or change them."""
    n = 1 + c.choose(3, 'ids')
    fails = c.choose(n + 1, 'failing')          # 0: none
    where = c.choose(3, 'where')
    same = c.bool('same')
    armed = []

    def checker(i, record, recorder):
        c.check(recorder is rec, 'postprocessors get the recorder')
        if not armed:
            return record
        armed.append(i)
        record['seen'] = len(armed)
        if len(armed) == fails + 1:
            raise Refused()
        return record if same else dict(record, new=1)
    other = lambda i, record, recorder: record
    rec = Recorder(record_postprocessors=[other, checker] if where == 0 else None)
    known = []
    add(c, rec, known, ['first'])
    if where == 1:
        rec.add_record_postprocessors(checker)
    armed.append(None)
    if not fails:
        fails = 99
    ids = ['r%d' % i for i in range(n - 1)] + [ident(c)]
    c.show(ids, fails, where)
    kw = {'record_postprocessors': [checker]} if where == 2 else {}
    add(c, rec, known, ids, 'fails' if fails < 99 else None, columns={'x': c.int(0, 9)}, **kw)


def emptied(c):
    """Records may be anything, also nothing, after postprocessing: their ids are taken all the same."""
    empty = c.pick([dict, lambda: None, lambda: 0, list, str, lambda: {'id': 'other'}], 'record')
    post = lambda i, record, recorder: empty() if i in ('a', 'b') else record
    rec = Recorder(record_postprocessors=[post])
    ids = ['a', ident(c)] if c.bool('two') else ['a']
    c.assume(len(ids) == 1 or ids[1] != 'a')
    got = rec.add(ids)
    c.show(ids, got)
    c.check_same(list(got.keys()), ids, 'the new records, in order')
    c.check(len(rec) == len(ids), 'exactly the new records are added')
    c.check_same(rec['a'], [empty()], 'records are registered as postprocessed')
    new = [ident(c) for _ in range(1 + c.choose(2, 'ids'))]
    repeated = member(new[0], ids) or len(new) == 2 and (member(new[1], ids) or new[0] == new[1])
    if repeated:
        c.check(c.raises(Exception, rec.add, new) is not None, 'an addition that cannot be done raises')
        c.check(len(rec) == len(ids), 'a failed addition changes nothing')
    else:
        rec.add(new)
        c.check(len(rec) == len(ids) + len(new), 'exactly the new records are added')
    c.check_same(rec['a'], [empty()], 'earlier records are unchanged')


def id_column(c):
    """A column named as the id column."""
    name = c.pick(['id', 'name', 'key'], 'column')
    rec = Recorder(id_column_name=name)
    known = []
    add(c, rec, known, ['a', 'b'], columns={'x': 1})
    other = c.pick(['id', 'name', 'key', 'other'], 'other')
    ids = [ident(c) for _ in range(1 + c.choose(2, 'ids'))]
    k = c.choose(3, 'value')
    v = c.int(0, 9) if k == 0 else [c.int(0, 9)] * len(ids) if k == 1 else {ids[-1]: 1, 'zz': 2}
    c.show(name, other, ids, v)
    add(c, rec, known, ids, 'id column' if other == name else None, columns={other: v, 'y': 2})


def broken(c):
    """Iterables of ids or values that fail midway."""
    n = c.choose(3, 'good')
    a = ident(c)
    rec = Recorder()
    known = []
    add(c, rec, known, [a])
    before = State(rec, known)

    def failing():
        for i in range(n):
            yield 'r%d' % i
        raise Refused()
    k = c.choose(3, 'where')
    c.show(a, n, k)
    f = [lambda: rec.add(failing()), lambda: rec.add(['r0', 'r1', 'r2', 'r3'], x=failing()),
         lambda: rec.add(['r0', 'r1'], y=1, x=failing() if n < 2 else 3, id=4)][k]
    c.check(c.raises(Exception, f) is not None, 'the failure is seen')
    unchanged(c, rec, before, 'a failed addition changes nothing')
    for i in range(4):
        c.check_same(rec.get('r%d' % i), [], 'a failed addition adds no record')
    add(c, rec, known, ['r0', 'r1'])


def independent(c):
    """Recorders built with the same arguments."""
    seen = []
    first = lambda i, record, recorder: dict(record, first=1)
    post = [first] if c.bool('post') else []
    defaults = {'d': c.int(0, 9)}
    r1 = Recorder(record_postprocessors=post, **defaults)
    r2 = Recorder(record_postprocessors=post, **defaults)
    second = lambda i, record, recorder: dict(record, second=1)
    op = c.choose(7, 'operation')
    if op == 0:
        r1.add_record_postprocessors(second)
    elif op == 1:
        r1.override_record_postprocessors(second)
    elif op == 2:
        r1.add_column_defaults(d='other', e=1)
    elif op == 3:
        r1.remove_column_defaults('d')
    elif op == 4:
        r1.add('a', x=1)
    elif op == 5:
        r1.record_postprocessors().append(second)
        r1.column_defaults['z'] = 1
    else:
        post.append(second)
        defaults['z'] = 1
    c.show(op, defaults)
    expected = {'id': 'a', 'd': defaults['d']}
    if len(post) > (op == 6):
        expected['first'] = 1
    c.check_same(dict(r2.add('a')), {'a': expected}, 'recorders built with the same arguments do not affect each other')
    if op in (5, 6):
        c.check_same(dict(r1.add('a')), {'a': expected}, 'copies given by a recorder do not affect it')
    c.check_same(len(r2), 1, 'recorders built with the same arguments do not affect each other')


def frame(c):
    """Insertion order, as seen in the data frame."""
    names = ['b', 'a', 'c', 'd']
    order = []
    for i in range(4):
        order.append(names.pop(c.choose(len(names), 'next')))
    cut = c.choose(5, 'cut')
    rec = Recorder()
    rec.add(order[:cut], x=1)
    c.raises(Exception, rec.add, order[:1] + ['z']) if cut else None
    rec.add(order[cut:], x=2)
    c.show(order, cut)
    df = rec.to_df()
    c.check_same([str(i) for i in df['id']], order, 'records are in insertion order')
    c.check_same([int(x) for x in df['x']], [1] * cut + [2] * (4 - cut), 'with their values')


def many(c):
    n = c.pick(sorted(set([6, 10] + harvest.sizes())), 'records')
    rec = Recorder()
    known = []
    add(c, rec, known, ['r%d' % i for i in range(n)], columns={'x': list(range(n))})
    k = c.choose(n, 'position')
    add(c, rec, known, ['s%d' % i for i in range(k)] + ['r' + c.str(1, 1, ((48, 57),))] + ['t'])
    c.show(n, k)


def many_changed(c):
    """Postprocessors that give other values to the id column: records are known by the id they were added with."""
    n = c.pick(sorted(set([1, 2, 6, 10] + harvest.sizes())), 'records')
    other = c.pick(['id', 'x'], 'column')
    value = ident(c)
    keep = c.choose(2, 'kept')

    def post(i, record, recorder):
        if keep and i == 'r0':
            return record
        record[other] = value
        return record
    rec = Recorder(record_postprocessors=[post])
    ids = ['r%d' % i for i in range(n)]
    got = rec.add(ids)
    c.show(n, other, value, keep)
    c.check_same(list(got.keys()), ids, 'the new records, in order')
    c.check(len(rec) == n, 'exactly the new records are added')
    for i in ids:
        c.check_same(rec.get(i), [got[i]], 'records are registered under their id')
    c.check(c.raises(Exception, rec.add, ['s', ids[-1]]) is not None, 'an id is not added again')
    c.check(len(rec) == n and rec.get('s') == [], 'a failed addition changes nothing')
    rec.add(value)
    c.check(len(rec) == n + 1, 'exactly the new records are added')


def jobs(tier):
    return [Job('history', history(3, 2), '3 batches of up to 2 ids', 3),
            Job('batches', history(2, 4), '2 batches of up to 4 ids', 2),
            Job('strings', strings, '2 batches of ids of up to 2 arbitrary characters', 1.5),
            Job('extracted', extracted, 'up to 3 ids, an extractor failing at any of them', 2),
            Job('postprocessed', postprocessed, 'up to 3 ids, a postprocessor failing at any of them', 2),
            Job('emptied', emptied, 'two additions of up to 2 ids, records emptied by a postprocessor'),
            Job('id_column', id_column, 'a column possibly named as the id column'),
            Job('broken', broken, 'iterables failing after up to 2 items'),
            Job('independent', independent, 'two recorders and seven operations'),
            Job('frame', frame, 'the 24 orders of 4 records in two batches', 0.5),
            Job('many_changed', many_changed, '1, 2, 6, 10 and harvested numbers of records whose id column is changed', .5),
            Job('many', many, '6, 10 and harvested numbers of records')]
