"""C30: recorder queries give exactly what was recorded."""
from whatami.registry import Recorder
from sx.job import Job
from sx import harvest
from .common import other_value, is_hashable, odd_value

ASSUMPTIONS = ['pandas itself runs natively: its frames hold concrete values.',
               'Values of the columns given to unique are hashable.']


def ident(c, hi=1):
    return c.str(1, hi, ((97, 100),))


def filled(c, n=3, column=True):
    """A recorder with up to n records, and them."""
    rec = Recorder()
    known = []
    for j in range(c.choose(n + 1, 'records')):
        i = ident(c)
        for k in known:
            c.assume(c.differ(k['id'], i))
        conf = {}
        if column and c.bool('column'):
            conf['x'] = c.int(0, 9)
        rec.add(i, n=j, **conf)
        known.append(dict(conf, id=i, n=j))
    return rec, known


def got(c):
    """Records by id."""
    rec, known = filled(c)
    asked = [ident(c) for _ in range(c.choose(4, 'asked'))]
    c.show(known, asked)
    expected = [k for a in asked for k in known if k['id'] == a]
    c.check_same(rec.get(*asked), expected, 'get gives the records with the ids, as often and in the order asked')
    c.check_same(len(rec), len(known), 'as many records as added')
    for a in asked:
        c.check_same(rec[a], [k for k in known if k['id'] == a], 'the record with an id, if any')
    c.check_same(rec.get(), [], 'no ids, no records')
    c.check_same(rec.get(*[k['id'] for k in known]), known, 'all the records')
    for k in known:
        c.check(rec.get(k['id'])[0] is rec[k['id']][0], 'records are always the same object')


def got_any(c):
    """Ids of several kinds."""
    rec = Recorder(id_extractor=None)
    ids = [c.int(0, 3), c.pick(['a', None, (1, 2), -1, 7.5], 'id')]
    for j, i in enumerate(ids):
        rec.add([i], n=j)
    a = c.pick([0, 1, 'a', None, (1, 2), -1, 7.5, '0', (1,)], 'asked')
    c.show(ids, a)
    c.check_same(rec.get(a), [{'id': i, 'n': j} for j, i in enumerate(ids) if i == a], 'get gives the records with the ids')
    c.check_same(rec[a], rec.get(a), 'also with brackets')


def values(c):
    """The values of a column."""
    rec = Recorder()
    n = c.choose(4, 'records')
    vs = []
    for j in range(n):
        k = c.choose(3, 'value')
        if k == 0:
            rec.add('r%d' % j, y=1)
        else:
            v = c.str(0, 1) if k == 1 else c.pick([None, 0, 1, False, 2.5, (1,), frozenset(), 'x', 'y', 'id', ''], 'value')
            rec.add('r%d' % j, x=v, unbox_iterables=False)
            vs.append(v)
    c.show(vs)
    u = rec.unique('x')
    c.check(isinstance(u, set), 'a set')
    c.check(all([v in u for v in vs]), 'unique has the values of the column in all the records')
    c.check(all([any([v == w for w in vs]) for v in u]), 'unique has no other values')
    c.check_same(rec.unique('y'), set([1] if len(vs) < n else []), 'the values of other columns')
    c.check_same(rec.unique('id'), set(['r%d' % j for j in range(n)]), 'the values of the id column')
    c.check_same(rec.unique(c.str(3, 4)), set(), 'no values for missing columns')


def untouched(c):
    """Queries change nothing."""
    rec, known = filled(c, 2)
    for _ in range(3):
        q = c.choose(6, 'query')
        if q == 0:
            rec.get(ident(c))
        elif q == 1:
            rec[ident(c)]
        elif q == 2:
            rec.unique('x').add(77)
        elif q == 3:
            rec.get('zz', *[k['id'] for k in known]).append(1)
        elif q == 4:
            rec.column_defaults['zz'] = 1
        else:
            list(rec.record_postprocessors()).append(1)
    c.show(known)
    c.check_same(rec.get(*[k['id'] for k in known]), known, 'queries change nothing')
    c.check_same(len(rec), len(known), 'queries change nothing')
    c.check_same(rec.add('new')['new'], {'id': 'new'}, 'queries change nothing')


def missing(x):
    return x is None or x != x


def records(c):
    """Records made by postprocessors."""
    n = 1 + c.choose(3, 'records')
    made = []
    for j in range(n):
        made.append([lambda: {}, lambda: {'x': 1}, lambda: {'x': c.int(0, 9), 'id': 'r0'}, lambda: {'x': None, 'id': c.str(1, 1)}][c.choose(4, 'record')]())
    rec = Recorder(record_postprocessors=[lambda i, record, recorder: made[record['n']]])
    rec.add(['r%d' % j for j in range(n)], n=list(range(n)))
    c.show(made)
    c.check_same(len(rec), n, 'as many records as added')
    for j in range(n):
        c.check_same([r is made[j] for r in rec.get('r%d' % j)], [True], 'get gives the records with the ids')
    c.check_same(rec.get(*['r%d' % j for j in reversed(range(n))]), made[::-1], 'get gives the records with the ids, in the order asked')
    u = rec.unique('x')
    c.check(all([r['x'] in u for r in made if 'x' in r]), 'unique has the values of the column in all the records')
    c.check(all([any([v == r.get('x', 'no') for r in made]) for v in u]), 'unique has no other values')


def odd_values(c):
    """Values with unusual special methods."""
    o, p = odd_value(c), other_value(c)
    rec = Recorder()
    rec.add('a', unbox_iterables=False, x=o, y=p)
    rec.add('b', unbox_iterables=False, y=c.int(0, 3))
    made = rec.get('a')[0]
    c.show(type(o), type(p))
    for r in (rec.get('a'), rec['a'], rec.get('b', 'a')[1:], rec.get('zz', 'a')):
        c.check(len(r) == 1 and r[0] is made, 'get gives the records with the ids')
    c.check(made['x'] is o and made['y'] is p, 'the record has the values given')
    if is_hashable(o):
        u = rec.unique('x')
        c.check(len(u) == 1 and list(u)[0] is o, 'unique has the values of the column in all the records')


def frame_alike(c):
    """Frames of records made by postprocessors."""
    n = 1 + c.choose(3, 'records')
    made = [c.pick([{'x': 1}, {'x': 2, 'id': 'r'}, {'x': 1, 'id': 'r'}, {}], 'record') for j in range(n)]
    rec = Recorder(record_postprocessors=[lambda i, record, recorder: made[record['n']]])
    rec.add(['r%d' % (9 - j) for j in range(n)], n=list(range(n)))
    c.show(made)
    df = rec.to_df()
    c.check(len(df) == n, 'a row per record')
    c.check(set(df.columns) == set([k for r in made for k in r]), 'a column per attribute')
    for j in range(n):
        if 'x' in df:
            v = df['x'].iloc[j]
            c.check(missing(v) if 'x' not in made[j] else v == made[j]['x'], 'rows are in insertion order, with the values of the records')
        if 'id' in df:
            v = df['id'].iloc[j]
            c.check(missing(v) if 'id' not in made[j] else v == 'r', 'rows are in insertion order, with the values of the records')


def frame(c):
    """The data frame with all the records."""
    rec = Recorder(id_column_name=c.pick(['id', 'name'], 'id column'))
    n = c.choose(4, 'records')
    names = ['b', 'a', 'c']
    known = []
    for j in range(n):
        i = names.pop(c.choose(len(names), 'id'))
        conf = {}
        if c.bool('x'):
            conf['x'] = c.pick([3, 'text', None, 2.5], 'value')
        if c.bool('y'):
            conf['y'] = j
        rec.add(i, **conf)
        known.append(dict(conf, **{rec.id_column_name: i}))
    c.show(known)
    df = rec.to_df()
    c.check(len(df) == n, 'a row per record')
    if n:
        columns = set([k for r in known for k in r])
        c.check(set(df.columns) == columns and len(df.columns) == len(columns), 'a column per attribute')
        for j, r in enumerate(known):
            c.check(df.index[j] == r[rec.id_column_name], 'rows are in insertion order')
            for k in columns:
                v = df[k].iloc[j]
                c.check(missing(v) if missing(r.get(k)) else v == r[k], 'each row has the values of the record')


def frame_any(c):
    """Ids of several kinds."""
    rec = Recorder(id_extractor=None)
    kinds = ['a', 'b', None, 1, 0, 2.5, (1, 2), (3,), b'a', frozenset([1]), '']
    ids = []
    n = 1 + c.choose(3, 'records')
    for j in range(n):
        ids.append(kinds.pop(c.choose(len(kinds), 'id')))
    if c.bool('at once'):
        rec.add(ids, n=list(range(n)))
    else:
        for j, i in enumerate(ids):
            rec.add([i], n=j, **({'y': 5} if c.bool('y') else {}))
    c.show(ids)
    df = rec.to_df()
    c.check(len(df) == n, 'a row per record')
    c.check(list(df['n']) == list(range(n)), 'rows are in insertion order, with the values of the records')
    for j, i in enumerate(ids):
        v = df['id'].iloc[j]
        c.check(missing(v) if i is None else v == i and type(v) == type(i) or isinstance(i, (int, float)) and v == i, 'rows have the ids of the records')
        r = rec.get(i)[0]
        if 'y' in df:
            v = df['y'].iloc[j]
            c.check(v == 5 if 'y' in r else missing(v), 'each row has the values of the record')
        else:
            c.check('y' not in r, 'a column per attribute')


def frame_many(c):
    n = c.pick(sorted(set([5, 12] + harvest.sizes())), 'records')
    k = c.choose(3, 'order')
    ids = [['r%d' % (n - i) for i in range(n)], ['r%d' % (i * 7 % n) if n % 7 else 'r%d' % i for i in range(n)],
           [n - i for i in range(n)]][k]
    rec = Recorder(id_extractor=None)
    rec.add(ids, x=list(range(n)))
    c.show(n, k)
    df = rec.to_df()
    c.check(list(df['id']) == ids and list(df.index) == ids, 'rows are in insertion order')
    c.check(list(df['x']) == list(range(n)), 'each row has the values of the record')
    at = c.choose(n, 'record')
    c.check_same(rec.get(ids[at], 'zz'), [{'id': ids[at], 'x': at}], 'get gives the records with the ids')
    asked = [ids[::-1], ids[1::2] + ['zz'] + ids[::2], ids + ids[:1]][c.choose(3, 'asked')]
    c.check_same(rec.get(*asked), [{'id': i, 'x': ids.index(i)} for i in asked if i != 'zz'], 'in the order asked')
    c.check(rec.unique('x') == set(range(n)), 'unique has the values of the column in all the records')


def jobs(tier):
    return [Job('got', got, 'up to 3 records, up to 3 ids', 3),
            Job('got_any', got_any, 'ids of six kinds', .5),
            Job('values', values, 'up to 3 records, values of eight kinds', 2),
            Job('untouched', untouched, 'up to 2 records, 3 queries', 1),
            Job('records', records, 'up to 3 records of four kinds', 1),
            Job('odd_values', odd_values, 'an object of 32 kinds, with special methods or meanings, and another of 7', .5),
            Job('frame_alike', frame_alike, 'up to 3 records of three kinds', .5),
            Job('frame', frame, 'up to 3 records in any order, values of four kinds', 1),
            Job('frame_many', frame_many, '5, 12 and harvested numbers of records, 3 orders', .5),
            Job('frame_any', frame_any, 'up to 3 records with ids of 11 kinds', 1)]
