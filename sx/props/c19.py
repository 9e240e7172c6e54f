"""C19: columns extracted from ids into a table."""
from whatami import What
from whatami.whatutils import whatid2columns
from sx.job import Job
from sx import harvest
from .common import sorted_keys

ASSUMPTIONS = ['The table is a stand-in with the pandas operations listed in Frame and Column (rows have labels, assigned '
               'columns are aligned by label as in pandas); native replays use the installed pandas.',
               'Pandas may represent None as nan and integers as floats in the columns it makes.',
               'Different requested keys give different column names; the id column is not overwritten.',
               'Every row has an id.']


class Column(object):
    """What a pandas Series of objects does, with values of any kind."""

    def __init__(self, index, data):
        self.index = index
        self.data = data

    def unique(self):
        out = []
        for x in self.data:
            if x not in out:
                out.append(x)
        return out

    def drop_duplicates(self):
        out = []
        at = []
        for i, x in zip(self.index, self.data):
            if x not in out:
                out.append(x)
                at.append(i)
        return Column(at, out)

    def nunique(self):
        return len(self.unique())

    def apply(self, f):
        return Column(list(self.index), [f(x) for x in self.data])

    def map(self, f):
        if isinstance(f, dict):
            return self.apply(f.get)
        return self.apply(f)

    def tolist(self):
        return list(self.data)

    to_list = tolist

    @property
    def values(self):
        return list(self.data)

    def to_numpy(self):
        return list(self.data)

    def items(self):
        return zip(self.index, self.data)

    iteritems = items

    def copy(self):
        return Column(list(self.index), list(self.data))

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)


class Frame(object):
    """What a pandas DataFrame does."""

    def __init__(self, index, columns):
        self.index = index
        self.cols = columns                   # [[name, values]]

    @property
    def columns(self):
        return [name for name, _ in self.cols]

    @property
    def shape(self):
        return len(self.index), len(self.cols)

    def __len__(self):
        return len(self.index)

    def __contains__(self, name):
        return name in self.columns

    def __getitem__(self, name):
        for n, vs in self.cols:
            if n == name:
                return Column(self.index, vs)
        raise KeyError(name)

    def __setitem__(self, name, values):
        if isinstance(values, Column):
            byname = dict(zip(values.index, values.data))
            values = [byname.get(i) for i in self.index]
        elif isinstance(values, (list, tuple)):
            if len(values) != len(self.index):
                raise ValueError('Length of values does not match length of index')
            values = list(values)
        else:
            values = [values for _ in self.index]
        for col in self.cols:
            if col[0] == name:
                col[1] = values
                return
        self.cols.append([name, values])

    def assign(self, **columns):
        df = self.copy()
        for k, v in columns.items():
            df[k] = v
        return df

    def copy(self, deep=True):
        return Frame(list(self.index), [[n, list(vs)] for n, vs in self.cols])


def make(c, index, columns):
    if c.symbolic:
        return Frame(index, [list(x) for x in columns])
    import pandas as pd
    df = pd.DataFrame(index=index)
    for name, vs in columns:
        df[name] = pd.Series(vs, index=index, dtype=object if not len(vs) or isinstance(vs[0], str) else None)
    return df


def columns_of(df):
    return list(df.columns)


def cells(df, name):
    return list(df[name])


def index_of(df):
    return list(df.index)


def null(x):
    return x is None or isinstance(x, float) and x != x


def cell_same(c, got, expected):
    if c.symbolic:
        return c.same(got, expected)
    if null(got) and null(expected):
        return True
    if isinstance(expected, (bool, int, float)) or isinstance(got, (bool, int, float)):
        return bool(got == expected)
    return c.same(got, expected)


def path_value(w, key):
    v = w
    for k in (key if isinstance(key, (tuple, list)) else (key,)):
        try:
            v = v.conf[k] if isinstance(v, What) else v[k]
        except (KeyError, IndexError, TypeError):
            return None
    return v


def colname(key):
    return '_'.join([str(k) for k in key]) if isinstance(key, (tuple, list)) else key


def all_keys(whats):
    out = []

    def visit(w, path):
        for k in sorted_keys(w.conf):
            p = path + (k,)
            if p not in out:
                out.append(p)
            if isinstance(w.conf[k], What):
                visit(w.conf[k], p)
    for w in whats:
        visit(w, ())
    return [p[0] if len(p) == 1 else p for p in out]


def run(c, rows, keys, prefix='', postfix='', inplace=True, positional=False, whatcol='id', others=()):
    """rows: configurations, one per row (parsing their ids gives them back)."""
    n = len(rows)
    index = [(i * 3 + 5) % 7 * 2 for i in range(n)] if n <= 7 else [n - i for i in range(n)]
    texts = [w.id() for w in rows]
    columns = [('before', [i * 10 for i in range(n)]), (whatcol, texts)] + list(others)
    df = make(c, index, columns)
    c.show(texts, keys, prefix, postfix, inplace)
    kwargs = {}
    if keys is not None or c.bool('explicit'):
        kwargs['columns'] = keys
    if prefix != '' or prefix is None:
        kwargs['prefix'] = prefix
    if postfix != '' or postfix is None:
        kwargs['postfix'] = postfix
    if not inplace:
        kwargs['inplace'] = False
    res = whatid2columns(df, whatcol, **kwargs)
    expected = all_keys(rows) if keys is None else keys
    pre = '' if prefix is None else prefix
    post = '' if postfix is None else postfix
    added = [(pre + colname(k) + post, [path_value(w, k) for w in rows]) for k in expected]
    table = [list(x) for x in columns]
    for name, vs in added:
        for t in table:
            if t[0] == name:
                t[1] = vs
                break
        else:
            table.append([name, vs])
    if inplace:
        c.check(res is df, 'the table itself is returned in place')
    else:
        c.check(res is not df, 'a copy is returned when not in place')
        c.check_same(columns_of(df), [name for name, _ in columns], 'the input has the same columns when not in place')
        for name, vs in columns:
            for a, b in zip(cells(df, name), vs):
                c.check(cell_same(c, a, b), 'the input is unchanged when not in place')
    got = columns_of(res)
    c.check(len(got) == len(table), 'one column is added per key')
    c.check_same(index_of(res), index, 'the rows are the same')
    c.check_same(got[:len(columns)], [name for name, _ in columns], 'the other columns stay')
    for name, vs in table:
        c.check(name in got, 'columns are named by key path, prefix and postfix')
        col = cells(res, name)
        c.check(len(col) == len(vs), 'as many rows as before')
        for a, b in zip(col, vs):
            c.check(cell_same(c, a, b), 'each row has the values in its id')


def small(c, i):
    k = c.choose(4, 'row')
    if k == 0:
        return What('A', {'x': c.int(0, 9)})
    if k == 1:
        return What('A', {'x': c.int(0, 9), 'w': What('B', {'x': c.int(0, 9)})})
    if k == 2:
        return What('A', {'y': c.str(0, 1, ((97, 122),)), 'w': 3})
    return What('B', {})


def rows(n):
    def harness(c):
        m = c.choose(n + 1, 'rows')
        ws = [small(c, i) for i in range(m)]
        keys = c.pick([None, ['x'], [('w', 'x')], ['y', 'x'], [['w', 'x'], 'nope']], 'columns')
        run(c, ws, keys)
    return harness


LETTERS = ((32, 32), (45, 46), (65, 90), (95, 95), (97, 122))


def options(c):
    """Prefixes, postfixes, copies and overwritten columns."""
    ws = [What('A', {'x': c.int(0, 9), 'w': What('B', {'z': c.int(0, 9)})}),
          What('A', {'x': c.int(0, 9)})]
    prefix = None if c.bool('no prefix') else c.str(0, 2, LETTERS)
    postfix = None if c.bool('no postfix') else c.str(0, 2, LETTERS)
    keys = c.pick([None, ['x'], [('w', 'z'), 'x']], 'columns')
    others = [('x', [7, 8])] if c.bool('old') else [('q', [7, 8])]
    if prefix is not None:
        for name in ('id', 'before'):
            c.assume((prefix + 'x' + ('' if postfix is None else postfix)) != name)
    run(c, ws, keys, prefix, postfix, not c.bool('copy'), others=others)


def names(c):
    """Any key names."""
    k1, k2 = c.ident(1, 2, reserved=False), c.ident(1, 2, reserved=False)
    c.assume(c.differ(k1, k2))
    for k in (k1, k2):
        c.assume(c.differ(k, 'id'))
    ws = [What('A', {k1: c.int(0, 9), k2: What('B', {k1: 4})}), What('A', {k2: c.int(0, 9)})]
    keys = c.pick([None, [k1, k2], [(k2, k1)], [k2]], 'columns')
    run(c, ws, keys)


def repeated(c):
    """Rows with the same id, and different ids with the same content."""
    a = What('A', {'x': c.int(0, 2), 'y': 1})
    b = What('A', {'x': c.int(0, 2), 'y': 2})
    run(c, [c.pick([a, b], 'which') for _ in range(4)], c.pick([None, ['y', 'x']], 'columns'))


def blanks(c):
    """Ids which differ in characters within strings."""
    ranges = ((32, 32), (95, 95), (97, 98), (65, 65))
    n = c.choose(3, 'length')
    a, b = c.str(n, n + 1, ranges), c.str(n, n + 1, ranges)
    run(c, [What('A', {'x': a}), What('A', {'x': b}), What('A', {'x': a, 'y': 1})][:c.choose(2, 'rows') + 2], ['x'])


def empty(c):
    """Tables without rows."""
    run(c, [], c.pick([None, [], ['x'], [('x', 'y'), 'z']], 'columns'), prefix=c.pick(['', 'p_', None]),
        inplace=not c.bool('copy'))


def values(c):
    """Values of all kinds."""
    k = c.choose(7, 'value')
    v = c.int() if k == 0 else c.str(0, 1, ((97, 122), (48, 57))) if k == 1 else None if k == 2 else c.bool() if k == 3 else \
        [c.int(0, 9), 1] if k == 4 else (c.int(0, 9), 'a') if k == 5 else c.pick([0.5, float('inf')])
    ws = [What('A', {'x': v, 'l': [5, {'k': c.int(0, 9)}]}), What('A', {'x': 'b'}), What('A', {'l': [5]})]
    if c.bool('swap'):
        ws = ws[::-1]
    run(c, ws, c.pick([['x'], [('l', 1, 'k'), 'x'], [('l', 0)], [('x', 'y')]], 'columns'))


def out_names(c):
    ws = [What('A', {'x': c.int(0, 9)}, out_name='o'), What('A', {'o': 1, 'x': c.int(0, 9)})]
    run(c, ws, c.pick([None, ['x', 'o']], 'columns'), inplace=not c.bool('copy'), whatcol=c.pick(['id', 'what', 'w_x']))


def levels(c):
    """Keys of several levels, that some of the ids have only in part."""
    def one():
        v = c.int(0, 9)
        deep = c.choose(5, 'level')
        names = ['w', 'x', 'y', 'z'][:deep]
        for i, k in enumerate(names[::-1]):
            v = What('N', {k: v, 'other': i}) if i == deep - 1 or not c.bool('dict') else {k: v, 'q': i}
        return v if names else What('A', {'y': v})
    n = 1 + c.choose(4, 'components')
    path = tuple([c.pick(['w', 'x', 'y', 'z', 'q'], 'component') if c.bool('other') else k for k in ['w', 'x', 'y', 'z'][:n]])
    run(c, [one(), one()], [path if n > 1 else path[0], 'y'] if path != ('y',) else ['y'])


def many(c):
    n = c.pick(sorted(set([9] + harvest.sizes())), 'rows')
    i = c.pick([0, n // 2, n - 1], 'position')
    m = c.pick([3, 7, 1000], 'different')
    ws = [What('A', {'x': (n - j) % m}) for j in range(n)]
    ws[i] = What('A', {'x': c.int(0, 9), 'y': 3})
    run(c, ws, c.pick([None, ['y', 'x']], 'columns'))


def jobs(tier):
    n = 4 if tier == 'thorough' else 3
    return [Job('rows', rows(n), 'up to %d rows of 4 shapes with any values 0..9 or letters, 5 column lists' % n, 4),
            Job('options', options, '2 rows, prefixes and postfixes of up to 2 letters, underscores, dashes, dots and blanks or None', 3),
            Job('names', names, 'keys of up to 2 characters', 2),
            Job('repeated', repeated, '4 rows with 2 ids'),
            Job('blanks', blanks, '2..3 rows with strings of up to 3 characters'),
            Job('empty', empty, 'no rows', .3),
            Job('values', values, '3 rows, 7 kinds of values'),
            Job('out_names', out_names, '2 rows, with output names'),
            Job('levels', levels, '2 rows of up to 4 levels, keys of up to 4 components', 2),
            Job('many', many, '9 and harvested numbers of rows')]
