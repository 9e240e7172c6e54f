"""C32: arrays, tables and random generators are identified by their type and content."""
import os
import pickle
import re
import shutil
import tempfile
from functools import partial

import numpy
import pandas

from whatami import What, whatable
from whatami import plugins
from whatami.misc import maybe_import
from whatami.minijoblib.hashing import hasher
from sx import ops
from sx.job import Job
from sx import harvest
from . import c22
from .common import implicit

ASSUMPTIONS = ['The cells of arrays are symbolic integers (0..255, also as floats, complex numbers and dates) and ascii '
               'characters: numpy holds a unique mark for each, wherever the hashed bytes have a mark the value it stands for is '
               'put (code that computes with the cells of the array, other than moving them, is only checked on witnesses).',
               'numpy, pandas and the pickler of the standard library run natively.',
               'Arrays with the same content and another memory layout may have another id. Masked arrays are out of the claim.',
               'Equal tables have the same kind of index and were built in the same way.']

MARK, CHAR = 0x5B1D00, 0x10E000


class Cells(object):
    values = []         # (value, integer or character) by number of mark
    marks = {}          # what stands for it, by the bytes of a mark
    found = None


def bytes_of(v, size):
    """The bytes of an integer (those of floats, injective too, are others but for zero)."""
    return chr(v) + '\0' * (size - 1)


def float_of(v, size):
    return '\0' * (size - 2) + chr(v) + '\0'


def marks(i, v, integer):
    out = {}
    if not integer:
        for order in ('<', '>'):
            out[numpy.array(chr(CHAR + i), order + 'U1').tobytes()] = v + '\0\0\0' if order == '<' else '\0\0\0' + v
        return out
    for code, show in (('i8', bytes_of), ('f8', float_of), ('f4', float_of), ('i4', bytes_of)):
        b = numpy.array(MARK + i, '<' + code).tobytes()
        t = show(v, len(b))
        out.setdefault(b, t)
        out.setdefault(b[::-1], t[::-1])
    out[str(MARK + i).encode()] = str(v)
    return out


def decode(b):
    """Bytes as text, with the symbolic values for their marks."""
    if not Cells.values:
        return b.decode('latin-1')
    if Cells.found is None:
        Cells.marks = {}
        for i, (v, integer) in enumerate(Cells.values):
            for k, t in marks(i, v, integer).items():
                Cells.marks.setdefault(k, t)
        Cells.found = re.compile(b'|'.join([re.escape(k) for k in sorted(Cells.marks, key=lambda k: -len(k))]), re.DOTALL)
    out = []
    at = 0
    for m in Cells.found.finditer(b):
        out.append(b[at:m.start()].decode('latin-1'))
        out.append(Cells.marks[m.group()])
        at = m.end()
    out.append(b[at:].decode('latin-1'))
    return ''.join(out)


def raw(v, dtype):
    """What numpy should hold for v."""
    if dtype.kind in 'Ob' or not isinstance(v, (int, str)):
        return v
    i = len(Cells.values)
    Cells.found = None
    if dtype.kind == 'U':
        Cells.values.append((v, False))
        return chr(CHAR + i)
    Cells.values.append((v, True))
    return float(MARK + i) if dtype.kind in 'fc' else MARK + i


class Watched(object):
    """Symbolic messages while in use."""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        if self.c.symbolic:
            if not self.c.cache.get('c22'):
                c22.install()
                self.c.cache['c22'] = True
                c22.Marks.values = []
            ops.SymDigestObject.decode = c22.message
            ops.SymDigestObject.tokens = True
            c22.decoder[0] = decode

    def __exit__(self, *args):
        if self.c.symbolic:
            ops.SymDigestObject.decode = None
            ops.SymDigestObject.tokens = False
            c22.decoder[0] = c22.latin


def start(c):
    Cells.values = []
    Cells.found = None


def hashed(c, *args, **kwargs):
    with Watched(c):
        return hasher(*args, **kwargs)


def text(c, v):
    """How v is shown in a configuration."""
    with Watched(c):
        i = What('a', {'x': v}).id()
    c.check(i.startswith('a(x=') and i.endswith(')'), 'a parameter of the configuration')
    return i[4:-1]


def is_digest(s):
    return len(s) == 32 and all([ch in '0123456789abcdef' for ch in s])


class Sub(numpy.ndarray):
    pass


CLASSES = [numpy.ndarray, Sub, numpy.matrix]
DTYPES = ['i8', 'f8', 'i4', 'u4', 'U1', '>i8', 'c16', 'M8[s]', 'u8', 'O', '?']
SHAPES = [(2,), (1,), (2, 1), (1, 2), (2, 2), (), (0,), (4,), (0, 2), (1, 2, 1)]
LAYOUTS = ['plain', 'fortran', 'step', 'reversed', 'readonly']


def size(shape):
    n = 1
    for x in shape:
        n *= x
    return n


def cell(c, dtype):
    k = numpy.dtype(dtype).kind
    return c.str(1, 1, ((33, 126),)) if k == 'U' else c.bool('cell') if k == 'b' else c.int(0, 255)


class Spec(object):
    """An array to be built: class, dtype, shape, layout and cells."""

    def __init__(self, cls, dtype, shape, layout, cells):
        self.parts = (cls, dtype, shape, layout)
        self.cells = cells

    def build(self, c):
        cls, dtype, shape, layout = self.parts
        dt = numpy.dtype(dtype)
        vs = [raw(v, dt) if c.symbolic else float(v) if dt.kind in 'fc' else v for v in self.cells]
        a = numpy.empty(len(vs), dt)
        for i, v in enumerate(vs):
            a[i] = v
        a = a.reshape(shape)
        if layout == 'fortran' and shape:
            a = numpy.asfortranarray(a)
        elif layout == 'step' and shape:
            b = numpy.zeros(shape[:-1] + (shape[-1] * 2,), dt)
            b[..., ::2] = a
            a = b[..., ::2]
        elif layout == 'reversed' and shape:
            a = a[::-1].copy()[::-1]
        if cls is not numpy.ndarray:
            a = a.view(cls)
        if layout == 'readonly':
            a.flags.writeable = False
        return a


def spec(c, classes=1, dtypes=5, shapes=5, layouts=1):
    cls = c.pick(CLASSES[:classes], 'class')
    dtype = c.pick(DTYPES[:dtypes], 'dtype')
    shape = c.pick(SHAPES[:shapes], 'shape')
    if cls is numpy.matrix and len(shape) != 2:
        shape = (1, size(shape))
    return Spec(cls, dtype, shape, c.pick(LAYOUTS[:layouts], 'layout'), [cell(c, dtype) for _ in range(size(shape))])


def iff(c, a, b):
    return c.all(c.implies(a, b), c.implies(b, a))


def pairs(c, **bounds):
    """Ids are the same for the same class, type, shape and content only."""
    start(c)
    s, t = spec(c, **bounds), spec(c, **bounds)
    x, y = s.build(c), t.build(c)
    c.show(s.parts, s.cells, t.parts, t.cells)
    a, b = text(c, x), text(c, y)
    equal = c.same(s.cells, t.cells) if s.parts[:3] == t.parts[:3] else False
    if s.parts[3] == t.parts[3]:
        c.check(iff(c, a == b, equal), 'arrays have the same id for the same class, type, shape and content only')
    else:
        c.check(c.implies(a == b, equal), 'arrays with another class, type, shape or content have another id')


def one_dtype(c):
    """Same class, type and shape: the content decides."""
    start(c)
    s = spec(c, 3, len(DTYPES), len(SHAPES), len(LAYOUTS))
    t = Spec(s.parts[0], s.parts[1], s.parts[2], s.parts[3], [cell(c, s.parts[1]) if c.bool('other') else v for v in s.cells])
    x, y = s.build(c), t.build(c)
    c.show(s.parts, s.cells, t.cells)
    c.check(iff(c, text(c, x) == text(c, y), c.same(s.cells, t.cells)), 'arrays have the same id for the same content only')


def cells(c, dtype, n):
    return [cell(c, dtype) for _ in range(n)]


VIEWS = [lambda b: b[:2], lambda b: b[2:4], lambda b: b[::2][:2], lambda b: b[1::2][:2], lambda b: b[1:3], lambda b: b[4:6], lambda b: b[3::-1][:2], lambda b: b[::-1][:2],
         lambda b: b[::-2][:2], lambda b: b[::3], lambda b: b[1::3], lambda b: b[:4].reshape(2, 2), lambda b: b[:4].reshape(2, 2).T, lambda b: b[2:].reshape(2, 2),
         lambda b: b.reshape(2, 3)[:, :2], lambda b: b.reshape(2, 3)[:, 1:], lambda b: b.reshape(3, 2)[:, 0][:2], lambda b: b.reshape(3, 2)[:, 1][1:],
         lambda b: b.reshape(3, 2)[1], lambda b: b.reshape(2, 3)[:, ::2], lambda b: b.reshape(3, 2).T[:, :2], lambda b: b.reshape(3, 2).T[:, 1:], lambda b: b[:4].reshape(2, 2)[::-1],
         lambda b: b[:2].reshape(1, 2), lambda b: b[:2].reshape(2, 1), lambda b: b[::2][:2].reshape(2, 1), lambda b: b[0:1].reshape(()), lambda b: b[1:2].reshape(()), lambda b: b[1:2],
         lambda b: b[2:2], lambda b: numpy.broadcast_to(b[:1], (2,)), lambda b: numpy.broadcast_to(b[1:2], (2,))]


def views(c):
    """Views of the same array."""
    start(c)
    dtype = c.pick(['i8', 'f8'], 'dtype')
    base = Spec(numpy.ndarray, dtype, (6,), 'plain', cells(c, dtype, 6))
    b = base.build(c)
    f, g = c.pick(VIEWS, 'view'), c.pick(VIEWS, 'other view')
    x, y = f(b), g(b)
    at = [h(numpy.arange(6)) for h in (f, g)]
    c.show(base.cells, at[0].tolist(), at[1].tolist())
    equal = c.same([base.cells[i] for i in at[0].ravel().tolist()], [base.cells[i] for i in at[1].ravel().tolist()]) if x.shape == y.shape else False
    same = text(c, x) == text(c, y)
    if x.strides == y.strides:
        c.check(iff(c, same, equal), 'views of an array have the same id for the same shape and content only')
    else:
        c.check(c.implies(same, equal), 'views of an array with another shape or content have another id')
    c.check(c.implies(text(c, x.copy()) == text(c, y.copy()), equal), 'copies of views of an array with another shape or content have another id')


def shapes(c):
    """The same cells in other shapes."""
    start(c)
    dtype = c.pick(['i8', 'f8', 'U1', 'O', '>i8'], 'dtype')
    n = c.pick([1, 2, 4, 0], 'size')
    options = [h for h in SHAPES + [(1, 1), (1, 4), (4, 1), (2, 2, 1), (2, 1, 2), (1, 0)] if size(h) == n]
    s, t = c.pick(options, 'shape'), c.pick(options, 'other shape')
    cls = c.pick(CLASSES[:2], 'class')
    vs = cells(c, dtype, n)
    x, y = [Spec(cls, dtype, h, 'plain', vs).build(c) for h in (s, t)]
    c.show(dtype, s, t, vs)
    c.check((text(c, x) == text(c, y)) == (s == t), 'arrays of other shapes have another id')


def dtypes(c):
    """The same cells with other types."""
    start(c)
    s, t = c.pick(TYPES, 'dtype'), c.pick(TYPES, 'other dtype')
    n = c.pick([0, 1, 2], 'size')
    cls = c.pick(CLASSES[:2], 'class')
    cls2 = c.pick(CLASSES[:2], 'other class') if s == t else cls
    vs = cells(c, 'i8', n)
    ws = [c.int(0, 255) if c.bool('other') else v for v in vs]
    x, y = Spec(cls, s, (n,), 'plain', vs).build(c), Spec(cls2, t, (n,), 'plain', ws).build(c)
    c.show(s, t, vs, ws)
    equal = c.same(vs, ws) if s == t and cls is cls2 else False
    c.check(iff(c, text(c, x) == text(c, y), equal), 'arrays have the same id for the same class, type and content only')


TYPES = ['i8', '>i8', 'u8', 'f8', '>f8', 'M8[s]', 'M8[D]', 'm8[s]', 'i4', 'u4', '>i4', 'f4', 'c16', 'O']
RECORDS = [[('a', 'i8'), ('b', 'i8')], [('b', 'i8'), ('a', 'i8')], [('a', 'i8'), ('c', 'i8')], [('a', 'i8'), ('b', 'f8')], [('a', 'i8', (2,))], [('a', 'i8'), ('b', 'i4'), ('c', 'i4')]]


def records(c):
    """Arrays of records."""
    start(c)
    s, t = c.pick(RECORDS, 'record'), c.pick(RECORDS, 'other record')
    vs = cells(c, 'i8', 4)
    ws = [c.int(0, 255) if c.bool('other') else v for v in vs]

    def build(fields, values):
        a = numpy.zeros(2, fields)
        for k, v in enumerate(values):
            if len(fields) == 1:
                a['a'][k // 2][k % 2] = raw(v, numpy.dtype('i8')) if c.symbolic else v
            else:
                a[fields[k % 2][0]][k // 2] = raw(v, numpy.dtype(fields[k % 2][1])) if c.symbolic else v
        return a
    c.show(s, t, vs, ws)
    c.check(iff(c, text(c, build(s, vs)) == text(c, build(t, ws)), c.same(vs, ws) if s == t else False),
            'arrays of records have the same id for the same fields and content only')


def again(c):
    """The same array built in other ways, copied and used."""
    start(c)
    s = spec(c, 3, len(DTYPES), len(SHAPES), 2)
    cls, dtype, shape, layout = s.parts
    x = s.build(c)
    c.show(s.parts, s.cells)
    kept = x.copy(order='K')
    i = text(c, x)
    c.check(i.startswith(cls.__name__ + "(hash='") and i.endswith("')"), 'an array is shown as its class and hash')
    c.check(is_digest(i[len(cls.__name__) + 7:-2]), 'an array is shown as its class and hash')
    c.check(text(c, x) == i, 'the id does not change when asked again')
    c.check(x.dtype == kept.dtype and x.shape == kept.shape and x.tolist() == kept.tolist() and x.flags.writeable,
            'the array is unchanged')
    k = c.choose(5, 'again')
    if k == 0:
        y = x.copy(order='K')
    elif k == 1:
        y = Spec(cls, dtype, shape, layout, s.cells).build(c)
    elif k == 2 and dtype not in ('O', '>i8') and cls is not Sub and layout == 'plain':
        y = pickle.loads(pickle.dumps(x))
    elif k == 3:
        # a part of a longer array
        b = numpy.zeros((3,) + shape, x.dtype)
        b[1:2] = x
        y = b[1].view(cls) if shape else b[1:2].reshape(()).view(cls)
        if layout == 'fortran' and shape:
            y = numpy.asfortranarray(y).view(cls)
    else:
        y = x
        repr(x), x.size
    c.check(text(c, y) == i, 'an array with the same content has the same id')


def places(c):
    """Arrays anywhere."""
    start(c)
    s = spec(c, 3, 5, 5)
    x = s.build(c)
    t = text(c, x)
    v = c.int(0, 9)

    def f(data=x, n=3):
        return data

    class Holder(object):
        def __init__(self):
            self.data = x
    k = c.choose(10, 'place')
    c.show(s.parts, s.cells, k)
    with Watched(c):
        if k == 0:
            got, expected = What('w', {'v': [x, v]}).id(), 'w(v=[%s,%d])' % (t, v)
        elif k == 1:
            got, expected = What('w', {'v': (x,), 'z': x}).id(), 'w(v=(%s),z=%s)' % (t, t)
        elif k == 2:
            got, expected = What('w', {'v': {'k': x}}).id(), "w(v={'k':%s})" % t
        elif k == 3:
            got, expected = What('w', {'v': What('u', {'x': x}, out_name='o')}).id(), 'w(v=o=u(x=%s))' % t
        elif k == 4:
            got, expected = What('w', {'v': f}).id(), 'w(v=f(data=%s,n=3))' % t
        elif k == 5:
            got, expected = whatable(partial(f, n=v)).what().id(), 'f(data=%s,n=%d)' % (t, v)
        elif k == 6:
            got, expected = whatable(Holder()).what().id(), 'Holder(data=%s)' % t
        elif k == 7:
            got, expected = What('w', {'b': [[x]], 'a': {1: (x, v)}}).id(), 'w(a={1:(%s,%d)},b=[[%s]])' % (t, v, t)
        elif k == 8:
            got, expected = What('w', {'v': x, 'n': v}).positional_id(), 'w(%d,%s)' % (v, t)
        else:
            got, expected = What('w', {'v': x, 'n': v}, non_id_keys=['v']).id(), 'w(n=%d)' % v
    c.check_same(got, expected, 'arrays are shown alike wherever they are')


def many(c):
    """Long arrays."""
    start(c)
    n = c.pick(sorted(set([50, 1001, 3000, 9000, 20000] + [k for k in harvest.sizes(9000) if k > 4])), 'length')
    dt = numpy.dtype(c.pick(['i8', 'f8'], 'dtype'))
    at = c.pick([0, 1, n // 2, n - 2, n - 1], 'at')
    v, w = c.int(0, 255), c.int(0, 255)
    base = numpy.arange(n).astype(dt) % 251
    x, y = base.copy(), base.copy()
    for a, u in ((x, v), (y, w)):
        a[at] = raw(u, dt) if c.symbolic else u
    if c.bool('square'):
        x, y = x[:n // 2 * 2].reshape(2, -1), y[:n // 2 * 2].reshape(2, -1)
        if at == n - 1 and n % 2:
            v = w
    c.show(n, at, v, w)
    c.check(iff(c, text(c, x) == text(c, y), c.same(v, w)), 'all the cells of an array matter')


def containers(c):
    """Content hashes of containers with arrays."""
    start(c)
    s, t = spec(c, 1, 2, 2), spec(c, 1, 2, 2)
    x, y = s.build(c), t.build(c)
    equal = c.same(s.cells, t.cells) if s.parts == t.parts else False
    k = c.choose(6, 'container')
    c.show(s.parts, s.cells, t.parts, t.cells)
    if k < 3:
        a = [x, 1] if k == 0 else (x, 'z') if k == 1 else {'k': x}
        b = [y, 1] if k == 0 else (y, 'z') if k == 1 else {'k': y}
        c.check(iff(c, c.same(hashed(c, a), hashed(c, b)), equal), 'hashes of containers depend on the arrays in them')
    elif k == 3:
        c.check(iff(c, c.same(hashed(c, [x, y]), hashed(c, [y, x])), equal), 'the order of arrays matters')
    elif k == 4:
        c.check(iff(c, c.same(hashed(c, [x, x.copy()]), hashed(c, [x, y])), equal), 'hashes depend on all the arrays')
    else:
        c.check(c.differ(hashed(c, [x]), hashed(c, x)), 'containers of other types have other hashes')
        c.check(c.differ(hashed(c, x), hashed(c, x.tolist())), 'an array is not a list')
        c.check(iff(c, c.same(hashed(c, x.dtype), hashed(c, y.dtype)), x.dtype == y.dtype), 'types of arrays')


def memmaps(c):
    """Arrays in files."""
    start(c)
    dt = numpy.dtype(c.pick(['i8', 'f8'], 'dtype'))
    vs = [c.int(0, 255), c.int(0, 255)]
    folder = tempfile.mkdtemp(prefix='sx_mmap')
    try:
        m = numpy.memmap(os.path.join(folder, 'a'), dt, 'w+', shape=(2,))
        x = numpy.zeros(2, dt)
        for i, v in enumerate(vs):
            x[i] = m[i] = raw(v, dt) if c.symbolic else v
        coerce = c.bool('coerce')
        given = implicit(c, {'coerce_mmap': coerce}, coerce_mmap=False)
        c.show(vs, coerce)
        a, b = hashed(c, x, **given), hashed(c, m, **given)
        c.check(c.same(a, b) if coerce else c.differ(a, b), 'arrays in files are as the others just when asked')
        c.check_same(a, hashed(c, x), 'arrays in memory are always the same')
        c.check(text(c, m).startswith("memmap(hash='"), 'an array is shown as its class and hash')
        del m
    finally:
        shutil.rmtree(folder)


def table(c, names, rows, dtypes, index, cells, name):
    """A data frame (with names), or a series."""
    def column(k):
        return numpy.array([raw(v, numpy.dtype(dtypes[k])) if c.symbolic else v for v in cells[k]], dtypes[k])
    index = pandas.Index(index)
    if names is None:
        return pandas.Series(column(0), index=index, name=name)
    return pandas.DataFrame({n: column(k) for k, n in enumerate(names)}, index=index, columns=list(names))


INDEXES = [[0, 1], [1, 0], ['u', 'v'], [1.5, 2.5], [0, 0]]


def described(c):
    names = c.pick([None, ('a',), ('b',), ('a', 'b'), ('b', 'a')], 'columns')
    n = 1 if names is None else len(names)
    return dict(names=names, rows=2, dtypes=[c.pick(['i8', 'f8', 'i4'], 'dtype') for _ in range(n)],
                index=c.pick(INDEXES, 'index'), cells=[[c.int(0, 255) for _ in range(2)] for _ in range(n)],
                name=c.pick([None, 'a', 'b'], 'name') if names is None else None)


def tables(c):
    """Data frames and series."""
    start(c)
    d = described(c)
    e = dict(d)
    k = c.choose(5, 'other')
    if k == 0:
        e['cells'] = [[c.int(0, 255) if c.bool('cell') else v for v in vs] for vs in d['cells']]
    elif k == 1:
        e['index'] = c.pick(INDEXES, 'other index')
    elif k == 2 and d['names'] is None:
        e['name'] = c.pick([None, 'a', 'b'], 'other name')
    elif k == 2:
        e['names'] = c.pick([d['names'], d['names'][::-1], ('a', 'c')[:len(d['names'])]], 'other names')
    elif k == 3:
        e['dtypes'] = [c.pick(['i8', 'f8'], 'other dtype') for _ in d['dtypes']]
    x, y = table(c, **d), table(c, **e)
    c.show(d, e)
    i = text(c, x)
    kind = 'Series' if d['names'] is None else 'DataFrame'
    c.check(i.startswith(kind + "(hash='") and i.endswith("')") and is_digest(i[len(kind) + 7:-2]),
            'a table is shown as its class and hash')
    equal = c.same(d['cells'], e['cells']) if all([d[k] == e[k] for k in d if k != 'cells']) else False
    c.check(iff(c, text(c, y) == i, equal), 'tables have the same id for the same content only')
    k = c.choose(3, 'again')
    if k == 0:
        c.check(text(c, x.copy()) == i, 'a copy of a table has the same id')
    elif k == 1:
        len(x), x.index.is_unique, x.iloc[0], x.shape
        c.check(text(c, x) == i, 'the id of a table does not change when it is used')
    else:
        with Watched(c):
            c.check_same(What('w', {'v': [{'k': x}]}).id(), "w(v=[{'k':" + i + '}])', 'tables are shown alike wherever they are')


def columns(c):
    """The same values in columns of other types."""
    start(c)
    two = c.bool('two columns')
    names = ('a', 'b') if two else c.pick([None, ('a',)], 'columns')
    n = 2 if two else 1
    d = dict(names=names, rows=2, dtypes=[c.pick(['i8', 'f8'], 'dtype') for _ in range(n)], index=[0, 1], cells=[[c.int(0, 255) for _ in range(2)] for _ in range(n)], name=None)
    e = dict(d, dtypes=[c.pick(['i8', 'f8', 'i4'], 'other dtype') for _ in range(n)])
    x, y = table(c, **d), table(c, **e)
    c.show(d, e)
    c.check((text(c, y) == text(c, x)) == (d['dtypes'] == e['dtypes']), 'tables have the same id for the same types of columns only')


def generator(c, words, pos, gauss):
    r = numpy.random.RandomState(0)
    key = numpy.zeros(624, 'u4')
    key[:] = 7
    for i, v in zip((0, 1, 623), words):
        key[i] = raw(v, key.dtype) if c.symbolic else v
    r.set_state(('MT19937', key, pos) + gauss)
    return r


GAUSS = [(0, 0.), (1, .5), (1, -.25)]


def generators(c):
    """Random generators."""
    start(c)
    words, pos, gauss = [c.int(0, 255) for _ in range(3)], c.pick([1, 3, 624], 'position'), c.pick(GAUSS, 'gauss')
    k = c.choose(4, 'other')
    words2 = [c.int(0, 255) if k == 0 and c.bool('word') else v for v in words]
    pos2 = c.pick([1, 3, 624], 'other position') if k == 1 else pos
    gauss2 = c.pick(GAUSS, 'other gauss') if k == 2 else gauss
    x, y = generator(c, words, pos, gauss), generator(c, words2, pos2, gauss2)
    c.show(words, pos, gauss, words2, pos2, gauss2)
    i = text(c, x)
    c.check(i.startswith('RandomState(state='), 'a generator is shown as its class and state')
    equal = c.same(words, words2) if (pos, gauss) == (pos2, gauss2) else False
    c.check(iff(c, text(c, y) == i, equal), 'generators have the same id for the same state only')
    if c.bool('again'):
        c.check(text(c, x) == i, 'showing a generator does not change it')
    else:
        with Watched(c):
            c.check_same(What('w', {'v': (1, x)}).id(), 'w(v=(1,' + i + '))', 'generators are shown alike wherever they are')


def draws(c):
    """Generators that are used."""
    start(c)
    seed, n = c.choose(3, 'seed'), c.choose(3, 'draws')
    seed2, n2 = c.choose(3, 'other seed'), c.choose(3, 'other draws')
    normal = c.bool('normal')
    glob = c.bool('global')
    v = c.int(0, 9)
    ids = []
    state = numpy.random.get_state()
    for s, k in ((seed, n), (seed2, n2)):
        r = numpy.random.mtrand._rand if glob else numpy.random.RandomState(s)
        r.seed(s)
        for _ in range(k):
            r.normal() if normal else r.randint(1000)
        with Watched(c):
            ids.append(What('w', {'r': r, 'v': v}).id())
    numpy.random.set_state(state)
    c.show(seed, n, seed2, n2, normal, glob)
    c.check((ids[0] == ids[1]) == ((seed, n) == (seed2, n2)), 'generators have the same id for the same state only')


class Missing(object):
    """As if the libraries were not installed."""

    def __init__(self, *libraries):
        self.libraries = libraries
        self.kept = {}

    def __enter__(self):
        for k, v in list(vars(plugins).items()):
            if any([v is x for x in self.libraries]):
                self.kept[k] = v
                setattr(plugins, k, maybe_import('zzz_not_there', 'conda'))

    def __exit__(self, *args):
        for k, v in self.kept.items():
            setattr(plugins, k, v)


class Plain(object):
    pass


class Shown(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def missing(c):
    """Without the libraries."""
    start(c)
    gone = c.pick([(), (numpy,), (pandas,), (numpy, pandas)], 'missing')
    v = c.int(0, 99)
    s = c.str(0, 2, ((97, 122),))
    k = c.choose(8, 'value')
    x, expected = [(v, '%d' % v), (s, "'" + s + "'"), (Plain(), 'Plain()'), (Shown('<' + s + '>'), '<' + s + '>'),
                   (partial(len), 'len()'), ([v, Plain()], '[%d,Plain()]' % v), (Ellipsis, 'Ellipsis'),
                   (What('b', {'y': Plain()}), 'b(y=Plain())')][k]
    c.show(gone, x)
    with Missing(*gone):
        c.check(plugins.has_numpy() is (numpy not in gone), 'has_numpy tells if numpy can be imported')
        c.check(plugins.has_pandas() is (pandas not in gone), 'has_pandas tells if pandas can be imported')
        c.check_same(What('a', {'x': x}).id(), 'a(x=' + expected + ')', 'other values do not need the libraries')
        if numpy not in gone:
            a = Spec(numpy.ndarray, 'i8', (2,), 'plain', [v, 3]).build(c)
            c.check(text(c, a).startswith("ndarray(hash='"), 'arrays do not need pandas')


def jobs(tier):
    deep = tier == 'thorough'
    return [Job('pairs', lambda c: pairs(c, classes=1, dtypes=5, shapes=5, layouts=1), 'pairs of arrays of 5 types and 5 shapes of up to 4 cells', 2),
            Job('pairs_all', lambda c: pairs(c, classes=3, dtypes=len(DTYPES), shapes=len(SHAPES), layouts=len(LAYOUTS)),
                'pairs of arrays of 3 classes, 11 types, 10 shapes and 5 layouts', 2),
            Job('one_dtype', one_dtype, 'arrays of the same class, type and shape (3, 11, 10, and 5 layouts)', 2),
            Job('views', views, 'pairs of %d kinds of views (slices, steps, transposed, reshaped, broadcast) of an array of 6 cells' % len(VIEWS), 3),
            Job('shapes', shapes, 'pairs of all the shapes of 0, 1, 2 and 4 cells, of 5 types', 1.5),
            Job('dtypes', dtypes, 'pairs of %d types, up to 2 cells' % len(TYPES), 1.5),
            Job('records', records, 'pairs of %d types of records, 2 records' % len(RECORDS)),
            Job('again', again, '3 classes, 11 types, 10 shapes and 2 layouts', 2),
            Job('places', places, '10 places', 1.5),
            Job('many', many, 'arrays of 50, 1001, 3000 and harvested numbers of cells, two of them symbolic'),
            Job('containers', containers, 'containers of two arrays of up to 2 cells', 1.5),
            Job('memmaps', memmaps, 'arrays of 2 cells in files', .5),
            Job('tables', tables, 'data frames of up to 2 columns and series, of 2 rows and 5 indexes', 2),
            Job('columns', columns, 'the same 2 rows in data frames of up to 2 columns or series, of 3 types'),
            Job('generators', generators, 'generator states with 3 symbolic words, 3 positions and 3 gauss states', 1.5),
            Job('draws', draws, '3 seeds, up to 2 draws'),
            Job('missing', missing, 'without numpy or pandas, 8 kinds of values')]
