"""C20: old-style ids convert to equivalent new ids."""
from whatami import What, parse_whatid
from whatami.whatutils import oldid2what, id2whatami4
from sx.job import Job
from sx import harvest
from .common import value, render, parsed_value, count, SCALARS, COLLS, NOSQ, WORDY
from .c07 import Reader, Pending, Unhashable, FAIL, ASCII

ASSUMPTIONS = ['Nested configurations are quoted (separators of others are ambiguous), there are neither frozensets nor classes.',
               'The leading out has no "#"; only ids without a leading out are quoted.',
               'Collections do not hold two strings that differ only in the escaping of quotes (they are identified).',
               'Names and keys are ascii identifiers.']
NOSHARP = ((0, 34), (36, 0xD7FF), (0xE000, 0x10FFFF))
PLAIN = ('list', 'tuple', 'dict', 'set')


def old_id(name, items, out=None, quoted=False, value=render):
    r = name + '#' + '#'.join([k + '=' + value(v) for k, v in items])
    if quoted:
        return '"' + r + '"'
    return r if out is None else 'out=' + out + '#' + r


def converts(c, name, conf, out=None, quoted=False, backwards=False, value=render):
    items = list(conf.items())
    if backwards:
        items = items[::-1]
    text = old_id(name, items, out, quoted, value)
    c.show(text, name, conf, out)
    expected = dict(conf)
    if out is not None:
        expected['out'] = out
    expected = What(name, expected)
    w = oldid2what(text)
    c.check(isinstance(w, What), 'a configuration')
    c.check_same(w.name, name, 'same name')
    c.check_same(w.out_name, None, 'no output name')
    got = dict(w.conf)
    if out is not None:
        c.check('out' in got, 'the leading out is a parameter')
        c.check_same(got.pop('out'), out, 'the leading out is a parameter with its name')
    want = parsed_value(What(name, conf))
    c.assume(count(want) == count(What(name, conf)))
    c.check_same(got, want.conf, 'same parameters, values and types')
    new = id2whatami4(text)
    c.check_same(new, w.id(), 'the new id is that of the configuration')
    back = parse_whatid(new)
    c.check_same(back.name, name, 'the new id has the same name')
    c.check_same(back.out_name, None, 'the new id has no output name')
    c.check_same(back.conf, parsed_value(w).conf, 'the new id parses to the same content')


def shape(c):
    """(out, quoted)"""
    k = c.choose(3, 'shape')
    return (None, False) if k == 0 else (c.str(0, 3, ((0, 34), (36, 0xD7FF), (0xE000, 0x10FFFF))), False) if k == 1 \
        else (None, True)


def strings(c):
    out, quoted = (None, c.bool('quoted'))
    converts(c, 'a', {'x': c.str(0, 4)}, out, quoted)


def texts(c):
    n = c.pick(sorted(set([8, 17] + harvest.lengths(5, 300))), 'length')
    converts(c, 'a', {'x': c.str(1, 1) + c.str(n - 2, n - 2, WORDY) + c.str(1, 1), 'y': 1})


def outs(c):
    n = c.pick(sorted(set([0, 1, 2, 3, 8, 17] + harvest.word_lengths())), 'length')
    out = c.str(n, n, ((0, 34), (36, 0xD7FF), (0xE000, 0x10FFFF)))
    if n > 3:
        out = c.str(n - 1, n - 1, WORDY) + out[:1]
    c.assume(c.not_('#' in out))
    converts(c, 'a', {'x': 1} if c.bool('params') else {}, out)


def numbers(c):
    out, quoted = shape(c)
    converts(c, 'a', {'x': c.int(-10 ** 21, 10 ** 21) if c.bool('int') else c.float(), 'y': c.bool('y'), 'z': None},
             out, quoted)


def names(c):
    out, quoted = (None, c.bool('quoted'))
    n = c.choose(9, 'name')
    conf = {}
    name = c.ident(n + 1, n + 1, reserved=False)
    if c.bool('params'):
        m = c.choose(9, 'key')
        conf[c.ident(m + 1, m + 1, reserved=False)] = c.int(0, 9)
    c.assume(name != 'out')
    converts(c, name, conf, out, quoted)


def params(c):
    """Several parameters, in any order."""
    out, quoted = shape(c)
    n = c.choose(4, 'params')
    keys = [c.ident(1, 2, reserved=False) for _ in range(n)]
    conf = {}
    for k in keys:
        conf[k] = value(c, ('str', 'int', 'none'), 0, 1, 1)
    converts(c, 'a', conf, out, quoted)


def collections(kind):
    def harness(c):
        out, quoted = (None, c.bool('quoted'))
        n = c.choose(3, 'size')
        hashable = kind == 'set'
        xs = [value(c, SCALARS + (() if hashable else PLAIN), 1, 1, 1, hashable=hashable) for _ in range(n)]
        v = xs if kind == 'list' else tuple(xs) if kind == 'tuple' else set(xs) if kind == 'set' else \
            {value(c, ('str', 'int', 'tuple'), 1, 1, 1, hashable=True): x for x in xs}
        converts(c, 'a', {'x': v, 'y': c.bool()}, out, quoted)
    return harness


def deep(c):
    converts(c, 'a', {'x': value(c, PLAIN + ('bool',), 4, 1, 1)})


def many(c):
    n = c.pick(sorted(set([5, 9] + harvest.sizes())), 'params')
    i = c.int(-9, 999)
    out, quoted = shape(c)
    converts(c, 'a', {'k%d' % k: k if k < n - 1 else i for k in range(n)}, out, quoted, backwards=c.bool('backwards'))


def spaced(c):
    """Blanks between tokens, as in the documentation."""
    a, b, s = c.int(-9, 99), c.str(0, 2), c.str(0, 2)
    text = "out=acc_to_target#GoingTowards#im=True#positions=(%s, %s)#d={'x': [%s, None]}" % (
        render(a), render(b), render(s))
    w = oldid2what(text)
    c.show(text)
    c.check_same(w.name, 'GoingTowards', 'same name')
    c.check_same(w.conf, {'im': True, 'positions': (a, parsed_value(b)), 'd': {'x': [parsed_value(s), None]},
                          'out': 'acc_to_target'}, 'same content')


def conflicts(c):
    """The output name given twice."""
    out = c.str(0, 2, NOSQ)
    c.assume(c.not_('#' in out))
    v = value(c, ('str', 'int', 'none', 'tuple'), 1, 1, 1)
    conf = {'x': c.int(0, 9), 'out': v} if c.bool('x') else {'out': v}
    text = old_id('a', list(conf.items()), out)
    c.show(text)
    c.check(c.raises(ValueError, oldid2what, text) is not None, 'ambiguous out raises ValueError')
    c.check(c.raises(ValueError, id2whatami4, text) is not None, 'ambiguous out raises ValueError')
    plain = old_id('a', list(conf.items()))
    c.check_same(oldid2what(plain).conf, parsed_value(What('a', conf)).conf, 'an out parameter alone is fine')


def others(c):
    """Other strings are left alone."""
    s = c.str(0, 5)
    c.show(s)
    c.assume(c.not_('#' in s))
    c.check_same(id2whatami4(s), s, 'strings that are not old ids are left alone')


def out_others(c):
    s = 'out=' + c.str(0, 4)
    if c.bool('sharp'):
        s += '#'
    else:
        c.assume(c.not_('#' in s))
    c.assume(s.count('#') <= 1)
    c.show(s)
    c.check_same(id2whatami4(s), s, 'strings without a name after the out are left alone')


def broken(c):
    """Old ids with something missing or in excess."""
    i, s = c.int(0, 9), c.str(0, 1, NOSQ)
    v = render(i) if c.bool('int') else render(s)
    texts = ['a#x=%s#', 'a#x=', 'a#=%s', 'a#x%s', 'a#x=%s)', '#x=%s', '1#x=%s', 'a#x=%s#y', '"a#x=%s', 'a#x=%s"', 'a#x=(%s',
             'a#x=%s,y=1', "a#x='%s", 'a(x=%s)', "a(x='#',y=%s)", 'out=b=a(x=%s)', 'a.b#x=%s', '""a#x=%s""', 'a#x=[%s}']
    t = c.pick(texts, 'text')
    text = t % v if '%s' in t else t
    if t == 'a#x%s':
        text = 'a#x' + str(i)
    if t == "a#x='%s":
        text = "a#x='" + s
    c.show(text)
    c.check_same(id2whatami4(text), text, 'strings that are not old ids are left alone')


class OldReader(Reader):
    """Recursive descent reading of the old language: constants are not looked ahead, parameters follow sharps."""

    def constant(self, i, t, v):
        j = self.token(i, t)
        return (v, j) if j >= 0 else FAIL

    def value(self, i):
        for f in (self.none, self.true, self.false, self.number, self.string, self.tuple, self.list, self.set,
                  self.dict, self.what):
            v, j = f(i)
            if j >= 0:
                return v, j
        return FAIL

    def sharped(self, i):
        name, i = self.ident(i)
        if i < 0:
            return FAIL
        i = self.token(i, '#')
        if i < 0:
            return FAIL
        kvs = []
        kv, j = self.kv(i)
        while j >= 0:
            kvs.append(kv)
            i = j
            j = self.token(i, '#')
            if j >= 0:
                kv, j = self.kv(j)
        return Pending(What, (name, kvs, None)), i

    def what(self, i):
        v, j = self.sharped(i)
        if j >= 0:
            return v, j
        i = self.token(i, '"')
        if i < 0:
            return FAIL
        v, i = self.sharped(i)
        if i < 0:
            return FAIL
        i = self.token(i, '"')
        return (v, i) if i >= 0 else FAIL


OLD = ['a#', 'a#x=1', 'a#x=1#yz=22', '"a#x=1"', 'out=o#a#x=1', "a#x='b'#y=[1,'c']", 'a#x=(1,2)#y={1,2}', "a#x={'k':1}",
       'a#x=None#y=True', 'a#x=inf#y=-1.5e+3', 'a#x=b#y=1', 'a#x="b#y=1"#z=2', 'a#x=set()#y=[]', "out=o#a#x='#'", '"a#"',
       'a#x=["b#y=1","c#"]', 'a#x=nan#y=False', "a#x={'k':{1:(2,)}}", 'out=#a#', "a#x='it\\'s'"]


def reads(c, text):
    """Texts are converted when they are in the old language."""
    out, rest = None, text
    if text.startswith('out='):
        out, _, rest = text[4:].partition('#')
    c.show(text)
    try:
        expected = OldReader(rest).top()
    except Unhashable:
        c.assume(False)
    if expected is None:
        c.check_same(id2whatami4(text), text, 'strings that are not old ids are left alone')
        return
    if out is not None and 'out' in expected.conf:
        c.check(c.raises(ValueError, id2whatami4, text) is not None, 'ambiguous out raises ValueError')
        return
    w = oldid2what(text)
    if out is not None:
        expected.conf['out'] = out
    c.check_same(w.name, expected.name, 'same name')
    c.check_same(w.out_name, None, 'no output name')
    c.check_same(w.conf, expected.conf, 'same parameters, values and types')
    c.check_same(id2whatami4(text), w.id(), 'the new id is that of the configuration')


def changed(c):
    t = c.pick(OLD, 'template')
    i = c.choose(len(t), 'position')
    reads(c, t[:i] + c.str(0, 1, ASCII) + t[i + 1:])


def inserted(c):
    t = c.pick(OLD, 'template')
    i = c.choose(len(t) + 1, 'position')
    reads(c, t[:i] + c.str(1, 2, ASCII) + t[i:])


def around(c):
    t = c.pick(OLD, 'template')
    reads(c, c.str(0, 2, ASCII) + t + c.str(0, 2, ASCII))


def small(c):
    reads(c, c.str(0, 4, ASCII) if c.bool('short') else 'a#' + c.str(0, 4, ((34, 35), (39, 62), (91, 93), (97, 98), (123, 125))))


def old_value(v):
    """Nested configurations are quoted."""
    if isinstance(v, What):
        return old_id(v.name, [(k, v.conf[k]) for k in v.conf], quoted=True, value=old_value)
    if isinstance(v, list):
        return '[' + ', '.join([old_value(x) for x in v]) + ']'
    if isinstance(v, tuple):
        return '(' + ','.join([old_value(x) for x in v]) + ')'
    if isinstance(v, dict):
        return '{' + ','.join([old_value(k) + ': ' + old_value(x) for k, x in v.items()]) + '}'
    return render(v)


def quoted(c):
    """Nested configurations between double quotes."""
    inner = What(c.ident(1, 2, reserved=False), {c.ident(1, 1, reserved=False): value(c, ('str', 'int', 'none'), 0, 1, 1)
                                                 for _ in range(c.choose(3, 'params'))})
    if c.bool('nested'):
        inner.conf['z'] = What('b', {'x': c.int(0, 9), 'w': c.str(0, 1)})
    k = c.choose(4, 'where')
    v = inner if k == 0 else [inner, c.int(0, 9)] if k == 1 else (c.str(0, 1), inner) if k == 2 else {'k': inner}
    conf = {'x': v, 'y': c.int(0, 9)} if c.bool('more') else {'x': v}
    converts(c, 'a', conf, c.str(0, 1, NOSHARP) if c.bool('out') else None, value=old_value)


def new_ids(c):
    """New-style ids are left alone."""
    w = What(c.ident(1, 2), {'x': value(c, ('str', 'int'), 0, 1, 2), 'y': [c.int(0, 9)]},
             out_name=c.ident(1, 3, reserved=False) if c.bool('out') else None)
    i = w.id()
    c.show(i)
    c.check_same(id2whatami4(i), i, 'new ids are left alone')


def jobs(tier):
    return [
        Job('strings', strings, {'string length': '0..4', 'characters': 'any unicode'}, 2),
        Job('texts', texts, {'string length': '8, 17, around the integer constants of the code up to 300'}),
        Job('outs', outs, {'leading out': 'length 0..3, 8, 17 and those of the words of the code'}),
        Job('numbers', numbers, {'ints': '-10^21..10^21', 'floats': 'the decimal shapes'}),
        Job('names', names, {'name, key': 'identifiers of 1..9 characters'}),
        Job('params', params, {'parameters': '0..3', 'keys': '1..2 characters', 'strings': '0..1', 'out': '0..3'}, 2),
    ] + [Job('collections_' + k, collections(k), {'size': '0..2', 'depth': 2, 'strings': '0..1'}) for k in PLAIN] + [
        Job('deep', deep, {'depth': 5, 'size': '0..1'}),
        Job('many', many, {'parameters': '5, 9, around the integer constants of the code up to 130'}),
        Job('spaced', spaced, {'strings': '0..2'}, 0.5),
        Job('conflicts', conflicts, {'out': '0..2', 'parameters': '1..2'}, 0.5),
        Job('others', others, {'string length': '0..5', 'characters': 'any but #'}),
        Job('out_others', out_others, {'string length': '4..9'}, 0.5),
        Job('broken', broken, {'shapes': 19}, 0.5),
        Job('changed', changed, {'templates': len(OLD), 'changes': 'any character changed or removed'}, 1.5),
        Job('inserted', inserted, {'templates': len(OLD), 'changes': '1..2 characters inserted anywhere'}, 1.5),
        Job('around', around, {'templates': len(OLD), 'changes': '0..2 characters before and after'}),
        Job('small', small, {'texts': 'all of 0..4 ascii characters, and 0..4 of punctuation after "a#"'}),
        Job('quoted', quoted, {'nested': 'up to two levels of quoted configurations', 'parameters': '0..3'}, 1.5),
        Job('new_ids', new_ids, {'name': '1..2', 'strings': '0..2', 'out': '1..3'}, 0.5),
    ]
