"""C07: the parser accepts exactly the id language."""
import re
from arpeggio import NoMatch
from sx.job import Job
from sx import harvest
from whatami import What, parse_whatid
from whatami.parsers import WhatamiTreeVisitor, build_oldwhatami_parser, build_whatami_parser

ASSUMPTIONS = ['Texts with unhashable set elements or dictionary keys are outside the language (any error is fine).',
               'Names of classes within ids are those of the templates.']

FAIL = (None, -1)
CLASSES = {'str': str, 'dict': dict, 'builtins.int': int}


class Unhashable(Exception):
    pass


class OtherClass(Exception):
    pass


class Reader(object):
    """Recursive descent reading of the documented grammar (ordered choices, blanks between tokens skipped)."""

    def __init__(self, text):
        self.s = text
        self.n = len(text)

    def skip(self, i):
        while i < self.n and self.s[i] in ' \t\n\r':
            i += 1
        return i

    def token(self, i, t):
        """The position after token t, -1 if it is not there."""
        i = self.skip(i)
        if i + len(t) > self.n:
            return -1
        for k, ch in enumerate(t):
            if self.s[i + k] != ch:
                return -1
        return i + len(t)

    def tokens(self, i, *ts):
        for t in ts:
            i = self.token(i, t)
            if i < 0:
                return -1
        return i

    def is_(self, cls, i):
        return i < self.n and re.match(cls, self.s[i]) is not None

    def ident(self, i):
        i = self.skip(i)
        if not self.is_('[A-Za-z_]', i):
            return FAIL
        j = i + 1
        while self.is_('[A-Za-z0-9_]', j):
            j += 1
        return self.s[i:j], j

    def constant(self, i, t, v):
        j = self.token(i, t)
        if j < 0 or self.is_(r'[A-Za-z0-9_(=]', j):
            return FAIL
        return v, j

    def digits(self, i):
        while self.is_('[0-9]', i):
            i += 1
        return i

    def number(self, i):
        i = self.skip(i)
        j = i
        if j < self.n and self.s[j] == '-':
            j += 1
        k = self.digits(j)
        if k > j:
            end = k
            if k < self.n and self.s[k] == '.':
                end = k = self.digits(k + 1)
            if k < self.n and self.s[k] in 'eE':
                m = k + 1
                if m < self.n and self.s[m] in '+-':
                    m += 1
                e = self.digits(m)
                if e > m:
                    end = e
            t = self.s[i:end]
            if self.is_(r'\.', self.digits(j)) and self.digits(j) < end or 'e' in t or 'E' in t:
                return float(t), end
            return int(t), end
        for t, v in (('-inf', float('-inf')), ('inf', float('inf')), ('nan', float('nan'))):
            r = self.constant(i, t, v)
            if r[1] >= 0:
                return r
        return FAIL

    def string(self, i):
        i = self.skip(i)
        if i >= self.n or self.s[i] != "'":
            return FAIL
        j = i + 1
        while j < self.n:
            if self.s[j] == '\\':
                j += 2
            elif self.s[j] == "'":
                return self.s[i + 1:j], j + 1
            else:
                j += 1
        return FAIL

    def many(self, i, item):
        """item (, item)*"""
        v, i = item(i)
        if i < 0:
            return FAIL
        out = [v]
        while True:
            j = self.token(i, ',')
            if j < 0:
                return out, i
            v, j = item(j)
            if j < 0:
                return out, i
            out.append(v)
            i = j

    def between(self, i, start, item, end):
        i = self.token(i, start)
        if i < 0:
            return FAIL
        v, j = self.many(i, item)
        if j < 0:
            v, j = [], i
        j = self.token(j, end)
        return (v, j) if j >= 0 else FAIL

    def pair(self, i):
        k, i = self.value(i)
        if i < 0:
            return FAIL
        i = self.token(i, ':')
        if i < 0:
            return FAIL
        v, i = self.value(i)
        return ((k, v), i) if i >= 0 else FAIL

    def kv(self, i):
        k, i = self.ident(i)
        if i < 0:
            return FAIL
        i = self.token(i, '=')
        if i < 0:
            return FAIL
        v, i = self.value(i)
        return ((k, v), i) if i >= 0 else FAIL

    def value(self, i):
        for f in (self.none, self.true, self.false, self.number, self.string, self.tuple, self.list, self.set,
                  self.frozenset, self.dict, self.cls, self.what):
            v, j = f(i)
            if j >= 0:
                return v, j
        return FAIL

    def none(self, i):
        return self.constant(i, 'None', None)

    def true(self, i):
        return self.constant(i, 'True', True)

    def false(self, i):
        return self.constant(i, 'False', False)

    def list(self, i):
        return self.between(i, '[', self.value, ']')

    def tuple(self, i):
        v, i = self.between(i, '(', self.value, ')')
        return (tuple(v), i) if i >= 0 else FAIL

    def elements(self, i, start, end):
        i = self.token(i, start)
        if i < 0:
            return FAIL
        v, i = self.many(i, self.value)
        if i < 0:
            return FAIL
        i = self.token(i, end)
        return (Pending(set, v), i) if i >= 0 else FAIL

    def set(self, i):
        j = self.token(i, 'set()')
        if j >= 0:
            return set(), j
        return self.elements(i, '{', '}')

    def frozenset(self, i):
        j = self.token(i, 'frozenset()')
        if j >= 0:
            return frozenset(), j
        v, j = self.elements(i, 'frozenset({', '})')
        return (Pending(frozenset, v.items), j) if j >= 0 else FAIL

    def dict(self, i):
        v, i = self.between(i, '{', self.pair, '}')
        return (Pending(dict, v), i) if i >= 0 else FAIL

    def cls(self, i):
        i = self.token(i, '<class ')
        if i < 0:
            return FAIL
        v, i = self.string(i)
        if i < 0:
            return FAIL
        i = self.token(i, '>')
        if i < 0:
            return FAIL
        for k in CLASSES:
            if v == k:
                return CLASSES[k], i
        raise OtherClass()

    def what(self, i):
        out, j = self.ident(i)
        if j >= 0:
            j = self.token(j, '=')
            if j >= 0:
                i = j
        if j < 0:
            out = None
        name, i = self.ident(i)
        if i < 0:
            return FAIL
        v, i = self.between(i, '(', self.kv, ')')
        return (Pending(What, (name, v, out)), i) if i >= 0 else FAIL

    def top(self):
        """The configuration that the text says, None if it is not in the language."""
        v, i = self.what(0)
        if i < 0 or self.skip(i) != self.n:
            return None
        return built(v)


class Pending(object):
    """A value to build once the whole text is known to be in the language."""

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items


def built(v):
    if isinstance(v, list):
        return [built(x) for x in v]
    if isinstance(v, tuple):
        return tuple([built(x) for x in v])
    if not isinstance(v, Pending):
        return v
    if v.kind is What:
        name, kvs, out = v.items
        return What(name, {k: built(x) for k, x in kvs}, out_name=out)
    if v.kind is dict:
        return {hashable(built(k)): built(x) for k, x in v.items}
    xs = [hashable(built(x)) for x in v.items]
    return set(xs) if v.kind is set else frozenset(xs)


def hashable(v):
    if isinstance(v, (list, dict, set)):
        raise Unhashable()
    if isinstance(v, tuple):
        for x in v:
            hashable(x)
    return v


LATER = "o=z(a=[None,(True,-1.5)],b='q',c={'k':w()})"
LATER_WHAT = What('z', {'a': [None, (True, -1.5)], 'b': 'q', 'c': {'k': What('w', {})}}, out_name='o')


def check(c, text):
    c.show(text)
    try:
        expected, unhashable = Reader(text).top(), False
    except Unhashable:
        expected, unhashable = None, True
    except OtherClass:
        c.assume(False)
    try:
        got, error = parse_whatid(text), None
    except Exception as e:
        got, error = None, e
    if unhashable:
        c.check(error is not None, 'texts with unhashable elements are rejected')
    elif expected is None:
        c.check(error is not None, 'texts that are not in the language are rejected')
        c.check(isinstance(error, NoMatch), 'texts that are not in the language are rejected with NoMatch')
    else:
        c.check(error is None, 'texts in the language are accepted')
        c.check(isinstance(got, What), 'a configuration is read')
        c.check_same(got.name, expected.name, 'the name read is that in the text')
        c.check_same(got.out_name, expected.out_name, 'the output name read is that in the text')
        c.check_same(got.conf, expected.conf, 'the parameters read are those in the text')
    try:
        later = parse_whatid(LATER)
    except Exception:
        later = None
    c.check_same(later, LATER_WHAT, 'later parses are not affected')


NOASCII = ((40, 41), (46, 46), (48, 49), (97, 97), (0x85, 0x85), (0xA0, 0xA0), (0xB2, 0xB2), (0xE9, 0xE9), (0x660, 0x669),
           (0x2018, 0x2019), (0x2028, 0x2029), (0x3000, 0x3000), (0x4E00, 0x4E01), (0xFF10, 0xFF11), (0x1D7D8, 0x1D7D9))
ASCII = ((9, 10), (13, 13), (32, 126))
STRUCT = ((9, 10), (13, 13), (32, 32), (39, 62), (91, 93), (97, 98), (123, 125))

TEMPLATES = ["a()", "o=a()", "o=a(x=1)", "ab(x=1,yz=22)", "a(x=-1.5e+3)", "a(x=1e5,y='s')", "a(x=None,y=True)",
             "a(x=False)", "a(x=nan,y=-inf)", "a(x=inf)", "a(x=[1,'b'])", "a(x=[])", "a(x=(1,2))", "a(x=())",
             "a(x={1,2})", "a(x={'k':1,2:[]})", "a(x={})", "a(x=set())", "a(x=frozenset({1}))", "a(x=frozenset())",
             "a(x=b(y=c()))", "a(x=o=d(k=1))", "a(x=<class 'str'>)", "a(x=o=b())", " a ( x = 1 , y = [ 1 ] ) ",
             "a(x='it\\'s')", "a(x='',y=' ')", "a(x=nanm())", "a(x=None_=b())", "a(x=infx(y=1),z=Trues())",
             "a(x=[b(),o=c(y=1)])", "a(x=(b(y=(1,2)),))", "a(x=-3)", "a(x=007)", "a(x=1.)", "a(x={b():1})",
             "a(x={b(y=1),2})", "a(x=1,x=2)", "a(x={1:2,1:3})", "a(x=frozenset({frozenset()}))",
             "a(x=[None,[None]],y={None:None})", "None()", "a(None=1)", "a(x=None())", "a(x=nan())", "a(x=set(y=1))"]


def short(lo, hi, ranges):
    def harness(c):
        check(c, c.str(lo, hi, ranges))
    return harness


def parameter(c):
    check(c, 'a(x=' + c.str(1, 4, STRUCT) + ')')


def parameter_ascii(c):
    check(c, 'a(x=' + c.str(1, 4, ASCII) + ')')


def number(c):
    check(c, 'a(x=' + c.str(1, 5, ((43, 43), (45, 46), (48, 49), (69, 69), (101, 101))) + ')')


def constant(c):
    t = c.pick(['None', 'True', 'False', 'nan', 'inf', '-inf'], 'constant')
    k = c.choose(3, 'where')
    s = c.str(1, 3, ASCII)
    check(c, 'a(x=' + (t + s if k == 0 else s + t if k == 1 else t + s + '()') + ')')


def blanks(c):
    """A blank anywhere."""
    t = c.pick(TEMPLATES, 'template')
    i = c.choose(len(t) + 1, 'position')
    check(c, t[:i] + c.str(1, 2, ((9, 10), (13, 13), (32, 32))) + t[i:])


def change(c):
    t = c.pick(TEMPLATES, 'template')
    i = c.choose(len(t), 'position')
    check(c, t[:i] + c.str(1, 1, ASCII) + t[i + 1:])


def insert(c):
    t = c.pick(TEMPLATES, 'template')
    i = c.choose(len(t) + 1, 'position')
    check(c, t[:i] + c.str(1, 2, ASCII) + t[i:])


def delete(c):
    t = c.pick(TEMPLATES, 'template')
    i = c.choose(len(t), 'position')
    j = c.choose(len(t) + 1 - i, 'until')
    check(c, t[:i] + c.str(0, 1, ASCII) + t[i + j:])


def twice(c):
    t = c.pick(TEMPLATES, 'template')
    i = c.choose(len(t), 'position')
    j = c.choose(len(t), 'other')
    c.assume(i < j)
    check(c, t[:i] + c.str(1, 1, ASCII) + t[i + 1:j] + c.str(1, 1, ASCII) + t[j + 1:])


def other_alphabets(c):
    """Letters, digits, blanks and quotes that are not ascii have no meaning outside of literals."""
    t = c.pick(TEMPLATES, 'template')
    i = c.choose(len(t) + 1, 'position')
    k = c.choose(2, 'replaced')
    check(c, t[:i] + c.str(1, 1, ((128, 0xD7FF), (0xE000, 0x10FFFF)), default=233) + t[min(len(t), i + k):])


def other_parameter(c):
    s = c.str(1, 3, NOASCII, default=0x663)
    check(c, 'a(x=' + s + ')' if c.bool('value') else 'a(x' + s + '=1)')


def ends(c):
    t = c.pick(TEMPLATES, 'template')
    check(c, c.str(0, 2, ASCII) + t + c.str(0, 2, ASCII))


def literal(c):
    """Any characters within the quotes."""
    check(c, "a(x='" + c.str(0, 4) + "')")


def joined(c):
    """Two ids, with something between them."""
    a, b = c.pick(TEMPLATES[:6], 'template'), c.pick(TEMPLATES[:6], 'other')
    check(c, a + c.str(0, 2, ASCII) + b)


def long(c):
    """Long texts, with something in the place of one of their characters."""
    n = c.pick(sorted(set([6, 17] + harvest.sizes(70))), 'length')
    k = c.choose(6, 'kind')
    if k == 0:
        t = 'a(' + ','.join(['k%d=%d' % (i, i) for i in range(n)]) + ')'
    elif k == 1:
        t = 'a(x=[' + ','.join([str(i) for i in range(n)]) + '])'
    elif k == 2:
        t = 'a(x=(' + ','.join(["'%d'" % i for i in range(n)]) + '))'
    elif k == 3:
        t = 'a(x={' + ','.join(['%d:None' % i for i in range(n)]) + '})'
    elif k == 4:
        d = min(n, 20)
        t = 'a(x=' + '[' * d + '1' + ']' * d + ')'
    else:
        d = min(n, 20)
        t = 'a(x=b(' * d + ')' * (2 * d)
    i = c.pick([0, 3, 5, len(t) // 2, len(t) - 3, len(t) - 2, len(t) - 1, len(t)], 'position')
    check(c, t[:i] + c.str(1, 1, ASCII) + t[i + c.choose(2, 'replaced'):])


class Raising(WhatamiTreeVisitor):
    @staticmethod
    def visit_an_id(*_):
        raise FAILURE('visitor')

    visit_whatami_id = visit_string = visit_value = visit_an_id


FAILURE = TypeError
FAILING = ['a', 'a(', 'a(x=)', 'n#x=1', 'n#x={[1]}', 'a(x={[1]})', 'a(x={[1]:2})', 'a(x=frozenset({{1:2}}))', 'a(x={1,{2}})', '', 'a(x=1)#',
           "o=n#x='q'", 'n#', 'a(x=b(y={([],)}))', "a(x='", None, 3, b'a()', ['a']]


def sequences(c):
    """What was parsed before, how and with what outcome, does not matter."""
    text = 'a(x=' + c.pick(['b', "'s", '[', '(', '{', 'x'], 'start') + c.str(0, 2, STRUCT) + c.pick(['', "'", ']', ')', '}', '(y=1)'], 'end') + ')'
    for _ in range(1 + c.choose(2, 'before')):
        k = c.choose(4, 'parser')
        v = c.choose(3, 'visitor')
        try:
            parse_whatid(c.pick(FAILING, 'failing'),
                         parser=None if k < 2 else build_oldwhatami_parser() if k == 2 else build_whatami_parser(),
                         visitor=None if v == 0 else WhatamiTreeVisitor() if v == 1 else Raising())
        except Exception:
            pass
        if c.bool('between'):
            c.check_same(parse_whatid(LATER), LATER_WHAT, 'later parses are not affected')
    check(c, text)


def jobs(tier):
    return [Job('sequences', sequences, 'after 1..2 parses of %d texts, with four parsers and three visitors' % len(FAILING), 2),
            Job('short', short(0, 4, ASCII), 'all ascii texts of up to 4 characters', 2),
            Job('short_struct', short(4, 6, STRUCT), 'texts of 4..6 punctuation, digits, a and b', 2),
            Job('parameter', parameter, 'a(x=...) with 1..4 punctuation, digits, a and b', 2),
            Job('parameter_ascii', parameter_ascii, 'a(x=...) with 1..4 ascii characters', 2),
            Job('number', number, 'a(x=...) with 1..5 characters of numbers', 1.5),
            Job('constant', constant, 'constants of the language preceded or followed by 1..3 ascii characters', 1.5),
            Job('blanks', blanks, '%d templates with 1..2 blanks anywhere' % len(TEMPLATES)),
            Job('change', change, '%d templates with any one character changed' % len(TEMPLATES), 2),
            Job('insert', insert, '%d templates with 1..2 characters inserted anywhere' % len(TEMPLATES), 2),
            Job('delete', delete, '%d templates with any section removed or replaced' % len(TEMPLATES)),
            Job('twice', twice, '%d templates with any two characters changed' % len(TEMPLATES), 2),
            Job('other_alphabets', other_alphabets, '%d templates with any character that is not ascii anywhere' % len(TEMPLATES), 2),
            Job('other_parameter', other_parameter, 'values and ends of keys of 1..3 characters, some of other alphabets', 2),
            Job('ends', ends, '%d templates with up to 2 characters around' % len(TEMPLATES)),
            Job('literal', literal, 'string literals of up to 4 arbitrary characters'),
            Job('joined', joined, 'pairs of ids with up to 2 characters between them'),
            Job('long', long, '6, 17 and harvested numbers of parameters, elements and levels, with one character changed or inserted', 1.5)]
