"""Symbolic values: real python values (subclasses of str, int, float, bytes) that carry terms for their content.

Every value also is a correct native value for the current path, so code that is not instrumented keeps working
(it just loses track of the terms; the values it yields are then constants for this path).
"""
import operator
import unicodedata
from collections import OrderedDict

from . import terms as T
from .core import H

_chr = chr
_ord = ord
MAXCP = 0x10FFFF


def is_sym(x):
    return type(x) in SYM_TYPES


def cur():
    return H.ctx


def branch(f):
    if f is True or f is False:
        return f
    ctx = H.ctx
    if ctx is None:
        raise RuntimeError('symbolic condition outside of a run')
    return ctx.branch(f)


# ---- characters

def item_eq(a, b):
    ta, tb = type(a) is tuple, type(b) is tuple
    if not ta and not tb:
        return a == b
    if ta and tb:
        return T.f_eq(T.lin_add(a, b, -1))
    if tb:
        a, b = b, a
    return T.f_eq((a[0] - b, a[1]))


def item_lt(a, b):
    ta, tb = type(a) is tuple, type(b) is tuple
    if not ta and not tb:
        return a < b
    la = a if ta else (a, ())
    lb = b if tb else (b, ())
    d = T.lin_add(la, lb, -1)
    return T.f_le((d[0] + 1, d[1]))


def item_in(a, ranges):
    if type(a) is tuple:
        return T.f_in(a, ranges)
    return T.rng_has(ranges, a)


def item_val(a):
    return T.lin_eval(a, H.ctx.env) if type(a) is tuple else a


def items_of(s):
    if type(s) is SymStr or type(s) is Digest:
        return s._it
    return tuple(map(_ord, s))


def seq_eq(a, b):
    """Formula: the two item sequences are equal."""
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        f = item_eq(x, y)
        if f is False:
            return False
        if f is not True:
            fs.append(f)
    return T.f_and(fs)


def seq_lt(a, b):
    """Formula: a < b lexicographically."""
    f = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        if type(x) is not tuple and type(y) is not tuple:
            f = x < y or (x == y and f) if f in (True, False) else (True if x < y else f if x == y else False)
        else:
            f = T.f_or([item_lt(x, y), T.f_and([item_eq(x, y), f])])
    return f


# ---- character classes, as ranges over code points, computed from this interpreter

_class_cache = {}


def char_class(name):
    """Ranges of the characters for which str.<name>() holds."""
    rs = _class_cache.get(name)
    if rs is None:
        rs = []
        method = getattr(str, name)
        start = None
        for cp in range(MAXCP + 1):
            if method(_chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                rs.append((start, cp - 1))
                start = None
        if start is not None:
            rs.append((start, MAXCP))
        rs = _class_cache[name] = tuple(rs)
    return rs


SPACES = char_class('isspace')
DIGITS = ((48, 57),)
SURROGATES = ((0xD800, 0xDFFF),)


def _native(s):
    """The plain str with the content of s."""
    return ''.join(map(_chr, map(item_val, s._it)))


def mkstr(items):
    """A str (plain when there is nothing symbolic in it)."""
    items = tuple(items)
    for it in items:
        if type(it) is tuple:
            break
    else:
        return ''.join(map(_chr, items))
    ctx = H.ctx
    env = ctx.env
    r = str.__new__(SymStr, ''.join([_chr(T.lin_eval(it, env)) if type(it) is tuple else _chr(it) for it in items]))
    r._it = items
    return r


def plain(x, why='concretised'):
    """Concretises deeply: pins every term in x to its current value and returns native values."""
    t = type(x)
    if t is SymStr:
        ctx = H.ctx
        for it in x._it:
            if type(it) is tuple:
                ctx.pin(it, why)
        return str.__str__(str.__add__('', _native(x)))
    if t is Digest:
        return _native(x)
    if t is SymInt:
        return H.ctx.pin(x._lin, why)
    if t is SymFloat:
        return float(plain(x._t, why))
    if t is SymBytes:
        plain(x._s, why)
        return bytes(bytearray(x))
    if t is list:
        return [plain(y, why) for y in x] if deep_sym(x) else x
    if t is tuple:
        return tuple([plain(y, why) for y in x]) if deep_sym(x) else x
    if t is dict and deep_sym(x):
        return {plain(k, why): plain(v, why) for k, v in x.items()}
    if t in (set, frozenset) and deep_sym(x):
        return t([plain(y, why) for y in x])
    return x


def deep_sym(x, depth=6):
    """Whether there is anything symbolic within builtin containers."""
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth and t in CONTAINERS:
        if t is dict or t is OrderedDict:
            for k, v in x.items():
                if deep_sym(k, depth - 1) or deep_sym(v, depth - 1):
                    return True
        else:
            for y in x:
                if deep_sym(y, depth - 1):
                    return True
    elif depth and hasattr(t, '__slots__') and t.__name__ == 'What':
        return deep_sym(x.name) or deep_sym(x.out_name) or deep_sym(x.conf, depth - 1)
    elif depth and issubclass(t, (dict, list, set, frozenset, tuple)):
        try:
            it = list(x.items()) if issubclass(t, dict) else list(x)
        except Exception:
            return False
        return any(deep_sym(y, depth - 1) for y in it)
    return False


class SymStr(str):
    """A string of known length with (possibly) symbolic characters."""

    __class__ = property(lambda self: str)

    # -- identity
    def __hash__(self):
        return str.__hash__(self)

    def __eq__(self, other):
        if type(other) is Digest or type(self) is Digest:
            return digest_eq(self, other)
        if not isinstance(other, str):
            return NotImplemented
        return branch(seq_eq(self._it, items_of(other)))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return branch(seq_lt(self._it, items_of(other)))

    def __gt__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return branch(seq_lt(items_of(other), self._it))

    def __le__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return not branch(seq_lt(items_of(other), self._it))

    def __ge__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return not branch(seq_lt(self._it, items_of(other)))

    def __str__(self):
        return self

    def __repr__(self):
        return str_repr(self)

    def __format__(self, spec):
        if spec in ('', 's'):
            return self
        return format(plain(self, 'str.__format__'), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getnewargs__(self):
        return (plain(self, 'pickle'),)

    def __reduce__(self):
        return str, (plain(self, 'pickle'),)

    def __reduce_ex__(self, _):
        return str, (plain(self, 'pickle'),)

    # -- sequence
    def __add__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return mkstr(self._it + items_of(other))

    def __radd__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return mkstr(items_of(other) + self._it)

    def __mul__(self, n):
        return mkstr(self._it * int(plain(n, 'str * n')))

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(plain(i.start, 'slice'), plain(i.stop, 'slice'), plain(i.step, 'slice'))
            return mkstr(self._it[i])
        if not isinstance(i, int) and not hasattr(i, '__index__'):
            raise TypeError('string indices must be integers')
        return mkstr((self._it[operator.index(plain(i, 'index'))],))

    def __iter__(self):
        for it in self._it:
            yield mkstr((it,))

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
        return str_find(self, sub) >= 0

    def __mod__(self, args):
        return str_mod(self, args)

    def __rmod__(self, fmt):
        return str_mod(fmt, self)

    # -- methods
    def join(self, it):
        return str_join(self, it)

    def replace(self, old, new, count=-1):
        return str_replace(self, old, new, count)

    def startswith(self, prefix, *pos):
        return str_startswith(self, prefix, *pos)

    def endswith(self, suffix, *pos):
        return str_endswith(self, suffix, *pos)

    def find(self, sub, *pos):
        return str_find(self, sub, *pos)

    def index(self, sub, *pos):
        r = str_find(self, sub, *pos)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub, *pos):
        return str_rfind(self, sub, *pos)

    def rindex(self, sub, *pos):
        r = str_rfind(self, sub, *pos)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *pos):
        return str_count(self, sub, *pos)

    def partition(self, sep):
        return str_partition(self, sep)

    def rpartition(self, sep):
        return str_rpartition(self, sep)

    def split(self, sep=None, maxsplit=-1):
        return str_split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        return str_rsplit(self, sep, maxsplit)

    def splitlines(self, keepends=False):
        return plain(self, 'splitlines').splitlines(keepends)

    def strip(self, chars=None):
        return str_strip(self, chars, True, True)

    def lstrip(self, chars=None):
        return str_strip(self, chars, True, False)

    def rstrip(self, chars=None):
        return str_strip(self, chars, False, True)

    def removeprefix(self, prefix):
        return self[len(prefix):] if self.startswith(prefix) else self

    def removesuffix(self, suffix):
        return self[:-len(suffix)] if suffix and self.endswith(suffix) else self

    def encode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('_', '-') in ('utf-8', 'utf8') and errors == 'strict':
            return mkbytes(self)
        return plain(self, 'encode').encode(encoding, errors)

    def format(self, *args, **kwargs):
        return str_format(self, args, kwargs)

    def lower(self):
        return str_case(self, False)

    def upper(self):
        return str_case(self, True)

    def isdigit(self):
        return str_all(self, 'isdigit')

    def isdecimal(self):
        return str_all(self, 'isdecimal')

    def isnumeric(self):
        return str_all(self, 'isnumeric')

    def isalpha(self):
        return str_all(self, 'isalpha')

    def isalnum(self):
        return str_all(self, 'isalnum')

    def isspace(self):
        return str_all(self, 'isspace')

    def isprintable(self):
        return str_all(self, 'isprintable')

    def isascii(self):
        return all([branch(item_in(it, ((0, 127),))) for it in self._it])

    def isidentifier(self):
        return str_isidentifier(self)

    def ljust(self, width, fill=' '):
        n = int(plain(width)) - len(self._it)
        return self + fill * n if n > 0 else self

    def rjust(self, width, fill=' '):
        n = int(plain(width)) - len(self._it)
        return fill * n + self if n > 0 else self

    def translate(self, table):
        out = []
        for it in self._it:
            for k, v in table.items():
                if branch(item_eq(it, k)):
                    if v is None:
                        break
                    out.extend((v,) if isinstance(v, int) else items_of(v))
                    break
            else:
                out.append(it)
        return mkstr(out)


def _fallback(name):
    native = getattr(str, name)

    def method(self, *args, **kwargs):
        return native(plain(self, 'str.%s' % name), *plain(args), **kwargs)
    method.__name__ = name
    return method


for _name in dir(str):
    if not _name.startswith('_') and _name not in SymStr.__dict__:
        setattr(SymStr, _name, _fallback(_name))


class Digest(SymStr):
    """Hexadecimal digest of a symbolic message: an uninterpreted, collision free, function of the message."""

    def __hash__(self):
        return str.__hash__(self)

    def __lt__(self, other):
        return digest_lt(self, other) if type(other) is Digest else SymStr.__lt__(self, other)

    def __gt__(self, other):
        return digest_lt(other, self) if type(other) is Digest else SymStr.__gt__(self, other)

    def __le__(self, other):
        return not digest_lt(other, self) if type(other) is Digest else SymStr.__le__(self, other)

    def __ge__(self, other):
        return not digest_lt(self, other) if type(other) is Digest else SymStr.__ge__(self, other)


def is_digest(x):
    return type(x) is Digest


RANKS = 2 ** 28


def rank(d):
    """Position of a digest in the (arbitrary) order of all digests: the same for the same message only."""
    ctx = H.ctx
    if '_rank' in d.__dict__ and d._rank[0] is ctx:
        return d._rank[1]
    ranks = ctx.cache.setdefault('ranks', [])
    facts = [(digest_same(d, e), r) for e, r in ranks]
    default = None
    for f, r in facts:
        if T.f_eval(f, ctx.env):
            default = T.lin_eval(r, ctx.env)
            break
    if default is None:
        default = int(str.__getitem__(d, slice(0, 7)), 16)
        used = set(T.lin_eval(r, ctx.env) for _, r in facts)
        while default in used:
            default = (default + 1) % RANKS
    lin = (0, ((ctx.new_var(((0, RANKS - 1),), default), 1),))
    # a model of another path may give ranks that do not fit here
    i = lin[1][0][0]
    ctx.env[i] = default if not all(
        bool(T.f_eval(f, ctx.env)) == (T.lin_eval(r, ctx.env) == ctx.env[i]) for f, r in facts) else ctx.env[i]
    for f, r in facts:
        eq = T.f_eq(T.lin_add(lin, r, -1))
        ctx.define(T.f_or([T.f_and([f, eq]), T.f_and([T.f_not(f), T.f_not(eq)])]))
    ranks.append((d, lin))
    d._rank = (ctx, lin)
    return lin


def digest_lt(a, b):
    f = digest_same(a, b)
    if f is True:
        return False
    x, y = rank(a), rank(b)
    d = T.lin_add(x, y, -1)
    return branch(T.f_le((d[0] + 1, d[1])))


def mkdigest(kind, message, native_hex):
    r = str.__new__(Digest, native_hex)
    r._it = tuple(map(_ord, native_hex))
    r._msg = (kind, message)
    return r


def digest_same(a, b):
    """Formula: equality between a digest and a string (sha1 is taken as injective)."""
    if type(a) is Digest and type(b) is Digest:
        if a._msg[0] != b._msg[0]:
            return False
        return same(a._msg[1], b._msg[1])
    if isinstance(a, str) and isinstance(b, str):
        # digest vs other string: only what holds for the current values is known
        ctx = H.ctx
        ctx.notes.add('digest compared to a string')
        x, y = (a, b) if type(a) is Digest else (b, a)
        if len(x._it) != len(y):
            return False
        return False if T.rng_has is None else (_native(x) == (_native(y) if is_sym(y) else y))
    return False


def digest_eq(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        return NotImplemented
    return branch(digest_same(a, b))


# ---- string operations (work for any mix of plain and symbolic strings)

def _seg(s, pos):
    n = len(s)
    start = pos[0] if len(pos) > 0 and pos[0] is not None else 0
    stop = pos[1] if len(pos) > 1 and pos[1] is not None else n
    start, stop, _ = slice(plain(start), plain(stop)).indices(n)
    return start, stop


def str_find(s, sub, *pos):
    a, b = items_of(s), items_of(sub)
    start, stop = _seg(s, pos)
    for i in range(start, stop - len(b) + 1):
        if branch(seq_eq(a[i:i + len(b)], b)):
            return i
    return -1


def str_rfind(s, sub, *pos):
    a, b = items_of(s), items_of(sub)
    start, stop = _seg(s, pos)
    for i in range(stop - len(b), start - 1, -1):
        if branch(seq_eq(a[i:i + len(b)], b)):
            return i
    return -1


def str_count(s, sub, *pos):
    start, stop = _seg(s, pos)
    if not len(sub):
        return stop - start + 1
    n = 0
    while True:
        i = str_find(s, sub, start, stop)
        if i < 0:
            return n
        n += 1
        start = i + len(sub)


def str_startswith(s, prefix, *pos):
    if isinstance(prefix, tuple):
        return any([str_startswith(s, p, *pos) for p in prefix])
    if not isinstance(prefix, str):
        raise TypeError('startswith first arg must be str')
    start, stop = _seg(s, pos)
    a, b = items_of(s)[start:stop], items_of(prefix)
    return branch(seq_eq(a[:len(b)], b))


def str_endswith(s, suffix, *pos):
    if isinstance(suffix, tuple):
        return any([str_endswith(s, p, *pos) for p in suffix])
    if not isinstance(suffix, str):
        raise TypeError('endswith first arg must be str')
    start, stop = _seg(s, pos)
    a, b = items_of(s)[start:stop], items_of(suffix)
    if len(b) > len(a):
        return False
    return branch(seq_eq(a[len(a) - len(b):], b))


def str_replace(s, old, new, count=-1):
    a, b, c = items_of(s), items_of(old), items_of(new)
    if not b:
        out = []
        n = 0
        for it in a:
            if count < 0 or n < count:
                out.extend(c)
                n += 1
            out.append(it)
        if count < 0 or n < count:
            out.extend(c)
        return mkstr(out)
    out = []
    i = n = 0
    while i < len(a):
        if i + len(b) <= len(a) and (count < 0 or n < count) and branch(seq_eq(a[i:i + len(b)], b)):
            out.extend(c)
            i += len(b)
            n += 1
        else:
            out.append(a[i])
            i += 1
    return mkstr(out)


def str_join(sep, it):
    parts = list(it)
    out = []
    sep_items = items_of(sep)
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
        if i:
            out.extend(sep_items)
        out.extend(items_of(p))
    return mkstr(out)


def str_partition(s, sep):
    if not len(sep):
        raise ValueError('empty separator')
    i = str_find(s, sep)
    if i < 0:
        return s, '', ''
    a = items_of(s)
    return mkstr(a[:i]), sep, mkstr(a[i + len(sep):])


def str_rpartition(s, sep):
    if not len(sep):
        raise ValueError('empty separator')
    i = str_rfind(s, sep)
    if i < 0:
        return '', '', s
    a = items_of(s)
    return mkstr(a[:i]), sep, mkstr(a[i + len(sep):])


def str_split(s, sep=None, maxsplit=-1):
    a = items_of(s)
    if sep is None:
        out, word = [], []
        i = 0
        while i < len(a):
            if branch(item_in(a[i], SPACES)):
                if word:
                    out.append(mkstr(word))
                    word = []
                    if 0 <= maxsplit <= len(out):
                        rest = str_strip(mkstr(a[i:]), None, True, False)
                        if len(rest):
                            out.append(rest)
                        return out
            else:
                if 0 <= maxsplit <= len(out) and not word:
                    out.append(mkstr(a[i:]))
                    return out
                word.append(a[i])
            i += 1
        if word:
            out.append(mkstr(word))
        return out
    if not len(sep):
        raise ValueError('empty separator')
    out = []
    start = 0
    while maxsplit < 0 or len(out) < maxsplit:
        i = str_find(s, sep, start)
        if i < 0:
            break
        out.append(mkstr(a[start:i]))
        start = i + len(sep)
    out.append(mkstr(a[start:]))
    return out


def str_rsplit(s, sep=None, maxsplit=-1):
    if sep is None or maxsplit < 0:
        if maxsplit < 0:
            return str_split(s, sep)
        return plain(s, 'rsplit').rsplit(sep, maxsplit)
    a = items_of(s)
    out = []
    stop = len(a)
    while len(out) < maxsplit:
        i = str_rfind(s, sep, 0, stop)
        if i < 0:
            break
        out.append(mkstr(a[i + len(sep):stop]))
        stop = i
    out.append(mkstr(a[:stop]))
    return out[::-1]


def str_strip(s, chars, left, right):
    a = items_of(s)
    if chars is None:
        def test(it):
            return branch(item_in(it, SPACES))
    else:
        cs = items_of(chars)

        def test(it):
            return branch(T.f_or([item_eq(it, c) for c in cs]))
    i, j = 0, len(a)
    if left:
        while i < j and test(a[i]):
            i += 1
    if right:
        while i < j and test(a[j - 1]):
            j -= 1
    return mkstr(a[i:j])


def str_case(s, upper):
    out = []
    src, delta = (((97, 122),), -32) if upper else (((65, 90),), 32)
    for it in items_of(s):
        if type(it) is not tuple:
            out.extend(map(_ord, _chr(it).upper() if upper else _chr(it).lower()))
        elif branch(item_in(it, src)):
            out.append((it[0] + delta, it[1]))
        elif branch(item_in(it, ((0, 127),))):
            out.append(it)
        else:
            c = _chr(H.ctx.pin(it, 'case of a non ascii character'))
            out.extend(map(_ord, c.upper() if upper else c.lower()))
    return mkstr(out)


def str_all(s, name):
    rs = char_class(name)
    a = items_of(s)
    if not a and name not in ('isprintable', 'isascii'):
        return False
    for it in a:
        if not branch(item_in(it, rs)):
            return False
    return True


def str_isidentifier(s):
    a = items_of(s)
    if not a:
        return False
    start = ((65, 90), (95, 95), (97, 122))
    rest = ((48, 57), (65, 90), (95, 95), (97, 122))
    for i, it in enumerate(a):
        if branch(item_in(it, start if i == 0 else rest)):
            continue
        if branch(item_in(it, ((0, 127),))):
            return False
        return plain(s, 'isidentifier').isidentifier()
    return True


def str_repr(s):
    """repr of a string."""
    out = []
    single = double = False
    for it in items_of(s):
        if type(it) is tuple:
            if branch(item_in(it, ((32, 33), (35, 38), (40, 91), (93, 126)))):
                out.append(it)
                continue
            if branch(item_eq(it, 39)):
                it = 39
            elif branch(item_eq(it, 34)):
                it = 34
            elif branch(item_eq(it, 92)):
                it = 92
            else:
                it = H.ctx.pin(it, 'repr of an unusual character')
        if it == 39:
            single = True
        elif it == 34:
            double = True
        out.append(it)
    quote = 34 if single and not double else 39
    res = [quote]
    for it in out:
        if type(it) is tuple:
            res.append(it)
        elif it == quote:
            res.extend((92, it))
        elif it == 34 or it == 39:
            res.append(it)
        else:
            res.extend(map(_ord, repr(_chr(it))[1:-1]))
    res.append(quote)
    return mkstr(res)


def to_str(x):
    """str(x)."""
    t = type(x)
    if t is str or t is SymStr or t is Digest:
        return x
    if t is SymInt:
        return int_str(x)
    if t is SymFloat:
        return x._t
    if isinstance(x, BaseException) and t.__str__ in (BaseException.__str__, Exception.__str__) and len(x.args) == 1:
        return to_str(x.args[0])
    if t in CONTAINERS and deep_sym(x):
        return to_repr(x)
    return str(x)


def to_repr(x):
    t = type(x)
    if t is SymStr or t is Digest:
        return str_repr(x)
    if t is SymInt:
        return int_str(x)
    if t is SymFloat:
        return x._t
    if t in CONTAINERS and deep_sym(x):
        if t is list:
            return '[' + str_join(', ', [to_repr(y) for y in x]) + ']'
        if t is tuple:
            return '(' + str_join(', ', [to_repr(y) for y in x]) + (',)' if len(x) == 1 else ')')
        if t is dict:
            return '{' + str_join(', ', [to_repr(k) + ': ' + to_repr(v) for k, v in x.items()]) + '}'
        if t is set:
            return '{' + str_join(', ', [to_repr(y) for y in x]) + '}'
        if t is frozenset:
            return 'frozenset({' + str_join(', ', [to_repr(y) for y in x]) + '})'
    return repr(x)


def str_mod(fmt, args):
    """fmt % args."""
    if type(fmt) is SymStr and any(type(it) is tuple for it in fmt._it):
        # only the conversions matter: keep symbolic characters when they are known not to be %
        for it in fmt._it:
            if type(it) is tuple and branch(item_eq(it, 37)):
                return str_mod(plain(fmt, 'format string'), args)
    f = items_of(fmt)
    out = []
    i = 0
    single = not isinstance(args, tuple)
    mapping = args if single else None
    seq = [args] if single else list(args)
    used = 0
    n = len(f)
    while i < n:
        c = f[i]
        if c != 37:
            out.append(c)
            i += 1
            continue
        i += 1
        spec = '%'
        if i < n and f[i] == 40:
            j = f.index(41, i)
            key = ''.join(map(_chr, f[i + 1:j]))
            i = j + 1
            val = mapping[key]
            keyed = True
        else:
            keyed = False
            val = None
        while i < n and _chr(f[i]) in '#0- +.123456789*':
            spec += _chr(f[i])
            i += 1
        if i >= n:
            raise ValueError('incomplete format')
        conv = _chr(f[i])
        i += 1
        if conv == '%':
            out.append(37)
            continue
        if '*' in spec:
            return plain(fmt) % plain(args, 'format width')
        if not keyed:
            if used >= len(seq):
                raise TypeError('not enough arguments for format string')
            val = seq[used]
            used += 1
        if conv == 's' and spec == '%':
            out.extend(items_of(to_str(val)))
        elif conv == 'r' and spec == '%':
            out.extend(items_of(to_repr(val)))
        elif conv in 'di' and spec == '%' and type(val) is SymInt:
            out.extend(items_of(int_str(val)))
        else:
            out.extend(items_of((spec + conv) % (plain(val, 'format %s%s' % (spec, conv)),)))
    if used < len(seq) and not (single and (isinstance(args, dict) or used == 0 and hasattr(args, '__getitem__')
                                            and not isinstance(args, str))):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)


def fmt_value(val, conv, spec):
    """One replacement field of an f-string or str.format."""
    if conv == 'r':
        val = to_repr(val)
    elif conv == 's':
        val = to_str(val)
    elif conv == 'a':
        val = ascii(plain(val, 'ascii'))
    if is_sym(spec):
        spec = plain(spec, 'format spec')
    if spec == '':
        if deep_sym(val) or type(val) is str:
            return to_str(val)
        return format(val, spec)
    if type(val) in (SymStr, Digest) and spec == 's':
        return val
    if type(val) is SymInt and spec == 'd':
        return int_str(val)
    return format(plain(val, 'format spec %s' % spec), spec)


def str_format(fmt, args, kwargs):
    import string
    if is_sym(fmt):
        fmt = plain(fmt, 'format string')
    if not any(map(deep_sym, args)) and not any(map(deep_sym, kwargs.values())):
        return fmt.format(*args, **kwargs)
    out = []
    auto = 0
    formatter = string.Formatter()
    for literal, field, spec, conv in formatter.parse(fmt):
        out.append(literal)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = formatter.get_field(field, args, kwargs)
        if spec and '{' in spec:
            spec = str_format(spec, args[auto:], kwargs)
        out.append(fmt_value(obj, conv, spec or ''))
    return str_join('', out)


# ---- integers

class SymInt(int):

    __class__ = property(lambda self: int)

    def __hash__(self):
        return int.__hash__(self)

    def _diff(self, other):
        t = type(other)
        if t is SymInt:
            return T.lin_add(self._lin, other._lin, -1)
        if t is int or t is bool:
            return (self._lin[0] - int(other), self._lin[1])
        return None

    def _cmp(self, other, op):
        d = self._diff(other)
        if d is None:
            if isinstance(other, float):
                return num_cmp(self, other, op)
            if isinstance(other, int):
                return getattr(plain(self, 'int comparison'), op)(other)
            return NotImplemented
        if op == '__eq__':
            return branch(T.f_eq(d))
        if op == '__ne__':
            return not branch(T.f_eq(d))
        if op == '__le__':
            return branch(T.f_le(d))
        if op == '__lt__':
            return branch(T.f_le((d[0] + 1, d[1])))
        if op == '__gt__':
            return not branch(T.f_le(d))
        return not branch(T.f_le((d[0] + 1, d[1])))

    def __eq__(self, o):
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, '__ne__')

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    def __bool__(self):
        return not branch(T.f_eq(self._lin))

    def __str__(self):
        return int_str(self)

    __repr__ = __str__

    def __format__(self, spec):
        return fmt_value(self, None, spec)

    def __neg__(self):
        return mkint(T.lin_scale(self._lin, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __add__(self, o):
        if type(o) is SymInt:
            return mkint(T.lin_add(self._lin, o._lin))
        if type(o) is int or type(o) is bool:
            return mkint((self._lin[0] + int(o), self._lin[1]))
        if isinstance(o, (int, float)):
            return plain(self, 'int +') + plain(o)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymInt:
            return mkint(T.lin_add(self._lin, o._lin, -1))
        if type(o) is int or type(o) is bool:
            return mkint((self._lin[0] - int(o), self._lin[1]))
        if isinstance(o, (int, float)):
            return plain(self, 'int -') - plain(o)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is int or type(o) is bool:
            return mkint(T.lin_scale(self._lin, int(o)))
        if isinstance(o, (int, float)):
            return plain(self, 'int *') * plain(o)
        if isinstance(o, (str, list, tuple)):
            return o * plain(self, 'sequence *')
        return NotImplemented

    __rmul__ = __mul__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return int, (plain(self, 'pickle'),)

    def __reduce_ex__(self, _):
        return int, (plain(self, 'pickle'),)


def _int_fallback(name):
    native = getattr(int, name)

    def method(self, *args):
        return native(plain(self, 'int.%s' % name), *plain(args))
    method.__name__ = name
    return method


for _name in ('__floordiv__', '__rfloordiv__', '__mod__', '__rmod__', '__truediv__', '__rtruediv__', '__divmod__',
              '__rdivmod__', '__pow__', '__rpow__', '__lshift__', '__rlshift__', '__rshift__', '__rrshift__', '__and__',
              '__rand__', '__or__', '__ror__', '__xor__', '__rxor__', '__invert__', 'bit_length', 'to_bytes',
              '__float__', '__round__', '__trunc__', '__floor__', '__ceil__'):
    setattr(SymInt, _name, _int_fallback(_name))


def mkint(lin):
    if not lin[1]:
        return lin[0]
    r = int.__new__(SymInt, T.lin_eval(lin, H.ctx.env))
    r._lin = lin
    return r


def int_str(x):
    """Decimal representation: forks on sign and number of digits, one variable per digit."""
    lin = x._lin
    ctx = H.ctx
    cache = ctx.cache
    hit = cache.get(('digits', lin))
    if hit is None:
        neg = branch(T.f_le((lin[0] + 1, lin[1])))
        mag = T.lin_scale(lin, -1) if neg else lin
        n = 1
        while not branch(T.f_le((mag[0] - 10 ** n + 1, mag[1]))):      # mag <= 10**n - 1
            n += 1
        val = T.lin_eval(mag, ctx.env)
        if n == 1:
            items = ((mag[0] + 48, mag[1]),)
        else:
            ds = []
            total = (0, ())
            for k in range(n):
                d = val // 10 ** k % 10
                v = ctx.new_var(((1 if k == n - 1 else 0, 9),), d)
                ctx.env[v] = d          # the model of another path may be about another variable
                ds.append(v)
                total = T.lin_add(total, (0, ((v, 10 ** k),)))
            ctx.define(T.f_eq(T.lin_add(mag, total, -1)))
            items = tuple((48, ((v, 1),)) for v in reversed(ds))
        hit = ((45,) if neg else ()) + items
        cache[('digits', lin)] = hit
    return mkstr(hit)


def to_int(x, *base):
    """int(x)."""
    t = type(x)
    if t is SymInt and not base:
        return x
    if t is SymFloat:
        return int(plain(x, 'int(float)'))
    if t not in (SymStr, Digest):
        return int(x, *base)
    if base and tuple(base) != (10,):
        return int(plain(x, 'int(str, base)'), *base)
    native = _native(x)
    s = x
    for it in x._it:
        if type(it) is tuple and branch(T.f_or([item_in(it, SPACES), item_in(it, ((95, 95),)),
                                                T.f_and([item_in(it, char_class('isdecimal')),
                                                         T.f_not(item_in(it, DIGITS))])])):
            return int(plain(x, 'int() of an unusual numeral'))
    a = items_of(str_strip(s, None, True, True))
    sign = 1
    i = 0
    if a and branch(item_eq(a[0], 45)):
        sign, i = -1, 1
    elif a and branch(item_eq(a[0], 43)):
        i = 1
    if i == len(a):
        return int(native)
    total = (0, ())
    for it in a[i:]:
        if type(it) is not tuple and it in (95,):
            return int(plain(x, 'int() of an unusual numeral'))
        if not branch(item_in(it, DIGITS)):
            if type(it) is not tuple and it > 127:
                return int(plain(x, 'int() of an unusual numeral'))
            if type(it) is tuple and not branch(item_in(it, ((0, 127),))):
                pass   # not a decimal digit, as checked above
            return int(native)     # raises ValueError
        total = T.lin_scale(total, 10)
        total = T.lin_add(total, (it[0] - 48, it[1]) if type(it) is tuple else (it - 48, ()))
    r = mkint(T.lin_scale(total, sign))
    assert int.__eq__(int.__add__(r, 0), int(native)), 'int() mismatch'
    return r


# ---- floats: identified by their repr (float(repr(x)) == x and repr(float(t)) == t for canonical texts t)

class SymFloat(float):

    __class__ = property(lambda self: float)

    def __hash__(self):
        return float.__hash__(self)

    def __repr__(self):
        return self._t

    __str__ = __repr__

    def __eq__(self, o):
        return num_cmp(self, o, '__eq__')

    def __ne__(self, o):
        r = num_cmp(self, o, '__eq__')
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return num_cmp(self, o, '__lt__')

    def __le__(self, o):
        return num_cmp(self, o, '__le__')

    def __gt__(self, o):
        return num_cmp(self, o, '__gt__')

    def __ge__(self, o):
        return num_cmp(self, o, '__ge__')

    def __bool__(self):
        return not num_cmp(self, 0, '__eq__')

    def __format__(self, spec):
        return fmt_value(self, None, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return float, (plain(self, 'pickle'),)

    def __reduce_ex__(self, _):
        return float, (plain(self, 'pickle'),)


def _float_fallback(name):
    native = getattr(float, name)

    def method(self, *args):
        return native(plain(self, 'float.%s' % name), *plain(args))
    method.__name__ = name
    return method


for _name in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
              '__floordiv__', '__rfloordiv__', '__mod__', '__rmod__', '__pow__', '__rpow__', '__neg__', '__abs__',
              '__int__', '__trunc__', '__round__', 'is_integer', 'hex', 'as_integer_ratio'):
    setattr(SymFloat, _name, _float_fallback(_name))


def mkfloat(text):
    """A float from its canonical text (a plain or symbolic string whose shape is decided on this path)."""
    if type(text) is str:
        return float(text)
    r = float.__new__(SymFloat, _native(text))
    r._t = text
    return r


def float_shape(s):
    """Whether s is a canonical float repr, deciding the class of each character on this path.

    Canonical: repr(float(s)) == s. Only fixed point texts with up to 15 significant digits and exponent texts with a
    mantissa of up to 15 digits and an exponent beyond the fixed point range are recognised.
    Returns None if undecided (the caller concretises), or (sign, int digits, frac digits, exponent items or None).
    """
    a = items_of(s)
    i = 0
    neg = False
    if a and branch(item_eq(a[0], 45)):
        neg, i = True, 1
    ints = []
    while i < len(a) and branch(item_in(a[i], DIGITS)):
        ints.append(a[i])
        i += 1
    if not ints:
        return None
    frac = None
    if i < len(a) and branch(item_eq(a[i], 46)):
        i += 1
        frac = []
        while i < len(a) and branch(item_in(a[i], DIGITS)):
            frac.append(a[i])
            i += 1
        if not frac:
            return None
    exp = None
    if i < len(a) and branch(item_eq(a[i], 101)):
        i += 1
        if i < len(a) and branch(item_eq(a[i], 45)):
            esign = -1
        elif i < len(a) and branch(item_eq(a[i], 43)):
            esign = 1
        else:
            return None
        i += 1
        exp = []
        while i < len(a) and branch(item_in(a[i], DIGITS)):
            exp.append(a[i])
            i += 1
        exp = (esign, exp)
    if i != len(a):
        return None
    return neg, ints, frac, exp


def float_canonical(shape):
    neg, ints, frac, exp = shape
    if len(ints) + len(frac or ()) > 15:
        return False
    if exp is None:
        if frac is None:
            return False
        if len(ints) > 1 and branch(item_eq(ints[0], 48)):
            return False
        if len(frac) > 1 and branch(item_eq(frac[-1], 48)):
            return False
        if len(ints) == 1 and branch(item_eq(ints[0], 48)) and len(frac) > 4:
            # 0.0000x would be printed with an exponent
            if all([branch(item_eq(d, 48)) for d in frac[:4]]):
                return False
        return True
    esign, digits = exp
    if len(ints) != 1 or branch(item_eq(ints[0], 48)):
        return False
    if frac is not None and branch(item_eq(frac[-1], 48)):
        return False
    if len(digits) != 2:
        return False
    e = T.lin_add(T.lin_scale(_dl(digits[0]), 10), _dl(digits[1]))
    if esign > 0:
        return branch(T.f_le((16 - e[0], T.lin_scale(e, -1)[1])))        # e >= 16
    return branch(T.f_le((5 - e[0], T.lin_scale(e, -1)[1])))             # e >= 5


def _dl(it):
    return (it[0] - 48, it[1]) if type(it) is tuple else (it - 48, ())


def to_float(x):
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymInt:
        return float(plain(x, 'float(int)'))
    if t not in (SymStr, Digest):
        return float(x)
    native = _native(x)
    shape = float_shape(x)
    if shape is not None and float_canonical(shape):
        assert repr(float(native)) == native, 'float shape mismatch: %r' % native
        return mkfloat(x)
    if shape is not None and shape[3] is None and shape[2] is None:
        pass
    return float(plain(x, 'float() of a non canonical numeral'))


def float_num(x):
    """(lin, scale) with x == lin / 10**scale for fixed point floats and integers, or None."""
    t = type(x)
    if t is SymInt:
        return x._lin, 0
    if t is int or t is bool:
        return (int(x), ()), 0
    if t is SymFloat:
        shape = float_shape(x._t)
        if shape is None or shape[3] is not None or shape[2] is None:
            return None
        neg, ints, frac, _ = shape
        total = (0, ())
        for it in ints + frac:
            total = T.lin_add(T.lin_scale(total, 10), _dl(it))
        return T.lin_scale(total, -1 if neg else 1), len(frac)
    if isinstance(x, float):
        text = repr(float(x))
        if 'e' in text or 'n' in text:
            return None
        i, _, f = text.partition('.')
        return (int(i + f) if not i.startswith('-') else -int((i + f)[1:]), ()), len(f)
    return None


def _magnitude(x):
    """(sign, class) of a number that has no fixed point form: class 'nan', 'inf', 'big' (>= 1e16) or 'small'; or None."""
    if type(x) is SymFloat:
        shape = float_shape(x._t)
        if shape is None or shape[3] is None:
            return None
        return (-1 if shape[0] else 1), ('big' if shape[3][0] > 0 else 'small')
    if not isinstance(x, float):
        return None
    if x != x:
        return 1, 'nan'
    if x in (float('inf'), -float('inf')):
        return (1 if x > 0 else -1), 'inf'
    if abs(x) >= 1e16:
        return (1 if x > 0 else -1), 'big'
    return (1 if x > 0 else -1), 'small'


def _special(a, b, op):
    """a <op> b when one of them has no fixed point form and that already decides it; None otherwise."""
    x, y = _magnitude(a), _magnitude(b)
    if x is None and y is None:
        return None
    if (x or y)[1] == 'nan' or (y or x)[1] == 'nan':
        return False
    if x is not None and y is not None:
        if x[1] == y[1]:
            if x[0] == y[0]:
                if x[1] == 'inf':
                    return op != '__lt__'
                if op == '__eq__':
                    return seq_eq(items_of(to_repr(a)), items_of(to_repr(b)))
                return None
        elif op == '__eq__':
            return False
        order = {'small': 1, 'big': 2, 'inf': 3}
        p, q = x[0] * order[x[1]], y[0] * order[y[1]]
        return False if op == '__eq__' else p < q
    swap = x is None
    m, o = (y, a) if swap else (x, b)
    num = float_num(o)
    if num is None:
        return None
    lin, scale = num
    lo, hi = T.lin_bounds(lin, H.ctx.dom) if lin[1] else (lin[0], lin[0])
    if m[1] != 'inf' and not (-10 ** 15 < lo and hi < 10 ** 15 and scale < 5):
        return None
    if op == '__eq__':
        return False
    if m[1] == 'small':       # 0 < |x| < 1e-4: like the sign of x against the multiples of 1e-4
        if scale > 4:
            return None
        # x < o  <=>  o > 0 or (o == 0 and x < 0)
        if swap:              # o < x
            return T.f_le((lin[0] + (0 if m[0] > 0 else 1), lin[1]))
        neg = T.lin_scale(lin, -1)
        return T.f_le((neg[0] + (1 if m[0] > 0 else 0), neg[1]))
    return (m[0] > 0) if swap else (m[0] < 0)


def num_formula(a, b, op):
    """Formula for a <op> b (op: '__eq__', '__lt__', '__le__') on numbers, or None."""
    x, y = float_num(a), float_num(b)
    if x is None or y is None:
        return _special(a, b, op)
    k = max(x[1], y[1])
    d = T.lin_add(T.lin_scale(x[0], 10 ** (k - x[1])), T.lin_scale(y[0], 10 ** (k - y[1])), -1)
    if op == '__eq__':
        return T.f_eq(d)
    if op == '__le__':
        return T.f_le(d)
    return T.f_le((d[0] + 1, d[1]))


def num_cmp(a, b, op):
    if not isinstance(b, (int, float)):
        return NotImplemented
    if op == '__ne__':
        return not num_cmp(a, b, '__eq__')
    if op in ('__gt__', '__ge__'):
        f = num_formula(b, a, '__lt__' if op == '__gt__' else '__le__')
    else:
        f = num_formula(a, b, op)
    if f is None:
        a, b = plain(a, 'float comparison'), plain(b, 'float comparison')
        return getattr(float(a), op)(float(b))
    return branch(f)


# ---- bytes

class SymBytes(bytes):
    """utf-8 encoding of a symbolic string."""

    __class__ = property(lambda self: bytes)

    def __hash__(self):
        return bytes.__hash__(self)

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self._s == o._s
        if isinstance(o, bytes):
            try:
                return self._s == o.decode('utf-8')
            except UnicodeError:
                return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('_', '-') in ('utf-8', 'utf8'):
            return self._s
        return bytes(bytearray(plain(self))).decode(encoding, errors)


def mkbytes(s):
    r = bytes.__new__(SymBytes, _native(s).encode('utf-8'))
    r._s = s
    return r


SYM_TYPES = frozenset((SymStr, SymInt, SymFloat, SymBytes, Digest))
CONTAINERS = frozenset((list, tuple, dict, set, frozenset, OrderedDict))
REAL = {SymStr: str, Digest: str, SymInt: int, SymFloat: float, SymBytes: bytes}


def rtype(x):
    t = type(x)
    return REAL.get(t, t)


# ---- equalities as formulas (no forking)

def same(a, b):
    """Formula: a and b are the same value, of the same type, at any depth."""
    if a is b:
        return True
    ta, tb = rtype(a), rtype(b)
    if ta is not tb:
        return False
    if ta is str:
        if type(a) is Digest or type(b) is Digest:
            return digest_same(a, b)
        if not is_sym(a) and not is_sym(b):
            return a == b
        return seq_eq(items_of(a), items_of(b))
    if ta is int:
        la = a._lin if type(a) is SymInt else (a, ())
        lb = b._lin if type(b) is SymInt else (b, ())
        return T.f_eq(T.lin_add(la, lb, -1))
    if ta is float:
        return seq_eq(items_of(to_repr(a)), items_of(to_repr(b)))
    if ta is list or ta is tuple:
        if len(a) != len(b):
            return False
        return T.f_and([same(x, y) for x, y in zip(a, b)])
    if ta is dict:
        return same_unordered(list(a.items()), list(b.items()))
    if ta is set or ta is frozenset:
        return same_unordered(list(a), list(b))
    if ta.__name__ == 'What' and hasattr(ta, 'conf'):
        return T.f_and([same(a.name, b.name), same(a.out_name, b.out_name), same(a.conf, b.conf)])
    if isinstance(a, dict):
        x, y = list(a.items()), list(b.items())
        return same(x, y) if isinstance(a, OrderedDict) else same_unordered(x, y)
    if isinstance(a, (list, tuple)):
        return same(list(a), list(b))
    if isinstance(a, (set, frozenset)):
        return same_unordered(list(a), list(b))
    if ta is SymBytes or ta is bytes:
        return bool(a == b)
    return bool(a == b)


def same_unordered(x, y):
    if len(x) != len(y):
        return False
    if len(x) == 1:
        return same(x[0], y[0])
    fs = []
    m = [[same(i, j) for j in y] for i in x]
    for r in m:
        fs.append(T.f_or(r))
    for j in range(len(y)):
        fs.append(T.f_or([m[i][j] for i in range(len(x))]))
    return T.f_and(fs)
