"""Run time support of the instrumented code: replacements for calls, operators and displays that would lose terms.

Every helper behaves natively when nothing symbolic is involved.
"""
import builtins
import hashlib
import importlib
import io
import itertools
import operator
import re
import types
from collections import OrderedDict
from functools import partial, reduce

from . import terms as T
from . import rx
from . import vals as V
from .core import H
from .vals import SymStr, SymInt, SymFloat, SymBytes, Digest, is_sym, deep_sym, branch, plain, same

SYM = V.SYM_TYPES
FunctionType = types.FunctionType
MethodType = types.MethodType
_DICTLIKE = (dict,)


# ---- python equality, recording every decision

SCALARS = frozenset((str, int, float, bool, type(None), bytes, SymStr, SymInt, SymFloat, SymBytes, Digest))


def eqf(a, b):
    """Formula for a == b (python semantics) for scalars and tuples of them; None when it has to be computed."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in SCALARS and tb in SCALARS:
        sa, sb = issubclass(type(a), str), issubclass(type(b), str)
        if sa != sb:
            return False
        if sa:
            return same(a, b)
        na, nb = isinstance(a, (int, float)), isinstance(b, (int, float))
        if na != nb:
            return False
        if na:
            if not is_sym(a) and not is_sym(b):
                return a == b
            return V.num_formula(a, b, '__eq__')
        return bool(a == b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = eqf(x, y)
            if f is None:
                return None
            if f is False:
                return False
            fs.append(f)
        return T.f_and(fs)
    return None


def eq(a, b):
    """a == b."""
    ta, tb = type(a), type(b)
    if ta in SCALARS and tb in SCALARS:
        return a == b
    if not deep_sym(a) and not deep_sym(b):
        return a == b
    f = eqf(a, b)
    if f is not None:
        return branch(f)
    if ta is tb and ta in V.CONTAINERS:
        if ta is list or ta is tuple:
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not (x is y or eq(x, y)):
                    return False
            return True
        if ta is dict:
            if len(a) != len(b):
                return False
            for k, v in list(a.items()):
                k2 = find_key(b, k)
                if k2 is NOKEY:
                    return False
                w = dict.__getitem__(b, k2)
                if not (v is w or eq(v, w)):
                    return False
            return True
        if ta is OrderedDict:
            return eq(list(a.items()), list(b.items()))
    if issubclass(type(a), (set, frozenset)) and issubclass(type(b), (set, frozenset)):
        if len(a) != len(b):
            return False
        return all([find_key(b, k) is not NOKEY for k in list(a)])
    if issubclass(type(a), dict) and issubclass(type(b), dict) and type(a).__eq__ in (dict.__eq__,) \
            and type(b).__eq__ in (dict.__eq__,):
        return eq(dict(a.items()), dict(b.items()))
    return a == b


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta in SCALARS and tb in SCALARS:
        return a != b
    if deep_sym(a) or deep_sym(b):
        if ta in V.CONTAINERS or tb in V.CONTAINERS:
            return not eq(a, b)
    return a != b


# ---- hash based containers: decide key equalities before the native operation looks at hashes

class _NoKey(object):
    pass


NOKEY = _NoKey()


def _keys_sym(c):
    for k in c:
        if deep_sym(k):
            return True
    return False


def find_key(c, k):
    """The key of c that equals k (deciding symbolic equalities), or NOKEY."""
    hash(k)
    if not deep_sym(k) and not _keys_sym(c):
        if k not in c:
            return NOKEY
    for q in list(c):
        if key_eq(k, q):
            return q
    return NOKEY


def key_eq(a, b):
    if a is b:
        return True
    f = eqf(a, b)
    if f is not None:
        return branch(f)
    if hashable_kind(a) != hashable_kind(b):
        return False
    return eq(a, b)


def hashable_kind(x):
    t = V.rtype(x)
    if t in (int, float, bool, complex):
        return 'number'
    if t in (set, frozenset):
        return 'set'
    return t.__name__


def resolve(c, k):
    """The actual key to use for a native lookup of k in c."""
    if not len(c):
        return k
    sk = deep_sym(k)
    if not sk and not _keys_sym(c):
        return k
    q = find_key(c, k)
    return k if q is NOKEY else q


def mkdict(pairs):
    r = {}
    for k, v in pairs:
        r[resolve(r, k)] = v
    return r


def mkset(it):
    r = set()
    for k in it:
        r.add(resolve(r, k))
    return r


def mkfrozenset(*args):
    if not args:
        return frozenset()
    it = list(args[0])
    if not any(map(deep_sym, it)):
        return frozenset(it)
    return frozenset(mkset(it))


def _set(*args):
    if not args:
        return set()
    return mkset(list(args[0]))


def _fill(r, args, kwargs):
    if args:
        a = args[0]
        if hasattr(a, 'keys'):
            for k in list(a.keys()):
                v = a[k]
                r[resolve(r, k)] = v
        else:
            for kv in a:
                k, v = kv
                r[resolve(r, k)] = v
    for k, v in kwargs.items():
        r[resolve(r, k)] = v
    return r


def _dict(*args, **kwargs):
    return _fill({}, args, kwargs)


def _odict(*args, **kwargs):
    return _fill(OrderedDict(), args, kwargs)


def displaydict(*entries):
    """{k: v, **d}: entries are (k, v) pairs or 1-tuples with a mapping."""
    r = {}
    for e in entries:
        if len(e) == 2:
            r[resolve(r, e[0])] = e[1]
        else:
            _fill(r, e, {})
    return r


def getitem(c, k):
    t = type(c)
    if t is dict or t is OrderedDict:
        return c[resolve(c, k)]
    if t is list or t is tuple or t is str or t is SymStr:
        if type(k) is SymInt:
            k = plain(k, 'index')
        return c[k]
    if issubclass(type(c), dict) and type(c).__getitem__ is dict.__getitem__:
        return c[resolve(c, k)]
    return c[k]


class Store(object):
    """Target of subscript stores and deletes."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __setitem__(self, k, v):
        c = self.c
        if issubclass(type(c), dict):
            k = resolve(c, k)
        elif type(k) is SymInt:
            k = plain(k, 'index')
        c[k] = v

    def __getitem__(self, k):
        return getitem(self.c, k)

    def __delitem__(self, k):
        c = self.c
        if issubclass(type(c), dict):
            k = resolve(c, k)
        elif type(k) is SymInt:
            k = plain(k, 'index')
        del c[k]


def store(c):
    t = type(c)
    if t is list or (t is dict and not c):
        return c if t is list else Store(c)
    if issubclass(type(c), (dict, list)):
        return Store(c)
    return c


KEYVIEWS = (type({}.keys()), type(OrderedDict().keys()))
VALVIEWS = (type({}.values()), type(OrderedDict().values()), type({}.items()), type(OrderedDict().items()))


def contains(x, c):
    """x in c."""
    t = type(c)
    if t is str:
        if type(x) in (SymStr, Digest):
            return V.str_find(c, x) >= 0
        return x in c
    if t is SymStr:
        return c.__contains__(x)
    if t is list or t is tuple:
        for y in c:
            if x is y or eq(x, y):
                return True
        return False
    if t in (dict, OrderedDict, set, frozenset) or issubclass(type(c), KEYVIEWS):
        return resolve(c, x) in c
    if issubclass(type(c), (dict, set, frozenset)) and type(c).__contains__ in (dict.__contains__, set.__contains__,
                                                                          frozenset.__contains__):
        return resolve(c, x) in c
    if issubclass(type(c), VALVIEWS):
        return any([x is y or eq(x, y) for y in c])
    return x in c


def not_contains(x, c):
    return not contains(x, c)


def mod(a, b):
    if issubclass(type(a), str):
        if not isinstance(a, SymStr) and type(a) is not str:
            return a % b
        if type(a) is SymStr or deep_sym(b) or _may_give_sym(b):
            return V.str_mod(a, b)
    return a % b


def _may_give_sym(b):
    """Whether formatting b could call python code giving symbolic strings."""
    if type(b) is tuple:
        return any(map(_may_give_sym, b))
    return H.ctx is not None and type(b) not in SCALARS


_SETS = (set, frozenset) + KEYVIEWS


def _setop(a, b):
    if issubclass(type(a), _SETS) and issubclass(type(b), _SETS) and (_keys_sym(a) or _keys_sym(b)):
        return True
    return False


def _aligned(a, b):
    """b with its elements replaced by the equal elements of a."""
    return set([resolve(a, k) for k in list(b)])


def binop(name):
    native = getattr(operator, name)

    def op(a, b):
        if issubclass(type(a), _SETS) and _setop(a, b):
            return native(set(a) if issubclass(type(a), KEYVIEWS) else a, _aligned(a, b))
        return native(a, b)
    return op


sub_, and_, or_, xor_ = binop('sub'), binop('and_'), binop('or_'), binop('xor')
le_, lt_, ge_, gt_ = binop('le'), binop('lt'), binop('ge'), binop('gt')


def fstr(*parts):
    """Parts: strings or (value, conversion, spec)."""
    out = []
    for p in parts:
        if type(p) is tuple:
            out.append(V.fmt_value(*p))
        else:
            out.append(p)
    return V.str_join('', out)


# ---- calls

def _type(*args):
    if len(args) == 1:
        return V.rtype(args[0])
    return type(*args)


def _str(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        return V.to_str(args[0])
    return str(*args, **kwargs)


def _int(*args, **kwargs):
    if not args or kwargs:
        return int(*args, **kwargs)
    return V.to_int(*args)


def _float(*args):
    return V.to_float(*args) if args else 0.0


def _ord(c):
    if type(c) is SymStr and len(c) == 1:
        it = c._it[0]
        return V.mkint(it) if type(it) is tuple else it
    return ord(c)


def _chr(i):
    if type(i) is SymInt:
        return V.mkstr((i._lin,))
    return chr(i)


def _range(*args):
    return range(*[plain(a, 'range') for a in args])


def _bool(*args):
    return bool(*args)


def _len(x):
    return len(x)


def _hash(x):
    return hash(x)


def _format(value, spec=''):
    return V.fmt_value(value, None, spec) if deep_sym(value) else format(value, spec)


_MISSING = object()


def _attribute_names(obj):
    names = set()
    try:
        names.update(object.__getattribute__(obj, '__dict__'))
    except AttributeError:
        pass
    for k in (type(obj),) + ((obj,) if isinstance(obj, type) else ()):
        for m in type.__getattribute__(k, '__mro__'):
            names.update(vars(m))
    return [n for n in names if type(n) is str]


def _known_attribute(obj, name):
    """The attribute of that name (one of those of obj), or None: one decision per name of that length."""
    for n in sorted(_attribute_names(obj)):
        if len(n) == len(name) and branch(same(name, n)):
            return n
    return None


def _getattr(obj, name, *default):
    if type(name) is not SymStr:
        return getattr(obj, plain(name, 'attribute name') if is_sym(name) else name, *default)
    hook = getattr(type(obj), '__getattribute__', None)
    if type(hook) is FunctionType and type(hook.__code__) is types.CodeType:
        try:
            return hook(obj, name)
        except AttributeError:
            fallback = getattr(type(obj), '__getattr__', None)
            if fallback is not None:
                return fallback(obj, name)
            if default:
                return default[0]
            raise
    n = _known_attribute(obj, name)
    if n is not None:
        return getattr(obj, n, *default)
    fallback = getattr(type(obj), '__getattr__', None)
    if fallback is None and isinstance(obj, types.ModuleType):
        f = vars(obj).get('__getattr__')
        fallback = None if f is None else lambda _, k: f(k)
    try:
        if fallback is not None:
            return fallback(obj, name)
        raise AttributeError(V.str_mod('%r object has no attribute %r', (type(obj).__name__, name)))
    except AttributeError:
        if default:
            return default[0]
        raise


def _hasattr(obj, name):
    return _getattr(obj, name, _MISSING) is not _MISSING


def _object_getattribute(obj, name):
    if type(name) is not SymStr:
        return object.__getattribute__(obj, name)
    n = _known_attribute(obj, name)
    if n is None:
        raise AttributeError(V.str_mod('%r object has no attribute %r', (type(obj).__name__, name)))
    return object.__getattribute__(obj, n)


def _setattr(obj, name, value):
    return setattr(obj, plain(name, 'attribute name') if is_sym(name) else name, value)


MODULES = {}      # what a symbolic module name may refer to: {name: module, or None if it cannot be imported}


def _import_module(name, package=None):
    if type(name) is not SymStr:
        return importlib.import_module(name, package)
    for k in sorted(MODULES):
        if len(k) == len(name) and branch(same(name, k)):
            return importlib.import_module(k)
    raise ModuleNotFoundError(V.str_mod('No module named %r', (name,)))


def _dunder_import(name, *args, **kwargs):
    return _import_module(name) if type(name) is SymStr else __import__(name, *args, **kwargs)


def _isinstance(x, t):
    return isinstance(x, t)


def _key(kwargs):
    if 'key' in kwargs:
        kwargs['key'] = pick(kwargs['key'])
    return kwargs


def _keyed(f):
    def call(*args, **kwargs):
        return f(*args, **_key(kwargs))
    return call


def _applying(f):
    """The calls made by map and the like are as those of the instrumented code."""
    def call(*args, **kwargs):
        return f(pick(args[0]), *args[1:], **kwargs) if args else f(*args, **kwargs)
    return call


class SymText(io.StringIO):
    """A text buffer of strings with symbolic characters."""

    def __init__(self, *args, **kwargs):
        io.StringIO.__init__(self, *args, **kwargs)
        self._parts = list(args[:1]) if args and len(args[0]) else []
        self._native = bool(len(args) > 1 or kwargs or self._parts)

    def _settle(self):
        if not self._native:
            self._native = True
            io.StringIO.write(self, plain(V.str_join('', self._parts), 'StringIO'))

    def write(self, s):
        if self._native or not isinstance(s, str):
            return io.StringIO.write(self, plain(s, 'StringIO'))
        self._parts.append(s)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def getvalue(self):
        return io.StringIO.getvalue(self) if self._native else V.str_join('', self._parts)

    def tell(self):
        return io.StringIO.tell(self) if self._native else sum(map(len, self._parts))


def _settling(name):
    native = getattr(io.StringIO, name)

    def call(self, *args):
        if name == 'seek' and not self._native and args in ((0, 2), (0, io.SEEK_END)):
            return self.tell()
        self._settle()
        return native(self, *args)
    return call


for _k in ('read', 'readline', 'readlines', 'seek', 'truncate', '__iter__', '__next__'):
    setattr(SymText, _k, _settling(_k))


def _sorted(it, *args, **kwargs):
    return sorted(it, *args, **_key(kwargs))


class SymDigestObject(object):
    def __init__(self, kind, args):
        self.kind = kind
        self.parts = list(args)

    def update(self, b):
        self.parts.append(bytes(b) if type(b) is memoryview else b)

    def _native(self):
        h = hashlib.new(self.kind)
        for p in self.parts:
            h.update(bytes(bytearray(bytes.__getitem__(p, slice(None)) if type(p) is SymBytes else p)))
        return h

    decode = None        # alternative decoding of the hashed message (messages that are not text)
    tokens = False       # digests as concrete strings, the same for the same message only (one path for each case)

    def hexdigest(self):
        if SymDigestObject.decode is not None:
            msg = SymDigestObject.decode(self.parts)
            text = ''.join([V._native(m) if is_sym(m) else m for m in msg])
            d = V.mkdigest(self.kind, msg, hashlib.new(self.kind, text.encode('utf-8')).hexdigest())
            return token(d) if SymDigestObject.tokens else d
        native = self._native().hexdigest()
        if not any(type(p) is SymBytes for p in self.parts):
            return native
        msg = V.str_join('', [p._s if type(p) is SymBytes else p.decode('utf-8') for p in self.parts])
        return V.mkdigest(self.kind, msg, native)

    def digest(self):
        for p in self.parts:
            plain(p, 'binary digest')
        return self._native().digest()

    def copy(self):
        return SymDigestObject(self.kind, self.parts)


def token(d):
    known = H.ctx.cache.setdefault('tokens', [])
    for e, t in known:
        if d == e:
            return t
    t = hashlib.md5(('%d' % len(known)).encode('utf-8')).hexdigest()
    known.append((d, t))
    return t


def _hasher(kind):
    native = getattr(hashlib, kind)

    def make(*args, **kwargs):
        if H.ctx is None:
            return native(*args, **kwargs)
        return SymDigestObject(kind, args)
    return make


def _hashlib_new(kind, *args, **kwargs):
    if H.ctx is None:
        return hashlib.new(kind, *args, **kwargs)
    return SymDigestObject(kind, args)


TYPES = {type: _type, str: _str, int: _int, float: _float, range: _range, dict: _dict, set: _set,
         frozenset: mkfrozenset, OrderedDict: _odict, io.StringIO: SymText, map: _applying(map), filter: _applying(filter),
         itertools.starmap: _applying(itertools.starmap), itertools.takewhile: _applying(itertools.takewhile),
         itertools.dropwhile: _applying(itertools.dropwhile), itertools.filterfalse: _applying(itertools.filterfalse)}
BUILTINS = {ord: _ord, chr: _chr, repr: V.to_repr, format: _format, getattr: _getattr, hasattr: _hasattr,
            importlib.import_module: _import_module, __import__: _dunder_import,
            object.__getattribute__: _object_getattribute,
            setattr: _setattr, operator.eq: eq, operator.ne: ne, operator.contains: lambda c, x: contains(x, c),
            operator.mod: mod, operator.getitem: getitem, sorted: _sorted, min: _keyed(min), max: _keyed(max),
            reduce: _applying(reduce)}
for _k in ('sha1', 'md5', 'sha256', 'sha512', 'sha224', 'sha384'):
    BUILTINS[getattr(hashlib, _k)] = _hasher(_k)
BUILTINS[hashlib.new] = _hashlib_new
for _k in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer', 'escape'):
    BUILTINS[getattr(re, _k)] = rx.module_function(_k)
FUNCTIONS = {f: g for f, g in BUILTINS.items() if isinstance(f, FunctionType)}
BUILTINS = {f: g for f, g in BUILTINS.items() if not isinstance(f, FunctionType)}


def _str_method(s, name, native):
    impl = getattr(SymStr, name, None)
    if impl is None:
        return native
    func = STR_IMPL.get(name)

    def call(*args, **kwargs):
        for a in args:
            if type(a) in SYM or deep_sym(a):
                break
        else:
            if name not in ('join', 'format'):
                return native(*args, **kwargs)
            if name == 'join':
                return V.str_join(s, *args)
            return V.str_format(s, args, kwargs)
        if func is not None:
            if name == 'format':
                return V.str_format(s, args, kwargs)
            return func(s, *args, **kwargs)
        return native(*[plain(a, 'str.' + name) for a in args], **kwargs)
    return call


STR_IMPL = {'join': V.str_join, 'replace': V.str_replace, 'startswith': V.str_startswith, 'endswith': V.str_endswith,
            'find': V.str_find, 'rfind': V.str_rfind, 'count': V.str_count, 'partition': V.str_partition,
            'rpartition': V.str_rpartition, 'split': V.str_split, 'rsplit': V.str_rsplit, 'format': V.str_format,
            'index': SymStr.index, 'rindex': SymStr.rindex, 'strip': lambda s, c=None: V.str_strip(s, c, True, True),
            'lstrip': lambda s, c=None: V.str_strip(s, c, True, False),
            'rstrip': lambda s, c=None: V.str_strip(s, c, False, True),
            '__contains__': lambda s, x: contains(x, s), '__eq__': lambda s, x: s == x, '__ne__': lambda s, x: s != x,
            '__add__': lambda s, x: s + x, '__mod__': mod, '__getitem__': getitem,
            '__lt__': lambda s, x: s < x, '__le__': lambda s, x: s <= x, '__gt__': lambda s, x: s > x,
            '__ge__': lambda s, x: s >= x}


def _key_method(d, name, native):
    """dict/set methods taking a key first."""
    def call(*args, **kwargs):
        if args and (deep_sym(args[0]) or _keys_sym(d)):
            args = (resolve(d, args[0]),) + args[1:]
        return native(*args, **kwargs)
    return call


def _dict_update(d, name, native):
    def call(*args, **kwargs):
        if args and not hasattr(args[0], 'keys'):
            args = (list(args[0]),) + args[1:]
        if _keys_sym(d) or any(map(deep_sym, args)) or deep_sym(kwargs):
            _fill(_Proxy(d), args, kwargs)
            return None
        return native(*args, **kwargs)
    return call


class _Proxy(object):
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __contains__(self, k):
        return dict.__contains__(self.d, k)

    def __setitem__(self, k, v):
        self.d[k] = v


def _dict_init(d, name, native):
    def call(*args, **kwargs):
        if args and not hasattr(args[0], 'keys'):
            args = (list(args[0]),) + args[1:]
        if any(map(deep_sym, args)) or deep_sym(kwargs):
            native()
            _fill(_Proxy2(d), args, kwargs)
            return None
        return native(*args, **kwargs)
    return call


class _Proxy2(_Proxy):
    def __setitem__(self, k, v):
        dict.__setitem__(self.d, k, v)


def _set_many(d, name, native):
    def call(*args, **kwargs):
        args = [list(a) if not isinstance(a, (set, frozenset, dict)) else a for a in args]
        if _keys_sym(d) or any(map(deep_sym, args)):
            args = [[resolve(d, k) for k in list(a)] for a in args]
            if name == 'update':
                for a in args:
                    for k in a:
                        set.add(d, resolve(d, k))
                return None
        return native(*args, **kwargs)
    return call


def _dict_eq(d, name, native):
    return lambda other: eq(d, other) if name == '__eq__' else ne(d, other)


def _list_search(d, name, native):
    def call(x, *args):
        if not deep_sym(x) and not deep_sym(d):
            return native(x, *args)
        if name == 'count':
            return len([y for y in d if x is y or eq(x, y)])
        for i, y in enumerate(d):
            if x is y or eq(x, y):
                if name == 'remove':
                    del d[i]
                    return None
                return i
        raise ValueError('value not in list')
    return call


DICT_METHODS = {'get': _key_method, 'pop': _key_method, 'setdefault': _key_method, '__getitem__': _key_method,
                '__setitem__': _key_method, '__delitem__': _key_method, '__contains__': _key_method,
                'move_to_end': _key_method, 'update': _dict_update, '__init__': _dict_init, '__eq__': _dict_eq,
                '__ne__': _dict_eq}
SET_METHODS = {'add': _key_method, 'remove': _key_method, 'discard': _key_method, '__contains__': _key_method,
               'update': _set_many, 'union': _set_many, 'intersection': _set_many, 'difference': _set_many,
               'symmetric_difference': _set_many, 'issubset': _set_many, 'issuperset': _set_many,
               'isdisjoint': _set_many, '__eq__': _dict_eq, '__ne__': _dict_eq}
def _list_sort(d, name, native):
    return lambda **kwargs: native(**_key(kwargs))


LIST_METHODS = {'sort': _list_sort, 'remove': _list_search, 'index': _list_search, 'count': _list_search}


def _bound(f, s):
    return _bound_impl(f, s, getattr(f, '__name__', None))


def _bound_impl(f, s, name):
    ts = type(s)
    if ts is str:
        return _str_method(s, name, f)
    if ts is rx.Pattern:
        return rx.pattern_method(s, name, f)
    if issubclass(type(s), dict):
        m = DICT_METHODS.get(name)
        return m(s, name, f) if m is not None else f
    if issubclass(type(s), (set, frozenset)):
        m = SET_METHODS.get(name)
        return m(s, name, f) if m is not None else f
    if issubclass(type(s), list):
        m = LIST_METHODS.get(name)
        return m(s, name, f) if m is not None else f
    return f


def _unbound(owner, name, f):
    """str.join(sep, it), dict.get(d, k)..."""
    def call(*args, **kwargs):
        if not args:
            return f(*args, **kwargs)
        self, args = args[0], args[1:]
        if type(self) in SYM:
            m = getattr(self, name)
            if getattr(m, '__func__', None) is not f:
                return m(*args, **kwargs)
        return _bound_impl(types.MethodType(f, self), self, name)(*args, **kwargs)
    return call


BuiltinFunctionType = type(len)
UNBOUND = {}
for _o in (str, dict, OrderedDict, set, frozenset, list):
    _table = STR_IMPL if _o is str else LIST_METHODS if _o is list else DICT_METHODS if issubclass(_o, dict) else SET_METHODS
    for _n in dir(_o):
        _f = getattr(_o, _n)
        if _n in _table and _f not in UNBOUND and isinstance(_f, (FunctionType, type(str.join), type(str.__add__))):
            UNBOUND[_f] = _unbound(_o, _n, _f)
# every method implemented by the builtin types (these are plain functions on PyPy)
NATIVE_METHODS = set()
for _o in (str, dict, OrderedDict, set, frozenset, list, rx.Pattern):
    for _n in dir(_o):
        _f = getattr(_o, _n)
        try:
            if callable(_f) and not isinstance(_f, type):
                NATIVE_METHODS.add(_f)
        except TypeError:
            pass
NATIVE_METHODS = frozenset(NATIVE_METHODS)
FUNCTIONS.update((f, g) for f, g in UNBOUND.items() if isinstance(f, FunctionType))
NONSYM = (SymStr, SymInt, SymFloat, SymBytes, Digest)
_MW = type(''.__add__)
_OBJECT_GETATTRIBUTE = object.__getattribute__


def pick(f):
    """What to call instead of f."""
    if H.ctx is None:
        return f
    t = type(f)
    if t is FunctionType:
        return FUNCTIONS.get(f, f)
    if t is type:
        return TYPES.get(f, f)
    if t is MethodType:
        s = f.__self__
        ts = type(s)
        if ts in NONSYM:
            return f
        if ts is str or ts is rx.Pattern or ts is OrderedDict or (
                issubclass(type(s), _COLLECTIONS) and type(f.__func__) is FunctionType and f.__func__ in NATIVE_METHODS):
            return _bound(f, s)
        if f.__func__ is _OBJECT_GETATTRIBUTE:
            return partial(_object_getattribute, s)
        return f
    if t is BuiltinFunctionType or t is _MW:
        g = BUILTINS.get(f) if t is BuiltinFunctionType else None
        if g is not None:
            return g
        s = getattr(f, '__self__', None)
        if s is not None and not issubclass(type(s), types.ModuleType) and type(s) not in NONSYM:
            return _bound(f, s)
        return f
    return f


_COLLECTIONS = (dict, set, frozenset, list)


HELPERS = {'_sx_pick': pick, '_sx_eq': eq, '_sx_ne': ne, '_sx_in': contains, '_sx_notin': not_contains, '_sx_mod': mod,
           '_sx_getitem': getitem, '_sx_store': store, '_sx_mkdict': mkdict, '_sx_mkset': mkset,
           '_sx_displaydict': displaydict, '_sx_displayset': lambda *a: mkset(a), '_sx_fstr': fstr, '_sx_sub': sub_, '_sx_and': and_,
           '_sx_or': or_, '_sx_xor': xor_, '_sx_le': le_, '_sx_lt': lt_, '_sx_ge': ge_, '_sx_gt': gt_}
