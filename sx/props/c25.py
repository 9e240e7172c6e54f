"""C25: lazy imports pick the first importable variant and fail only on use."""
import sys
import types

from whatami.misc import maybe_import, maybe_import_member
from sx import ops
from sx.job import Job
from sx import harvest

ASSUMPTIONS = ['Imports either give a module or raise ImportError (or an error derived from it).',
               'The bookkeeping attributes of the failed import (_library_name, _install_msg, _errors, _variants, module, '
               '_maybe_import) and double underscore names may be read without error.',
               'Modules named by symbolic strings are stand-ins registered in sys.modules.']
FREE = ('_library_name', '_install_msg', '_errors', '_variants', 'module', '_maybe_import')


class Empty(types.ModuleType):
    """A module that is false."""

    def __len__(self):
        return 0


class Alike(types.ModuleType):
    """A module that is equal to anything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


class Failing(object):
    """Imports that find the module, that fails in turn."""
    errors = {}

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in Failing.errors:
            raise Failing.errors[name]


FAILURES = [lambda n: ImportError('cannot import name', name='another'), lambda n: ImportError('broken'), lambda n: ModuleNotFoundError('No'),
            lambda n: ImportError(), lambda n: ImportError('bad magic', name=n, path='/none'), lambda n: type('Mine', (ImportError,), {})(3, 4),
            lambda n: ModuleNotFoundError("No module named 'zzz0'", name='zzz0'), lambda n: ImportError('DLL load failed', name='_' + n)]


def environment(c, n):
    """Installs n stand-in modules, available or not: [(name, module or None)]."""
    out = []
    for i in range(n):
        name = 'zzz%d' % i
        if c.bool('available %d' % i):
            m = (c.pick([types.ModuleType, Empty, Alike], 'module') if i == 0 else types.ModuleType)(name)
            m.who = name
            out.append((name, m))
        else:
            out.append((name, None))
        sys.modules[name] = out[-1][1]
    ops.MODULES.clear()
    ops.MODULES.update(out)
    return out


def tidy():
    for k in [k for k in sys.modules if k.startswith('zzz')]:
        del sys.modules[k]
    ops.MODULES.clear()
    Failing.errors.clear()
    if Failing in sys.meta_path:
        sys.meta_path.remove(Failing)


def tidied(harness):
    def run(c):
        tidy()
        try:
            harness(c)
        finally:
            tidy()
    run.__name__ = harness.__name__
    return run


def first(mods, names):
    d = dict(mods)
    for n in names:
        if d[n] is not None:
            return d[n]
    return None


def read(x, attr):
    return getattr(x, attr)


def install_message(c):
    return c.pick([None, 'pip', 'conda', 'ask the admin'], 'install')


def bookkeeping(m):
    """Names of what the failed import keeps for itself."""
    own = [k for t in type(m).__mro__[:-1] for k in vars(t)]
    try:
        own += list(object.__getattribute__(m, '__dict__'))
    except AttributeError:
        pass
    return sorted(set(FREE + tuple([k for k in own if k.startswith('_') and not k.startswith('__')])))


def fails_on_use(c, m, library):
    """Reading any attribute raises ImportError naming the library."""
    n = c.choose(9, 'attribute') + 1
    attr = c.ident(n, n, reserved=False)
    c.assume(c.all(*[c.differ(attr, f) for f in bookkeeping(m) if len(f) == n]))
    c.show(library, attr)
    e = c.raises(ImportError, read, m, attr)
    c.check(e is not None, 'using a library that is not there raises ImportError')
    c.check(library in str(e), 'the error names the library')
    c.check(c.raises(ImportError, read, m, attr) is not None, 'and does so each time')


@tidied
def variants(c):
    mods = environment(c, 3)
    n = c.choose(4, 'variants') + 1
    names = [c.pick(mods, 'variant')[0] for _ in range(n)]
    library = c.str(1, 3)
    install = install_message(c)
    c.show(library, names, [(k, m is not None) for k, m in mods], install)
    got = maybe_import(library, install, *names)
    expected = first(mods, names)
    if expected is not None:
        c.check(got is expected, 'the first importable variant')
    else:
        fails_on_use(c, got, library)


@tidied
def alone(c):
    """The library itself when there are no variants."""
    mods = environment(c, 2)
    library = 'zzz' + c.str(1, 1, ((48, 50), (97, 98)))
    install = install_message(c)
    c.show(library, [(k, m is not None) for k, m in mods], install)
    got = maybe_import(library, install) if c.bool('install') else maybe_import(library)
    expected = None
    for k, m in mods:
        if library == k:
            expected = m
    if expected is not None:
        c.check(got is expected, 'the library')
        c.check_same(got.who, library, 'the library')
    else:
        fails_on_use(c, got, library)


@tidied
def library_last(c):
    """The library itself is not tried if there are variants."""
    mods = environment(c, 3)
    library = c.pick(mods, 'library')[0]
    names = [c.pick(mods, 'variant')[0] for _ in range(c.choose(3, 'variants') + 1)]
    c.show(library, names, [(k, m is not None) for k, m in mods])
    got = maybe_import(library, None, *names)
    expected = first(mods, names)
    if expected is not None:
        c.check(got is expected, 'the first importable variant')
    else:
        fails_on_use(c, got, library)


@tidied
def later(c):
    """A failed import stays failed, a good one keeps its module, whatever is asked for afterwards."""
    mods = environment(c, 2)
    asked = [c.pick(mods, 'library')[0] for _ in range(2)]
    got = [maybe_import(a) for a in asked]
    c.show(asked, [(k, m is not None) for k, m in mods])
    for a, g in zip(asked, got):
        if dict(mods)[a] is not None:
            c.check(g is dict(mods)[a], 'the module asked for')
        else:
            e = c.raises(ImportError, read, g, 'who')
            c.check(e is not None and a in str(e), 'the error names the library asked for')


def ident_or_blank(c):
    return c.ident(1, 3, reserved=False)


@tidied
def failing(c):
    """Variants that are there, but fail to be imported."""
    mods = environment(c, 3)
    for k, m in mods:
        if m is None:
            n = c.choose(len(FAILURES) + 1, 'failure')
            if n:
                Failing.errors[k] = FAILURES[n - 1](k)
                del sys.modules[k]
    sys.meta_path.insert(0, Failing)
    names = [k for k, _ in mods][:1 + c.choose(3, 'variants')]
    c.show(names, sorted(Failing.errors))
    variant = len(names) > 1 or c.bool('variant')
    library = 'library' if variant else names[0]
    got = maybe_import('library', None, *names) if variant else maybe_import(names[0])
    expected = first(mods, names)
    if expected is not None:
        c.check(got is expected, 'the first importable variant')
        expected.x = 3
        c.check_same(maybe_import_member('whatever.x', c.bool('fail'), None, *names), 3, 'the member of the first importable variant')
    else:
        fails_on_use(c, got, library)
        c.check(maybe_import_member('whatever.x', False, None, *names) is None, 'None when failing is not wanted')
        c.check(c.raises(ImportError, maybe_import_member, 'whatever.x', True, None, *names) is not None,
                'a missing module raises ImportError')


@tidied
def members(c):
    """maybe_import_member over modules with symbolic members."""
    mods = environment(c, 2)
    member = ident_or_blank(c)
    value = c.int(0, 9)
    there = c.bool('member there')
    for _, m in mods:
        if m is not None and there:
            setattr(m, 'abc', value)
    names = [c.pick(mods, 'variant')[0] for _ in range(c.choose(3, 'variants'))]
    module = 'zzz' + c.str(1, 1, ((48, 50), (97, 98)))
    if c.bool('submodule'):
        module = module + '.' + c.ident(1, 2, reserved=False)
    fail = c.bool('fail')
    install = install_message(c)
    fqn = module + '.' + member
    c.show(fqn, names, [(k, m is not None) for k, m in mods], fail, install)
    if names:
        m = first(mods, names)
    else:
        m = None
        for k, x in mods:
            if module == k:
                m = x
    if m is not None:
        c.assume(c.not_(member == 'who'))
        if there and member == 'abc':
            got = maybe_import_member(fqn, fail, install, *names)
            c.check_same(got, value, 'the member of the first importable variant')
        else:
            c.check(c.raises(AttributeError, maybe_import_member, fqn, fail, install, *names) is not None,
                    'members that are not there raise')
    elif fail:
        c.assume(c.all(*[c.differ(member, f) for f in FREE]))
        e = c.raises(ImportError, maybe_import_member, fqn, fail, install, *names)
        c.check(e is not None, 'a missing module raises ImportError')
        c.check(module in str(e), 'the error names the module')
    else:
        c.check(maybe_import_member(fqn, fail, install, *names) is None, 'None when failing is not wanted')


@tidied
def member_of(c):
    """Members are those of the first importable variant."""
    mods = environment(c, 3)
    for _, m in mods:
        if m is not None:
            m.x = c.int(0, 99)
    names = [c.pick(mods, 'variant')[0] for _ in range(c.choose(3, 'variants') + 1)]
    c.show(names, [(k, m is not None) for k, m in mods])
    m = first(mods, names)
    if m is not None:
        c.check_same(maybe_import_member('whatever.x', True, None, *names), m.x, 'the member of the first importable variant')
        c.check_same(maybe_import_member('whatever.x', False, None, *names), m.x, 'the member of the first importable variant')
    else:
        c.check(maybe_import_member('whatever.x', False, None, *names) is None, 'None when failing is not wanted')
        c.check(c.raises(ImportError, maybe_import_member, 'whatever.x', True, None, *names) is not None,
                'a missing module raises ImportError')
        c.check(c.raises(ImportError, lambda: maybe_import_member('whatever.x', install_msg=None)) is not None,
                'failing is the default')


@tidied
def no_module(c):
    """Names without module are refused."""
    s = c.str(0, 3)
    c.show(s)
    c.assume(c.not_('.' in s))
    fqn = s if c.bool('bare') else '.' + s
    fail = c.bool('fail')
    c.check(c.raises(ValueError, maybe_import_member, fqn, fail) is not None, 'names without module raise ValueError')


@tidied
def many(c):
    """Many variants, the last one or none available."""
    n = c.pick(sorted(set([6, 9] + harvest.sizes(40))), 'variants')
    mods = environment(c, 2)
    names = ['zzz9%d' % i for i in range(n)]
    at = c.pick([0, 1, n // 2, n - 2], 'position')
    names[at], names[at + 1] = mods[0][0], mods[1][0]
    for k in names:
        if k not in dict(mods):
            sys.modules[k] = None
            ops.MODULES[k] = None
    library = c.str(1, 2)
    c.show(library, n, [(k, m is not None) for k, m in mods])
    got = maybe_import(library, None, *names)
    expected = first(mods, [k for k, _ in mods])
    if expected is not None:
        c.check(got is expected, 'the first importable variant')
    else:
        for _ in range(c.pick([1, n], 'uses')):
            c.raises(ImportError, read, got, 'something')
        fails_on_use(c, got, library)


def jobs(tier):
    return [
        Job('variants', variants, {'modules': 3, 'variants': '1..4', 'library': 'any text of 1..3 characters',
                                   'attribute': 'identifiers of 1..9 characters'}, 2),
        Job('failing', failing, {'modules': 3, 'variants': '1..3', 'failures': len(FAILURES) + 1}, 1),
        Job('alone', alone, {'modules': 2, 'library': '4 characters', 'attribute': 'identifiers of 1..9 characters'}, 1),
        Job('library_last', library_last, {'modules': 3, 'variants': '1..3', 'attribute': '1..9 characters'}, 1),
        Job('later', later, {'modules': 2}, 0.3),
        Job('members', members, {'modules': 2, 'variants': '0..2', 'module': '4..7 characters', 'member': '1..3 characters'}, 2),
        Job('member_of', member_of, {'modules': 3, 'variants': '1..3'}, 1),
        Job('no_module', no_module, {'name': 'any text of 0..4 characters'}, 0.3),
        Job('many', many, {'variants': '6, 9 and harvested numbers'}, 0.5),
    ]
