"""C31: inspection helpers describe classes, constructors, packages and experiments as they are."""
import datetime
import importlib
import inspect
import os
import shutil
import sys
import tempfile
from whatami import What, fqn, import_submodules, init_argspec, whatable
from whatami.misc import all_subclasses, mlexp_info_helper
from whatami.whatutils import what2id
from sx.job import Job
from sx import harvest
from .common import render_what, implicit, word, WORDS

ASSUMPTIONS = ['Constructors are python functions whose first parameter is self, without keyword-only parameters.',
               'Modules either can be imported or raise ImportError; packages are read from files in a scratch directory.']


def hierarchies(c):
    """Any small class hierarchy."""
    n = 2 + c.choose(4, 'classes')
    alike = c.bool('same names')
    classes = [type('K0', (object,), {})]
    for i in range(1, n):
        bases = []
        for k in reversed(classes):
            if len(bases) < 2 and c.bool('base') and not any([issubclass(b, k) for b in bases]):
                bases.append(k)
        try:
            classes.append(type('K%d' % (i % 2 if alike else i), tuple(bases) or (object,), {}))
        except TypeError:  # no consistent order of bases
            c.assume(False)
    c.show([[classes.index(b) for b in k.__bases__ if b in classes] for k in classes])
    for k in classes:
        expected = [s for s in classes if s is not k and issubclass(s, k)]
        got = all_subclasses(k)
        c.check(all([s in got for s in expected]), 'all_subclasses gives all the derived classes')
        c.check(all([s in expected for s in got]), 'all_subclasses gives no other class')


def many_levels(c):
    n = 1 + c.choose(12, 'levels')
    k = root = type('L0', (object,), {})
    chain = []
    for i in range(n):
        k = type('L%d' % i, (k,), {})
        chain.append(k)
    c.show(n)
    c.check(sorted([s.__name__ for s in all_subclasses(root)]) == sorted([s.__name__ for s in chain]), 'each derived class once in chains')


def growing(c):
    """The derived classes there are at each time."""
    classes = [type('G0', (object,), {})]
    parents = []
    for i in range(1, 5):
        p = c.choose(len(classes), 'base')
        parents.append(p)
        classes.append(type('G%d' % i, (classes[p],), {}))
        asked = classes[c.choose(len(classes), 'asked')]
        expected = [s.__name__ for s in classes if s is not asked and issubclass(s, asked)]
        got = all_subclasses(asked)
        c.check(sorted([s.__name__ for s in got]) == sorted(expected), 'the derived classes that there are at that moment')
        got.append(None)
        c.check(None not in all_subclasses(asked), 'what is returned can be changed')
    c.show(parents)


class Named(object):
    pass


def class_within():
    class Within(object):
        def method(self):
            pass
    return Within


def names(c):
    """Qualified names."""
    m, q, n = c.str(1, 3), c.str(1, 3), c.str(1, 3)
    o = Named()
    o.__module__, o.__name__ = m, n
    has = c.bool('qualname')
    if has:
        o.__qualname__ = q
    c.show(m, q, n, has)
    c.check_same(fqn(o), m + '.' + (q if has else n), 'the fully qualified name has the module and the qualified name')
    c.check_same(fqn(o, use_class=True), __name__ + '.Named', 'the fully qualified name of the class')
    ls = c.pick(['', 'a.', 'f.<locals>.', 'A.f.<locals>.', 'f.<locals>.g.<locals>.', '<locals>.', '<lambda>.<locals>.', '.'], 'where')
    o.__qualname__ = ls + q
    c.check_same(fqn(o), m + '.' + ls + q, 'the fully qualified name has the module and the qualified name')
    c.check_same(fqn(class_within()), __name__ + '.class_within.<locals>.Within', 'the fully qualified name of a class')
    c.check_same(fqn(class_within()(), use_class=True), __name__ + '.class_within.<locals>.Within', 'the fully qualified name of the class')
    c.check_same(fqn(class_within().method), __name__ + '.class_within.<locals>.Within.method', 'the fully qualified name of a function')
    c.check_same(fqn(Named), __name__ + '.Named', 'the fully qualified name of a class')
    c.check_same(fqn(names), __name__ + '.names', 'the fully qualified name of a function')


def constructors(c):
    """Any small signature."""
    n = c.choose(5, 'parameters')
    d = c.choose(n + 1, 'defaults')
    ps = [c.pick(['a', 'A', '_a', '__', 'a_', '_', 'cls', 'args', 'kwargs'], 'name') if n < 3 and i < 1 else p for i, p in enumerate(['a', 'b', 'myself', 'd'][:n])]
    values = [c.scalar(strlen=1) for _ in range(d)]
    varargs, varkw = c.bool('varargs'), c.bool('varkw')
    text = ['self'] + ps[:n - d] + ['%s=None' % p for p in ps[n - d:]] + ['*rest'] * varargs + ['**more'] * varkw
    ns = {}
    exec('class K(object):\n    def __init__(%s):\n        pass\n' % ', '.join(text), ns)
    K = ns['K']
    K.__init__.__defaults__ = tuple(values) if d else None
    target = K
    if c.bool('instance'):
        target = K(*[1] * (n - d))
    elif c.bool('derived'):
        target = type('Derived', (K,), {})
    c.show(text, values)
    got = init_argspec(target)
    c.check(len(got) == 5, 'five elements')
    c.check_same(list(got[0]), ['self'] + ps, 'the arguments of the constructor')
    c.check_same((got[1], got[2]), ('rest' if varargs else None, 'more' if varkw else None), 'the variable arguments of the constructor')
    c.check_same(got[3], tuple(values) if d else None, 'the defaults of the constructor')
    c.check_same(list(got[4]), ps[:n - d], 'the required arguments of the constructor')


def words(c):
    """Parameters with any name."""
    k = word(c)
    c.assume(k != 'self' and (not k.startswith('__') or k.endswith('__')))
    first = c.pick(['self', 'this', 'me', '_'], 'first') if c.bool('unusual') else 'self'
    c.assume(k != first)
    ps = [k, 'zz'] if c.bool('before') else ['zz', k]
    d = c.choose(3, 'defaults')
    text = [first] + ps[:2 - d] + ['%s=None' % p for p in ps[2 - d:]]
    ns = {}
    exec('class K(object):\n    def __init__(%s):\n        pass\n' % ', '.join(text), ns)
    values = [c.int(0, 9) for _ in range(d)]
    ns['K'].__init__.__defaults__ = tuple(values) if d else None
    c.show(text, values)
    got = init_argspec(ns['K'])
    c.check_same(list(got[0]), [first] + ps, 'the arguments of the constructor')
    c.check_same(got[3], tuple(values) if d else None, 'the defaults of the constructor')
    if first == 'self':
        c.check_same(list(got[4]), ps[:2 - d], 'the required arguments of the constructor')


def write(folder, name, text=''):
    with open(os.path.join(folder, name + '.py'), 'w') as f:
        f.write(text)


def tree(c, folder, name, full, depth, all_modules, good):
    """Writes a package."""
    here = os.path.join(folder, name)
    os.mkdir(here)
    bad = depth > 0 and c.bool('broken package')
    write(here, '__init__', 'import zzz_missing' if bad else 'here = 1')
    all_modules.append(full)
    if not bad:
        good.append((full, depth))
    for m in (('json', 'other') if depth else c.pick([('json', 'other'), ('_a', 'test_x'), ('X', '__main__'), ('conftest', 'setup'), ('__', 'a_b')], 'names'))[
            :c.choose(3, 'modules')]:
        broken = c.bool('broken')
        write(here, m, 'from zzz_missing import x' if broken else 'x = 1')
        all_modules.append(full + '.' + m)
        if not broken and not bad:
            good.append((full + '.' + m, depth + 1))
    if depth < 2:
        for m in (('email', 'sub') if depth or c.bool('usual') else ('_sub', 'tests'))[c.choose(2, 'first'):][:c.choose(2 if depth else 3, 'packages')]:
            more = []
            tree(c, here, m, full + '.' + m, depth + 1, all_modules, more)
            if not bad:
                good.extend(more)


def packages(c):
    """Any small package."""
    folder = tempfile.mkdtemp(prefix='sx_pkg')
    name = 'zzz_pkg'
    recurse, ignore = c.bool('recurse'), c.bool('ignore')
    everything, good = [], []
    stale = lambda: [k for k in sys.modules if k == name or k.startswith(name + '.')]
    sys.path.insert(0, folder)
    writes, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        tree(c, folder, name, name, 0, everything, good)
        importlib.invalidate_caches()
        target = importlib.import_module(name) if c.bool('module') else name
        visible = [m for m in everything if recurse or m.count('.') < 2]
        expected = [m for m, _ in good if recurse or m.count('.') < 2]
        flags = implicit(c, {'recurse_packages': recurse, 'ignore_errors': ignore}, recurse_packages=True, ignore_errors=True)
        c.show(everything, expected, recurse, ignore)
        if ignore or len(expected) == len(visible):
            got = import_submodules(target, **flags)
            c.check(sorted(got) == sorted(expected), 'all the modules that can be imported, and only them')
            c.check(all([got[k] is sys.modules[k] for k in got]), 'modules under their names')
        else:
            e = c.raises(ImportError, import_submodules, target, **flags)
            c.check(e is not None, 'errors are raised if asked')
    finally:
        sys.dont_write_bytecode = writes
        sys.path.remove(folder)
        for k in stale():
            del sys.modules[k]
        shutil.rmtree(folder)
        for k in [k for k in sys.path_importer_cache if k.startswith(folder)]:
            del sys.path_importer_cache[k]


def spread(c):
    """Packages whose modules are in several folders."""
    folder = tempfile.mkdtemp(prefix='sx_pkg')
    name = 'zzz_spread'
    n = 1 + c.choose(3, 'folders')
    namespace, inner = c.bool('namespace'), c.bool('subpackage')
    recurse = c.bool('recurse')
    writes, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    places = [os.path.join(folder, 'f%d' % i) for i in range(n)]
    stale = lambda: [k for k in sys.modules if k == name or k.startswith(name + '.')]
    whose = {}
    try:
        for i, place in enumerate(places):
            pkg = os.path.join(place, name)
            os.makedirs(pkg)
            if not namespace:
                with open(os.path.join(pkg, '__init__.py'), 'w') as f:
                    f.write('from pkgutil import extend_path\n__path__ = extend_path(__path__, __name__)\n')
            for m in ['own%d' % i] + (['common'] if c.bool('common') else []):
                with open(os.path.join(pkg, m + '.py'), 'w') as f:
                    f.write('WHERE = %d\n' % i)
                whose.setdefault(name + '.' + m, i)
        if inner:
            os.makedirs(os.path.join(places[-1], name, 'sub'))
            for m in ('__init__', 'deep'):
                with open(os.path.join(places[-1], name, 'sub', m + '.py'), 'w') as f:
                    f.write('WHERE = %d\n' % (n - 1))
            whose[name + '.sub'] = n - 1
            if recurse:
                whose[name + '.sub.deep'] = n - 1
        sys.path[:0] = places
        importlib.invalidate_caches()
        c.show(n, namespace, sorted(whose), recurse)
        got = import_submodules(name, **implicit(c, {'recurse_packages': recurse}, recurse_packages=True))
        c.check(sorted(got) == sorted([name] + list(whose)), 'all the modules that can be imported, and only them')
        c.check(all([got[k] is sys.modules[k] for k in got]), 'modules under their names')
        c.check(all([got[k].WHERE == whose[k] for k in whose]), 'the modules that an import gives')
    finally:
        sys.dont_write_bytecode = writes
        sys.path[:] = [x for x in sys.path if x not in places]
        for k in stale():
            del sys.modules[k]
        shutil.rmtree(folder)
        for k in [k for k in sys.path_importer_cache if k.startswith(folder)]:
            del sys.path_importer_cache[k]


def no_package(c):
    """Packages that are not there."""
    name = 'zzz_none' + c.pick(['', '.a', '1'], 'name')
    c.check_same(import_submodules(name), {}, 'no modules of missing packages')
    c.check_same(import_submodules(name, ignore_errors=True), {}, 'no modules of missing packages')
    c.check(c.raises(ImportError, import_submodules, name, ignore_errors=False) is not None, 'errors are raised if asked')


class WithWhat(object):
    def __init__(self, w):
        self.w = w

    def what(self):
        return self.w


class WithId(object):
    def __init__(self, i):
        self.i = i

    def id(self):
        return self.i


class Plain(object):
    def __init__(self, x):
        self.x = x


def some_function(x):
    # its source text
    return x + 1


def described(c):
    """What something is described with, and its id."""
    k = c.choose(6, 'description')
    s, i = c.str(0, 2), c.int(0, 99)
    return [lambda: (None, None), lambda: (s, s), lambda: (What('n', {'s': s}), render_what(What('n', {'s': s}))),
            lambda: (WithWhat(What('m', {'i': i})), 'm(i=%d)' % i), lambda: (WithId(s), s), lambda: (Plain(i), 'Plain(x=%d)' % i)][k]()


def ids(c):
    o, expected = described(c)
    c.show(expected)
    c.check_same(what2id(o), expected, 'the id of what is given')


class falsy(object):
    """A function that is false."""

    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()

    def __len__(self):
        return 0


def experiments(c):
    """Descriptions of experiments."""
    title, comments = c.str(0, 2), c.pick([None, 'text', '', 0, (), False], 'comments')
    setups = [described(c) for _ in range(2)]
    setups.append(c.pick([(None, None), ('x', 'x')], 'setup'))
    setups = setups[1:] + setups[:1] if c.bool('turn') else setups
    f = c.pick([None, some_function], 'function')
    calls = []

    def itime():
        calls.append(1)
        return title
    t = falsy(itime) if c.bool('falsy') else itime if c.bool('time') else None
    info = mlexp_info_helper(title, data_setup=setups[0][0], model_setup=setups[1][0], eval_setup=setups[2][0],
                             exp_function=f, comments=comments, itime=t)
    c.show(title, [s[1] for s in setups])
    c.check(list(info) == ['title', 'data_setup', 'model_setup', 'eval_setup', 'fsource', 'date', 'idate', 'host', 'comments'],
            'the documented information in order')
    c.check_same([info['title'], info['comments']], [title, comments], 'title and comments as given')
    c.check_same([info['data_setup'], info['model_setup'], info['eval_setup']], [s[1] for s in setups], 'setups are described by their ids')
    c.check_same(info['idate'], None if t is None else title, 'the time asked for')
    c.check(len(calls) == (0 if t is None else 1), 'the time is asked once')
    c.check(info['fsource'] == (inspect.getsourcelines(some_function) if f else None), 'the source of the function')
    now = datetime.datetime.strptime(info['date'], '%Y-%m-%d %H:%M:%S')
    c.check(abs((datetime.datetime.now() - now).total_seconds()) < 600, 'the date is now')


def many_parameters(c):
    n = c.pick(sorted(set([8, 13] + harvest.sizes(70))), 'parameters')
    ps = ['p%02d' % i for i in range(n)]
    d = c.pick([0, 1, n // 2, n], 'defaults')
    values = list(range(d))
    if d:
        values[c.pick([0, d - 1], 'symbolic')] = c.int(0, 999)
    text = ['self'] + ps[:n - d] + ['%s=None' % p for p in ps[n - d:]]
    ns = {}
    exec('class K(object):\n    def __init__(%s):\n        pass\n' % ', '.join(text), ns)
    K = ns['K']
    K.__init__.__defaults__ = tuple(values) if d else None
    c.show(n, d)
    got = init_argspec(K)
    c.check_same(list(got[0]), ['self'] + ps, 'the arguments of the constructor')
    c.check_same(got[3], tuple(values) if d else None, 'the defaults of the constructor')
    c.check_same(list(got[4]), ps[:n - d], 'the required arguments of the constructor')


def siblings(c):
    """Many classes derived from the same one, some of them through several bases."""
    n = c.pick(sorted(set([9, 17] + harvest.sizes(70))), 'classes')
    root = type('R', (object,), {})
    other = type('O', (root,), {})
    at = c.choose(n, 'position')
    kids = [type('S%d' % (i % 5), (other,) if i == at else (root,), {}) for i in range(n)]
    both = type('B', (kids[0], kids[-1]), {})
    c.show(n)
    got = all_subclasses(root)
    c.check(len(set(map(id, got))) == n + 2 and all([any([g is k for g in got]) for k in kids + [other, both]]), 'all_subclasses gives all the derived classes')
    c.check(len(set(map(id, all_subclasses(other)))) == (1 + (at == 0 or at == n - 1)), 'all_subclasses gives no other class')


def many_modules(c):
    """Packages with many modules."""
    n = c.pick(sorted(set([5, 9] + harvest.sizes(20))), 'modules')
    broken = c.choose(n + 1, 'broken')
    folder = tempfile.mkdtemp(prefix='sx_pkg')
    name = 'zzz_pkgmany'
    sys.path.insert(0, folder)
    writes, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        here = os.path.join(folder, name)
        deep = c.bool('deep')
        os.mkdir(here)
        write(here, '__init__')
        good = [name]
        full = name
        for i in range(n):
            if deep and i < 6:
                here = os.path.join(here, 'm%02d' % i)
                os.mkdir(here)
                full = full + '.m%02d' % i
                write(here, '__init__', '')
                good.append(full)
            else:
                write(here, 'm%02d' % i, 'import zzz_missing' if i == broken else '')
                if i != broken:
                    good.append(full + '.m%02d' % i)
        importlib.invalidate_caches()
        c.show(n, broken, deep)
        got = import_submodules(name)
        c.check(sorted(got) == sorted(good), 'all the modules that can be imported, and only them')
        c.check(all([got[k] is sys.modules[k] for k in got]), 'modules under their names')
    finally:
        sys.dont_write_bytecode = writes
        sys.path.remove(folder)
        for k in [k for k in sys.modules if k == name or k.startswith(name + '.')]:
            del sys.modules[k]
        shutil.rmtree(folder)
        for k in [k for k in sys.path_importer_cache if k.startswith(folder)]:
            del sys.path_importer_cache[k]


def jobs(tier):
    return [Job('hierarchies', hierarchies, 'any hierarchy of up to 5 classes with up to 2 bases each', 2),
            Job('many_levels', many_levels, 'chains of up to 12 classes', .5),
            Job('growing', growing, 'five classes, asked as they are defined', 1),
            Job('names', names, 'modules and names of up to 3 arbitrary characters', .5),
            Job('constructors', constructors, 'up to 4 parameters, any defaults', 2),
            Job('words', words, '%d names of parameters, four of the first one' % len(WORDS), .7),
            Job('packages', packages, 'packages of depth 2, up to 2 modules and 2 subpackages each, any of them broken', 2),
            Job('spread', spread, 'packages and namespace packages in 1..3 folders, with modules in one or several of them', .6),
            Job('no_package', no_package, 'three names', .2),
            Job('ids', ids, 'six kinds of descriptions', .5),
            Job('experiments', experiments, 'any descriptions', 1),
            Job('many_parameters', many_parameters, '8, 13 and harvested numbers of parameters', .5),
            Job('siblings', siblings, '9, 17 and harvested numbers of derived classes', .5),
            Job('many_modules', many_modules, '5, 9 and harvested numbers of modules', .5)]
