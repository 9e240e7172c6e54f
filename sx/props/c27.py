"""C27: class-wide decorators apply to every override, in order, and nothing else."""
from functools import partial

from whatami.misc import decorate_some, ensure_has_positional_args, required_args
from whatami.registry import Recorder
from sx.job import Job
from sx import harvest
from .common import insertion_sort

ASSUMPTIONS = ['Decorators are given as a callable, a list or a tuple; functions are plain python functions.',
               'Members to decorate are not called "name" (a parameter of decorate_some).']
MEMBERS = ('foo', 'bar', 'baz')


class Affine(object):
    """Decorators that do not commute: f -> (x -> f(x) * factor + shift)."""

    def __init__(self, factor, shift):
        self.factor = factor
        self.shift = shift
        self.seen = []

    def __call__(self, f):
        self.seen.append(f)

        def decorated(this, x):
            return f(this, x) * self.factor + self.shift
        decorated.original = f
        return decorated

    def apply(self, y):
        return y * self.factor + self.shift


def decorators(c, n):
    """n decorators with symbolic shifts."""
    return [Affine(c.pick([2, 3], 'factor'), c.int(-9, 9)) for _ in range(n)]


def given(c, ds):
    """How they are given."""
    if len(ds) == 1 and c.bool('alone'):
        return ds[0]
    return tuple(ds) if c.bool('tuple') else list(ds)


def applied(ds, y):
    for d in ds:
        y = d.apply(y)
    return y


def method(k):
    def f(self, x):
        return x + k
    return f


def one_class(c):
    """Each named member is decorated, in order; the rest are left alone."""
    x = c.int(-99, 99)
    spec = {}
    for m in MEMBERS[:2]:
        if c.bool('decorated ' + m):
            spec[m] = decorators(c, c.choose(4, 'decorators'))
    body = {}
    for i, m in enumerate(MEMBERS):
        if m == 'baz' or c.bool('defined ' + m):
            body[m] = method(i)
    meta = decorate_some(**{m: given(c, ds) for m, ds in spec.items()})
    c.show({m: len(ds) for m, ds in spec.items()}, list(body), x)
    original = dict(body)
    klass = meta('K', (object,), dict(body))
    for i, m in enumerate(MEMBERS):
        if m in original:
            c.check_same(getattr(klass(), m)(x), applied(spec.get(m, ()), x + i), 'the decorators, in the order given')
            if m not in spec:
                c.check(klass.__dict__[m] is original[m], 'other members are left alone')
        else:
            c.check(not hasattr(klass, m), 'members that are not there are not made up')
    for m, ds in spec.items():
        for d in ds:
            c.check(len(d.seen) == (1 if m in original else 0), 'each decorator is applied once')
    c.check(klass.__name__ == 'K' and isinstance(klass, meta), 'a class of that name')


def hierarchy(c):
    """Overrides in derived classes are decorated too, inherited members are not decorated again."""
    x = c.int(-99, 99)
    foo, bar = decorators(c, c.choose(4, 'decorators') + 1), decorators(c, 1)
    meta = decorate_some(name='M', foo=given(c, foo), bar=given(c, bar))
    base = {m: method(i) for i, m in enumerate(MEMBERS) if c.bool('base ' + m)}
    sub = {m: method(10 + i) for i, m in enumerate(MEMBERS) if c.bool('sub ' + m)}
    subsub = {m: method(20 + i) for i, m in enumerate(MEMBERS) if c.bool('subsub ' + m)} if c.bool('grandchild') else {}
    c.show(list(base), list(sub), list(subsub), x)
    k1 = meta(str('Base'), (object,), dict(base))
    k2 = meta(str('Sub'), (k1,), dict(sub))
    k3 = type(k2)(str('SubSub'), (k2,), dict(subsub))
    for k, bodies in ((k1, [base]), (k2, [sub, base]), (k3, [subsub, sub, base])):
        for m in MEMBERS:
            found = [b for b in bodies if m in b]
            if not found:
                c.check(not hasattr(k, m), 'members that are not there are not made up')
                continue
            y = found[0][m](None, x)
            c.check_same(getattr(k(), m)(x), applied(foo if m == 'foo' else bar if m == 'bar' else (), y),
                         'each override is decorated once')
    c.check(meta.__name__ == 'M', 'the name of the metaclass')


def supers(c):
    """Calls to the overridden method are decorated too."""
    x, k = c.int(-99, 99), c.int(0, 9)
    ds = decorators(c, 2)
    meta = decorate_some(foo=ds)

    class Base(metaclass=meta):
        z = 1

        def foo(self, x):
            return x + k

        @property
        def prop(self):
            return k

    class Sub(Base):
        def foo(self, x):
            return super(Sub, self).foo(x) + 1

    class Bare(Sub):
        pass
    c.show(x, k)
    expected = applied(ds, x + k)
    c.check_same(Base().foo(x), expected, 'the base method')
    c.check_same(Sub().foo(x), applied(ds, expected + 1), 'the override and the base method')
    c.check_same(Bare().foo(x), applied(ds, expected + 1), 'nothing else for classes without overrides')
    c.check(Bare.z == 1 and 'foo' not in vars(Bare), 'other attributes are left alone')
    c.check_same(Bare().prop, k, 'other attributes are left alone')


def several_bases(c):
    """Classes with several bases, decorated or not."""
    x = c.int(-99, 99)
    ds = decorators(c, 1 + c.choose(2, 'decorators'))
    meta = decorate_some(foo=given(c, ds), bar=given(c, ds))

    def body(k):
        return {m: method(k + i) for i, m in enumerate(MEMBERS) if c.bool('defined')}
    p = type('Plain', (object,), {'foo': method(40), 'baz': method(42)})
    a_body, b_body, d_body = body(0), body(10), body(20)
    a = meta('A', (object,), dict(a_body))
    b = meta('B', (object,) if c.bool('root') else (a,), dict(b_body))
    bases = c.pick([(a, p), (p, a), (b, p), (p, b), (b, a)], 'bases')
    klass = meta('D', bases, dict(d_body))
    c.show(a_body, b_body, d_body, [k.__name__ for k in klass.__mro__])
    bodies = {a: a_body, b: b_body, klass: d_body}
    for m in MEMBERS:
        owner = [k for k in klass.__mro__ if m in vars(k)]
        if not owner:
            c.check(not hasattr(klass, m), 'members that are not there are not made up')
            continue
        k = owner[0]
        y = method(40 if m == 'foo' else 42)(None, x) if k is p else bodies[k][m](None, x)
        c.check_same(getattr(klass(), m)(x), y if k is p or m == 'baz' else applied(ds, y), 'each override is decorated once')
        c.check(k is klass or m not in d_body, 'overrides stay in their class')


def many(c):
    """Many decorators and members of any names."""
    x = c.int(-99, 99)
    n = c.pick(sorted(set([3, 4, 5, 8] + harvest.sizes(20))), 'decorators')
    k = c.pick([0, n // 2, n - 1], 'which')
    ds = [Affine(2, c.int(-9, 9) if i == k else i) for i in range(n)]
    names = [c.ident(1, 2, reserved=False), c.ident(1, 2, reserved=False)]
    c.assume(names[0] != names[1])
    for m in names:
        c.assume(m != '__')
    meta = decorate_some(**{names[0]: ds if c.bool('list') else tuple(ds)})
    c.show(names, n, x)
    klass = meta('K', (object,), {m: method(i) for i, m in enumerate(names)})
    c.check_same(getattr(klass(), names[0])(x), applied(ds, x), 'the decorators, in the order given')
    c.check_same(getattr(klass(), names[1])(x), x + 1, 'other members are left alone')


def many_members(c):
    """Many members to decorate."""
    x = c.int(-99, 99)
    n = c.pick(sorted(set([4, 6, 20] + harvest.sizes())), 'members')
    ds = {'m%d' % i: Affine(2, c.int(-9, 9) if i in (0, n // 2, n - 1) else i) for i in range(n)}
    both = c.bool('lists')
    meta = decorate_some(**{m: [d, d] if both else d for m, d in ds.items()})
    body = {'m%d' % i: method(i) for i in range(-1, n + 1)}
    c.show(n, x)
    klass = meta('K', (object,), dict(body))
    sub = meta('Sub', (klass,), {'m%d' % (n - 1): method(5)})
    for i, m in enumerate(['m%d' % i for i in range(n)]):
        c.check_same(getattr(klass(), m)(x), applied([ds[m], ds[m]] if both else [ds[m]], x + i), 'the decorators, in the order given')
    c.check_same(getattr(sub(), 'm%d' % (n - 1))(x), applied([ds['m%d' % (n - 1)]] * (2 if both else 1), x + 5), 'overrides too')
    for i in (-1, n):
        c.check(klass.__dict__['m%d' % i] is body['m%d' % i], 'other members are left alone')


def independent(c):
    """Several metaclasses, several classes: none affects another."""
    x = c.int(-99, 99)
    a, b = decorators(c, c.choose(3, 'decorators')), decorators(c, c.choose(3, 'decorators'))
    ma, mb = decorate_some(foo=list(a)), decorate_some(name='Other', foo=tuple(b), bar=list(a))
    n = c.choose(3, 'classes') + 1
    c.show(len(a), len(b), n, x)
    for i in range(n):
        ka = ma('A', (object,), {'foo': method(i), 'bar': method(i)})
        kb = mb('B', (object,), {'foo': method(i), 'bar': method(i)})
        c.check_same(ka().foo(x), applied(a, x + i), 'its own decorators')
        c.check_same(ka().bar(x), x + i, 'its own decorators')
        c.check_same(kb().foo(x), applied(b, x + i), 'its own decorators')
        c.check_same(kb().bar(x), applied(a, x + i), 'its own decorators')


def values(c):
    """Members need not be functions: what the class body has is what decorators get."""
    v = c.int(-99, 99)
    ds = decorators(c, 1)
    inc, double = (lambda y: y + 1), (lambda y: y * 2)
    meta = decorate_some(x=[inc, double], y=double)
    k = meta('K', (object,), {'x': v, 'z': v})
    c.show(v, len(ds))
    c.check_same(k.x, (v + 1) * 2, 'in order')
    c.check_same(k.z, v, 'other attributes are left alone')
    c.check(not hasattr(k, 'y'), 'members that are not there are not made up')
    k2 = meta('K2', (k,), {'y': v})
    c.check_same(k2.x, (v + 1) * 2, 'inherited attributes are not decorated again')
    c.check_same(k2.y, v * 2, 'attributes of derived classes are decorated')


class Doubled(object):
    """A decorator that is a class: calls give twice what the decorated one gives."""

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x) * 2


def kinds(c):
    """Decorators of several kinds, mixed."""
    v = c.int(-99, 99)
    n = 1 + c.choose(3, 'decorators')

    def function(f):
        return lambda x: f(x) + 1

    class Maker(object):
        def decorate(self, f):
            return lambda x: f(x) * 3

        @staticmethod
        def static(f):
            return lambda x: f(x) - 5

        @classmethod
        def of_class(cls, f):
            return lambda x: f(x) * 5

    every = [(Doubled, lambda y: y * 2), (function, lambda y: y + 1), (Maker().decorate, lambda y: y * 3),
             (partial(lambda k, f: lambda x: f(x) + k, 7), lambda y: y + 7), (Affine1(), lambda y: 1 - y),
             (Maker.static, lambda y: y - 5), (Maker.of_class, lambda y: y * 5), (staticmethod, lambda y: y)]
    chosen = [every[c.choose(7, 'kind')] for _ in range(n)]
    if c.bool('static'):
        chosen.append(every[7])
    ds = [d for d, _ in chosen]
    meta = decorate_some(foo=ds[0] if n == 1 and len(ds) == 1 and c.bool('alone') else tuple(ds) if c.bool('tuple') else ds)
    klass = meta('K', (object,), {'foo': lambda x: x})
    c.show([repr(d) for d in ds], v)
    y = v
    for _, d in chosen:
        y = d(y)
    c.check_same(klass.__dict__['foo'].__get__(None, klass)(v) if isinstance(klass.__dict__['foo'], staticmethod) else klass.__dict__['foo'](v), y,
                 'the decorators, in the order given')


class Affine1(object):
    def __call__(self, f):
        return lambda x: 1 - f(x)


NAMES = ('a', 'b', 'ab', 'ids', 'self')


def function(c, most=3):
    """(function, required, optional): a function with those parameters."""
    n = c.choose(most + 1, 'required')
    m = c.choose(3, 'optional')
    names = []
    for i in range(n + m):
        names.append(c.pick([x for x in NAMES if x not in names], 'parameter'))
    value = c.pick(['1', 'None', '""', 'False'], 'default') if m else '1'
    parts = names[:n] + [x + '=' + value for x in names[n:]]
    if c.bool('varargs'):
        parts.append('*args')
        if c.bool('keyword only'):
            parts.append('kw')
    if c.bool('keywords'):
        parts.append('**kwargs')
    env = {}
    exec('def func(%s):\n    return 1' % ', '.join(parts), env)
    return env['func'], names[:n], names[n:]


def requirements(c):
    """The function itself if it has what is required, an error otherwise."""
    f, required, optional = function(c)
    wanted = [c.ident(1, 3, reserved=False) for _ in range(c.choose(3, 'wanted'))]
    missing = [w for w in wanted if w not in required]
    c.show(required, optional, wanted)
    c.check_same(required_args(f), required, 'the required parameters, in order')
    args = tuple(wanted) if c.bool('tuple') else list(wanted)
    if missing:
        e = c.raises(Exception, ensure_has_positional_args, f, args)
        c.check(e is not None, 'a missing parameter raises')
        for w in missing:
            c.check(w in str(e), 'the error names what is missing')
    else:
        c.check(ensure_has_positional_args(f, args) is f, 'the function itself')


def many_required(c):
    n = c.pick(sorted(set([4, 5, 9] + harvest.sizes())), 'parameters')
    m = c.choose(3, 'optional')
    names = ['p%02d' % i for i in range(n)]
    env = {}
    exec('def func(%s):\n    return 1' % ', '.join(names + ['o%d=%s' % (i, (0, None)[i % 2]) for i in range(m)]), env)
    f = env['func']
    w = c.pick(['p', 'o'], 'letter') + c.str(2, 2, ((48, 57),))
    c.show(n, m, w)
    c.check_same(required_args(f), names, 'the required parameters, in order')
    wanted = names[::-1] + [w]
    if w in names:
        c.check(ensure_has_positional_args(f, wanted) is f, 'the function itself')
    else:
        c.check(c.raises(Exception, ensure_has_positional_args, f, wanted) is not None, 'a missing parameter raises')


def nothing_wanted(c):
    f, required, _ = function(c)
    c.show(required)
    c.check(ensure_has_positional_args(f) is f, 'nothing is required by default')


def recorders(c):
    """Each override of Recorder.add is curried and has ids."""
    v, w = c.int(0, 99), c.int(0, 99)
    first = c.bool('ids')
    env = {'Recorder': Recorder}
    names = ['ids' if first else c.pick(['id', 'idss', 'x'], 'name'), 'more']
    if c.bool('swapped'):
        names = names[::-1]
    optional = c.bool('optional')
    text = 'class Mine(Recorder):\n    def add(self, %s):\n        return (%s)\n' % (
        ', '.join(names) if not optional else ', '.join([n + '=1' for n in names]), ', '.join(names))
    c.show(text, v, w)
    if not first or optional:
        c.check(c.raises(Exception, exec, text, env) is not None, 'overrides without ids are refused')
        return
    exec(text, env)
    kw = dict(zip(names, (v, w)))
    r = env['Mine']()
    c.check_same(r.add(r, **kw) if not hasattr(type(r).__dict__['add'], '__get__') else r.add(**kw), (v, w), 'overrides can be called')
    part = r.add(**{names[0]: v})
    c.check(callable(part), 'overrides are curried')
    c.check_same(part(**{names[1]: w}), (v, w), 'overrides are curried')


def jobs(tier):
    return [
        Job('one_class', one_class, {'members': 3, 'decorators': '0..3 each', 'argument': '-99..99'}, 2),
        Job('hierarchy', hierarchy, {'classes': 3, 'members': 3, 'decorators': '1..4'}, 2),
        Job('supers', supers, {'classes': 3, 'decorators': 2}, 0.3),
        Job('several_bases', several_bases, {'classes': '4, one of them without decorators', 'members': 3, 'decorators': '1..2'}),
        Job('many_members', many_members, {'members': '4, 6, 20 and harvested numbers'}, .7),
        Job('many', many, {'decorators': '3, 4, 5, 8 and around the integer constants of the code up to 20', 'members': 'names of 1..2 characters'}),
        Job('independent', independent, {'metaclasses': 2, 'classes': '1..3 each', 'decorators': '0..2'}, 0.5),
        Job('values', values, {'argument': '-99..99'}, 0.2),
        Job('kinds', kinds, {'decorators': '1..4 of 8 kinds (functions, classes, objects, partials, methods)'}, 0.7),
        Job('requirements', requirements, {'required': '0..3', 'optional': '0..2', 'wanted': '0..2 identifiers of 1..3 characters'}, 3),
        Job('many_required', many_required, {'parameters': '4, 5, 9 and around the integer constants of the code up to 130'}, 0.5),
        Job('nothing_wanted', nothing_wanted, {'required': '0..3', 'optional': '0..2'}, 0.3),
        Job('recorders', recorders, {'parameters': 2}, 0.5),
    ]
