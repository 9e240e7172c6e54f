"""C29: whatamising adds a description and touches nothing else."""
import sys
import types
from whatami import What, whatable, is_whatable, whatareyou, whatamize_object, FunctionLike, what2id
from sx import ops
from sx.job import Job
from .common import render_what, word, WORDS, iterable

ASSUMPTIONS = ['Objects and classes are those of the harness: plain ones, with slots, with properties, derived from builtins.',
               'Modules named by strings are stand-ins registered in sys.modules.']


class Plain(object):
    def __init__(self, v):
        self.v = v


def state(o):
    return {k: v for k, v in o.__dict__.items() if k not in ('what', '__dict__', '__weakref__')}


def unchanged(c, o, before, msg):
    now = state(o)
    c.check(set(now) == set(before) and all([now[k] is before[k] for k in before]), msg)


def make_class(own_what=None, base=object):
    class Thing(base):
        kind = 'class attribute'

        def __init__(self, v):
            self.v = v
            self._hidden = 2

        def method(self):
            return self.v
    if own_what is not None:
        Thing.what = own_what
    return Thing


def decorate(c, o, **kwargs):
    return whatable(o, **kwargs) if c.bool('direct') else whatable(**kwargs)(o)


def instances(c):
    """One object among others of its class."""
    Thing = make_class()
    v, u = c.scalar(strlen=1), c.scalar(strlen=1)
    a, b = Thing(v), Thing(u)
    non = ['v'] if c.bool('nonid') else None
    before, cls = state(a), state(Thing)
    w = decorate(c, a, non_id_keys=iterable(c, non))
    c.show(v, u, non)
    c.check(w is a, 'the object itself is given back')
    unchanged(c, a, before, 'the attributes of the object are as they were')
    unchanged(c, Thing, cls, 'the class is as it was')
    c.check(not hasattr(b, 'what') and not hasattr(Thing, 'what'), 'other instances and the class get no what')
    c.check(is_whatable(a) and not is_whatable(b), 'the object becomes whatable')
    c.check_same(a.what().name, 'Thing', 'what() describes the object')
    c.check_same(a.what().conf, {'v': v}, 'what() describes the object')
    c.check_same(a.what().id(), render_what(What('Thing', {'v': v}, non_id_keys=non)), 'what() describes the object')
    a.v = u
    c.check_same(a.what().conf, {'v': u}, 'what() describes the object as it is at the moment')
    c.check_same(a.what().id(), render_what(What('Thing', {'v': u}, non_id_keys=non)), 'what() describes the object as it is at the moment')
    c.check_same(a.method(), u, 'methods work as before')


def classes(c):
    """A class, its instances and its subclasses."""
    Thing = make_class()
    v, u = c.scalar(strlen=1), c.int(0, 9)
    early = Thing(v)

    def describe(self):
        return What('own', {})
    has = c.bool('subclass with its own what')
    Own = type('Own', (Thing,), {'what': describe} if has else {})
    cls = state(Thing)
    non = ['v'] if c.bool('nonid') else None
    w = decorate(c, Thing, non_id_keys=iterable(c, non))

    class Sub(Thing):
        def __init__(self, v, w):
            super(Sub, self).__init__(v)
            self.w = w
    c.show(v, u, non)
    c.check(w is Thing, 'the class itself is given back')
    unchanged(c, Thing, cls, 'the class is as it was')
    for o, name, conf in ((early, 'Thing', {'v': v}), (Thing(u), 'Thing', {'v': u}), (Sub(v, u), 'Sub', {'v': v, 'w': u})):
        c.check(is_whatable(o), 'instances are whatable')
        c.check_same(o.what().id(), render_what(What(name, conf, non_id_keys=non)), 'what() describes each instance')
    c.check(is_whatable(Thing) and is_whatable(Sub), 'the classes are whatable')
    c.check_same(Own(u).what().id(), 'own()' if has else render_what(What('Own', {'v': u}, non_id_keys=non)),
                 'the what of subclasses prevails')
    c.check(('what' in vars(Own)) == has, 'subclasses are as they were')


def existing(c):
    """Objects and classes with a what of their own."""
    calls = []
    v = c.scalar(strlen=1)
    kind = c.choose(4, 'existing')

    def what(self):
        calls.append(self)
        if kind == 0:
            return What('own', {'v': v})
        if kind == 1:
            return v
        if kind == 2:
            raise KeyError('why')
        return [What('own', {})]
    Thing = make_class(what)
    on_class = c.bool('class')
    force = c.bool('force')
    o = Thing if on_class else Thing(1)
    before, cls = state(o), state(Thing)
    c.show(kind, on_class, force)
    f = lambda: decorate(c, o, force_flag_as_whatami=force)
    recognised = not on_class and kind == 0
    if recognised:
        c.check(f() is o, 'the object itself is given back')
        c.check_same(o.what().conf, {'v': 1}, 'whatable objects can be described anew')
    elif force:
        c.check(f() is o, 'the object itself is given back')
        c.check(Thing.what is what and what.whatami is True, 'the own what is kept, and marked')
        c.check(is_whatable(Thing), 'the class is whatable')
        if not on_class:
            c.check_same(is_whatable(o), kind == 0, 'objects whose what gives no configuration are not whatable')
    else:
        e = c.raises(Exception, f)
        c.check(e is not None, 'a what that is not known to be a description is not replaced')
        c.check(not hasattr(what, 'whatami'), 'a refused object is as it was')
        c.check(not is_whatable(Thing), 'a refused class is not whatable')
    c.check(Thing.what is what, 'the what of the class is kept')
    if not on_class and not recognised:
        c.check('what' not in o.__dict__, 'the object gets no other what')
    unchanged(c, o, before, 'attributes are as they were')
    unchanged(c, Thing, cls, 'the class is as it was')


def attribute(c):
    """Attributes named what that are not methods."""
    x = c.scalar(strlen=1)
    k = c.choose(3, 'value')
    value = [x, What('a', {}), None][k]
    o = Plain(1)
    o.what = value
    on_class = c.bool('class')
    if on_class:
        o = make_class(property(lambda self: x))
        value = o.what
    c.show(x, k, on_class)
    e = c.raises(Exception, whatable, o)
    c.check(e is not None, 'an attribute named what is not replaced')
    c.check(o.what is value, 'the attribute named what is kept')


def own_functions(c):
    """Description functions given by the user."""
    v = c.int(0, 9)
    seen = []

    def describe(self):
        seen.append(self)
        return What('mine', {'v': self.v})
    Thing = make_class()
    on_class = c.bool('class')
    a, b = Thing(v), Thing(v)
    c.show(v, on_class)
    w = decorate(c, Thing if on_class else a, whatfunc=describe)
    c.check(w is (Thing if on_class else a), 'the object itself is given back')
    c.check_same(a.what().id(), 'mine(v=%d)' % v, 'the given function describes the object')
    c.check(len(seen) == 1 and seen[0] is a, 'the given function is called with the object')
    c.check_same(hasattr(b, 'what'), on_class, 'other instances')


def again(c):
    """Decorated again with other options."""
    v, u = c.int(0, 9), c.int(10, 19)
    Thing = make_class()
    on_class = [c.bool('class'), c.bool('class again')]
    o = Thing(v)
    non = [['v'] if c.bool('nonid') else None for _ in range(2)]
    for i in range(2):
        whatable(Thing if on_class[i] else o, non_id_keys=non[i] and iter(non[i]))
    c.show(v, u, on_class, non)
    # the description of the object itself prevails over that of its class
    last = 1 if not on_class[1] or on_class[0] else 0
    c.check_same(o.what().id(), render_what(What('Thing', {'v': v}, non_id_keys=non[last])), 'the last description of the object prevails')
    p = Thing(u)
    c.check_same(hasattr(p, 'what'), any(on_class), 'other instances')
    if any(on_class):
        last = 1 if on_class[1] else 0
        c.check_same(p.what().id(), render_what(What('Thing', {'v': u}, non_id_keys=non[last])), 'other instances')


class Slotted(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def refused(c):
    """Objects that cannot have a what."""
    x = c.int(0, 9)
    o = [lambda: c.pick([3, 'x', True, 1.5], 'scalar'), lambda: Slotted(x), lambda: [x], lambda: (x,), lambda: {'k': x}, lambda: object()][c.choose(6, 'object')]()
    c.show(o)
    c.check(c.raises(Exception, whatable, o) is not None, 'objects that cannot have attributes are refused')
    if isinstance(o, Slotted):
        c.check_same(o.v, x, 'a refused object is as it was')
    b = c.pick([len, sorted, abs, repr], 'builtin')
    c.check(c.raises(TypeError, whatable, b) is not None, 'builtins are refused')


def slotted_class(c):
    """Classes of objects with slots."""
    v = c.scalar(strlen=1)

    class Own(object):
        __slots__ = ('v',)
    o = Own()
    o.v = v
    w = whatable(Own)
    c.show(v)
    c.check(w is Own, 'the class itself is given back')
    c.check_same(o.what().id(), render_what(What('Own', {'v': v})), 'what() describes each instance')
    p = Own()
    c.check_same(p.what().conf, {}, 'what() describes each instance')


def assigned(c):
    """whatamize_object with objects."""
    v = c.int(0, 9)
    has = c.bool('has')
    inherited = c.bool('inherited')

    def old(self):
        return What('old', {})

    def new(self):
        return What('new', {'v': self.v})
    Thing = make_class(old if has else None)
    C = make_class(base=Thing) if inherited else Thing
    force = c.choose(3, 'force')
    cls, base = state(C), state(Thing)
    kwargs = {} if force == 2 else {'force': force == 1}
    c.show(v, has, inherited, force)
    c.check(whatamize_object(C, new, **kwargs) is None, 'no result')
    expected = 'old()' if has and force != 1 else 'new(v=%d)' % v
    c.check_same(C(v).what().id(), expected, 'an existing what is only replaced if forced')
    unchanged(c, C, cls, 'the class is as it was')
    unchanged(c, Thing, base, 'the base class is as it was')
    if inherited:
        c.check_same(hasattr(Thing, 'what'), has, 'the base class gets no what')
        if has:
            c.check(Thing.what is old, 'the base class keeps its what')


def named(c):
    """whatamize_object with names."""
    v = c.int(0, 9)

    def old(self):
        return What('old', {})

    def new(self):
        return What('new', {'v': self.v})
    has, force = c.bool('has'), c.bool('force')
    fail = c.choose(3, 'fail')
    Thing = make_class(old if has else None)
    Other = make_class(old if has else None)
    name, member = 'zzz' + c.str(1, 2, ((46, 57), (97, 122))), c.str(1, 2, ((97, 122),))
    one, two = types.ModuleType('zzz1'), types.ModuleType('zzz.2')
    one.a = two.bc = Thing
    one.b = two.a = Other
    kwargs = {'force': force}
    if fail < 2:
        kwargs['fail_on_import_error'] = fail == 1
    c.show(has, force, fail, name, member)
    modules = {'zzz1': one, 'zzz.2': two, 'zzz': types.ModuleType('zzz')}
    sys.modules.update(modules)
    ops.MODULES.clear()
    ops.MODULES.update(modules)
    try:
        e = c.raises((ImportError, AttributeError), whatamize_object, name + '.' + member, new, **kwargs)
    finally:
        ops.MODULES.clear()
        for k in modules:
            del sys.modules[k]
    found, here = None, name == 'zzz1' or name == 'zzz.2'
    for n, m, C in (('zzz1', 'a', Thing), ('zzz1', 'b', Other), ('zzz.2', 'bc', Thing), ('zzz.2', 'a', Other)):
        if name == n and member == m:
            found = C
    if here:
        c.check_same(isinstance(e, AttributeError), found is None, 'missing members are reported, and only them')
    else:
        c.check_same(isinstance(e, ImportError), fail != 0, 'missing modules are reported if asked, and only them')
    for C in (Thing, Other):
        if C is found and (force or not has):
            c.check_same(C(v).what().id(), 'new(v=%d)' % v, 'what is assigned to the object with that name')
        elif has:
            c.check_same(C(v).what().id(), 'old()', 'an existing what is only replaced if forced')
        else:
            c.check(not hasattr(C, 'what'), 'other objects are as they were')


def function_like(c):
    """Callable objects that look like functions."""
    names = [c.ident(1, 2) for _ in range(c.choose(3, 'attributes'))]
    values = [c.scalar(strlen=1) for _ in names]

    name = c.pick(WORDS + ['Fun'], 'name') if c.bool('word') else 'Fun'
    Fun = type(name, (FunctionLike,), {'__call__': lambda self, x: x})
    if c.bool('derived'):
        Fun = type(name, (Fun,), {})
    f = Fun()
    for n, v in zip(names, values):
        f.__dict__[n] = v
    conf = {}
    for n, v in zip(names, values):
        if not n.startswith('_') and not n.endswith('_'):
            conf[n] = v
    c.show(names, values)
    c.check_same(f.__name__, name, 'the name is that of the class')
    w = f.what()
    c.check_same(w.name, name, 'the name is that of the class')
    c.check_same(w.conf, conf, 'the parameters are the public attributes')
    c.check_same(what2id(f), render_what(What(name, conf)), 'the id of the object')
    c.check_same(f(values), values, 'calls work as before')


def jobs(tier):
    return [Job('instances', instances, 'any scalars', 2),
            Job('classes', classes, 'any scalars', 2),
            Job('existing', existing, 'four kinds of what, on objects and classes, forced or not', 1),
            Job('attribute', attribute, 'attributes named what with any scalar', .5),
            Job('own_functions', own_functions, 'objects and classes', .5),
            Job('again', again, 'any two decorations of an object or its class', 1),
            Job('refused', refused, 'six objects, four builtins', .5),
            Job('slotted_class', slotted_class, 'any scalars', .5),
            Job('assigned', assigned, 'own and inherited what, forced or not', .5),
            Job('named', named, 'modules and members with names of up to 2 characters, three modules', 1.5),
            Job('function_like', function_like, 'up to 2 attributes with names of up to 2 characters', 1.5)]
