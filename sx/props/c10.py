"""C10: callables are identified by the arguments they have bound."""
from functools import partial
from toolz import curry
from whatami import What, whatareyou, callable2call, what2id
from whatami.whatutils import obj2what
from sx.job import Job
from sx import harvest
from .common import longer, other_value, odd_value, render_what, value

ASSUMPTIONS = ['Functions have named parameters only: neither variable nor keyword-only parameters.']
NAMES = ('b', 'a', 'd', 'c', 'f', 'e')
NAME_SETS = (NAMES, ('_b', 'self', 'a_', '__c', 'what', 'cls'), ('name', 'func', 'args', 'keywords', 'kwargs', 'non_id_keys'))


def function(names, defaults, name='fun', closure=False):
    """A function with those parameters, whose last ones have the defaults."""
    ns = {}
    required = len(names) - len(defaults)
    args = ', '.join(list(names[:required]) + [n + '=None' for n in names[required:]])
    body = '{%s}' % ', '.join(['%r: %s' % (n, n) for n in names])
    if closure:
        exec('def outer(cell):\n    def %s(%s):\n        return cell and %s\n    return %s' % (name, args, body, name), ns)
        f = ns['outer'](1)
    elif name == '<lambda>':
        exec('f = lambda %s: %s' % (args, body), ns)
        f = ns['f']
    else:
        exec('def %s(%s):\n    return %s' % (name, args, body), ns)
        f = ns[name]
    f.__defaults__ = tuple(defaults) if defaults else None
    return f


def bound(names, defaults, layers):
    """{parameter: value} of the arguments bound, None if it cannot be ever called."""
    positional = []
    keywords = {}
    for args, kws in layers:       # innermost first
        positional = positional + list(args)
        for k, v in kws:
            keywords[k] = v
    if len(positional) > len(names):
        return None
    r = dict(zip(names, positional))
    for k, v in keywords.items():
        if k in r or k not in names:
            return None
        r[k] = v
    for n, v in zip(names[len(names) - len(defaults):], defaults):
        if n not in r:
            r[n] = v
    return r


def applied(c, f, layers, how):
    for args, kws in layers:
        f = (curry if how == 'curry' else partial)(f, *args, **dict(kws))
    return f


def check(c, names, defaults, layers, how='partial', name='fun', closure=False):
    f = function(names, defaults, name, closure)
    p = applied(c, f, layers, how)
    expected = bound(names, defaults, layers)
    c.show(name, names, defaults, layers, how)
    shown = 'lambda' if name == '<lambda>' else name
    if expected is None:
        c.check(c.raises(ValueError, callable2call, p) is not None, 'callables that cannot be called give ValueError')
        return
    got, params = callable2call(p)
    c.check_same(got, shown, 'the name is that of the function')
    c.check(len(params) == len(expected), 'the parameters are those bound')
    for k in expected:
        c.check(k in params, 'bound arguments are reported')
        c.check_same(params[k], expected[k], 'arguments have the value the call would use')
    i = render_what(What(shown, expected))
    shown = render_what(What(shown, {k: v for k, v in expected.items()      # names are excluded there as for any object
                                     if not k.startswith('_') and not k.endswith('_') and k != 'what'}))
    c.check_same(whatareyou(p).id(), shown, 'whatareyou identifies the callable by its bound arguments')
    c.check_same(obj2what(p).id(), shown, 'obj2what identifies the callable by its bound arguments')
    c.check_same(What('w', {'x': p}).id(), 'w(x=' + i + ')', 'callables as values are identified by their bound arguments')
    c.check_same(what2id(p), shown, 'what2id identifies the callable by its bound arguments')
    if not set(names) - set(expected):
        r = p()
        for k in names:
            c.check_same(r[k], params[k], 'the call uses the reported values')


def layer(c, names, most=2):
    args = [c.int(0, 99) for _ in range(c.choose(most + 1, 'positional'))]
    kws = []
    for n in names + ('z',):
        if c.bool('keyword'):
            kws.append((n, c.int(100, 199)))
    return args, kws


def names_of(c, how='partial'):
    # neither curry nor partial accept some names as keywords
    return c.pick(NAME_SETS if how == 'partial' else NAME_SETS[:1] + (('_b', 'd', 'a_', 'what', 'name', 'cls'),), 'names')


def signature(c, most=3, how='partial'):
    names = names_of(c, how)[:c.choose(most + 1, 'parameters')]
    return names, [c.int(200, 299) for _ in range(c.choose(len(names) + 1, 'defaults'))]


def plain(c):
    names, defaults = signature(c, 5)
    check(c, names, defaults, [], name=c.pick(['fun', '<lambda>', '_f_'], 'name'), closure=False)


def once(how):
    def harness(c):
        names, defaults = signature(c, how=how)
        check(c, names, defaults, [layer(c, names, 4)], how)
    return harness


def nested(c):
    names, defaults = signature(c, 2)
    check(c, names, defaults, [layer(c, names), layer(c, names)])


def nested3(c):
    names = names_of(c)[:3]
    defaults = [c.int(200, 299) for _ in range(c.choose(3, 'defaults'))]
    layers = []
    for _ in range(3):
        args = [c.int(0, 99)] if c.bool('positional') else []
        k = c.choose(4, 'keyword')
        layers.append((args, [] if k == 0 else [(names[k - 1], c.int(100, 199))]))
    check(c, names, defaults, layers)


def refused(c):
    """Each way of not being callable, alone or after other layers."""
    names, defaults = signature(c, 2)
    layers = [([], [(n, 1) for n in names if c.bool('keyword')])]
    k = c.choose(3, 'how')
    layers.append(([c.int(0, 9) for _ in range(c.choose(4, 'positional'))], []) if k == 0 else
                  ([], [('z', c.int(0, 9))]) if k == 1 else ([c.int(0, 9)], [(n, 2) for n in names[:1]]))
    if c.bool('swap'):
        layers = layers[::-1]
    check(c, names, defaults, layers)


def closures(c):
    names, defaults = signature(c, 2)
    check(c, names, defaults, [layer(c, names)] if c.bool('partial') else [], closure=True)


def mixed(c, layers, wrappers, names, defaults):
    """Partial applications with a different wrapper for each layer."""
    p = function(names, defaults)
    expected = bound(names, defaults, layers)
    c.assume(expected is not None)
    for how, (args, kws) in zip(wrappers, layers):
        p = how(p, *args, **dict(kws))
    c.show(names, defaults, layers, [how.__name__ for how in wrappers])
    got, params = callable2call(p)
    c.check_same(got, 'fun', 'the name is that of the function')
    c.check_same(sorted(params.items()), sorted(expected.items()), 'the parameters are those bound')
    c.check_same(What('w', {'x': p}).id(), 'w(x=' + render_what(What('fun', expected)) + ')',
                 'curried functions as values are identified by their bound arguments')
    if not set(names) - set(expected):
        r = p()
        for k in names:
            c.check_same(r[k], params[k], 'the call uses the reported values')


def curried_partial(c):
    names, defaults = signature(c, 2, 'curry')
    mixed(c, [layer(c, names, 1), layer(c, names, 1)],
          c.pick([(partial, curry), (curry, curry), (curry, partial)], 'wrappers'), names, defaults)


def curried_partial3(c):
    names = names_of(c, 'curry')[:3]
    defaults = [c.int(200, 299)] if c.bool('default') else []
    wrappers = [c.pick([partial, curry], 'wrapper') for _ in range(3)]
    layers = []
    for _ in range(3):
        args = [c.int(0, 99)] if c.bool('positional') else []
        layers.append((args, [(names[2], c.int(100, 199))] if c.bool('keyword') else []))
    mixed(c, layers, wrappers, names, defaults)


def values(c):
    """Values of other types."""
    kinds = ('str', 'int', 'none', 'bool', 'list', 'dict', 'what')
    a, b = value(c, kinds, 1, 1), value(c, kinds, 1, 1)
    k = c.choose(5, 'how')
    check(c, ('a', 'b'), [b] if k in (0, 1, 2) else [],
          [] if k == 0 else [([a], [])] if k == 1 else [([], [('a', b), ('b', a)])] if k == 2 else
          [([], [('a', a)]), ([], [('a', b)])] if k == 3 else [([a], []), ([b], [])])


def many(c):
    n = c.pick(sorted(set([8, 12] + harvest.sizes())), 'parameters')
    names = tuple(['p%02d' % ((i * 5) % n) if n % 5 else 'p%02d' % i for i in range(n)])
    d = c.choose(n + 1, 'defaults') if n < 14 else c.pick([0, 1, n // 2, n - 1, n], 'defaults')
    layers = [(list(range(c.pick([0, 1, n // 2, n], 'positional'))), [(names[-1], c.int(100, 199))] if c.bool('keyword') else [])]
    check(c, names, [c.int(200, 299)] * d, layers)


def falsy(c):
    """Defaults and arguments that are not true."""
    nothing = lambda what: c.pick([None, 0, False, '', ()], what)
    n = 2 + c.choose(3, 'parameters')
    names = names_of(c)[:n]
    defaults = [nothing('default') for _ in range(1 + c.choose(2, 'defaults'))]
    layers = [([c.int(0, 99) if c.bool('number') else nothing('argument') for _ in range(c.choose(4, 'positional'))], [])]
    if c.bool('keyword'):
        layers.append(([], [(names[-1], nothing('keyword'))]))
    check(c, names, defaults, layers)


def longer_values(c):
    """Longer texts and integers, in each place."""
    k = c.choose(4, 'place')
    v = longer(c)
    check(c, ('b', 'a'), [v] if k == 0 else [7], [([v], [])] if k == 1 else [([], [('a', v)])] if k == 2 else
          [([v], []), ([], [('a', v)])] if k == 3 else [])


def odd_values(c):
    """Whatever the arguments are."""
    o, p = odd_value(c), other_value(c)
    f = function(('a', 'b', 'd'), [o] if c.bool('default') else [1])
    d = f.__defaults__[0]
    k = c.choose(5, 'how')
    g = [lambda: partial(f, p), lambda: partial(f, b=p), lambda: partial(partial(f, 1, o), d=p), lambda: curry(f)(b=p),
         lambda: partial(partial(f, b=o), b=p)][k]()
    expected = [{'a': p, 'd': d}, {'b': p, 'd': d}, {'a': 1, 'b': o, 'd': p}, {'b': p, 'd': d}, {'b': p, 'd': d}][k]
    c.show(type(o), type(p), k)
    name, conf = callable2call(g)
    c.check(name == 'fun' and sorted(conf) == sorted(expected), 'exactly the bound arguments')
    c.check(all([conf[n] is v for n, v in expected.items()]), 'with their values')


def builtins(c):
    """Builtin functions and classes: only keywords are known."""
    f = c.pick([map, dict, partial, str, len, sorted], 'builtin')
    v = c.int(0, 99)
    kws = {} if c.bool('empty') else {'x': v}
    c.show(f, kws)
    name, params = callable2call(partial(partial(f, **kws), y=1) if c.bool('nested') else partial(f, **kws))
    c.check_same(name, f.__name__, 'the name is that of the builtin')
    params.pop('y', None)
    c.check_same(params, kws, 'the parameters are the keywords')


def jobs(tier):
    return [Job('plain', plain, 'up to 5 parameters and defaults'),
            Job('once', once('partial'), 'up to 3 parameters, up to 4 positional and any keyword arguments', 2),
            Job('curry', once('curry'), 'up to 3 parameters, curried with up to 4 positional and any keyword arguments', 2),
            Job('nested', nested, 'up to 2 parameters, two partials of up to 2 positional and any keyword arguments', 3),
            Job('nested3', nested3, '3 parameters, three partials of up to 1 positional and 1 keyword arguments', 2),
            Job('refused', refused, 'up to 2 parameters, two partials'),
            Job('closures', closures, 'up to 2 parameters of a closure'),
            Job('curried_partial', curried_partial, 'up to 2 parameters, curried partials, curried curries and partials of curries', 1.5),
            Job('curried_partial3', curried_partial3, '3 parameters, three layers, each partial or curry, of up to 1 positional and 1 keyword arguments', 1.5),
            Job('values', values, 'values of 7 kinds, depth 1', 1.5),
            Job('falsy', falsy, '2 to 4 parameters, 1 or 2 defaults and up to 4 arguments of 5 kinds', 1.5),
            Job('longer_values', longer_values, 'a text of 2..15 characters or an integer of -999..999, in 4 places', .5),
            Job('odd_values', odd_values, 'an object of 32 kinds, with special methods or meanings, and another of 7', .5),
            Job('many', many, '8, 12 and harvested numbers of parameters'),
            Job('builtins', builtins, 'six builtins with up to 2 keywords')]
