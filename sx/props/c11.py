"""C11: decorating a function with whatable is transparent."""
from functools import partial
from whatami import What, whatable, is_whatable
from sx.job import Job
from sx import harvest
from .common import other_value, odd_value, render_what, value, implicit, word, WORDS
from .c10 import bound, NAMES

ASSUMPTIONS = ['Functions have named parameters, and possibly variable positional or keyword parameters.']


class Failure(Exception):
    pass


class Ended(BaseException):
    pass


FAILURES = [Failure, Ended, StopIteration, KeyError, IndexError, AttributeError, ValueError, TypeError, GeneratorExit,
            NotImplementedError]


def function(names, defaults, fails=None, varargs=False, varkw=False, doc='doc'):
    """A function recording its calls; raises fails if given."""
    ns = {'__name__': 'some.module', '_fails_': fails, '_calls_': []}
    required = len(names) - len(defaults)
    args = list(names[:required]) + ['%s=None' % n for n in names[required:]]
    args += ['*args'] if varargs else []
    args += ['**kwargs'] if varkw else []
    body = '[%s]' % ', '.join(list(names) + (['args'] if varargs else []) + (['kwargs'] if varkw else []))
    exec('def fun(%s):\n%s    _calls_.append(%s)\n    if _fails_ is not None:\n        raise _fails_\n    return %s\n' %
         (', '.join(args), '' if doc is None else '    %r\n' % doc, body, body), ns)
    f = ns['fun']
    f.__defaults__ = tuple(defaults) if defaults else None
    f.calls = ns['_calls_']
    return f


def outcome(f, args, kwargs):
    try:
        return 'returned', f(*args, **kwargs)
    except tuple(FAILURES) as e:
        if isinstance(e, TypeError) and e.args != ('why',):
            return 'type error', None
        return 'raised', e


def nonid(c, names):
    return [n for n in names if c.bool('nonid')]


def transparent(c):
    """Calls, metadata and description."""
    names = NAMES[:c.choose(3, 'parameters')]
    defaults = [c.int(200, 299) for _ in range(c.choose(len(names) + 1, 'defaults'))]
    failure = c.pick(FAILURES, 'failure')('why') if c.bool('fails') else None
    f = function(names, defaults, failure, c.bool('varargs'), c.bool('varkw'), c.pick(['doc', '', None], 'doc'))
    f.attribute = marker = object()
    doc, name, module = f.__doc__, f.__name__, f.__module__
    inplace = c.bool('inplace')
    how = c.choose(3, 'how')
    given = implicit(c, {'modify_func_inplace': inplace}, modify_func_inplace=False)
    w = whatable(f, **given) if how == 0 else whatable(**given)(f) if how == 1 else whatable(f, whatfunc=None, **given)
    args = [c.int(0, 99) for _ in range(c.choose(4, 'positional'))]
    kwargs = {n: c.int(100, 199) for n in names + ('z',) if c.bool('keyword')}
    c.show(names, defaults, args, kwargs, inplace)
    # metadata
    if inplace:
        c.check(w is f, 'in place modification gives the same object')
    else:
        c.check(w is not f, 'the original is not modified')
        c.check(not hasattr(f, 'what'), 'the original has no what')
    c.check_same(w.__name__, name, 'the name is kept')
    c.check_same(w.__doc__, doc, 'the docstring is kept')
    c.check_same(w.__module__, module, 'the module is kept')
    c.check(w.attribute is marker, 'attributes are kept')
    c.check(is_whatable(w), 'the result is whatable')
    # description, before and after calls
    expected = dict(zip(names[len(names) - len(defaults):], defaults))
    for _ in range(2):
        what = w.what()
        c.check_same(what.name, 'fun', 'what() has the name of the function')
        c.check_same(what.conf, expected, 'what() describes the parameters of the function')
        c.check_same(what.id(), render_what(What('fun', expected)), 'the id describes the parameters of the function')
        # calls
        a = outcome(f, args, kwargs)
        n = len(f.calls)
        b = outcome(w, args, kwargs)
        c.check_same(a[0], b[0], 'a call returns or fails like the original')
        if a[0] == 'raised':
            c.check(a[1] is b[1], 'exceptions are those of the original')
        else:
            c.check_same(a[1], b[1], 'a call returns what the original returns')
        c.check(len(f.calls) - n == (0 if a[0] == 'type error' else 1), 'the original is called once')


def fresh(c):
    """what() is not affected by changes to configurations returned before."""
    names = ('a', 'b')
    defaults = [c.int(0, 9), c.str(0, 1)]
    f = function(names, defaults)
    k = c.choose(3, 'what')
    o = f if k == 0 else partial(f, a=c.int(10, 19)) if k == 1 else partial(f, c.int(20, 29))
    expected = dict(zip(names, defaults)) if k == 0 else {'a': o.keywords['a'] if k == 1 else o.args[0], 'b': defaults[1]}
    non = nonid(c, names)
    w = whatable(o, non_id_keys=non, modify_func_inplace=c.bool('inplace'))
    c.show(expected, non)
    what = w.what()
    i = what.id()
    r = c.choose(6, 'change')
    if r == 0:
        what.conf.clear()
    elif r == 1:
        what.conf[c.ident(1, 1)] = c.int(0, 9)
    elif r == 2:
        what.name = 'other'
    elif r == 3:
        what.non_id_keys.clear()
        what.non_id_keys.update(['other', c.ident(1, 1)])
    elif r == 4:
        what.out_name = 'other'
    else:
        what.set('a', 'changed')
    again = w.what()
    c.check(again is not what, 'each call gives another configuration')
    c.check_same(again.name, 'fun', 'the name is not affected by changes to other configurations')
    c.check_same(again.conf, expected, 'the parameters are not affected by changes to other configurations')
    c.check_same(again.out_name, None, 'the output name is not affected by changes to other configurations')
    c.check_same(again.id(), i, 'the id is not affected by changes to other configurations')


def nonids(c):
    """Non-id and excluded parameters stay out of the id."""
    names = ('a', 'b', 'c')
    defaults = [c.int(0, 9), c.int(10, 19), c.int(20, 29)]
    f = function(names, defaults)
    o = f if c.bool('function') else partial(f, b=c.int(30, 39))
    conf = dict(zip(names, defaults))
    if o is not f:
        conf['b'] = o.keywords['b']
    non = nonid(c, names)
    excluded = nonid(c, names)
    k = c.choose(4, 'how')
    given = non if k == 0 else tuple(non) if k == 1 else (n for n in non) if k == 2 else set(non)
    kw = {'excludes': excluded if c.bool('list') else tuple(excluded)} if c.bool('excludes') else {}
    w = whatable(o, non_id_keys=given, **kw)
    hidden = set(non) | (set(excluded) if kw else set())
    c.show(conf, non, excluded)
    expected = render_what(What('fun', {k: v for k, v in conf.items() if k not in hidden}))
    for _ in range(3):
        c.check_same(w.what().id(), expected, 'non-id and excluded parameters stay out of the id')
    c.check_same({k: v for k, v in w.what().conf.items() if k not in excluded},
                 {k: v for k, v in conf.items() if k not in excluded}, 'the description keeps all the other parameters')
    c.check_same(What('w', {'f': w}).id(), 'w(f=' + expected + ')', 'as a value too')


def partials(c):
    names = ('a', 'b', 'd')
    defaults = [c.int(200, 299) for _ in range(c.choose(3, 'defaults'))]
    f = function(names, defaults)
    layers = [([c.int(0, 99)] if c.bool('positional') else [], [(n, c.int(100, 199)) for n in names if c.bool('keyword')])
              for _ in range(1 + c.choose(2, 'layers'))]
    p = f
    for args, kws in layers:
        p = partial(p, *args, **dict(kws))
    expected = bound(names, defaults, layers)
    c.show(names, defaults, layers)
    if expected is None:
        c.check(c.raises(ValueError, whatable, p) is not None, 'partials that cannot be called are refused')
        return
    inplace = c.bool('inplace')
    w = whatable(p, modify_func_inplace=inplace)
    if inplace:
        c.check(w is p, 'in place modification gives the same object')
        c.check(not hasattr(f, 'what'), 'the original is not modified')
    else:
        c.check(w is not p and not hasattr(p, 'what') and not hasattr(f, 'what'), 'the original is not modified')
    args = [c.int(0, 9) for _ in range(c.choose(3, 'positional'))]
    kwargs = {n: c.int(300, 399) for n in names[1:] if c.bool('keyword')}
    a, b = outcome(p, args, kwargs), outcome(w, args, kwargs)
    c.check_same(a[0], b[0], 'a call returns or fails like the original')
    c.check_same(a[1], b[1], 'a call returns what the original returns')
    c.check_same(w.what().name, 'fun', 'what() has the name of the function')
    c.check_same(w.what().conf, expected, 'what() has the bound arguments')


def twice(c):
    """Decorating a decorated function."""
    defaults = [c.int(0, 9), c.str(0, 1)]
    f = function(('a', 'b', 'c'), defaults)
    w = f
    for _ in range(1 + c.choose(3, 'times')):
        w = whatable(w)
    c.show(defaults)
    c.check_same(w.what().id(), render_what(What('fun', dict(zip(('b', 'c'), defaults)))),
                 'a function decorated several times has the description of the original')
    x = c.int(0, 99)
    c.check_same(w(x), f(x), 'a function decorated several times returns what the original returns')


def custom(c):
    """With a function giving the configuration."""
    f = function(('a', 'b'), [c.int(0, 9)])
    v = c.int(0, 99)
    seen = []

    def whatfunc(x):
        seen.append(x)
        return What('custom', {'v': v})
    inplace = c.bool('inplace')
    w = whatable(f, whatfunc=whatfunc, modify_func_inplace=inplace)
    c.show(v)
    c.check_same(w.what().id(), render_what(What('custom', {'v': v})), 'what() is that of the given function')
    c.check(all([x is w for x in seen]), 'the given function gets the decorated one')
    c.check((w is f) == inplace, 'only in place modification gives the same object')
    c.check(inplace or not hasattr(f, 'what'), 'the original has no what')
    x = c.int(0, 99)
    c.check_same(w(x), f(x), 'calls return what the original returns')


def odd_values(c):
    """Whatever the arguments and results are."""
    o, d = odd_value(c), other_value(c)
    k = c.choose(3, 'function')

    def f(x, y=d):
        return x if k == 0 else y if k == 1 else None
    w = whatable(f, modify_func_inplace=c.bool('inplace'))
    c.show(type(o), type(d), k)
    c.check(w(o) is (o if k == 0 else d if k == 1 else None), 'a call returns what the original returns')
    c.check(w(d, y=o) is (d if k == 0 else o if k == 1 else None), 'a call returns what the original returns')
    conf = w.what().conf
    c.check(list(conf) == ['y'] and conf['y'] is d, 'what() describes the original parameters')
    conf = whatable(partial(f, o)).what().conf
    c.check(sorted(conf) == ['x', 'y'] and conf['x'] is o and conf['y'] is d, 'what() describes the original parameters')


def several(c):
    """Decorated functions do not interfere."""
    d1, d2 = c.int(0, 9), c.int(0, 9)
    f, g = function(('a',), [d1]), function(('a', 'b'), [d2, 1])
    n1, n2 = nonid(c, ('a',)), nonid(c, ('a', 'b'))
    w1, w2 = whatable(f, non_id_keys=n1), whatable(g, non_id_keys=n2)
    w3 = whatable(f)
    c.show(d1, d2, n1, n2)
    c.check_same(w1.what().id(), render_what(What('fun', {'a': d1}, non_id_keys=n1)), 'the first function')
    c.check_same(w2.what().id(), render_what(What('fun', {'a': d2, 'b': 1}, non_id_keys=n2)), 'the second function')
    c.check_same(w3.what().id(), render_what(What('fun', {'a': d1})), 'the first function, without non-ids')


def words(c):
    """Parameters with any name."""
    a = word(c)
    b = c.pick([a + '_', '_' + a, 'what', 'self', 'zz'], 'other')
    c.assume(a != b and a != 'kwargs')
    f = function((a, b), [c.int(0, 9), c.int(10, 19)] if c.bool('both') else [c.int(0, 9)], varkw=c.bool('varkw'))
    conf = dict(zip((a, b)[2 - len(f.__defaults__):], f.__defaults__))
    inplace = c.bool('inplace')
    o = f if c.bool('function') else partial(f, **{b: c.int(20, 29)})
    if o is not f:
        conf[b] = o.keywords[b]
    non = [b] if c.bool('nonid') else []
    w = whatable(o, non_id_keys=non, modify_func_inplace=inplace)
    x = c.int(30, 39)
    kwargs = {a: x}
    if c.bool('extra') and f.__code__.co_flags & 8:
        kwargs[c.pick([k for k in ('what', 'self', 'args', 'kwargs', 'func', 'obj', 'name', 'conf', 'fun', 'string') if k not in (a, b)],
                      'extra')] = x
    c.show(a, b, kwargs, conf)
    c.check_same(outcome(w, (), kwargs), outcome(o, (), kwargs), 'a call returns what the original returns')
    c.check_same(outcome(w, (x,), {}), outcome(o, (x,), {}), 'a call returns what the original returns')
    c.check_same(w.what().conf, conf, 'what() describes the parameters of the function')
    c.check_same(w.what().id(), render_what(What('fun', {k: v for k, v in conf.items() if k not in non and k != 'what'})),
                 'the id describes the parameters of the function')


def many(c):
    """Many parameters, by position or name."""
    n = c.pick(sorted(set([9, 17] + harvest.sizes(70))), 'parameters')
    names = ['p%02d' % i for i in range(n)]
    defaults = [i for i in range(n - 1)]
    at = c.pick([0, n // 2, n - 2], 'symbolic')
    defaults[at] = c.int(0, 999)
    f = function(names, defaults, varargs=c.bool('varargs'))
    w = whatable(f, non_id_keys=names[1:1 + c.pick([0, 1, n - 1], 'nonids')])
    given = c.pick([1, n // 2, n], 'given')
    args = list(range(100, 100 + given))
    args[c.pick([0, given - 1], 'position')] = c.int(0, 999)
    kwargs = {k: c.int(0, 999) for k in names[given:][-1:]}
    c.show(n, args, kwargs)
    a, b = outcome(f, args, kwargs), outcome(w, args, kwargs)
    c.check_same(b, a, 'a call returns what the original returns')
    conf = dict(zip(names[1:], defaults))
    what = w.what()
    c.check_same(what.conf, conf, 'what() describes the parameters of the function')
    c.check_same(what.id(), render_what(What('fun', {k: conf[k] for k in names[1:] if k not in what.non_id_keys})),
                 'the id describes the parameters of the function')


def many_calls(c):
    """The n-th call is like the first."""
    n = c.pick(sorted(set([9] + harvest.sizes(40))), 'calls')
    f = function(('a', 'b'), [c.int(0, 9)])
    w = whatable(f)
    c.show(n)
    for i in range(n):
        w.what()
        w(i)
    x = c.int(0, 99)
    c.check_same(w(x), f(x), 'later calls return what the original returns')
    c.check_same(w.what().id(), 'fun(b=%s)' % render_what(What('f', {'b': f.__defaults__[0]}))[4:-1], 'later descriptions too')


def jobs(tier):
    return [Job('transparent', transparent, 'up to 2 parameters, up to 3 positional and any keyword arguments', 3),
            Job('fresh', fresh, 'functions and partials of 2 parameters, six kinds of changes', 2),
            Job('nonids', nonids, 'functions and partials of 3 parameters, any non-id and excluded ones', 2),
            Job('partials', partials, '3 parameters, up to two partials, up to 2 positional and keyword arguments', 2),
            Job('twice', twice, 'up to 3 decorations'),
            Job('custom', custom, 'own what function'),
            Job('odd_values', odd_values, 'an object of 32 kinds, with special methods or meanings, and another of 7', .5),
            Job('several', several, 'three decorated functions'),
            Job('words', words, '%d names of parameters, with four others' % len(WORDS), 1),
            Job('many', many, '9, 17 and harvested numbers of parameters'),
            Job('many_calls', many_calls, '9 and harvested numbers of calls', .5)]
