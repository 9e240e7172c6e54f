"""C24: configurations captured from calls."""
from whatami import What
from whatami.misc import call_dict
from whatami.whatutils import call2what
from sx.job import Job
from sx import harvest
from .common import longer, other_value, insertion_sort, odd_value, word, WORDS

ASSUMPTIONS = ['Keyword arguments that are not parameters (**kwargs) do not have ignored names.',
               'Parameters are not deleted before the capture.']

NAMES = ('b', 'a', 'self', 'cls', 'd')
VALUES = (1, 's', None, 4, 5)


def build(params, ndefaults, varargs, varkw, kwonly, body, name='fun'):
    """A function with such a signature; the parameters without a value take the defaults."""
    args = list(params[:len(params) - ndefaults]) + ['%s=%r' % (p, 'd' + p) for p in params[len(params) - ndefaults:]]
    if varargs:
        args.append('*' + varargs)
    elif kwonly:
        args.append('*')
    for k in kwonly:
        args.append('%s=%r' % (k, 'k' + k))
    if varkw:
        args.append('**' + varkw)
    ns = {'call_dict': call_dict, 'call2what': call2what}
    exec('def %s(%s):\n%s' % (name, ', '.join(args), ''.join(['    %s\n' % x for x in body])), ns)
    return ns


def same_dict(c, got, expected, msg):
    c.check(type(got) is dict, 'a dictionary is given')
    c.check_same(insertion_sort(list(got.keys())), insertion_sort(list(expected.keys())), msg)
    for k, v in expected.items():
        c.check_same(got[k], v, msg)


def signature(c, maxparams=3):
    n = c.choose(maxparams + 1, 'params')
    params = []
    for i in range(n):
        k = c.choose(len(NAMES) - i, 'name')
        params.append([m for m in NAMES if m not in params][k])
    return params, c.choose(n + 1, 'defaults')


def longer_values(c):
    """Longer texts and integers, in each place."""
    v = longer(c)
    k = c.choose(3, 'place')
    f = build(('a', 'b'), 1, None, 'kw', (), ['return call_dict()'])['fun']
    g = build(('a', 'b'), 1, None, None, (), ['z = a', 'return call2what()'])['fun']
    args, kws = [((v,), {}), ((1, v), {}), ((1,), {'b': v})][k]
    c.show(args, kws)
    expected = {'a': args[0], 'b': args[1] if len(args) > 1 else kws.get('b', 'db')}
    same_dict(c, f(*args, **kws), expected, 'exactly the arguments of the call')
    same_dict(c, f(*args, more=v, **kws), dict(expected, more=v), 'exactly the arguments of the call')
    same_dict(c, g(*args, **kws).conf, dict(expected, z=args[0]), 'exactly the local variables')


def calls(c):
    """Any signature, any way to give the arguments."""
    params, nd = signature(c)
    varargs = 'rest' if c.bool('varargs') else None
    varkw = c.pick([None, 'kw', 'z'], 'varkw')
    kwonly = ['o'] if c.bool('kwonly') else []
    ignore_varargs = c.bool('ignore varargs')
    f = build(params, nd, varargs, varkw, kwonly,
              ['return call_dict(%s)' % ('ignore_varargs=True' if ignore_varargs else '')])['fun']
    npos = c.choose(len(params) + 1, 'positional')
    args, kws = [], {}
    expected = {}
    for i, p in enumerate(params):
        if i < npos:
            v = c.int(0, 99)
            args.append(v)
        elif i >= len(params) - nd and c.bool('default'):
            v = 'd' + p
        else:
            v = c.int(0, 99)
            kws[p] = v
        if p not in ('self', 'cls'):
            expected[p] = v
    extra = varargs is not None and npos == len(params) and c.bool('extra')
    if extra:
        args.append(c.int(0, 9))
    for k in kwonly:
        expected[k] = 'k' + k
        if c.bool('set kwonly'):
            kws[k] = expected[k] = c.int(0, 9)
    if varkw and c.bool('more'):
        for k in ('x', 'rest', 'kw')[:1 + c.choose(3, 'keywords')]:
            kws[k] = expected[k] = c.int(0, 9)
    c.show(params, nd, varargs, varkw, kwonly, args, kws, ignore_varargs)
    if extra and not ignore_varargs:
        c.check(c.raises(ValueError, lambda: f(*args, **kws)) is not None, 'variable positional arguments raise ValueError')
    else:
        same_dict(c, f(*args, **kws), expected, 'exactly the arguments of the call are captured')


def overrides(c):
    """Ignored names, overrides and keyword overrides."""
    a, b = c.int(0, 9), c.scalar(strlen=1)
    ignores = [n for n in ('a', 'self', 'nope') if c.bool('ignore')]
    default = c.bool('default ignores')
    over = {k: c.int(10, 19) for k in ('a', 'x', 'self', 'depth', 'o') if c.bool('override')}
    more = {k: c.int(20, 29) for k in ('a', 'x', 'b') if c.bool('over')}
    none = c.choose(3, 'empty') if not over else 0
    given = over if over or none == 0 else None if none == 1 else {}
    kind = c.pick([list, tuple, set], 'type')
    ns = build(['self', 'a', 'b'], 1, None, 'kw', [], [
        'return call_dict(%soverrides=given, **more)' % ('' if default else 'ignores=ignores, ')])
    ns.update(ignores=kind(ignores), given=given, more=more)
    kw = {'o': c.int(30, 39)} if c.bool('keyword') else {}
    r = ns['fun']('me', a, b, **kw)
    c.show(a, b, ignores, default, over, more)
    expected = {'self': 'me', 'a': a, 'b': b}
    for k in (('cls', 'self') if default else ignores):
        expected.pop(k, None)
    expected.update(kw)
    expected.update(over)
    expected.update(more)
    same_dict(c, r, expected, 'overrides take precedence over the arguments, and keyword overrides over those')
    if over:
        c.check(len(given) == len(over), 'the overrides are not modified')


def falsy(c):
    """Overrides with any values."""
    def v(label):
        return c.pick([None, '', 0, False, (), 'x'], label)
    args = {'a': v('a'), 'b': c.int(0, 9)}
    over = {k: v('override') for k in ('a', 'b', 'x')[c.choose(3, 'first'):][:c.choose(3, 'overrides')]}
    more = {k: v('over') for k in ('a', 'b', 'x')[c.choose(3, 'first'):][:c.choose(3, 'more')]}
    ns = build(['a', 'b'], 1, None, 'kw', [], ['return call_dict(overrides=over, **more)'])
    ns.update(over=over, more=more)
    c.show(args, over, more)
    expected = dict(args)
    expected.update(over)
    expected.update(more)
    same_dict(c, ns['fun'](**args), expected, 'overrides take precedence over the arguments, and keyword overrides over those')


def moment(c):
    """Values are those at the moment of the call."""
    x, y, z = c.int(0, 9), c.int(0, 9), c.int(0, 9)
    body = ['%s = z0' % c.pick(['x', 'y', 'other'], 'assigned')]
    if c.bool('conditional'):
        body.append('if y > 4: y = None')
    body += ['r = call_dict()', 'x = y = other = 55', 'return r']
    ns = build(['x', 'y'], 1, None, 'kw' if c.bool('varkw') else None, [], body)
    ns['z0'] = z
    r = ns['fun'](x, y) if c.bool('positional') else ns['fun'](y=y, x=x)
    c.show(x, y, z, body)
    ex = {'x': x, 'y': y}
    if body[0] != 'other = z0':
        ex[body[0][0]] = z
    if 'if' in body[1] and ex['y'] > 4:
        ex['y'] = None
    same_dict(c, r, ex, 'values are those at the moment of the capture')


def odd_values(c):
    """Whatever the arguments are."""
    o, p = odd_value(c), other_value(c)
    f = build(('a', 'b', 'self'), 1, None, 'kw', [], ['return call_dict(), call2what()'])['fun']
    c.show(type(o), type(p))
    got, w = f(o, p, z=o)
    c.check(sorted(got) == ['a', 'b', 'z'] and got['a'] is o and got['b'] is p and got['z'] is o, 'exactly the arguments of the call')
    c.check(sorted(w.conf) == ['a', 'b', 'kw', 'self'] and w.conf['a'] is o and w.conf['b'] is p, 'exactly the variables of the caller')


def words(c):
    """Parameters and variables with any name."""
    k = word(c)
    x, y = c.int(0, 9), c.pick([None, '', 0, 'v'], 'value')
    how = c.choose(4, 'how')
    c.assume(k not in ('call_dict', 'call2what', 'other', 'x0'))
    if how == 0:
        ns = build([k, 'other'], 1, None, None, [], ['return call_dict(), call2what()'])
    elif how == 1:
        ns = build(['other'], 1, None, 'more', [], ['return call_dict(), call2what()'])
        c.assume(k != 'more')
    elif how == 2:
        ns = build(['other'], 1, None, None, [k], ['return call_dict(), call2what()'])
    else:
        ns = build(['other'], 1, None, None, [], ['%s = x0' % k, 'return call_dict(), call2what()'])
        ns['x0'] = x
    got, w = ns['fun'](**({k: x, 'other': y} if how < 3 else {'other': y}))
    c.show(k, x, y, how)
    args = {'other': y} if how == 3 or k in ('self', 'cls') and how != 1 else {k: x, 'other': y}
    if not (how == 1 and k in ('self', 'cls')):
        same_dict(c, got, args, 'exactly the arguments of the call are captured')
    same_dict(c, w.conf, {'other': y, 'more': {k: x}} if how == 1 else {k: x, 'other': y}, 'the configuration holds the local variables')
    c.check_same(w.name, 'fun', 'the name is that of the caller')


def function_names(c):
    """Callers with any name."""
    k = word(c)
    c.assume(k not in ('call_dict', 'call2what'))
    x = c.int(0, 9)
    f = build(['x'], 0, None, None, [], ['return call_dict(), call2what()'], name=k)[k]
    c.show(k)
    got, w = f(x)
    same_dict(c, got, {'x': x}, 'exactly the arguments of the call are captured')
    c.check_same(w, What(k, {'x': x}), 'the name is that of the caller')


def depths(c):
    """Other frames of the stack."""
    x, y = c.int(0, 9), c.int(0, 9)
    n = c.choose(3, 'depth')
    over = c.bool('override')
    ns = {'call_dict': call_dict, 'over': {'depth': x} if over else None}
    exec('def outer(x, depth=1):\n    def middle(y):\n        def inner(x, z=8):\n'
         '            return call_dict(depth=%d, overrides=over)\n'
         '        return inner(77)\n    return middle(y0)\n' % (n + 1), ns)
    ns['y0'] = y
    r = ns['outer'](x)
    c.show(x, y, n)
    ex = [{'x': 77, 'z': 8}, {'y': y}, {'x': x, 'depth': 1}][n]
    if over:
        ex['depth'] = x
    same_dict(c, r, ex, 'the arguments of the frame at that depth are captured')


def methods(c):
    """Methods and class methods."""
    x, y = c.int(0, 9), c.int(0, 9)

    class A(object):
        def m(self, x, y=3, *args, **kw):
            return call_dict()

        @classmethod
        def k(cls, x, y=3, **kw):
            return call_dict(x=y)

        @staticmethod
        def s(x, y=3):
            return call_dict(ignores=('y',))
    kw = {'q': y} if c.bool('kw') else {}
    c.show(x, y)
    same_dict(c, A().m(x, y, **kw), dict({'x': x, 'y': y}, **kw), 'self is left out')
    same_dict(c, A().m(x), {'x': x, 'y': 3}, 'defaults are included')
    same_dict(c, A.k(x, **kw), dict({'x': 3, 'y': 3}, **kw), 'cls is left out')
    same_dict(c, A.s(y=y, x=x), {'x': x}, 'ignored names are left out')


def whats(c):
    """call2what: name and local variables of the caller."""
    x, y, z = c.int(0, 9), c.scalar(strlen=1), c.int(0, 9)
    non = [n for n in ('x', 'y', 'j', 'nope') if c.bool('nonid')]
    depth = c.choose(2, 'depth')
    name = c.ident(1, 1)
    ns = build(['x', 'y'], 1, None, None, [],
               ['j = x0', 'k = x', 'def h():',
                '    q = x0', '    return call2what(depth=2, non_id_keys=non)',
                'r = %s' % ('h()' if depth else 'call2what(non_id_keys=non)'),
                'saved = dict(r.conf)', 'x = y = j = k = 99', 'r2 = call2what()', 'return r, saved, r2'])
    ns.update(x0=z, non=non if non or c.bool('empty') else None)
    r, saved, r2 = ns['fun'](x, y)
    c.show(x, y, z, non, depth)
    c.check_same(r.name, 'fun', 'the name is that of the caller')
    expected = {'x': x, 'y': y, 'j': z, 'k': x}
    for d in (saved, r.conf):
        got = {k: v for k, v in d.items() if k != 'h'}
        same_dict(c, got, expected, 'the configuration holds the local variables, as they were')
    c.check('h' in r.conf, 'local functions are variables too')
    c.check_same(insertion_sort(list(r.non_id_keys)), insertion_sort(non), 'non-id keys are those requested')
    c.check_same(r2.conf['x'], 99, 'later captures have the later values')
    c.check(r2.conf['r'] is r, 'later captures have the later variables')


def callers(c):
    """Callers of all kinds: lambdas, generators, comprehensions, methods, nested functions."""
    x, y = c.int(0, 9), c.scalar(strlen=1)
    k = c.choose(6, 'caller')
    dicts = c.bool('dict')
    how = call_dict if dicts else call2what

    def outer(x, z):
        def inner(x):
            return how()
        if k == 0:
            return (lambda x, w=2: how())(y)
        if k == 1:
            return inner(y)
        if k == 2:
            def gen(x):
                yield how()
            return list(gen(y))[0]
        if k == 3:
            return (lambda *rest, **kw: how())(x=y) if not dicts else (lambda **kw: how())(x=y)
        if k == 4:
            class Caller(object):
                def __init__(self, x):
                    self.got = how()
            return Caller(y).got
        return Deep()(y, how, 3)
    r = outer(x, 1)
    c.show(x, y, k, dicts)
    name, expected = [('<lambda>', {'x': y, 'w': 2}), ('inner', {'x': y}), ('gen', {'x': y}), ('<lambda>', {'x': y}),
                      ('__init__', {'x': y}), ('__call__', {'x': y, 'n': 0})][k]
    if dicts:
        if k == 5:
            expected = dict(expected, how=how)
        same_dict(c, r, expected, 'the arguments of the caller')
        return
    c.check_same(r.name, name, 'the name is that of the caller')
    conf = dict(r.conf)
    for n in ('self', 'how', 'rest', 'Caller', 'inner'):
        conf.pop(n, None)
    if k == 3:
        c.check_same(conf.pop('kw'), {'x': y}, 'the local variables of the caller')
        expected = {}
    same_dict(c, conf, expected, 'the local variables of the caller')


class Deep(object):
    def __call__(self, x, how, n):
        return how() if n == 0 else self(x, how, n - 1)


def ids(c):
    x, y = c.int(0, 9), c.scalar(strlen=1)

    def caller(x, y=3, z=5):
        j = 33
        return call2what(non_id_keys=['x', 'j'] if c.bool('nonid') else None), j

    def expect(w):
        return What('caller', {k: w.conf[k] for k in ('j', 'x', 'y', 'z')}, w.non_id_keys).id()
    w, _ = caller(x, y)
    w.conf.pop('c', None)
    c.show(x, y)
    same_dict(c, w.conf, {'x': x, 'y': y, 'z': 5, 'j': 33}, 'the configuration holds the local variables')
    c.check_same(w.id(), expect(w), 'and its id has them')


def many(c):
    """Many parameters, keyword arguments and overrides."""
    n = c.pick(sorted(set([5, 9, 30] + harvest.sizes())), 'arguments')
    k = c.choose(4, 'kind')
    x, at = c.int(0, 99), c.pick([0, n // 2, n - 1], 'which')
    names = ['p%d' % i for i in range(n)]
    vs = {p: x if i == at else i for i, p in enumerate(names)}
    if k == 0:
        ns = build(names, n // 2, None, None, [], ['return call_dict(), call2what()'])
        got, w = ns['fun'](*[vs[p] for p in names]) if c.bool('positional') else ns['fun'](**vs)
    elif k == 1:
        ns = build(['first'], 0, None, 'kw', [], ['return call_dict(), call2what()'])
        got, w = ns['fun'](1, **vs)
        vs['first'] = 1
    elif k == 2:
        ns = build(['p0'], 0, None, None, [], ['return call_dict(overrides=over), call2what()'])
        ns['over'] = vs
        got, w = ns['fun'](-1)
    else:
        ns = build(['p0', 'q'], 1, None, None, names[1:], ['return call_dict(**over), call2what()'])
        ns['over'] = {p: v for p, v in vs.items() if p != 'p0'}
        got, w = ns['fun'](vs['p0'], 2)
        vs['q'] = 2
    c.show(n, k, x)
    same_dict(c, got, vs, 'exactly the arguments of the call are captured')
    if k == 0:
        same_dict(c, w.conf, vs, 'the configuration holds the local variables, as they were')


def jobs(tier):
    return [Job('calls', calls, 'up to 3 parameters of 5 names, with defaults, *args, **kwargs and a keyword-only one', 3),
            Job('overrides', overrides, '3 parameters, any of 3 ignored names, 5 overrides and 3 keyword overrides', 2),
            Job('falsy', falsy, '2 arguments, up to 2 overrides and 2 keyword overrides out of 3, six values', 1.5),
            Job('moment', moment, '2 parameters changed before and after', 1),
            Job('odd_values', odd_values, 'an object of 32 kinds, with special methods or meanings, and another of 7', .5),
            Job('longer_values', longer_values, 'a text of 2..15 characters or an integer of -999..999, in 3 places', .5),
            Job('words', words, '%d names of parameters, keyword arguments and variables' % len(WORDS), 1),
            Job('function_names', function_names, '%d names of functions' % len(WORDS), .5),
            Job('depths', depths, 'depths 1 to 3'),
            Job('methods', methods, 'three kinds of methods', .5),
            Job('whats', whats, '2 parameters and 3 variables, depths 1 and 2, any of 4 non-id keys'),
            Job('callers', callers, 'six kinds of callers', .5),
            Job('many', many, '5, 9, 30 and harvested numbers of arguments', .7),
            Job('ids', ids, '4 local variables', .5)]
