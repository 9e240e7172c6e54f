"""C16: the plugin chain is an ordered list, first match wins."""
from whatami import What
from whatami.plugins import WhatamiPluginManager as PM, anyobject0x_plugin, anyobject_plugin, string_plugin, \
    what_plugin, dict_plugin, list_plugin
from sx.job import Job
from sx import harvest

ASSUMPTIONS = ['The default chain is that at import time.']


def plugins(c, n=3):
    """Plugins that render the integers over a threshold."""
    out = []
    alike = c.bool('same name')
    for i in range(n):
        limit = c.int(0, 9)

        def plugin(v, limit=limit, i=i):
            if isinstance(v, int) and not isinstance(v, bool) and v > limit:
                return 'p%d' % i
        plugin.__name__ = '<lambda>' if alike else 'plugin%d' % i
        plugin.limit = limit
        plugin.label = 'p%d' % i
        out.append(plugin)
    return out


def agree(c, chain, x):
    got = PM.plugins()
    c.check(isinstance(got, tuple), 'the chain is a tuple')
    c.check(len(got) == len(chain) and all([a is b for a, b in zip(got, chain)]), 'the chain has the expected plugins in order')
    expected = None
    for p in chain:
        s = p(x)
        if s is not None:
            expected = s
            break
    c.check_same(PM.build_string(x), expected, 'values are rendered by the first plugin giving a string')
    c.check_same(What('a', {'x': x}).id(), 'a(x=%s)' % expected, 'in ids too')


def position(chain, p):
    for i, q in enumerate(chain):
        if p is q:
            return i
    return -1


def operate(c, chain, mine):
    """One operation on the chain; the new expected one."""
    op = c.pick(['insert', 'insert before', 'insert last', 'drop', 'reset'], 'op')
    pool = mine + [string_plugin, anyobject0x_plugin, anyobject_plugin, what_plugin]
    if op == 'reset':
        PM.reset()
        return op, list(PM.DEFAULT_PLUGINS)
    p = c.pick(pool, 'plugin')
    if op == 'drop':
        i = position(chain, p)
        if i < 0:
            c.check(c.raises(ValueError, PM.drop, p) is not None, 'dropping a plugin that is not there raises ValueError')
            return op, chain
        PM.drop(p)
        return op, chain[:i] + chain[i + 1:]
    before = anyobject0x_plugin if op == 'insert' else None if op == 'insert last' else c.pick(pool, 'before')
    i = len(chain) if before is None else position(chain, before)
    if position(chain, p) >= 0 or i < 0:
        f = (lambda: PM.insert(p)) if op == 'insert' else (lambda: PM.insert(p, before=before))
        c.check(c.raises(ValueError, f) is not None,
                'inserting a duplicate or before a plugin that is not there raises ValueError')
        return op, chain
    PM.insert(p) if op == 'insert' else PM.insert(p, before=before)
    return op, chain[:i] + [p] + chain[i:]


def history(n, k):
    def harness(c):
        PM.reset()
        try:
            mine = plugins(c, k)
            x = c.int(0, 12)
            chain = list(PM.DEFAULT_PLUGINS)
            ops = []
            for _ in range(n):
                op, chain = operate(c, chain, mine)
                ops.append(op)
                agree(c, chain, x)
            c.show(x, [p.limit for p in mine], ops)
            if c.bool('reset'):
                PM.reset()
                agree(c, list(PM.DEFAULT_PLUGINS), x)
        finally:
            PM.reset()
    return harness


def kinds(c):
    """An inserted plugin, among those for other types of values."""
    default = list(PM.plugins())
    calls = []
    v = c.pick(['s', [1], (1,), {'a': 1}, set([1]), None, True, 1.5, What('b', {}), 3], 'value')
    shadow = c.bool('render')

    def plugin(x):
        calls.append(x)
        return 'mine' if shadow and x is v else None
    try:
        i = c.choose(len(default) + 1, 'before')
        if i == len(default):
            PM.insert(plugin, before=None)
        else:
            PM.insert(plugin, before=default[i])
        c.show(v, i, shadow)
        chain = default[:i] + [plugin] + default[i:]
        expected = None
        for p in chain:
            expected = p(v)
            if expected is not None:
                break
        c.check_same(PM.build_string(v), expected, 'values are rendered by the first plugin giving a string')
        c.check_same(What('a', {'x': v}).id(), 'a(x=%s)' % expected, 'in ids too')
        PM.drop(plugin)
        got = PM.plugins()
        c.check(len(got) == len(default) and all([a is b for a, b in zip(got, default)]), 'dropping removes only it')
    finally:
        PM.reset()


def empty_string(c):
    """An empty string is a rendering too."""
    s = c.str(0, 2)
    try:
        PM.insert(lambda v: s if v == 1 else None, before=string_plugin)
        c.show(s)
        c.check_same(PM.build_string(1), s, 'values are rendered by the first plugin giving a string')
        c.check_same(What('a', {'x': [1, 2]}).id(), 'a(x=[' + s + ',2])', 'also nested ones')
    finally:
        PM.reset()


def errors(c):
    """Plugins that raise."""
    e = c.pick([AttributeError, TypeError, ValueError, KeyError, IndexError, Exception, NotImplementedError,
                ImportError, RecursionError, AssertionError, RuntimeError, KeyboardInterrupt], 'error')
    limit, x = c.int(0, 9), c.int(0, 12)

    def plugin(v):
        if isinstance(v, int) and v > limit:
            raise e('why')
    try:
        before = c.pick([what_plugin, string_plugin, list_plugin, anyobject0x_plugin, None], 'before')
        PM.insert(plugin, before=before)
        c.show(e, limit, x, before)
        chain = list(PM.plugins())
        raises = x > limit and before is not None
        k = c.choose(4, 'where')
        v = x if k == 0 else [x] if k == 1 else {'k': x} if k == 2 else What('b', {'y': x})
        if raises:
            got = c.raises(e, PM.build_string, v)
            c.check(got is not None and got.args == ('why',), 'an error of a plugin gets to the caller')
            c.check(c.raises(e, What('a', {'x': v}).id) is not None, 'from ids too')
        else:
            text = '%d' % x
            c.check_same(PM.build_string(v), text if k == 0 else '[' + text + ']' if k == 1 else "{'k':" + text + '}' if k == 2 else
                         'b(y=' + text + ')', 'values are rendered by the first plugin giving a string')
        got = PM.plugins()
        c.check(len(got) == len(chain) and all([a is b for a, b in zip(got, chain)]), 'the chain is unchanged')
    finally:
        PM.reset()


def reset_any(c):
    """Reset restores the default chain after dropping several plugins."""
    default = list(PM.plugins())
    try:
        gone = []
        for _ in range(1 + c.choose(3, 'dropped')):
            p = c.pick(default, 'plugin')
            if position(gone, p) < 0:
                PM.drop(p)
                gone.append(p)
        c.show([p.__name__ for p in gone])
        got = PM.plugins()
        left = [p for p in default if position(gone, p) < 0]
        c.check(len(got) == len(left) and all([a is b for a, b in zip(got, left)]), 'dropping removes only those')
        PM.reset()
        got = PM.plugins()
        c.check(len(got) == len(default) and all([a is b for a, b in zip(got, default)]), 'reset restores the default chain')
    finally:
        PM.reset()


def many(c):
    """Many plugins inserted and dropped."""
    PM.reset()
    n = c.pick(sorted(set([4, 9, 30] + harvest.sizes() + [k - 17 for k in harvest.sizes() if k > 19])), 'plugins')
    before = c.pick([what_plugin, dict_plugin, anyobject0x_plugin, anyobject_plugin, None, 'previous', 'first'], 'before')
    chain = list(PM.DEFAULT_PLUGINS)
    x = c.int(0, 99)
    try:
        mine = []
        for i in range(n):
            def plugin(v, i=i):
                if isinstance(v, int) and not isinstance(v, bool) and v % 97 == i:
                    return 'p%d' % i
            b = before if before not in ('previous', 'first') else what_plugin if not mine else mine[-1 if before == 'previous' else 0]
            PM.insert(plugin, before=b)
            chain.insert(len(chain) if b is None else position(chain, b), plugin)
            mine.append(plugin)
        agree(c, chain, x)
        gone = c.pick([0, n // 2, n - 1], 'dropped')
        PM.drop(mine[gone])
        chain.pop(position(chain, mine[gone]))
        agree(c, chain, x)
        c.show(n, before if isinstance(before, str) or before is None else before.__name__, gone, x)
        c.check(c.raises(ValueError, PM.drop, mine[gone]) is not None, 'dropping a plugin that is not there raises ValueError')
        agree(c, chain, x)
        PM.reset()
        agree(c, list(PM.DEFAULT_PLUGINS), x)
    finally:
        PM.reset()


def jobs(tier):
    n = 4 if tier == 'thorough' else 3
    return [Job('history', history(n, 2), 'any %d operations with two own plugins and four default ones' % n, 4),
            Job('history2', history(2, 3), 'any 2 operations with three own plugins and four default ones', 2),
            Job('kinds', kinds, 'a plugin inserted anywhere, ten kinds of values', 1.5),
            Job('empty_string', empty_string, 'renderings of up to 2 characters'),
            Job('errors', errors, '12 errors, 5 positions, values of four shapes', .7),
            Job('reset_any', reset_any, 'up to 3 dropped plugins'),
            Job('many', many, '4, 9, 30 and harvested numbers of plugins', .7)]
