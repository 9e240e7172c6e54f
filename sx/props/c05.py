"""C05: length limited ids."""
import hashlib
from sx.job import Job
from sx import harvest
from whatami import What
from .common import render_what, render, WORDY, sorted_keys


def sha1(s):
    return hashlib.sha1(s.encode('utf-8')).hexdigest()


def limited(c, full, got, n, what):
    if n <= 0 or len(full) <= n:
        c.check_same(got, full, what + ' is the full string when it fits or there is no limit')
    else:
        c.check_same(got, sha1(full), what + ' is the sha1 of the full string when it does not fit')
        c.check(len(got) == 40, what + ' has 40 characters when it does not fit')


def positional(w, nonids=False):
    r = w.name + '(' + ','.join([render(w.conf[k]) for k in sorted_keys(w.conf, () if nonids else w.non_id_keys)]) + ')'
    return r if w.out_name is None else w.out_name + '=' + r


def check(c, w, n):
    c.show(w, n)
    limited(c, render_what(w), w.id(maxlength=n), n, 'id')
    limited(c, positional(w), w.positional_id(maxlength=n), n, 'positional id')


def short(c):
    w = What('a', {'x': c.str(0, 3)}, out_name='o' if c.bool('out') else None)
    check(c, w, c.int(-50, 50))


def nonids(c):
    """The limit applies to what is shown."""
    w = What('a', {'x': c.int(0, 9999), 'y': c.str(0, 2)}, non_id_keys=['y'])
    n = c.int(-5, 40)
    c.show(w, n)
    limited(c, render_what(w, True), w.id(nonids_too=True, maxlength=n), n, 'id with non-ids')
    limited(c, render_what(w), w.id(maxlength=n), n, 'id')
    limited(c, positional(w, True), w.positional_id(non_ids_too=True, maxlength=n), n, 'positional id with non-ids')
    limited(c, positional(w), w.positional_id(maxlength=n), n, 'positional id')


def long(c):
    """Long ids, around usual limits."""
    m = c.pick(sorted(set([34, 35, 36, 255, 256, 257, 700] + harvest.lengths(5, 3000) + [70000] + harvest.large())), 'length')
    w = What('a', {'x': c.str(1, 1) + 'p' * m + c.str(1, 1)})
    check(c, w, c.int(-10, 300000))


def nested(c):
    """The limit does not apply to nested configurations."""
    w = What('a', {'x': What('b', {'y': c.str(0, 2)}), 'z': [c.int(0, 99)]})
    check(c, w, c.int(-10, 60))


def endings(c):
    """Ids that end in any way, limits around their length."""
    s, i = c.str(0, 1), c.int(0, 99)
    v = c.pick([lambda: (i, s), lambda: ((i,), (s,)), lambda: [i, [s]], lambda: {s: {i: s}}, lambda: frozenset([i]), lambda: set(),
                lambda: What('b', {'y': s}), lambda: What('b', {'y': What('c', {'z': (i,)})}), lambda: [What('b', {'y': What('c', {})})],
                lambda: {'k': What('b', {'y': (s, i)})}, lambda: s + ')))', lambda: s + ']}', lambda: s + '   ', lambda: s + '\n',
                lambda: s + '...', lambda: '(((' + s, lambda: i, lambda: None, lambda: 1.5, lambda: s + '===', lambda: s + ',,,',
                lambda: '\t' + s, lambda: s + '___', lambda: s + 'aaa'], 'value')()
    w = What('a' if c.bool('short') else '((', {'x': v} if c.bool('one') else {'x': v, 'y': v}, out_name=c.pick([None, 'o', '=='], 'out'))
    full, pos = render_what(w), positional(w)
    n = c.int(-4, 4)
    c.show(w, n)
    limited(c, full, w.id(maxlength=len(full) + n), len(full) + n, 'id')
    limited(c, pos, w.positional_id(maxlength=len(pos) + n), len(pos) + n, 'positional id')


def names(c):
    """Any names, also starting with blanks."""
    w = What(c.str(0, 2, default=32), {'x': c.int(0, 99)}, out_name=c.str(0, 2, default=32) if c.bool('out') else None)
    check(c, w, c.int(-2, 20))


def again(c):
    """Each id is asked for twice, with other limits, also after the configuration changes."""
    w = What('a', {'x': c.str(0, 2)}, out_name='o' if c.bool('out') else None)
    check(c, w, c.int(0, 12))
    if c.bool('set'):
        w.set('x', c.int(-99, 9999))
    else:
        w.conf['y'] = c.int(-99, 9999)
    n = c.int(0, 20)
    check(c, w, n)
    check(c, w.copy(), n)


def extreme(c):
    w = What(c.ident(1, 3), {} if c.bool('empty') else {c.ident(1, 1): c.int(0, 99)})
    check(c, w, c.int(-10 ** 12, 10 ** 12))


def kinds(c):
    """Limits other than integers: defaults and booleans."""
    w = What('a', {'x': c.str(0, 2)})
    full = render_what(w)
    c.show(w)
    c.check_same(w.id(), full, 'there is no limit by default')
    c.check_same(w.id(maxlength=0), full, '0 is no limit')
    c.check_same(w.id(maxlength=len(full)), full, 'a string as long as the limit fits')
    c.check_same(w.id(maxlength=len(full) - 1), sha1(full), 'a string longer than the limit does not fit')
    c.check_same(w.positional_id(maxlength=len(positional(w))), positional(w), 'a positional id as long as the limit fits')
    c.check_same(w.positional_id(maxlength=len(positional(w)) - 1), sha1(positional(w)), 'a longer positional id does not fit')


def unicode_(c):
    """Length counts characters, the hash is that of the utf-8 encoding."""
    w = What('a', {'x': c.str(1, 2, ((128, 0xD7FF), (0xE000, 0x10FFFF)), default=233)})
    check(c, w, c.int(1, 30))


def jobs(tier):
    return [Job('short', short, 'a string of up to 3 characters, limits -50..50', 2),
            Job('nonids', nonids, 'with non-id parameters, limits -5..40', 2),
            Job('long', long, 'ids of up to 3000 and of 70000 characters, limits -10..300000'),
            Job('nested', nested, 'nested configurations, limits -10..60'),
            Job('endings', endings, 'ids with 24 kinds of endings, limits within 4 of their length', 1.5),
            Job('extreme', extreme, 'limits up to +-10**12'),
            Job('names', names, 'names of up to 2 characters of any kind, limits -2..20', 1.5),
            Job('again', again, 'two limits up to 20, before and after changing a parameter', 1.5),
            Job('kinds', kinds, 'exact limits'),
            Job('unicode', unicode_, 'non ascii strings of 1..2 characters, limits 1..30')]
