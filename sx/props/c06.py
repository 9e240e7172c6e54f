"""C06: strings stay in their literal."""
from collections import OrderedDict
from sx.job import Job
from sx import harvest
from whatami import What, parse_whatid
from .common import escaped, WORDY

ASSUMPTIONS = ['Strings without surrogates.']


def single_literal(body):
    """No quote of body is bare and the closing quote is not escaped."""
    i = 0
    while i < len(body):
        if body[i] == '\\':
            i += 2
        elif body[i] == "'":
            return False
        else:
            i += 1
    return i == len(body)


def literal(c, s):
    c.show(s)
    i = What('a', {'x': s}).id()
    c.check(i[:4] + i[4:5] + i[-2:] == "a(x=''" + ')', 'the string is between single quotes')
    body = i[5:-2]
    c.check(single_literal(body), 'the string does not escape from its literal')
    c.check_same(body, escaped(s), 'only bare single quotes and a final lone backslash are escaped')
    back = parse_whatid(i)
    c.check_same(back.conf, {'x': body}, 'the literal is read back')
    c.check_same(back.id(), i, 'the value read back renders to the same literal')
    c.check_same(What('a', {'x': body}).id(), i, 'escaping is idempotent')


def strings(c):
    literal(c, c.str(0, 5))


def quotes(c):
    """Runs of quotes and backslashes."""
    literal(c, c.str(0, 8, ((39, 39), (92, 92), (97, 97))))


def words(c):
    """Longer strings without quotes, also lengths around the code constants."""
    n = c.pick(sorted(set(list(range(6, 18)) + harvest.lengths(5, 300))), 'length')
    literal(c, c.str(n, n, WORDY))


def ends(c):
    n = c.pick(sorted(set([3, 9, 33, 130] + harvest.lengths(5, 600))), 'length')
    literal(c, c.str(2, 2) + 'p' * n + c.str(2, 2))


def blanks(c):
    literal(c, c.str(0, 4, ((9, 13), (28, 32), (39, 39), (0x85, 0x85), (0xA0, 0xA0), (0x2000, 0x200A), (0x2028, 0x2029),
                            (97, 97)), default=32))


def separators(c):
    """Characters of the id syntax."""
    literal(c, c.str(0, 5, tuple((ord(x), ord(x)) for x in sorted("'(),:=[\\]{}<>#\"")), default=44))


def contexts(c):
    """Strings do not interfere with what surrounds them."""
    s, t = c.str(0, 2), c.str(0, 2)
    k = c.choose(9, 'where')
    v = [s, t] if k == 0 else (s, t) if k == 1 else {'k': s, 'l': t} if k == 2 else {s: 1} if k == 3 else \
        set([s]) if k == 4 else frozenset([s]) if k == 5 else What('b', {'y': s, 'z': t}) if k == 6 else \
        [[s], t] if k == 7 else What('b', {'y': s}, out_name='o')
    e, f = escaped(s), escaped(t)
    u = [e, f] if k == 0 else (e, f) if k == 1 else {'k': e, 'l': f} if k == 2 else {e: 1} if k == 3 else \
        set([e]) if k == 4 else frozenset([e]) if k == 5 else What('b', {'y': e, 'z': f}) if k == 6 else \
        [[e], f] if k == 7 else What('b', {'y': e}, out_name='o')
    w = What('a', {'x': v, 'w': t})
    c.show(s, t, k)
    back = parse_whatid(w.id())
    c.check_same(back.conf, {'x': u, 'w': f}, 'strings are read back in place')
    c.check_same(back.id(), w.id(), 'and rendered back')


def positional(c):
    s, t = c.str(0, 2), c.str(0, 2)
    i = What('a', {'x': s, 'y': t}).positional_id()
    c.show(s, t)
    c.check_same(i, "a('" + escaped(s) + "','" + escaped(t) + "')", 'strings in positional ids are the same literals')


def ordered(c):
    s = c.str(0, 2)
    i = What('a', {'x': OrderedDict([(s, s)])}).id()
    c.show(s)
    c.check_same(i, "a(x=OrderedDict(seq=[('" + escaped(s) + "','" + escaped(s) + "')]))", 'strings in ordered dicts')
    c.check_same(parse_whatid(i).id(), i, 'ordered dicts ids are parsed back')


def jobs(tier):
    return [Job('strings', strings, 'any string of up to 5 characters', 3),
            Job('quotes', quotes, 'strings of up to 8 quotes, backslashes and letters', 4),
            Job('words', words, 'strings of 6..17 characters other than quotes'),
            Job('ends', ends, 'long strings with two arbitrary characters at each end'),
            Job('blanks', blanks, 'strings of up to 4 unicode blanks, quotes and letters'),
            Job('separators', separators, 'strings of up to 5 characters of the id syntax', 3),
            Job('contexts', contexts, 'two strings of up to 2 characters in nine positions', 3),
            Job('positional', positional, 'two strings of up to 2 characters in positional ids'),
            Job('ordered', ordered, 'ordered dicts with strings of up to 2 characters')]
