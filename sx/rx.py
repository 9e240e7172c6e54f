"""Backtracking regular expression matcher over symbolic strings (same search order as the re module)."""
import re
import sre_parse
import sre_constants as C

from . import terms as T
from .core import H
from .vals import items_of, mkstr, item_eq, item_in, branch, char_class, plain, is_sym, deep_sym, SymStr, str_join

_parsed = {}
_cats = {}
FULL = ((0, 0x10FFFF),)
Pattern = type(re.compile(''))


class Unsupported(Exception):
    pass


def _word_ranges(ascii_only):
    if ascii_only:
        return ((48, 57), (65, 90), (95, 95), (97, 122))
    return T.rng_norm(char_class('isalnum') + ((95, 95),))


def category(cat, flags):
    key = (cat, bool(flags & re.ASCII))
    rs = _cats.get(key)
    if rs is None:
        a = key[1]
        name = cat.name
        neg = '_NOT_' in name
        if 'DIGIT' in name:
            rs = ((48, 57),) if a else char_class('isdecimal')
        elif 'SPACE' in name:
            rs = ((9, 13), (32, 32)) if a else char_class('isspace')
        elif 'WORD' in name:
            rs = _word_ranges(a)
        else:
            raise Unsupported(name)
        if neg:
            rs = T.rng_neg(rs, 0, 0x10FFFF)
        _cats[key] = rs
    return rs


def in_ranges(av, flags):
    rs = []
    neg = False
    for op, a in av:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            rs.append((a, a))
        elif op is C.RANGE:
            rs.append(tuple(a))
        elif op is C.CATEGORY:
            rs.extend(category(a, flags))
        else:
            raise Unsupported(op.name)
    if flags & re.IGNORECASE:
        rs = _ignorecase(rs)
    rs = T.rng_norm(rs)
    return T.rng_neg(rs, 0, 0x10FFFF) if neg else rs


def _ignorecase(rs):
    out = list(rs)
    for lo, hi in rs:
        if hi > 127 and lo != 0 and hi != 0x10FFFF:
            raise Unsupported('ignorecase')
        for a, b, d in ((65, 90, 32), (97, 122, -32)):
            l, h = max(lo, a), min(hi, b)
            if l <= h:
                out.append((l + d, h + d))
    return out


class Node(object):
    __slots__ = ('op', 'a', 'b', 'c', 'd')

    def __init__(self, op, a=None, b=None, c=None, d=None):
        self.op, self.a, self.b, self.c, self.d = op, a, b, c, d


def convert(sub, flags):
    out = []
    for op, av in sub:
        if op is C.LITERAL:
            if flags & re.IGNORECASE:
                out.append(Node('set', T.rng_norm(_ignorecase([(av, av)]))))
            else:
                out.append(Node('set', ((av, av),)))
        elif op is C.NOT_LITERAL:
            rs = [(av, av)]
            if flags & re.IGNORECASE:
                rs = _ignorecase(rs)
            out.append(Node('set', T.rng_neg(T.rng_norm(rs), 0, 0x10FFFF)))
        elif op is C.ANY:
            out.append(Node('set', FULL if flags & re.DOTALL else T.rng_neg(((10, 10),), 0, 0x10FFFF)))
        elif op is C.IN:
            out.append(Node('set', in_ranges(av, flags)))
        elif op is C.BRANCH:
            out.append(Node('branch', [convert(x, flags) for x in av[1]]))
        elif op is C.SUBPATTERN:
            group, add, remove, p = av
            out.append(Node('group', group, convert(p, (flags | add) & ~remove)))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            out.append(Node('repeat', lo, None if hi is C.MAXREPEAT else hi, convert(p, flags), op is C.MAX_REPEAT))
        elif op is C.AT:
            out.append(Node('at', av, flags))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            out.append(Node('assert', direction, convert(p, flags), op is C.ASSERT, p.getwidth()))
        elif op is C.GROUPREF:
            out.append(Node('ref', av))
        else:
            raise Unsupported(op.name)
    return out


def compiled(pattern):
    key = (pattern.pattern, pattern.flags)
    r = _parsed.get(key)
    if r is None:
        try:
            p = sre_parse.parse(pattern.pattern, pattern.flags)
            r = convert(p, pattern.flags)
        except Unsupported as e:
            r = str(e)
        _parsed[key] = r
    return r


class M(object):
    """One matching attempt over items[.., :end]."""

    def __init__(self, items, end):
        self.items = items
        self.end = end
        self.groups = {}
        self.last = None

    def test(self, pos, ranges):
        return branch(item_in(self.items[pos], ranges))

    def seq(self, nodes, i, pos, k):
        """Matches nodes[i:] at pos, then continuation k(pos)."""
        items, end = self.items, self.end
        n = len(nodes)
        while i < n:
            node = nodes[i]
            op = node.op
            if op == 'set':
                if pos >= end or not branch(item_in(items[pos], node.a)):
                    return None
                pos += 1
                i += 1
                continue
            if op == 'at':
                if not self.at(node.a, node.b, pos):
                    return None
                i += 1
                continue
            if op == 'assert':
                ok = self.look(node, pos)
                if ok != node.c:
                    return None
                i += 1
                continue
            if op == 'ref':
                span = self.groups.get(node.a)
                if span is None:
                    return None
                for j in range(span[0], span[1]):
                    if pos >= end or not branch(item_eq(items[pos], items[j])):
                        return None
                    pos += 1
                i += 1
                continue
            rest = i + 1
            if op == 'branch':
                for alt in node.a:
                    r = self.seq(alt, 0, pos, lambda p: self.seq(nodes, rest, p, k))
                    if r is not None:
                        return r
                return None
            if op == 'group':
                g = node.a
                old = self.groups.get(g)
                oldlast = self.last

                def close(p, start=pos):
                    if g is None:
                        return self.seq(nodes, rest, p, k)
                    keep, keeplast = self.groups.get(g), self.last
                    self.groups[g] = (start, p)
                    self.last = g
                    r = self.seq(nodes, rest, p, k)
                    if r is None:
                        self.groups[g] = keep
                        self.last = keeplast
                    return r
                r = self.seq(node.b, 0, pos, close)
                if r is None:
                    self.groups[g] = old
                    self.last = oldlast
                return r
            # repeat
            lo, hi, body, greedy = node.a, node.b, node.c, node.d
            if len(body) == 1 and body[0].op == 'set':
                rs = body[0].a
                if greedy:
                    p = pos
                    while p < end and (hi is None or p - pos < hi) and branch(item_in(items[p], rs)):
                        p += 1
                    if rest == n and p - pos >= lo:
                        # tail position: try from the longest
                        pass
                    while p - pos >= lo:
                        r = self.seq(nodes, rest, p, k)
                        if r is not None:
                            return r
                        p -= 1
                    return None
                p = pos
                while p - pos < lo:
                    if p >= end or not branch(item_in(items[p], rs)):
                        return None
                    p += 1
                while True:
                    r = self.seq(nodes, rest, p, k)
                    if r is not None:
                        return r
                    if p >= end or (hi is not None and p - pos >= hi) or not branch(item_in(items[p], rs)):
                        return None
                    p += 1
            return self.rep(nodes, rest, lo, hi, body, greedy, 0, pos, None, k)
        return k(pos)

    def rep(self, nodes, rest, lo, hi, body, greedy, count, pos, prev, k):
        def more(p):
            return self.rep(nodes, rest, lo, hi, body, greedy, count + 1, p, pos, k)
        if count < lo:
            return self.seq(body, 0, pos, more)
        if greedy:
            if (hi is None or count < hi) and pos != prev:
                saved = dict(self.groups)
                savedlast = self.last
                r = self.seq(body, 0, pos, more)
                if r is not None:
                    return r
                self.groups = saved
                self.last = savedlast
            return self.seq(nodes, rest, pos, k)
        r = self.seq(nodes, rest, pos, k)
        if r is not None:
            return r
        if (hi is None or count < hi) and pos != prev:
            return self.seq(body, 0, pos, more)
        return None

    def look(self, node, pos):
        if node.a >= 0:
            return self.seq(node.b, 0, pos, lambda p: p) is not None
        lo, hi = node.d
        if lo != hi:
            raise Unsupported('variable look behind')
        if pos - lo < 0:
            return False
        sub = M(self.items, pos)
        sub.groups = self.groups
        return sub.seq(node.b, 0, pos - lo, lambda p: p if p == pos else None) is not None

    def at(self, where, flags, pos):
        name = where.name
        if name.endswith('AT_BEGINNING_STRING'):
            return pos == 0
        if name.endswith('AT_BEGINNING'):
            return pos == 0 or (bool(flags & re.MULTILINE) and branch(item_eq(self.items[pos - 1], 10)))
        if name.endswith('AT_END_STRING'):
            return pos == self.end
        if name.endswith('AT_END'):
            if pos == self.end:
                return True
            if flags & re.MULTILINE:
                return branch(item_eq(self.items[pos], 10))
            return pos == self.end - 1 and branch(item_eq(self.items[pos], 10))
        if 'BOUNDARY' in name:
            w = _word_ranges(bool(flags & re.ASCII))
            a = pos > 0 and branch(item_in(self.items[pos - 1], w))
            b = pos < self.end and branch(item_in(self.items[pos], w))
            return (a != b) != ('NON' in name)
        raise Unsupported(name)


class SymMatch(object):
    """Quacks like a re.Match object."""

    def __init__(self, pattern, string, groups, last, pos, endpos):
        self.re = pattern
        self.string = string
        self._g = groups
        self.lastindex = last
        self.pos, self.endpos = pos, endpos

    @property
    def lastgroup(self):
        for name, i in self.re.groupindex.items():
            if i == self.lastindex:
                return name
        return None

    def _i(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        s = self._g.get(self._i(g))
        return s if s is not None else (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        s = self._g.get(self._i(g))
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple([self._one(g) for g in gs])

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple([self._one(g, default) for g in range(1, self.re.groups + 1)])

    def groupdict(self, default=None):
        return {name: self._one(i, default) for name, i in self.re.groupindex.items()}

    def expand(self, template):
        return expand(template, self)

    def __bool__(self):
        return True


def expand(template, m):
    if is_sym(template):
        template = plain(template, 'regex template')
    out = []
    for j, part in enumerate(re.split(r'\\(\d+|g<\w+>|.)', template, flags=re.DOTALL)):
        if j % 2 == 0:
            out.append(part)
        elif part.isdigit():
            out.append(m._one(int(part), ''))
        elif part.startswith('g<'):
            name = part[2:-1]
            out.append(m._one(int(name) if name.isdigit() else name, ''))
        elif part in 'abfnrtv\\':
            out.append({'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '\\': '\\'}[part])
        else:
            out.append('\\' + part)
    return str_join('', out)


def attempt(pattern, string, start, endpos, full, nodes):
    m = M(items_of(string), endpos)
    r = m.seq(nodes, 0, start, (lambda p: p if p == endpos else None) if full else (lambda p: p))
    if r is None:
        return None
    g = {k: v for k, v in m.groups.items() if v is not None and k is not None}
    g[0] = (start, r)
    return SymMatch(pattern, string, g, m.last, start, endpos)


def native_str(s):
    from .vals import _native
    return _native(s) if is_sym(s) else s


def run(pattern, mode, string, pos=0, endpos=None):
    if not deep_sym((pos, endpos)) and not is_sym(string):
        args = (string, pos) if endpos is None else (string, pos, endpos)
        return getattr(pattern, mode)(*args)
    pos = plain(pos)
    n = len(string)
    endpos = n if endpos is None else min(n, max(0, plain(endpos)))
    pos = min(max(pos, 0), n)
    nodes = compiled(pattern)
    if type(nodes) is str:
        return getattr(pattern, mode)(plain(string, 'regex ' + nodes), pos, endpos)
    if pos > endpos:
        return None
    if mode == 'search':
        r = None
        for start in range(pos, endpos + 1):
            r = attempt(pattern, string, start, endpos, False, nodes)
            if r is not None:
                break
    else:
        r = attempt(pattern, string, pos, endpos, mode == 'fullmatch', nodes)
    native = getattr(pattern, mode)(native_str(string), pos, endpos)
    if (native is None) != (r is None):
        raise AssertionError('regex shadow mismatch: %r on %r' % (pattern.pattern, native_str(string)))
    if r is not None:
        for g in range(0, pattern.groups + 1):
            if native.span(g) != r.span(g):
                raise AssertionError('regex shadow group mismatch: %r on %r' % (pattern.pattern, native_str(string)))
    return r


def finditer(pattern, string, pos=0, endpos=None):
    n = len(string) if endpos is None else min(len(string), endpos)
    last_empty_at = -1
    out = []
    while pos <= n:
        m = run(pattern, 'search', string, pos, n)
        if m is None:
            break
        s, e = m.span()
        if s == e and s == last_empty_at:
            # python >= 3.7: empty matches may follow a non empty one, but not repeat at the same place
            pos += 1
            last_empty_at = -1
            continue
        out.append(m)
        if s == e:
            last_empty_at = s
            pos = e + 1
        else:
            pos = e
            last_empty_at = -1
    if [m.span() for m in out] != [m.span() for m in pattern.finditer(native_str(string))][:len(out)]:
        raise AssertionError('regex shadow finditer mismatch: %r on %r' % (pattern.pattern, native_str(string)))
    return out


def sub(pattern, repl, string, count=0, subn=False):
    if not is_sym(string) and not is_sym(repl) and not callable(repl):
        r = pattern.subn(repl, string, count)
        return r if subn else r[0]
    out = []
    last = 0
    n = 0
    for m in finditer_lazy(pattern, string):
        if count and n >= count:
            break
        s, e = m.span()
        out.append(string[last:s])
        out.append(repl(m) if callable(repl) else expand(repl, m))
        last = e
        n += 1
    out.append(string[last:])
    r = str_join('', out)
    return (r, n) if subn else r


def finditer_lazy(pattern, string):
    return iter(finditer(pattern, string))


def split(pattern, string, maxsplit=0):
    if not is_sym(string):
        return pattern.split(string, maxsplit)
    out = []
    last = 0
    n = 0
    for m in finditer(pattern, string):
        if maxsplit and n >= maxsplit:
            break
        s, e = m.span()
        out.append(string[last:s])
        out.extend(m.groups())
        last = e
        n += 1
    out.append(string[last:])
    return out


def findall(pattern, string, *pos):
    if not is_sym(string):
        return pattern.findall(string, *pos)
    out = []
    for m in finditer(pattern, string, *pos):
        if pattern.groups == 0:
            out.append(m.group())
        elif pattern.groups == 1:
            out.append(m._one(1, ''))
        else:
            out.append(m.groups(''))
    return out


def pattern_method(pattern, name, native):
    if name in ('match', 'search', 'fullmatch'):
        return lambda string, pos=0, endpos=None: run(pattern, name, string, pos, endpos)
    if name == 'sub':
        return lambda repl, string, count=0: sub(pattern, repl, string, count)
    if name == 'subn':
        return lambda repl, string, count=0: sub(pattern, repl, string, count, True)
    if name == 'split':
        return lambda string, maxsplit=0: split(pattern, string, maxsplit)
    if name == 'findall':
        return lambda string, *pos: findall(pattern, string, *pos)
    if name in ('finditer', 'scanner'):         # (the same function on PyPy)
        return lambda string, *pos: iter(finditer(pattern, string, *pos))
    return native


def module_function(name):
    native = getattr(re, name)
    if name in ('match', 'search', 'fullmatch'):
        return lambda pattern, string, flags=0: run(re.compile(pattern, flags), name, string)
    if name == 'sub':
        return lambda pattern, repl, string, count=0, flags=0: sub(re.compile(pattern, flags), repl, string, count)
    if name == 'subn':
        return lambda pattern, repl, string, count=0, flags=0: sub(re.compile(pattern, flags), repl, string, count, True)
    if name == 'split':
        return lambda pattern, string, maxsplit=0, flags=0: split(re.compile(pattern, flags), string, maxsplit)
    if name == 'findall':
        return lambda pattern, string, flags=0: findall(re.compile(pattern, flags), string)
    if name in ('finditer', 'scanner'):         # (the same function on PyPy)
        return lambda pattern, string, flags=0: iter(finditer(re.compile(pattern, flags), string))
    if name == 'escape':
        return lambda pattern: native(plain(pattern, 're.escape'))
    return native
