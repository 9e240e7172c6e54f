"""Input generators shared by symbolic runs (values are terms) and native replays (values come from a recorded list)."""
from . import terms as T
from . import vals as V
from .core import SymCtx, Violation, PathEnd

ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))          # surrogates cannot be encoded
PRINTABLE = ((32, 126),)
ID_START = ((65, 90), (95, 95), (97, 122))
ID_CHAR = ((48, 57), (65, 90), (95, 95), (97, 122))
DIGIT = ((48, 57),)
RESERVED = ('None', 'True', 'False', 'nan', 'inf', 'set', 'frozenset')


class Skip(Exception):
    """Native replay: an assumption is not met by the recorded values."""


class Gen(object):

    def choose(self, n, label='choice'):
        """A number in 0..n-1, decided on this path."""
        if n == 1:
            return 0
        v = self.hv(((0, n - 1),), 0)
        return self.decide(v, n, label)

    def bool(self, label='flag'):
        return bool(self.choose(2, label))

    def pick(self, options, label='pick'):
        return options[self.choose(len(options), label)]

    def int(self, lo=-999, hi=999, default=7):
        return V.mkint(self.hv(((lo, hi),), default)) if self.symbolic else self.hv(((lo, hi),), default)

    def chars(self, n, ranges=ANY, default=97):
        return [self.hv(ranges, default) for _ in range(n)]

    def str(self, lo, hi, ranges=ANY, label='length', default=97):
        """A string of lo to hi characters."""
        n = lo + self.choose(hi - lo + 1, label)
        return V.mkstr(self.chars(n, ranges, default))

    def ident(self, lo=1, hi=2, label='length', reserved=True):
        """An identifier; not one of the constants of the id language when reserved."""
        n = lo + self.choose(hi - lo + 1, label)
        s = V.mkstr(self.chars(1, ID_START) + self.chars(n - 1, ID_CHAR))
        if reserved:
            for r in RESERVED:
                if len(r) == n:
                    self.assume(self.differ(s, r))
        return s

    def float(self, label='float'):
        """Floats by shape of their canonical text."""
        shape = self.choose(7, label)
        if shape == 0:
            return float('inf')
        if shape == 1:
            return float('-inf')
        if shape == 2:
            return float('nan')
        if shape == 3:
            return -0.0
        neg = self.bool(label)
        sign = [45] if neg else []
        if shape == 4:       # d.d
            return self.mkfloat(V.mkstr(sign + self.chars(1, DIGIT, 49) + [46] + self.chars(1, DIGIT, 53)))
        if shape == 5:       # dd.ddd, without trailing zero
            return self.mkfloat(V.mkstr(sign + self.chars(1, ((49, 57),), 49) + self.chars(1, DIGIT, 49) + [46] +
                                        self.chars(2, DIGIT, 53) + self.chars(1, ((49, 57),), 50)))
        # d.de[+-]dd, out of the fixed point range
        plus = self.bool(label)
        return self.mkfloat(V.mkstr(sign + self.chars(1, ((49, 57),), 49) + [46] + self.chars(1, ((49, 57),), 53) +
                                    [101, 43 if plus else 45] +
                                    self.chars(1, ((50, 57),) if plus else ((49, 57),), 51) +
                                    self.chars(1, DIGIT, 48)))

    @staticmethod
    def mkfloat(text):
        return V.mkfloat(text) if V.is_sym(text) else float(text)

    def scalar(self, label='scalar', strlen=2, floats=True):
        k = self.choose(5 if floats else 4, label)
        if k == 0:
            return self.str(0, strlen)
        if k == 1:
            return self.int()
        if k == 2:
            return None
        if k == 3:
            return self.bool()
        return self.float()

    # --- assumptions and checks

    def same(self, a, b):
        """Same type and content, at any depth (a formula in symbolic runs)."""
        return V.same(a, b)

    def differ(self, a, b):
        return T.f_not(V.same(a, b))

    def implies(self, a, b):
        return T.f_or([T.f_not(a), b])

    def any(self, *fs):
        return T.f_or(fs)

    def all(self, *fs):
        return T.f_and(fs)

    def not_(self, f):
        return T.f_not(f)

    def check_same(self, a, b, msg):
        self.check(V.same(a, b), msg)

    def raises(self, exceptions, f, *args, **kwargs):
        """The exception raised by f, None if there is none; other exceptions propagate."""
        try:
            f(*args, **kwargs)
        except exceptions as e:
            return e
        return None


class Ctx(Gen, SymCtx):
    """Symbolic run."""

    def hv(self, ranges, default):
        if not T.rng_has(ranges, default):
            default = ranges[0][0]
        return (0, ((self.new_var(ranges, default, True), 1),))

    def decide(self, v, n, label):
        self.label = ('choice', label, n)
        try:
            for i in range(n - 1):
                if self.branch(T.f_eq((v[0] - i, v[1]))):
                    return i
            return n - 1
        finally:
            self.label = None

    def assume(self, f):
        self.assume_f(f)

    def check(self, f, msg):
        self.check_f(f if f is True or f is False or isinstance(f, tuple) else bool(f), msg)

    def describe(self):
        return self.shown[-1] if getattr(self, 'shown', None) else [self.env[i] for i in self.hvars]

    def show(self, *things):
        """Records a readable form of the inputs for the evidence samples."""
        if not hasattr(self, 'shown'):
            self.shown = []
        try:
            self.shown.append(native_repr(things))
        except Exception:
            pass


class NativeCtx(Gen):
    """Native run from recorded values."""
    symbolic = False

    def __init__(self, values):
        self.values = list(values)
        self.n = 0
        self.reached = 0
        self.shown = []
        self.cache = {}

    def hv(self, ranges, default):
        v = self.values[self.n] if self.n < len(self.values) else default
        self.n += 1
        if not T.rng_has(ranges, v):
            v = default if T.rng_has(ranges, default) else ranges[0][0]
        return v

    def decide(self, v, n, label):
        return v

    def assume(self, f):
        if not f:
            raise Skip()

    def check(self, f, msg):
        self.reached += 1
        if not f:
            raise Violation(msg)

    def show(self, *things):
        self.shown.append(repr(things))


def native_repr(x):
    """repr of the current values, without adding constraints."""
    t = type(x)
    if t in (V.SymStr, V.Digest):
        return repr(V._native(x))
    if t is V.SymInt:
        return str(int.__add__(x, 0))
    if t is V.SymFloat:
        return V._native(x._t)
    if t is V.SymBytes:
        return repr(bytes(bytearray(x)))
    if t in (list, tuple, set, frozenset):
        inner = ', '.join([native_repr(y) for y in x])
        return {list: '[%s]', tuple: '(%s)', set: '{%s}', frozenset: 'frozenset({%s})'}[t] % inner
    if isinstance(x, dict):
        return '{%s}' % ', '.join(['%s: %s' % (native_repr(k), native_repr(v)) for k, v in x.items()])
    if t.__name__ == 'What' and hasattr(x, 'conf'):
        return 'What(%s, %s, out_name=%s, non_ids=%s)' % (native_repr(x.name), native_repr(x.conf),
                                                          native_repr(x.out_name), native_repr(list(x.non_id_keys)))
    return repr(x) if not V.deep_sym(x) else '<%s>' % t.__name__


def run_native(harness, values):
    """(outcome, message): outcome in 'ok', 'skip', 'violation'."""
    ctx = NativeCtx(values)
    try:
        harness(ctx)
    except Skip:
        return 'skip', '', ctx
    except Violation as e:
        return 'violation', str(e), ctx
    except PathEnd:
        return 'skip', '', ctx
    except Exception as e:
        return 'violation', 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), ctx
    return 'ok', '', ctx
