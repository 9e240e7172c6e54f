"""Path exploration: symbolic context, worklist, assertion discharge."""
import heapq
import random
import signal
import sys
import time

from . import terms as T


ENGINE_FILES = set()


class PathEnd(BaseException):
    """Ends the current run (assumption not met, divergence...)."""


class RunTimeout(BaseException):
    """A single run took too long."""


DEBUG = False


class Holder(object):
    ctx = None        # the current symbolic context (None: everything is native)


H = Holder()


class Candidate(Exception):
    pass


class Violation(Exception):
    """Raised by concrete contexts when a check does not hold."""


class SymCtx(object):
    """One run of a harness along one path."""
    symbolic = True

    def __init__(self, model=None, expected=(), max_path=20000):
        self.model = model or {}
        self.expected = expected      # (path, i, neg): the first i items of path, then neg
        self.env = []
        self.base = []                # base domain of each variable
        self.dom = []                 # current domain of each variable along this path
        self.hvars = []               # indices of harness variables, in creation order
        self.path = []                # (formula, flippable, number of variables so far, kind, variables)
        self.known = {}
        self.cache = {}
        self.checks = []              # (formula, message)
        self.folded = 0
        self.failed = None            # message of a check that fails for the current values
        self.concretised = 0
        self.notes = set()
        self.max_path = max_path
        self.truncated = False
        self.diverged = False
        self.reached = 0
        self.messages = {}
        self.ended = None

    def end(self, why):
        self.ended = why
        return PathEnd(why)

    def describe(self):
        return [self.env[i] for i in self.hvars]

    # --- variables

    def new_var(self, ranges, default, harness=False):
        i = len(self.env)
        val = self.model.get(i, default)
        if not T.rng_has(ranges, val):
            val = default
        self.env.append(val)
        self.base.append(ranges)
        self.dom.append(ranges)
        if harness:
            self.hvars.append(i)
        return i

    # --- branching

    def branch(self, f, flippable=True, kind='b'):
        f = T.f_simplify(f, self.dom)
        if f is True or f is False:
            return f
        k = self.known.get(f)
        if k is not None:
            return k
        v = T.f_eval(f, self.env)
        self._record(f if v else T.f_not(f), flippable, kind)
        self.known[f] = v
        self.known[T.f_not(f)] = not v
        return v

    def _record(self, g, flippable, kind):
        n = len(self.path)
        if self.expected:
            path, i, neg = self.expected
            if n <= i:
                if g != (path[n][0] if n < i else neg):
                    self.diverged = True
                    if DEBUG:
                        print('diverged at', n, i, 'expected', path[n] if n < i else (neg, path[n]), 'got', g, self.site(()))
                    raise self.end('diverged')
                if n < i:
                    flippable = path[n][1]
        if n >= self.max_path:
            self.truncated = True
            raise self.end('path too long')
        vs = frozenset(T.f_vars(g))
        self.path.append((g, flippable, len(self.env), kind, vs, self.site(vs) if flippable else None))
        self._narrow(g)

    label = None

    def site(self, vs):
        """Where a decision is taken: first program location outside of the engine, and first variable involved."""
        if self.label is not None:
            return self.label
        f = sys._getframe(2)
        while f is not None:
            code = f.f_code
            if code.co_filename not in ENGINE_FILES and not code.co_filename.startswith('<'):
                return code.co_filename, f.f_lineno, min(vs) if vs else -1
            f = f.f_back
        return None

    def _narrow(self, g):
        if g[0] == 'and':
            for h in g[1]:
                self._narrow(h)
            return
        if g[0] == 'not' and g[1][0] == 'or':
            for h in g[1][1]:
                self._narrow(T.f_not(h))
            return
        u = T.unary(g)
        if u is not None:
            d = T.rng_inter(self.dom[u[0]], u[1])
            if d:
                self.dom[u[0]] = d

    def define(self, f):
        """Adds a constraint that holds by construction for the current values (definition of auxiliary variables)."""
        f = T.f_simplify(f, self.dom)
        if f is True:
            return
        if f is False or not T.f_eval(f, self.env):
            raise RuntimeError('inconsistent definition %r' % (f,))
        self._record(f, False, 'd')

    def assume_f(self, f):
        f = T.f_simplify(f, self.dom)
        if f is True:
            return
        if f is False:
            raise self.end('assumption')
        if T.f_eval(f, self.env):
            k = self.known.get(f)
            if k is None:
                self._record(f, False, 'a')
                self.known[f] = True
                self.known[T.f_not(f)] = False
            return
        self._record(T.f_not(f), True, 'a')
        raise self.end('assumption')

    def pin(self, lin, why):
        """Concretises: from here on, the term equals its current value."""
        if not lin[1]:
            return lin[0]
        val = T.lin_eval(lin, self.env)
        f = T.f_eq((lin[0] - val, lin[1]))
        if T.f_simplify(f, self.dom) is True or self.known.get(f):
            return val
        self.concretised += 1
        self.notes.add(why)
        self.branch(f, kind='c')
        return val

    def check_f(self, f, msg):
        self.reached += 1
        self.messages[msg] = self.messages.get(msg, 0) + 1
        f = T.f_simplify(f, self.dom)
        if f is True:
            self.folded += 1
            return
        if f is False or not T.f_eval(f, self.env):
            self.failed = msg
            raise self.end('failed')
        self.checks.append((f, msg))


def slice_of(items, f, n=None):
    """The path items that (transitively) share variables with f, and the set of variables involved."""
    vs = T.f_vars(f)
    pend = []
    for it in (items if n is None else items[:n]):
        pend.append((it[0], it[4]))
    out = []
    changed = True
    while changed and pend:
        changed = False
        rest = []
        for g, gv in pend:
            if vs & gv:
                out.append(g)
                if not gv <= vs:
                    vs |= gv
                    changed = True
            else:
                rest.append((g, gv))
        pend = rest
    return out, vs


class Explorer(object):
    """Explores the paths of harness(ctx) depth first, within a time budget."""

    def __init__(self, harness, solver, make_ctx, budget_s=30., max_paths=10 ** 9, conc_cap=6, run_timeout_s=20.,
                 confirm=None, reset=None, validate=None, seed=1, max_spurious=200):
        self.harness = harness
        self.solver = solver
        self.make_ctx = make_ctx
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.conc_cap = conc_cap
        self.run_timeout_s = run_timeout_s
        self.confirm = confirm
        self.reset = reset
        self.validate = validate
        self.max_spurious = max_spurious
        self.rnd = random.Random(seed)
        self.stats = dict(paths=0, ended_by_assumption=0, infeasible=0, flips=0, checks=0, discharged=0,
                          folded=0, check_unknown=0, flip_unknown=0, diverged=0, truncated=0, timeouts=0,
                          concretised=0, conc_dropped=0, spurious=0, unexplored=0, reached=0, decisions=0,
                          validated=0, unvalidated=0, errors=0)
        self.notes = set()
        self.samples = []
        self.messages = {}
        self.conc_seen = {}
        self.violation = None
        self.spurious = []
        self.heap = []
        self.site_count = {}
        self.tick = 0
        self.abnormal = False

    def push(self, path, j, env, base):
        key = (path[j][5], path[j][0])
        self.tick += 1
        heapq.heappush(self.heap, (self.site_count.get(key, 0), self.rnd.random(), self.tick, key, path, j, env, base))

    def pop(self):
        while True:
            n, _, tick, key, path, j, env, base = heapq.heappop(self.heap)
            m = self.site_count.get(key, 0)
            if m > n and self.heap and self.heap[0][0] < m:
                heapq.heappush(self.heap, (m, self.rnd.random(), tick, key, path, j, env, base))
                continue
            self.site_count[key] = m + 1
            return path, j, env, base

    def run(self):
        t0 = time.time()
        st = self.stats
        first = True
        while first or self.heap:
            if time.time() - t0 > self.budget_s or st['paths'] >= self.max_paths:
                break
            if first:
                model, expected, bound = {}, (), 0
                first = False
            else:
                path, i, env, base = self.pop()
                nv = path[i][2]
                st['flips'] += 1
                neg = T.f_not(path[i][0])
                if path[i][3] == 'c':
                    n = self.conc_seen.get(path[i][5], 0)
                    if n >= self.conc_cap:
                        st['conc_dropped'] += 1
                        continue
                    self.conc_seen[path[i][5]] = n + 1
                model = self.solve_flip(path, i, neg, env, nv, base)
                if model is None:
                    continue
                expected, bound = (path, i, neg), i + 1
            ctx = self.make_ctx(model, expected)
            err = self.run_one(ctx)
            if ctx.diverged:
                st['diverged'] += 1
                continue
            st['paths'] += 1
            st['decisions'] += len(ctx.path) - bound
            if err == 'assumption':
                st['ended_by_assumption'] += 1
            elif err == 'timeout':
                st['timeouts'] += 1
            elif err == 'exception':
                st['errors'] += 1
            st['concretised'] += ctx.concretised
            st['truncated'] += ctx.truncated
            st['reached'] += ctx.reached
            st['folded'] += ctx.folded
            self.notes |= ctx.notes
            for m, n in ctx.messages.items():
                self.messages[m] = self.messages.get(m, 0) + n
            if ctx.failed is not None and self.candidate(ctx, dict(enumerate(ctx.env)), ctx.failed):
                break
            if self.discharge(ctx):
                break
            if err is None and self.validate is not None and (st['paths'] <= 10 or st['paths'] % 25 == 0):
                if self.validate([ctx.env[i] for i in ctx.hvars]):
                    st['validated'] += 1
                else:
                    st['unvalidated'] += 1
                    # the path passes symbolically but fails natively: report it natively
                    if self.candidate(ctx, dict(enumerate(ctx.env)), 'native run fails'):
                        break
            if len(self.samples) < 3 and ctx.reached and not ctx.failed:
                self.samples.append({'inputs': ctx.describe(), 'constraints': len(ctx.path), 'checks': ctx.reached})
            if st['spurious'] >= self.max_spurious:
                break
            p = ctx.path
            for j in range(bound, len(p)):
                if p[j][1]:
                    self.push(p, j, ctx.env, ctx.base)
        st['unexplored'] = len(self.heap) if self.violation is None else 0
        st['wall'] = time.time() - t0
        self.heap = []
        return self

    def run_one(self, ctx):
        if self.reset is not None:
            self.reset(self.abnormal)
        H.ctx = ctx
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.run_timeout_s)
        try:
            self.abnormal = True
            self.harness(ctx)
            self.abnormal = False
            return ctx.ended
        except PathEnd as e:
            self.abnormal = str(e) not in ('assumption', 'failed')
            return str(e)
        except RunTimeout:
            return 'timeout'
        except Exception as e:
            if ctx.ended is not None:
                return ctx.ended
            ctx.reached += 1
            signal.setitimer(signal.ITIMER_REAL, 0)
            import traceback
            path, env = list(ctx.path), len(ctx.env)
            try:      # messages may be symbolic: they are built within the context, and what that adds to the path is dropped
                text = str(e)[:300]
                text = ''.join([chr(ord(x)) for x in text])
            except BaseException:
                text = '?'
            del ctx.path[len(path):]
            H.ctx = None
            ctx.failed = 'unexpected %s: %s' % (type(e).__name__, text)
            ctx.tb = ''.join(traceback.format_tb(e.__traceback__))[-3000:]
            return 'exception'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            H.ctx = None

    def solve_flip(self, path, i, neg, env, nv, base):
        st = self.stats
        items, vs = slice_of(path, neg, i)
        res, model = self.solver.check({v: base[v] for v in vs}, items + [neg])
        if res == 'unsat':
            st['infeasible'] += 1
            return None
        if res == 'unknown':
            st['flip_unknown'] += 1
            return None
        m = {k: env[k] for k in range(nv)}
        m.update(model)
        return m

    def discharge(self, ctx):
        """Asks the solver for values on this path that break a check. True when a violation is confirmed."""
        st = self.stats
        for f, msg in ctx.checks:
            st['checks'] += 1
            neg = T.f_not(f)
            items, vs = slice_of(ctx.path, neg)
            res, model = self.solver.check({v: ctx.base[v] for v in vs}, items + [neg])
            if res == 'unsat':
                st['discharged'] += 1
            elif res == 'unknown':
                st['check_unknown'] += 1
            else:
                m = dict(enumerate(ctx.env))
                m.update(model)
                if self.candidate(ctx, m, msg):
                    return True
        return False

    def candidate(self, ctx, model, msg):
        values = [model[i] for i in ctx.hvars]
        ok, info = self.confirm(values, msg) if self.confirm is not None else (True, '')
        if ok:
            self.violation = {'message': msg, 'values': values, 'info': info, 'traceback': getattr(ctx, 'tb', None)}
            return True
        self.stats['spurious'] += 1
        if len(self.spurious) < 5:
            self.spurious.append({'message': msg, 'values': values, 'info': info, 'traceback': getattr(ctx, 'tb', None)})
        return False


def _on_alarm(*_):
    raise RunTimeout()


sys.setrecursionlimit(max(sys.getrecursionlimit(), 12000))
ENGINE_FILES.update(__file__.replace('core.py', n) for n in (
    'core.py', 'vals.py', 'ops.py', 'rx.py', 'terms.py', 'gen.py', 'instr.py', 'solver.py'))
