"""Threads that run one at a time and change where the harness says (real threads, the schedule is a value of the harness)."""
import sys
import threading

RealLock, RealRLock, RealThread = threading.Lock, threading.RLock, threading.Thread

STEPPED = ('C33',)


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class Lock(object):
    """A lock of the code under test: waiting for it gives the turn to the other threads."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._times = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            s = Scheduler.active
            if s is None or me not in s.idents:
                raise Deadlock('waiting for a lock that nobody will release')
            s.blocked()
        self._owner = me
        self._times += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._times -= 1
        if not self._times:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()


class RLock(Lock):
    reentrant = True


def _ours():
    return sys._getframe(2).f_globals.get('__name__', '').split('.')[0] == 'whatami'


threading.Lock = lambda: Lock() if _ours() else RealLock()
threading.RLock = lambda *a, **k: RLock() if _ours() else RealRLock(*a, **k)


class Scheduler(object):
    """Runs functions in threads; switch(n) tells if the turn changes at the n-th step."""
    active = None

    def __init__(self, switch, libraries=True):
        self.switch = switch
        self.libraries = libraries      # the turn may change in the parser library too
        self.steps = 0
        self.idents = set()
        self.turn = 0
        self.failed = None
        self.abort = False
        self.stuck = 0

    def step(self):
        if self.abort:
            raise Abort()
        self.stuck = 0
        n = self.steps
        self.steps += 1
        if len(self.alive) > 1 and self.switch(n):
            self.give()

    def blocked(self):
        self.stuck += 1
        if self.stuck > len(self.alive) or len(self.alive) < 2:
            raise Deadlock('all the threads wait')
        self.give()

    def give(self):
        """Gives the turn to the next thread and waits for it."""
        me = self.turn
        i = self.alive.index(me)
        self.turn = self.alive[(i + 1) % len(self.alive)]
        self.go[self.turn].release()
        self.wait(me)

    def wait(self, me):
        self.go[me].acquire()
        if self.abort:
            raise Abort()

    def body(self, k, fn):
        try:
            self.idents.add(threading.get_ident())
            self.wait(k)
            self.results[k] = ('value', fn())
        except Abort:
            pass
        except Exception as e:
            self.results[k] = ('error', e)
        except BaseException as e:      # the end of a path
            self.failed = e
        finally:
            self.alive.remove(k)
            if self.failed is not None or self.abort:
                self.over.release()
            elif self.alive:
                self.turn = self.alive[0]
                self.go[self.turn].release()
            else:
                self.over.release()

    def run(self, fns):
        n = len(fns)
        self.results = [None] * n
        self.alive = list(range(n))
        self.go = [threading.Semaphore(0) for _ in fns]
        self.over = threading.Semaphore(0)
        old = threading.stack_size(64 << 20)
        ts = [RealThread(target=self.body, args=(k, fn)) for k, fn in enumerate(fns)]
        Scheduler.active = self
        try:
            for t in ts:
                t.daemon = True
                t.start()
            self.go[0].release()
            while not self.over.acquire(timeout=.5):
                pass
        finally:
            if self.alive:
                self.abort = True
                for g in self.go:
                    g.release()
            for t in ts:
                t.join(2)
            Scheduler.active = None
            threading.stack_size(old)
        if self.failed is not None:
            raise self.failed
        return self.results


def point():
    """A step of the code under test (see instr.Steps)."""
    s = Scheduler.active
    if s is not None:
        s.step()


def library_point():
    s = Scheduler.active
    if s is not None and s.libraries:
        s.step()
