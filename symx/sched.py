"""Cooperative scheduling of several threads of the code under check.

The threads are real, but only the one that holds the baton runs. A switch may happen before any line of the code
under check; which ones are taken is decided by symbolic variables (SymH) or read from a witness (ConcreteH). Locks the
code creates are wrapped, so a thread that waits for one gives up the baton; a deadlock is an outcome like any other."""
from __future__ import annotations

import sys
import threading
import _thread

REAL_LOCK, REAL_RLOCK = _thread.allocate_lock, threading.RLock
CURRENT = None
LIMIT = 256


class Abort(BaseException):
    """Unwinds a thread of a run that is over."""


class Deadlock(Exception):
    pass


class Stuck(Exception):
    pass


def baton():
    b = REAL_LOCK()
    b.acquire()
    return b


def give(b):
    try:
        b.release()
    except RuntimeError:
        pass  # was given already


class Task:
    def __init__(self, n, thunk):
        self.n, self.thunk = n, thunk
        self.go = baton()
        self.done = self.blocked = False
        self.value = self.error = None
        self.counts = {}


class Schedule:
    """ask(n, where, others) -> index of the thread to switch to, or None to go on."""

    def __init__(self, thunks, prefix, ask, fatal=()):
        self.tasks = [Task(i, t) for i, t in enumerate(thunks)]
        self.prefix, self.ask, self.fatal = prefix, ask, fatal
        self.cur = None
        self.control = None
        self.over = False
        self.end = baton()
        self.by_ident = {}

    # -- running -------------------------------------------------------------
    def run(self):
        global CURRENT
        CURRENT = self
        old = threading.stack_size(64 * 1024 * 1024)
        try:
            ths = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in self.tasks]
            for th in ths:
                th.start()
            self.cur = self.tasks[0]
            give(self.cur.go)
            if not self.end.acquire(timeout=60):
                self.control = self.control or Stuck("threads do not end")
            self.over = True
            for t in self.tasks:
                give(t.go)
            for th in ths:
                th.join(5)
        finally:
            threading.stack_size(old)
            CURRENT = None
        if self.control is not None:
            raise self.control
        return self.tasks

    def _main(self, t):
        self.by_ident[_thread.get_ident()] = t
        t.go.acquire()
        try:
            if self.over:
                return
            sys.settrace(self._trace)
            try:
                t.value = t.thunk()
            finally:
                sys.settrace(None)
                self.by_ident.pop(_thread.get_ident(), None)
        except Abort:
            return
        except self.fatal as e:
            self.control = e
            give(self.end)
            return
        except BaseException as e:
            t.error = e
        t.done = True
        self._next(t)

    def _next(self, t):
        """t cannot go on: the first other thread that can does."""
        for o in self.tasks:
            if not o.done and not o.blocked and o is not t:
                return self._give(o)
        if all(o.done for o in self.tasks):
            give(self.end)
            return
        self.control = Deadlock("threads wait for each other")
        give(self.end)

    def _give(self, o):
        self.cur = o
        give(o.go)

    def _wait(self, t):
        t.go.acquire()
        if self.over:
            raise Abort()

    # -- switching -------------------------------------------------------------
    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self._line if f.startswith(self.prefix) else None

    def _line(self, frame, event, arg):
        if event == "line":
            t = self.cur
            k = (frame.f_code.co_filename[len(self.prefix):], frame.f_lineno)
            n = t.counts[k] = t.counts.get(k, 0) + 1
            others = [o for o in self.tasks if o is not t and not o.done and not o.blocked]
            if others:
                try:
                    i = self.ask(t.n, [t.n, k[0], k[1], n], [o.n for o in others])
                except self.fatal as e:
                    self.control = e
                    give(self.end)
                    self._wait(t)
                if i is not None:
                    self._give(self.tasks[i])
                    self._wait(t)
        return self._line

    # -- locks -------------------------------------------------------------------
    def block(self):
        t = self.by_ident.get(_thread.get_ident())
        t.blocked = True
        self._next(t)
        self._wait(t)
        t.blocked = False

    def wake(self):
        for t in self.tasks:
            t.blocked = False

    def managed(self):
        return _thread.get_ident() in self.by_ident


class _Lock:
    make = staticmethod(REAL_LOCK)

    def __init__(self):
        self._l = self.make()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.managed():
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or timeout == 0:
                return False
            s.block()
        return True

    def release(self):
        self._l.release()
        s = CURRENT
        if s is not None and s.managed():
            s.wake()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(self._l, k)


class CoopLock(_Lock):
    pass


class CoopRLock(_Lock):
    make = staticmethod(REAL_RLOCK)


def install():
    """Locks created from now on take part in schedules (outside of a schedule they behave as ever)."""
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
