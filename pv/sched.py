"""A scheduler owned by the harness: threads switch where the case says.

Managed threads run one at a time.  A thread counts the bytecode instructions
it executes in protosym (and in the weakref module below it); when its quantum
is used up the next segment of the schedule decides who continues.  Locks made
through the threading module are replaced by cooperative ones, so that waiting
for a lock is a scheduling decision too and a deadlock is seen as such.
"""

from __future__ import annotations

import _thread
import sys
import threading
import weakref

from . import boot

_current = {}  # thread ident -> managed thread
NOBODY = object()


class CoopLock:
    """Lock or RLock under the control of the scheduler."""

    _reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _current.get(_thread.get_ident())
        who = me if me is not None else _thread.get_ident()
        if self.owner is not None and (self.owner != who or not self._reentrant):
            if not blocking:
                return False
            if me is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise RuntimeError("deadlock: a lock is held for ever")
            if not me.sched.wait(me, self, timeout):
                return False
        self.owner = who
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        me = _current.get(_thread.get_ident())
        return self.owner == (me if me is not None else _thread.get_ident())

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


class CoopRLock(CoopLock):
    _reentrant = True


def patch_locks():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


class Deadlock(BaseException):
    pass


class Thread:
    def __init__(self, sched, n, work):
        self.sched = sched
        self.n = n
        self.work = work
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.result = None
        self.error = None
        self.events = 0

    def main(self):
        _current[_thread.get_ident()] = self
        self.gate.acquire()
        try:
            sys.settrace(self.trace)
            try:
                self.result = self.work()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            self.error = e
        self.done = True
        del _current[_thread.get_ident()]
        self.sched.finished(self)

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(self.sched.prefix) or name == self.sched.weakref:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            self.sched.event(self)
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "opcode":
            self.sched.event(self)
        return self.local


class Sched:
    """Run works (functions without arguments) under a schedule.

    schedule: [[thread number, quantum], ...]; afterwards the threads run to
    their end one after the other.
    """

    def __init__(self, works, schedule):
        self.prefix = boot.REPO_SRC.rstrip("/") + "/protosym/"
        self.weakref = weakref.__file__
        self.schedule = list(schedule)
        self.pos = 0
        self.left = 0
        self.threads = [Thread(self, n, w) for n, w in enumerate(works)]
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.switches = 0
        self.free = False
        self.deadlock = False
        self.running = None

    def run(self, timeout=30):
        """True if all threads ended by themselves under the schedule."""
        for t in self.threads:
            _thread.start_new_thread(t.main, ())
        self.give(self.choose(None))
        ok = self.over.acquire(timeout=timeout)
        if not ok:
            # something waits outside our control: let everything run freely
            self.free = True
            for t in self.threads:
                try:
                    t.gate.release()
                except RuntimeError:
                    pass
            if not self.over.acquire(timeout=timeout):
                return False
        return True

    # -- called by the running thread (there is only one) --------------------------

    def runnable(self):
        return [t for t in self.threads if not t.done and (
            t.waiting is None or t.waiting.owner is None)]

    def choose(self, me):
        """The next thread to run, by the schedule."""
        can = self.runnable()
        if not can:
            return None
        if self.pos < len(self.schedule):
            n, quantum = self.schedule[self.pos]
            self.pos += 1
            self.left = quantum
            others = [t for t in can if t is not me] or can
            return others[n % len(others)]
        self.left = 1 << 60
        return me if me in can else can[0]

    def give(self, t):
        self.running = t
        t.gate.release()

    def event(self, me):
        me.events += 1
        self.left -= 1
        if self.left > 0 or self.free:
            return
        t = self.choose(me)
        if t is None or t is me:
            return
        self.switches += 1
        self.give(t)
        me.gate.acquire()

    def wait(self, me, lock, timeout):
        if self.free:
            return True  # no control any more
        me.waiting = lock
        while lock.owner is not None:
            t = self.choose(me)
            if t is None:
                me.waiting = None
                if timeout is not None and timeout >= 0:
                    return False
                self.deadlock = True
                raise Deadlock()
            self.switches += 1
            self.give(t)
            me.gate.acquire()
            if self.free:
                break
        me.waiting = None
        return True

    def finished(self, me):
        if all(t.done for t in self.threads):
            self.over.release()
            return
        if self.free:
            return
        t = self.choose(me)
        if t is None:
            # every other thread waits for a lock nobody will release
            self.deadlock = True
            for t in self.threads:
                t.done = True
            self.over.release()
            return
        self.give(t)
