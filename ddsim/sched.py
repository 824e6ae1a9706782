"""Cooperative scheduler: real threads, exactly one of which runs at any time.

Who runs is decided only here, from an explicit schedule: a list of
[step, choice] pairs.  At every yield point the step counter advances; when the
schedule holds an entry for that step the token moves to runnable[choice % n].
When a task ends (or blocks), the next task is picked by the `tail` numbers.
"""
import sys
import threading as _threading

_RealLock = _threading.Lock
_Thread = _threading.Thread
_local = _threading.local()


class Deadlock(BaseException):
    pass


class Task:
    def __init__(self, tid, name, fn):
        self.tid, self.name, self.fn = tid, name, fn
        self.sem = _RealLock()
        self.sem.acquire()
        self.done = False
        self.blocked = None       # callable -> True while it cannot run
        self.error = None
        self.steps = 0


class Sched:
    def __init__(self, switches, tail=(), max_steps=5_000_000):
        self.plan = {}
        for s, c in switches:
            self.plan.setdefault(int(s), int(c))
        self.tail = list(tail) or [0]
        self.tail_i = 0
        self.tasks = []
        self.step = 0
        self.max_steps = max_steps
        self.current = None
        self.main_sem = _RealLock()
        self.main_sem.acquire()
        self.trace = []           # (step, from, to, where) actual context switches
        self.on_thread_start = None
        self.on_thread_end = None

    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    def me(self):
        return getattr(_local, "task", None)

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.blocked is not None and t.blocked():
                continue
            out.append(t)
        return out

    def _next_tail(self, cand):
        c = self.tail[self.tail_i % len(self.tail)]
        self.tail_i += 1
        return cand[c % len(cand)]

    def run(self):
        for t in self.tasks:
            th = _Thread(target=self._main, args=(t,), daemon=True)
            t.thread = th
            th.start()
        if self.tasks:
            first = self._next_tail(self._runnable())
            self.current = first
            first.sem.release()
            self.main_sem.acquire()
        for t in self.tasks:
            t.thread.join()

    def _main(self, task):
        task.sem.acquire()
        _local.task = task
        try:
            if self.on_thread_start:
                self.on_thread_start(task)
            task.fn()
        except BaseException as e:  # noqa: BLE001
            task.error = e
        finally:
            if self.on_thread_end:
                self.on_thread_end(task)
            task.done = True
            self._hand_over(task, "end")

    def _hand_over(self, task, where):
        if all(t.done for t in self.tasks):
            self.main_sem.release()
            return
        cand = self._runnable()
        if not cand:
            # everyone blocked: report by waking main; parked daemon threads die with us
            self.deadlocked = True
            self.main_sem.release()
            return
        nxt = self._next_tail(cand)
        self.trace.append((self.step, task.tid, nxt.tid, where))
        self.current = nxt
        nxt.sem.release()

    deadlocked = False

    def yield_point(self, where):
        task = self.me()
        if task is None or task is not self.current:
            return
        self.step += 1
        task.steps += 1
        if self.step > self.max_steps:
            raise Deadlock("step budget exhausted at %s" % (where,))
        choice = self.plan.get(self.step)
        if choice is None:
            return
        cand = [t for t in self._runnable() if t is not task]
        if not cand:
            return
        nxt = cand[choice % len(cand)]
        self.trace.append((self.step, task.tid, nxt.tid, where))
        self.current = nxt
        nxt.sem.release()
        task.sem.acquire()

    def block_until(self, free):
        """Park the current task until free() is true (used by simulated locks)."""
        task = self.me()
        if task is None:
            if not free():
                raise Deadlock("lock held with nobody to release it")
            return
        while not free():
            task.blocked = lambda: not free()
            cand = self._runnable()
            if not cand:
                raise Deadlock("all tasks blocked")
            nxt = self._next_tail(cand)
            self.trace.append((self.step, task.tid, nxt.tid, "block"))
            self.current = nxt
            nxt.sem.release()
            task.sem.acquire()
            task.blocked = None


ACTIVE = None     # the Sched simulated locks consult


class SimLock:
    """threading.Lock / RLock replacement that yields to the scheduler."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(_local, "task", None) or _threading.get_ident()
        if self._re and self._owner is me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if ACTIVE is None:
                raise Deadlock("lock held outside a simulation")
            ACTIVE.block_until(lambda: self._owner is None)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        self._count -= 1
        if self._count <= 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
