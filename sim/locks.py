"""
Locks that the simulated scheduler knows. `install` replaces the lock types of `threading` before the code under test is imported, so that a
task that has to wait for a lock hands over to the others instead of stopping the simulation; when all wait, that is a deadlock.
"""
import _thread
import threading

from sim.sched import current_task

real_lock = _thread.allocate_lock
real_rlock = _thread.RLock


class SimLock:
    make = staticmethod(real_lock)

    def __init__(self):
        self.inner = self.make()
        self.held = 0

    def attempt(self):
        if self.inner.acquire(False):
            self.held += 1
            return True
        return False

    def acquire(self, blocking=True, timeout=-1):
        if self.attempt():
            return True
        if not blocking:
            return False
        task = current_task()
        if task is None:
            if self.inner.acquire(blocking, timeout):
                self.held += 1
                return True
            return False
        return task.sched.wait_for(self, timeout)

    def release(self):
        self.inner.release()
        self.held -= 1

    def locked(self):
        return self.held > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self.inner = self.make()
        self.held = 0


class SimRLock(SimLock):
    make = staticmethod(real_rlock)

    def _is_owned(self):
        return self.inner._is_owned()

    def _release_save(self):
        held, self.held = self.held, 0
        return held, self.inner._release_save()

    def _acquire_restore(self, state):
        held, inner = state
        # take it once, then set the number of times it was held
        self.acquire()
        self.inner.release()
        self.inner._acquire_restore(inner)
        self.held = held


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
