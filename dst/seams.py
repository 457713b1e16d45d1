"""Seams: every source of nondeterminism goes through here.  install() must run before the code under
test (and logging, pyparsing, jinja2) is imported."""
import os
import sys
import _thread
import threading
import time as _time

REPO = os.environ.get('DST_REPO', '/repo')      # (a copy, when the checks themselves are being tested)
_real_allocate = _thread.allocate_lock
_RealRLock = _thread.RLock
real_monotonic = _time.monotonic
active = [None]             # the scheduler that currently owns the threads, if any


class Clock(object):
    """Simulated clock: advances a little on every reading, jumps when the simulator says so."""

    def __init__(self):
        self.wall, self.mono = 1700000000.0, 1000.0

    def time(self):
        self.wall += 1e-4
        return self.wall

    def monotonic(self):
        self.mono += 1e-4
        return self.mono

    def sleep(self, s):
        self.wall += max(0, s)
        self.mono += max(0, s)
        if active[0] is not None:
            active[0].pause()

    def jump(self, s):
        self.wall += s
        if s > 0:
            self.mono += s


clock = Clock()


class SimLock(object):
    """threading.Lock which, inside a simulated run, blocks in the simulator and not in the kernel."""
    _make = staticmethod(_real_allocate)

    def __init__(self):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        s = active[0]
        if s is None:       # only one thread exists outside of simulated runs: nobody could ever release it
            if self._l.acquire(False):
                return True
            if blocking and (timeout is None or timeout < 0):
                from core import Violation
                raise Violation('deadlock', 'a lock left behind by an earlier call is never released')
            return False
        if not s.managed():
            return self._l.acquire(blocking, timeout)
        tries = 0
        while not self._l.acquire(False):
            if not blocking:
                return False
            tries += 1
            if timeout is not None and timeout >= 0:
                if tries > 20:
                    clock.sleep(timeout)
                    return False
                s.pause()
            else:
                s.block(self)
        return True

    def release(self):
        self._l.release()
        s = active[0]
        if s is not None:
            s.unblock(self)

    def locked(self):
        if self._l.acquire(False):
            self._l.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = self._make()


class SimRLock(SimLock):
    _make = staticmethod(_RealRLock)

    def _is_owned(self):
        return self._l._is_owned()

    def _release_save(self):
        st = self._l._release_save()
        s = active[0]
        if s is not None:
            s.unblock(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._l.release()
        self._l._acquire_restore(st)

    def locked(self):
        return self._l._is_owned()


def install():
    assert 'logging' not in sys.modules and 'asn1PERser' not in sys.modules
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._PyRLock = SimRLock
    threading._CRLock = SimRLock
    # a Lock someone takes straight from _thread (from _thread import allocate_lock)
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    _time.time = clock.time
    _time.monotonic = clock.monotonic
    _time.perf_counter = clock.monotonic
    _time.time_ns = lambda: int(clock.time() * 1e9)
    _time.monotonic_ns = lambda: int(clock.monotonic() * 1e9)
    _time.sleep = clock.sleep


def load():
    """Imports the code under test from /repo's working tree and nothing else."""
    sys.path.insert(0, REPO)
    import asn1PERser
    assert os.path.abspath(asn1PERser.__file__) == os.path.join(REPO, 'asn1PERser', '__init__.py'), asn1PERser.__file__
    from schema import Lib
    return Lib()
