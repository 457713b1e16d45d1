"""Faults inside a call: an exception at a chosen traced line, a recursion limit, a failing log handler."""
import sys


class Interrupt(BaseException):
    """Stands for an asynchronous exception (timeout, cancellation)."""


KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'Interrupt': Interrupt,
         'TimeoutError': TimeoutError, 'OSError': OSError}


class Abort(object):
    """Raises an exception at the n-th traced line (bytecode) executed under it."""

    def __init__(self, n, kind, prefixes, opcodes=False, only_calls=()):
        self.n, self.kind, self.prefixes, self.opcodes, self.calls = n, kind, tuple(prefixes), opcodes, tuple(only_calls)
        self.seen, self.where, self.exc, self.cache = 0, None, None, {}

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        k = self.cache.get(fn)
        if k is None:
            k = self.cache[fn] = 2 if fn.startswith(self.prefixes) else 1 if self.calls and fn.startswith(self.calls) else 0
        if k == 2:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        if k == 1:
            self.hit(frame)
        return None

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.hit(frame)
        return self.local

    def hit(self, frame):
        self.seen += 1
        if self.seen == self.n:
            self.where = '%s:%s' % (frame.f_code.co_filename, frame.f_lineno)
            self.exc = KINDS[self.kind]('injected')
            sys.settrace(None)
            raise self.exc

    def run(self, fn):
        """('ok', value) or ('exc', exception object)."""
        old, hook = sys.gettrace(), sys.unraisablehook

        def unraisable(u):
            if self.exc is not None and u.exc_value is self.exc:
                self.exc = None         # hit a finalizer: the interpreter drops such exceptions, nobody can report them
            else:
                hook(u)
        sys.unraisablehook = unraisable
        sys.settrace(self.trace)
        try:
            return 'ok', fn()
        except BaseException as e:
            return 'exc', e
        finally:
            sys.settrace(old)
            sys.unraisablehook = hook


def chained(e, wanted):
    """Is `wanted` the exception e or one that e was raised because of?"""
    seen = set()
    while e is not None and id(e) not in seen:
        if e is wanted:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def with_recursion_limit(extra, fn):
    """Outcome of fn with only `extra` more frames available than are in use now."""
    old = sys.getrecursionlimit()
    try:
        try:
            sys.setrecursionlimit(depth() + extra)
        except RecursionError:
            return 'skip', None
        try:
            return 'ok', fn()
        except BaseException as e:
            return 'exc', e
    finally:
        sys.setrecursionlimit(old)
