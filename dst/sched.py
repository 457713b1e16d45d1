"""Seeded scheduler for real threads: exactly one thread runs at a time; the others are parked.  A running
thread can lose the processor at any traced line (or bytecode) of the code under test and of pyasn1,
or when it waits for a lock.  Who runs next and for how long is drawn from the run's seed and recorded
as a list of [thread, steps] segments, which is also the replay format."""
import random
import sys
import _thread
import seams
from core import Violation

_alloc = seams._real_allocate
_ident = _thread.get_ident


class Stop(BaseException):
    pass


class Sched(object):
    def __init__(self, plan, traced, calls=(), opcodes=False, cap=5000000):
        """plan: {'mode': 'quantum'|'pct'|'list', ...}; traced: path prefixes whose lines are switch points;
        calls: prefixes whose function entries are switch points."""
        self.plan, self.traced, self.calls, self.opcodes, self.cap = plan, tuple(traced), tuple(calls), opcodes, cap
        self.r = random.Random(plan.get('seed', 0))
        self.segments = []          # what happened
        self.switch_at = []         # where (file:line) threads were preempted
        self.steps = 0
        self.seg = 0                # steps in the current segment
        self.error = None
        self.interesting = {}

    # -- decisions
    def quantum(self):
        p = self.plan
        if p['mode'] == 'quantum':
            return 1 + int(self.r.expovariate(1.0 / p['mean']))
        if p['mode'] == 'pct':
            return self.next_change()
        return 1

    def next_change(self):
        pts = self.plan['points']
        while self.pct < len(pts) and pts[self.pct] <= self.steps:
            self.pct += 1
        return pts[self.pct] - self.steps if self.pct < len(pts) else 1 << 60

    def choose(self, cands):
        if self.plan['mode'] == 'pct':
            # highest priority runs; a change point gives the running thread the lowest one
            return max(cands, key=lambda t: self.prio[t])
        return cands[self.r.randrange(len(cands))]

    # -- running
    def run(self, bodies):
        n = len(bodies)
        self.n = n
        self.gate = [_alloc() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.finished = [False] * n
        self.blocked = [None] * n
        self.ids = {}
        self.all_done = _alloc()
        self.all_done.acquire()
        self.cur = None
        self.pct = 0
        self.prio = list(self.plan.get('prio', range(n)))
        self.low = -1
        self.listpos = 0
        ready = _alloc()
        ready.acquire()

        def main(i):
            self.ids[_ident()] = i
            ready.release()
            self.gate[i].acquire()
            try:
                if self.error is None:
                    sys.settrace(self.trace)
                    try:
                        bodies[i]()
                    finally:
                        sys.settrace(None)
            except Stop:
                pass
            except BaseException as e:      # harness bug: bodies catch what they expect
                self.error = self.error or e
            finally:
                sys.settrace(None)
                self.finish(i)
        for i in range(n):
            _thread.start_new_thread(main, (i,))
            ready.acquire()
        seams.active[0] = self
        self.resume(self.pick(None))
        self.all_done.acquire()
        seams.active[0] = None
        if self.error is not None:
            raise self.error
        return self.segments

    def managed(self):
        return _ident() in self.ids and not self.finished[self.ids[_ident()]]

    def runnable(self):
        return [i for i in range(self.n) if not self.finished[i] and self.blocked[i] is None]

    def pick(self, prev):
        """Next thread to run; sets the length of its segment."""
        cands = self.runnable()
        if not cands:
            return None
        if self.plan['mode'] == 'list':
            lst = self.plan['list']
            while self.listpos < len(lst):
                t, k = lst[self.listpos]
                self.listpos += 1
                if t in cands:
                    self.left = k
                    return t
            self.left = 1 << 60
            return cands[0]
        if self.plan['mode'] == 'pct' and prev is not None and prev in cands:
            self.prio[prev] = self.low
            self.low -= 1
        t = self.choose(cands)
        self.left = self.quantum()
        return t

    def resume(self, t):
        if t is None:
            if all(self.finished):
                self.all_done.release()
                return
            self.error = self.error or Violation('deadlock', 'threads %s wait for locks that are never released'
                                                 % [i for i in range(self.n) if not self.finished[i]])
            self.all_done.release()
            return
        self.cur = t
        self.seg = 0
        self.gate[t].release()

    def leave(self, i, where=None, own=0):
        """Thread i stops running here for now (own=1: not because its segment was used up)."""
        self.segments.append([i, self.seg + own])
        if where:
            self.switch_at.append((i, where))

    def finish(self, i):
        self.leave(i, None, 1)
        self.finished[i] = True
        self.resume(self.pick(None))

    def switch(self, i, where):
        t = self.pick(i)
        if t == i:
            return
        self.leave(i, where)
        self.resume(t)
        self.gate[i].acquire()
        if self.error is not None:
            raise Stop()

    def step(self, where):
        self.steps += 1
        self.seg += 1
        self.left -= 1
        if self.left <= 0:
            i = self.cur
            if self.steps > self.cap:
                self.error = self.error or Violation('no progress', '%d steps' % self.steps)
                raise Stop()
            self.switch(i, where)

    # -- called by locks, sleeps and logging
    def pause(self):
        if self.managed():
            if self.plan['mode'] != 'list':
                self.left = 0
            self.step('pause')

    def block(self, lock):
        i = self.ids[_ident()]
        self.blocked[i] = lock
        self.leave(i, 'lock', 1)
        self.resume(self.pick(None))
        self.gate[i].acquire()
        if self.error is not None:
            raise Stop()

    def unblock(self, lock):
        for i in range(self.n):
            if self.blocked[i] is lock:
                self.blocked[i] = None

    # -- tracing
    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        k = self.interesting.get(fn)
        if k is None:
            k = 2 if fn.startswith(self.traced) else 1 if self.calls and fn.startswith(self.calls) else 0
            self.interesting[fn] = k
        if k == 2:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        if k == 1:
            self.step('%s:%s' % (fn[-20:], frame.f_code.co_name))
        return None

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.steps += 1
            self.seg += 1
            self.left -= 1
            if self.left <= 0:
                self.steps -= 1
                self.seg -= 1
                self.left += 1
                self.step('%s:%s' % (frame.f_code.co_filename[-24:], frame.f_lineno))
        return self.local


def gen_plan(r, threads):
    """Random scheduling strategy: priorities with a few change points (as fractions of the run), or random quanta."""
    if r.random() < 0.45:
        d = r.choice([1, 1, 2, 3, 5, 8])
        prio = list(range(threads))
        r.shuffle(prio)
        return {'mode': 'pct', 'frac': sorted(r.random() for _ in range(d)), 'prio': prio, 'seed': r.getrandbits(32)}
    return {'mode': 'quantum', 'mean': r.choice([1, 2, 5, 15, 40, 120, 400]), 'seed': r.getrandbits(32)}


def scale(plan, total):
    if plan['mode'] == 'pct':
        return dict(plan, points=[1 + int(f * total) for f in plan['frac']])
    return plan


class Counter(object):
    """Counts the switch points a piece of work passes."""

    def __init__(self, traced, calls=(), opcodes=False):
        self.s = Sched({'mode': 'none'}, traced, calls, opcodes)
        self.s.step = self.step

    def step(self, where=None):
        self.s.steps += 1

    def run(self, fn):
        self.s.left = 1 << 60
        sys.settrace(self.s.trace)
        try:
            return fn()
        finally:
            sys.settrace(None)


def plan_of(segments):
    return {'mode': 'list', 'list': segments}


def shrink_plan(plan):
    """Smaller schedules: fewer segments (neighbours of one thread melt together)."""
    if plan['mode'] != 'list':
        return
    from core import drop_each
    for cand in drop_each(plan['list']):
        out = []
        for t, k in cand:
            if out and out[-1][0] == t:
                out[-1] = [t, out[-1][1] + k]
            else:
                out.append([t, k])
        yield plan_of(out)
