"""C14: calls made while another call of the same thread is suspended (signal handler, log handler, finalizer)."""
import logging
import inject
import sched
import seams
import world
from checks.c01 import traced, Threads
from core import Check, Violation, drop_each


class Nest(inject.Abort):
    """Runs handlers in the middle of a call: points = [(step, fn)...]."""

    def __init__(self, points, prefixes, opcodes):
        inject.Abort.__init__(self, -1, '', prefixes, opcodes)
        self.points = sorted(points, key=lambda p: p[0])
        self.at = []

    def hit(self, frame):
        self.seen += 1
        while self.points and self.points[0][0] <= self.seen:
            step, fn = self.points.pop(0)
            self.at.append('%s:%s' % (frame.f_code.co_filename[-30:], frame.f_lineno))
            fn()


class NestingHandler(logging.Handler):
    """A log sink that uses the codec itself: on its n-th record it makes the n-th planned call."""

    def __init__(self, plan, do):
        logging.Handler.__init__(self)
        self.plan, self.do, self.seen, self.fired, self.depth, self.deepest = dict(plan), do, 0, 0, 0, 0

    def handle(self, record):
        self.seen += 1
        j = self.plan.pop(self.seen, None)
        if j is not None:
            self.fired += 1
            self.depth += 1
            self.deepest = max(self.deepest, self.depth)
            try:
                self.do(j)
            finally:
                self.depth -= 1
        return True


class C14(Check):
    id = 'C14'
    size = {'quick': (5000, 20), 'thorough': (90000, 20)}
    rule = ('one run = 1-4 outer calls; in the middle of each, at 1-3 seeded lines, bytecodes or log records, a handler makes other '
            'codec calls on the same or other objects (nested up to 4 deep through log records); distinct = distinct (outer call, '
            'inner call, place) triples')
    components = {'real': ['asn1PERser codec and data classes', 'pyasn1', 'logging'],
                  'stub': ['signals (handlers run by a trace function)', 'log sinks', 'clock']}
    assumptions = ['a handler runs at a line or bytecode boundary of asn1PERser or pyasn1 code']

    def gen(self, r, i):
        n = r.choice([1, 1, 2, 3])
        types = world.gen_types(r, n, 2, 0.12)
        g = Threads()
        msgs, specs, ops = [], [], []
        for _ in range(r.choice([1, 2, 3])):
            m = g.msg(r, types, r.randrange(n))
            if m:
                msgs.append(m)
        for _ in range(r.choice([1, 2])):
            k = r.randrange(n)
            vd = world.small_value(r, types[k][1])
            specs.append([k, vd[0] if vd and r.random() < 0.3 else None])
        for _ in range(r.choice([2, 3, 5])):
            if msgs and r.random() < 0.55:
                ops.append([r.choice(['enc', 'enc', 'dict']), r.randrange(len(msgs))])
            else:
                j = r.randrange(len(specs))
                vd = world.small_value(r, types[specs[j][0]][1])
                if vd:
                    ops.append(['dec', j, vd[1].hex() if r.random() < 0.8 else world.bad_octets(r, vd[1])])
        if not ops:
            return self.gen(r, i)
        plan = []
        for _ in range(r.choice([1, 2, 4])):
            outer = r.randrange(len(ops))
            if r.random() < 0.75:
                plan.append(['line', outer, r.random() < 0.3, [[r.random(), r.randrange(len(ops))] for _ in range(r.choice([1, 1, 2, 3]))]])
            else:
                plan.append(['log', outer, None, [[r.random(), r.randrange(len(ops))] for _ in range(r.choice([1, 2, 4]))]])
        return {'types': types, 'msgs': msgs, 'specs': specs, 'ops': ops, 'plan': plan}

    def alone(self, scn):
        out = []
        for op in scn['ops']:
            w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
            c1 = sched.Counter(traced())
            res = c1.run(lambda: w.call(op))
            c2 = sched.Counter(traced(), opcodes=True)
            c2.run(lambda: w.call(op))
            h = NestingHandler({}, None)
            with_handler(h, lambda: w.call(op))
            out.append([res, c1.s.steps, c2.s.steps, h.seen])
        return out

    def run(self, scn, stats, expect):
        w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
        before = w.snapshot()
        ops = scn['ops']
        for how, outer, opcodes, points in scn['plan']:
            inner = []

            def do(j):
                slot = [j, None]
                inner.append(slot)
                slot[1] = w.call(ops[j])
            if how == 'line':
                total = expect[outer][2 if opcodes else 1]
                nest = Nest([(1 + int(f * total), lambda j=j: do(j)) for f, j in points], traced(), opcodes)
                kind, got = nest.run(lambda: w.call(ops[outer]))
                if kind == 'exc':
                    raise got
                where = nest.at
                stats.add('fault.handler run in the middle of a call', len(where))
            else:
                total = expect[outer][3]
                h = NestingHandler({1 + int(f * total) + x: j for x, (f, j) in enumerate(points)}, do)
                got = with_handler(h, lambda: w.call(ops[outer]))
                where = ['log'] * h.fired
                stats.add('fault.codec call made by a log sink', h.fired)
                if h.deepest > 1:
                    stats.add('fault.handler in a handler')
            stats.add('calls', 1 + len(inner))
            for (j, res), x in zip(inner, where):
                stats.seen('distinct', [ops[outer], ops[j], x])
            if got != expect[outer][0]:
                raise Violation('wrong result', '%s during which %s ran gave %s, alone it gives %s'
                                % (str(ops[outer])[:200], str([ops[j] for j, x in inner])[:200], str(got)[:300], str(expect[outer][0])[:300]))
            for j, res in inner:
                if res != expect[j][0]:
                    raise Violation('wrong result', '%s made in the middle of %s gave %s, alone it gives %s'
                                    % (str(ops[j])[:200], str(ops[outer])[:200], str(res)[:300], str(expect[j][0])[:300]))
            after = w.snapshot()
            if after != before:
                raise Violation('object modified', str([(a, b) for k in before for a, b in zip(before[k], after[k]) if a != b][:1])[:600])
            if not stats.samples and inner:
                stats.samples.append({'outer': str(ops[outer])[:200], 'inner': str([ops[j] for j, x in inner])[:300], 'at': where})

    def shrink(self, scn):
        for cand in drop_each(scn['plan'], 1):
            yield dict(scn, plan=cand)
        p = scn['plan']
        for j, (how, outer, oc, points) in enumerate(p):
            for cand in drop_each(points, 1):
                yield dict(scn, plan=p[:j] + [[how, outer, oc, cand]] + p[j + 1:])


def with_handler(h, fn):
    lg = logging.getLogger('asn1perser')
    old = lg.level
    lg.addHandler(h)
    lg.setLevel(logging.DEBUG)
    try:
        return fn()
    finally:
        lg.setLevel(old)
        lg.removeHandler(h)
