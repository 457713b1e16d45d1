"""C01/C02: threads using the codec at the same time."""
import schema
import world
import sched
import seams
from core import Check, Violation, drop_each, digest

TRACED = None


def traced():
    import os
    import pyasn1
    return (seams.REPO + '/asn1PERser/', os.path.dirname(os.path.abspath(pyasn1.__file__)) + os.sep)


class Threads(Check):
    shared = False
    size = {'quick': (5000, 10), 'thorough': (90000, 10)}
    rule = ('one run = a schema of 1-3 random types, 2-4 threads with 1-3 encode/decode/to_dict calls each (some of them '
            'failing ones), and one seeded schedule at line or bytecode granularity; distinct = distinct (calls, sequence of '
            'preemption places) pairs with at least one preemption')
    components = {'real': ['asn1PERser codec and data classes', 'pyasn1', 'CPython threads (parked and released one at a time)'],
                  'stub': ['thread scheduler', 'locks', 'clock']}
    assumptions = ['threads are preempted only at line or bytecode boundaries of asn1PERser and pyasn1 code and at lock operations']

    def gen(self, r, i):
        n = r.choice([1, 1, 2, 3])
        types = world.gen_types(r, n, 2, 0.15)
        threads = r.choice([2, 2, 2, 3, 4])
        msgs, specs, ops = [], [], []
        shared_m, shared_s = [], []
        if self.shared:
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(n)
                m = self.msg(r, types, k)
                if m:
                    shared_m.append(len(msgs))
                    msgs.append(m)
                k = r.randrange(n)
                vd = world.small_value(r, types[k][1])
                shared_s.append(len(specs))
                specs.append([k, vd[0] if vd and r.random() < 0.4 else None])
        same = r.random() < 0.3
        for t in range(threads):
            mine = []
            for _ in range(r.choice([1, 1, 2, 3])):
                kind = r.choice(['enc', 'enc', 'dict', 'dec', 'dec'])
                if same and ops and ops[0]:
                    kind = ops[0][0][0]
                if kind in ('enc', 'dict'):
                    if shared_m and r.random() < 0.9:
                        j = r.choice(shared_m)
                    else:
                        m = self.msg(r, types, r.randrange(n))
                        if not m:
                            continue
                        j = len(msgs)
                        msgs.append(m)
                    mine.append([kind, j])
                else:
                    if shared_s and r.random() < 0.9:
                        j = r.choice(shared_s)
                    else:
                        j = len(specs)
                        specs.append([r.randrange(n), None])
                    vd = world.small_value(r, types[specs[j][0]][1])
                    if not vd:
                        continue
                    data = vd[1].hex()
                    if r.random() < 0.2:
                        data = world.bad_octets(r, vd[1])
                    mine.append(['dec', j, data])
                    if shared_s and r.random() < 0.15 and specs[j][1] is not None:
                        mine.append(['encspec', j])
            ops.append(mine)
        if sum(1 for o in ops if o) < 2:
            return self.gen(r, i)
        return {'types': types, 'msgs': msgs, 'specs': specs, 'ops': ops, 'opcodes': r.random() < 0.25,
                'plan': sched.gen_plan(r, threads)}

    def msg(self, r, types, k):
        vd = world.small_value(r, types[k][1])
        if not vd:
            return None
        v, dmg = vd[0], None
        if r.random() < 0.12:
            m = world.missing(r, types[k][1], v)
            if m is not None:
                v = m
        return [k, v, dmg]

    def alone(self, scn):
        """Every call on objects of its own, nothing else running."""
        out = []
        n = sched.Counter(traced(), opcodes=scn['opcodes'])
        for mine in scn['ops']:
            w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
            out.append([n.run(lambda: w.call(op)) for op in mine])
        return [out, n.s.steps]

    def run(self, scn, stats, expect):
        w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
        before = w.snapshot()
        results = [[] for _ in scn['ops']]

        def body(t):
            def f():
                for op in scn['ops'][t]:
                    results[t].append(w.call(op))
            return f
        expect, total = expect
        s = sched.Sched(sched.scale(scn['plan'], total), traced(), opcodes=scn['opcodes'])
        try:
            s.run([body(t) for t in range(len(scn['ops']))])
        finally:
            scn['plan'] = sched.plan_of(s.segments)
        stats.add('calls', sum(len(o) for o in scn['ops']))
        stats.add('sim.steps', s.steps)
        stats.add('sim.preemptions', len(s.switch_at))
        stats.add('fault.preemption', len(s.switch_at))
        stats.add('failing calls', sum(1 for x in results for y in x if y[0] == 'exc'))
        if s.switch_at:
            stats.seen('distinct', [[[o[0] for o in x] for x in scn['ops']], s.switch_at])
        stats.seen('schedules', s.switch_at)
        for where in s.switch_at:
            stats.seen('preemption places', where[1])
        if len(stats.samples) < 1 and len(s.switch_at) >= 2:
            stats.samples.append({'ops': str(scn['ops'])[:400], 'types': str(scn['types'])[:400], 'preempted_at': s.switch_at[:12]})
        for t, (got, want) in enumerate(zip(results, expect)):
            for k, (g, x) in enumerate(zip(got, want)):
                if g != x:
                    raise Violation('wrong result', 'thread %d call %s gave %s, alone it gives %s'
                                    % (t, str(scn['ops'][t][k])[:200], str(g)[:300], str(x)[:300]))
        after = w.snapshot()
        for key in ('msgs', 'specs', 'defs'):
            if before[key] != after[key]:
                for a, b in zip(before[key], after[key]):
                    if a != b:
                        raise Violation('object modified', '%s: before %s after %s' % (key, str(a)[:300], str(b)[:300]))

    def shrink(self, scn):
        for t in range(len(scn['ops'])):
            for cand in drop_each(scn['ops'][t]):
                yield dict(scn, ops=scn['ops'][:t] + [cand] + scn['ops'][t + 1:])
        for p in sched.shrink_plan(scn['plan']):
            yield dict(scn, plan=p)


class C01(Threads):
    id = 'C01'
    shared = False


class C02(Threads):
    id = 'C02'
    shared = True
