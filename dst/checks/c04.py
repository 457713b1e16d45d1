"""C04: calls abandoned half-way leave no damage."""
import logging
import inject
import sched
import seams
import world
from checks.c01 import traced, Threads
from core import Check, Violation, drop_each


class FailingHandler(logging.Handler):
    """A sink that raises on its n-th record."""

    def __init__(self, n, kind):
        logging.Handler.__init__(self)
        self.n, self.kind, self.seen, self.exc = n, kind, 0, None

    def emit(self, record):
        self.seen += 1
        if self.seen == self.n:
            self.exc = inject.KINDS[self.kind]('sink failed')
            raise self.exc

    def handle(self, record):
        self.emit(record)
        return True


class C04(Check):
    id = 'C04'
    size = {'quick': (4000, 20), 'thorough': (70000, 20)}
    rule = ('one run = a few live messages and schema objects and 3-8 calls, each abandoned 1-5 times at seeded points (a line or '
            'bytecode of asn1PERser or pyasn1, a frame-depth limit, a log record) before it is repeated without fault; distinct = '
            'distinct (call, fault kind, place of the fault) triples that fired')
    components = {'real': ['asn1PERser codec and data classes', 'pyasn1', 'logging'],
                  'stub': ['interrupts, allocation failures and timeouts (exceptions raised from a trace function)', 'log sinks', 'clock']}
    assumptions = ['an asynchronous fault shows as an exception at a line or bytecode boundary']

    def gen(self, r, i):
        n = r.choice([1, 1, 2])
        types = world.gen_types(r, n, 3 if r.random() < 0.3 else 2, 0.12)
        g = Threads()
        msgs, specs, ops = [], [], []
        for _ in range(r.choice([1, 2, 3])):
            m = g.msg(r, types, r.randrange(n))
            if m:
                msgs.append(m)
        for _ in range(r.choice([1, 2])):
            k = r.randrange(n)
            vd = world.small_value(r, types[k][1])
            specs.append([k, vd[0] if vd and r.random() < 0.4 else None])
        for _ in range(r.choice([3, 4, 6, 8])):
            if msgs and r.random() < 0.6:
                ops.append([r.choice(['enc', 'enc', 'dict']), r.randrange(len(msgs))])
            else:
                j = r.randrange(len(specs))
                vd = world.small_value(r, types[specs[j][0]][1])
                if not vd:
                    continue
                data = vd[1].hex() if r.random() < 0.85 else world.bad_octets(r, vd[1])
                ops.append(['dec', j, data])
        plan = []
        for op in ops:
            faults = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                x = r.random()
                if x < 0.75:
                    faults.append(['line', r.choice(sorted(inject.KINDS)), r.random(), r.random() < 0.3])
                elif x < 0.87:
                    faults.append(['depth', r.randrange(2, 40)])
                else:
                    faults.append(['log', r.choice(sorted(inject.KINDS)), r.random()])
            plan.append([op, faults])
        if r.random() < 0.05:
            # the same mishap again and again: whatever is left behind adds up
            for _ in range(r.choice([1, 2])):
                op, faults = r.choice(plan)
                plan.insert(0, [op, [['storm', r.choice(sorted(inject.KINDS)), r.random(), r.choice([0.618034, 0.0137, 0.0]),
                                      r.choice([30, 70, 150, 300])]]])
            plan.append([r.choice(plan)[0], []])
        elif r.random() < 0.05:
            for k, v, dmg in list(msgs):
                m = world.missing(r, types[k][1], v)
                if m is not None:
                    plan.insert(0, [['enc', len(msgs)], [['repeat', r.choice([30, 70, 150, 300])]]])
                    msgs.append([k, m, None])
                    break
            for op, faults in plan[:]:
                if op[0] == 'dec' and r.random() < 0.5:
                    plan.insert(0, [op[:2] + [world.bad_octets(r, bytes.fromhex(op[2]))], [['repeat', r.choice([30, 70, 150, 300])]]])
        return {'types': types, 'msgs': msgs, 'specs': specs, 'plan': plan}

    def alone(self, scn):
        out = []
        for op, faults in scn['plan']:
            w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
            c1 = sched.Counter(traced())
            res = c1.run(lambda: w.call(op))
            n2 = n3 = 0
            if any(f[0] == 'line' and f[3] for f in faults):
                c2 = sched.Counter(traced(), opcodes=True)
                c2.run(lambda: w.call(op))
                n2 = c2.s.steps
            if any(f[0] == 'log' for f in faults):
                h = FailingHandler(-1, 'OSError')
                with_handler(h, lambda: w.call(op))
                n3 = h.seen
            out.append([res, c1.s.steps, n2, n3])
        return out

    def run(self, scn, stats, expect):
        w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
        before = w.snapshot()
        for (op, faults), (want, steps, opsteps, records) in zip(scn['plan'], expect):
            for f in faults:
                self.fault(w, op, f, want, steps, opsteps, records, stats)
                after = w.snapshot()
                if after != before:
                    raise Violation('damage', 'after %s was abandoned (%s): %s' % (str(op)[:200], f, diff(before, after)))
            got = w.call(op)
            stats.add('calls')
            if got != want:
                raise Violation('wrong result after abandoned calls', '%s after %s gave %s, normally %s'
                                % (str(op)[:200], faults, str(got)[:300], str(want)[:300]))
            if w.snapshot() != before:
                raise Violation('damage', 'by %s: %s' % (str(op)[:200], diff(before, w.snapshot())))

    def fault(self, w, op, f, want, steps, opsteps, records, stats):
        L = self.L
        if f[0] == 'storm':
            for j in range(f[4]):
                a = inject.Abort(1 + int((f[2] + j * f[3]) % 1.0 * steps), f[1], traced(), False)
                kind, val = a.run(lambda: raw_call(w, op))
                if a.exc is not None:
                    stats.add('fault.%s, repeated' % f[1])
                    stats.seen('distinct', [op[0], f[1], a.where, 'storm'])
                    if kind == 'ok' and a.where.startswith(seams.REPO + '/'):
                        raise Violation('fault swallowed', '%s raised at %s did not reach the caller of %s' % (f[1], a.where, op[0]))
        elif f[0] == 'repeat':
            for j in range(f[1]):
                got = w.call(op)
                if got != want:
                    raise Violation('wrong result after failed calls', '%s gave %s, normally %s' % (str(op)[:200], str(got)[:300], str(want)[:300]))
            stats.add('fault.call that fails by itself, repeated', f[1] if want[0] != 'ok' else 0)
        elif f[0] == 'line':
            total = opsteps if f[3] else steps
            if not total:
                return
            a = inject.Abort(1 + int(f[2] * total) if f[2] < 1 else total, f[1], traced(), f[3])
            kind, val = a.run(lambda: raw_call(w, op))
            if a.exc is None:
                return
            stats.add('fault.%s at a %s' % (f[1], 'bytecode' if f[3] else 'line'))
            stats.seen('distinct', [op[0], f[1], a.where])
            stats.seen('places', a.where)
            own = a.where.startswith(seams.REPO + '/')
            if kind == 'ok' and own:
                raise Violation('fault swallowed', '%s raised at %s did not reach the caller of %s' % (f[1], a.where, op[0]))
            if own and not chained_ok(val, a.exc):
                raise Violation('fault replaced', '%s raised at %s reached the caller of %s as %r' % (f[1], a.where, op[0], val))
            if kind == 'ok' and want[0] == 'ok' and canonical(L, op, val) != want[1]:
                raise Violation('wrong result', '%s survived %s at %s with a wrong result' % (op[0], f[1], a.where))
            if not stats.samples:
                stats.samples.append({'call': str(op)[:200], 'fault': f[1], 'at': a.where, 'normal result': str(want)[:200]})
        elif f[0] == 'depth':
            kind, val = inject.with_recursion_limit(f[1], lambda: raw_call(w, op))
            if kind == 'exc' and isinstance(val, RecursionError):
                stats.add('fault.recursion limit')
                stats.seen('distinct', [op, f])
            elif kind == 'ok':
                if want[0] != 'ok' or canonical(L, op, val) != want[1]:
                    raise Violation('wrong result', '%s with little stack gave %s, normally %s' % (op[0], str(canonical(L, op, val))[:300], str(want)[:300]))
        else:
            if not records:
                return
            h = FailingHandler(1 + int(f[2] * records), f[1])
            box = []

            def go():
                try:
                    box.append(('ok', raw_call(w, op)))
                except BaseException as e:
                    box.append(('exc', e))
            with_handler(h, go)
            if h.exc is not None:
                stats.add('fault.failing log handler')
                stats.seen('distinct', [op[0], f[1], h.seen])
                if box[0][0] == 'ok':
                    raise Violation('fault swallowed', 'exception of a log handler did not reach the caller of %s' % op[0])

    def shrink(self, scn):
        p = scn['plan']
        for cand in drop_each(p, 1):
            yield dict(scn, plan=cand)
        for j, (op, faults) in enumerate(p):
            for cand in drop_each(faults):
                yield dict(scn, plan=p[:j] + [[op, cand]] + p[j + 1:])
            for x, f in enumerate(faults):
                if f[0] in ('storm', 'repeat'):
                    for n in (f[-1] // 2, f[-1] - f[-1] // 8 - 1):
                        if 0 < n < f[-1]:
                            yield dict(scn, plan=p[:j] + [[op, faults[:x] + [f[:-1] + [n]] + faults[x + 1:]]] + p[j + 1:])


def chained_ok(val, exc):
    return inject.chained(val, exc)


def raw_call(w, op):
    L = w.L
    if op[0] == 'enc':
        return L.encode(w.msgs[op[1]])
    if op[0] == 'dict':
        return w.msgs[op[1]].to_dict()
    return L.decode(bytes.fromhex(op[2]), asn1Spec=w.specs[op[1]])


def canonical(L, op, val):
    if op[0] == 'enc':
        return val.hex()
    if op[0] == 'dict':
        return world.canon(val, L)
    return world.state(L, val)


def with_handler(h, fn):
    lg = logging.getLogger('asn1perser')
    old = lg.level
    lg.addHandler(h)
    lg.setLevel(logging.DEBUG)
    try:
        return fn()
    finally:
        lg.setLevel(old)
        lg.removeHandler(h)


def diff(a, b):
    for k in a:
        for x, y in zip(a[k], b[k]):
            if x != y:
                return '%s: was %s is %s' % (k, str(x)[:300], str(y)[:300])
    return '?'
