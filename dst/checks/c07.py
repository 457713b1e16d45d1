"""C07: logging never changes what the codec does, and the sinks see what a lone call logs."""
import io
import logging
import sys
import _thread
import sched
import seams
import world
from checks.c01 import Threads, traced
from core import Check, Violation, drop_each

# small schemas: parsed, refused, and one the compiler warns about
TEXTS = ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END' % x for x in
         ['A ::= BOOLEAN', 'A ::= ENUMERATED { a, b, ... }', 'A ::= INTEGER c A ::= 5', 'A ::= B B ::= OCTET STRING', 'A ::= FOO BAR', 'A ::= ',
          'A ::= SEQUENCE OF BOOLEAN', 'A ::= CHOICE { x B } B ::= CHOICE { y A }', 'A ::= CHOICE { x A }']]
LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


class Broken(io.StringIO):
    """Stream of a sink that fails now and then."""

    def __init__(self, fails, stats):
        io.StringIO.__init__(self)
        self.fails, self.n, self.stats = fails, 0, stats

    def write(self, s):
        self.n += 1
        if self.fails and self.n % self.fails == 0:
            self.stats.add('fault.sink write error')
            raise OSError(28, 'No space left on device')
        return io.StringIO.write(self, s)


class Sink(logging.StreamHandler):
    """Real StreamHandler which also remembers the records given to it."""

    def __init__(self, fails, stats, formatter=None):
        logging.StreamHandler.__init__(self, Broken(fails, stats))
        self.seen = []
        self.text = []
        self.fmt = logging.Formatter(formatter) if formatter else None
        if formatter:
            self.setFormatter(logging.Formatter(formatter))

    def emit(self, record):
        self.seen.append((_thread.get_ident(), record.levelno, record.name, record.getMessage()))
        self.text.append((self.fmt.format(record) if self.fmt else record.getMessage()))
        logging.StreamHandler.emit(self, record)


def is_subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


class C07(Check):
    id = 'C07'
    size = {'quick': (3000, 10), 'thorough': (70000, 10)}
    rule = ('one run = 1-3 threads with codec calls under 0-4 attached handlers of seeded levels and failing sinks, while (in half of '
            'the runs) another thread attaches, detaches and re-levels handlers; then a quiet call under the final configuration; '
            'distinct = distinct (configuration, calls, preemption places)')
    components = {'real': ['asn1PERser codec, compiler (small schemas) and logging setup', 'pyasn1', 'Python logging'],
                  'stub': ['thread scheduler', 'locks', 'clock', 'output streams of the handlers']}
    assumptions = ['while handlers are attached or re-levelled by another thread, which of the records in flight a handler sees is not '
                   'determined, only their order and multiplicity',
                   'a handler is detached only while it is the last one attached (the standard logging module skips the neighbour of a '
                   'handler removed during delivery)']

    def gen(self, r, i):
        base = Threads().gen(r, i)
        base['ops'] = [[o for o in x] for x in base['ops']]
        k = r.choice([1, 1, 2, 3])
        base['ops'] = base['ops'][:k] or [[]]
        if r.random() < 0.2:
            for _ in range(r.choice([1, 2])):
                r.choice(base['ops']).append(['parse', r.choice(TEXTS)])
        names = sorted(LEVELS)
        handlers = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            handlers.append([r.choice(names[1:2] + names), r.choice([None, None, None] + names), r.choice([0, 0, 1, 2, 5]),
                             r.choice([None, '%(message)s', '%(levelname)s %(name)s %(message)s'])])
        admin = []
        if r.random() < 0.5:
            for _ in range(r.choice([1, 2, 4, 6])):
                x = r.random()
                if x < 0.35:
                    admin.append(['attach', r.choice(names), r.choice([0, 2])])
                elif x < 0.55:
                    admin.append(['detach'])
                elif x < 0.8:
                    admin.append(['level', r.choice(names)])
                elif handlers:
                    admin.append(['again', r.randrange(len(handlers)), r.choice(names)])
        base.update(handlers=handlers, admin=admin, twice=r.random() < 0.25, defaults=r.random() < 0.3)
        base['plan'] = sched.gen_plan(r, len(base['ops']) + (1 if admin else 0))
        base['opcodes'] = r.random() < 0.1
        return base

    def prefixes(self):
        return traced() + (logging.__file__.rsplit('/', 1)[0] + '/',)

    def alone(self, scn):
        """Results and records of each call on its own."""
        from core import Stats
        lg = logging.getLogger('asn1perser')
        out = []
        n = sched.Counter(self.prefixes(), opcodes=scn['opcodes'])
        w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
        quiet = [[w.call(op) for op in mine] for mine in scn['ops']]
        sink = Sink(0, Stats())
        lg.addHandler(sink)
        lg.setLevel(10)
        for mine in scn['ops']:
            w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
            row = []
            for op in mine:
                del sink.seen[:]
                res = n.run(lambda: w.call(op))
                row.append([res, [list(x[1:]) for x in sink.seen]])
            out.append(row)
        return [quiet, out, n.s.steps]

    def run(self, scn, stats, expect):
        quiet, loud, total = expect
        for q, l in zip(quiet, loud):
            for a, b, op in zip(q, l, sum(scn['ops'], [])):
                if a != b[0]:
                    raise Violation('logging changes the result', 'without handler %s, with one at DEBUG %s' % (str(a)[:300], str(b[0])[:300]))
        lg = logging.getLogger('asn1perser')
        root = logging.getLogger()
        setup = __import__('asn1PERser.logging_setup', fromlist=['x']).asn1perser_logging_setup
        state0 = (lg.level, list(lg.handlers), root.level, list(root.handlers), sys.stderr)
        spy = Sink(0, stats)
        root.addHandler(spy)
        root.setLevel(1)
        sys.stderr = io.StringIO()
        try:
            self.body(scn, stats, loud, total, lg, setup, spy)
        finally:
            lg.setLevel(state0[0])
            lg.handlers[:] = state0[1]
            root.setLevel(state0[2])
            root.handlers[:] = state0[3]
            sys.stderr = state0[4]

    def body(self, scn, stats, loud, total, lg, setup, spy):
        level = LEVELS['INFO']
        sinks = []
        if scn['defaults']:
            setup()
        for lev, hlev, fails, fmt in scn['handlers']:
            h = Sink(fails, stats, fmt)
            if hlev:
                h.setLevel(LEVELS[hlev])
            setup(handler=h, level=LEVELS[lev])
            if scn['twice']:
                setup(handler=h, level=LEVELS[lev])
            level = LEVELS[lev]
            sinks.append(h)
        w = world.World(self.L, scn['types'], scn['msgs'], scn['specs'])
        results = [[] for _ in scn['ops']]
        ident = {}
        lv = {'now': level, 'max': level}
        extra = []
        changed = set()

        def codec(t):
            def f():
                ident[t] = _thread.get_ident()
                for op in scn['ops'][t]:
                    results[t].append(w.call(op))
            return f

        def admin():
            for a in scn['admin']:
                stats.add('fault.logging reconfigured')
                if a[0] == 'attach':
                    h = Sink(a[2], stats)
                    setlevel(LEVELS[a[1]])
                    setup(handler=h, level=LEVELS[a[1]])
                    extra.append(h)
                elif a[0] == 'detach':
                    if extra and lg.handlers and lg.handlers[-1] is extra[-1]:
                        lg.removeHandler(extra[-1])
                        gone.append(extra.pop())
                elif a[0] == 'level':
                    setlevel(LEVELS[a[1]])
                    lg.setLevel(LEVELS[a[1]])
                elif a[0] == 'again':
                    setlevel(LEVELS[a[2]])
                    setup(handler=sinks[a[1]], level=LEVELS[a[2]])

        def setlevel(x):
            lv['now'] = x
            lv['max'] = max(lv['max'], x)
            changed.add(x)
        gone = []
        bodies = [codec(t) for t in range(len(scn['ops']))]
        if scn['admin']:
            bodies.append(admin)
        s = sched.Sched(sched.scale(scn['plan'], total), self.prefixes(), opcodes=scn['opcodes'])
        try:
            s.run(bodies)
        finally:
            scn['plan'] = sched.plan_of(s.segments)
        stats.add('sim.steps', s.steps)
        stats.add('fault.preemption', len(s.switch_at))
        stats.seen('distinct', [scn['handlers'], scn['admin'], [[o[0] for o in x] for x in scn['ops']], s.switch_at])
        for t, mine in enumerate(scn['ops']):
            for k, op in enumerate(mine):
                stats.add('calls')
                if results[t][k] != loud[t][k][0]:
                    raise Violation('logging changes the result', '%s gave %s under handlers %s, without %s'
                                    % (str(op)[:200], str(results[t][k])[:300], scn['handlers'], str(loud[t][k][0])[:300]))
        # what the sinks saw
        for h in sinks + extra + gone:
            for t in range(len(scn['ops'])):
                seen = [list(x[1:]) for x in h.seen if x[0] == ident[t]]
                full = [rec for row in loud[t] for rec in row[1] if rec[0] >= h.level]
                stats.add('records seen', len(seen))
                if h in sinks and not changed:
                    want = [rec for rec in full if rec[0] >= level]
                    if seen != want:
                        raise Violation('records differ', 'thread %d under level %d: %s' % (t, level, first_diff(seen, want)))
                else:
                    if not is_subsequence(seen, full):
                        raise Violation('records differ', 'thread %d: %d records are not an ordered part of the %d a lone call makes'
                                        % (t, len(seen), len(full)))
                    if h in sinks and not is_subsequence([r for r in full if r[0] >= lv['max']], seen):
                        raise Violation('records lost', 'records of level %d and above are missing' % lv['max'])
        for h in sinks:
            if h.stream.fails or len(scn['ops']) + len(scn['admin']) != 1:
                continue
            lines = h.stream.getvalue()
            if h.fmt:
                ok = lines == ''.join(x + '\n' for x in h.text)
            else:
                ok = all(x in lines for x in h.text) and (bool(lines) or not h.text)
            if not ok:
                raise Violation('sink text differs', 'handler with format %s wrote %s' % (h.fmt and h.fmt._fmt, lines[:300]))
        # quiet period: one more call under the final configuration, exactly
        for h in sinks + extra:
            del h.seen[:]
        done = False
        for t, mine in enumerate(scn['ops']):
            if mine and not done:
                done = True
                got = w.call(mine[0])
                if got != loud[t][0][0]:
                    raise Violation('logging changes the result', 'after reconfiguration: %s' % str(got)[:300])
                for h in sinks + extra:
                    seen = [list(x[1:]) for x in h.seen]
                    want = [rec for rec in loud[t][0][1] if rec[0] >= h.level and rec[0] >= lv['now']]
                    if seen != want:
                        raise Violation('records differ', 'after reconfiguration, level %d: %s' % (lv['now'], first_diff(seen, want)))
        if spy.seen:
            raise Violation('leak to the root logger', '%d records, first: %s' % (len(spy.seen), spy.seen[0][1:]))
        if not stats.samples:
            stats.samples.append({'handlers': scn['handlers'], 'admin': scn['admin'], 'ops': str(scn['ops'])[:300],
                                  'preempted_at': s.switch_at[:6]})

    def shrink(self, scn):
        for cand in drop_each(scn['admin']):
            yield dict(scn, admin=cand)
        for t in range(len(scn['ops'])):
            for cand in drop_each(scn['ops'][t]):
                yield dict(scn, ops=scn['ops'][:t] + [cand] + scn['ops'][t + 1:])
        for cand in drop_each(scn['handlers']):
            if not any(a[0] == 'again' for a in scn['admin']):
                yield dict(scn, handlers=cand)
        for p in sched.shrink_plan(scn['plan']):
            yield dict(scn, plan=p)


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'record %d is %s instead of %s' % (i, str(x)[:300], str(y)[:300])
    return '%d records instead of %d, first difference %s' % (len(a), len(b), str((a + b)[min(len(a), len(b))])[:300])
