"""C08: generated code is a function of the schema text alone.  C09: compilations in several threads."""
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import asntext
import inject
import schema
import sched
import seams
import world
from core import Check, Violation, drop_each, fork_map, rng, beat, VERIF



def compile_(text, folder=None):
    import asn1PERser
    return asn1PERser.parse_asn1_schema(text, folder) if folder else asn1PERser.parse_asn1_schema(text)


def result(text, folder=None):
    """['ok', code] or ['exc', type name]."""
    return world.outcome(lambda: compile_(text, folder))


def parser_files():
    import pyparsing
    return (seams.REPO + '/asn1PERser/',), (pyparsing.__file__,)


class TooLong(BaseException):
    pass


class Meter(inject.Abort):
    """Counts lines of asn1PERser and (apart) function calls of pyparsing."""

    def __init__(self, limit):
        inject.Abort.__init__(self, -1, '', parser_files()[0], only_calls=parser_files()[1])
        self.limit, self.lines = limit, 0

    def hit(self, frame):
        self.seen += 1
        if self.seen > self.limit:
            raise TooLong()

    def local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            self.hit(frame)
        return self.local


def measured(text, limit=10 ** 9):
    """[outcome, steps, lines] in this (fresh) process, None if the text is too expensive for the simulator."""
    m = Meter(limit)
    kind, val = m.run(lambda: result(text))
    if kind == 'exc':
        if isinstance(val, TooLong):
            return None
        raise val
    return [val, m.seen, m.lines]


class Pool(object):
    """Texts of a seed with what each gives on its own in a fresh process."""

    def __init__(self, seed, count, limit):
        texts, seen = [], set()
        i = 0
        while len(texts) < count:
            t = asntext.gen(rng('pool', seed, i))
            i += 1
            if t not in seen:
                seen.add(t)
                texts.append(t)
        res = fork_map(lambda t: measured(t, limit), texts)
        self.alone = {t: x for t, x in zip(texts, res) if x is not None}
        self.texts = sorted(self.alone)
        cost = {t: self.alone[t][1] for t in self.texts}
        self.good = [t for t in self.texts if self.alone[t][0][0] == 'ok']
        self.bad = [t for t in self.texts if self.alone[t][0][0] != 'ok']
        by_cost = sorted(self.good, key=lambda t: (cost[t], t))
        self.cheap = by_cost[:max(10, len(by_cost) // 2)]
        self.tiny = sorted(self.texts, key=lambda t: (cost[t], t))[:40]
        self.rich = []

    def add_rich(self, seed, count):
        """Larger modules (seconds each): sequences with extensions, groups, defaults, nested constructed types."""
        r = rng('rich', seed)
        texts = [asntext.rich(r, k) for k in range(count)]
        for t, x in zip(texts, fork_map(lambda t: [result(t), 0, 700], texts, cpu_limit=12.0)):
            if x is not None and t not in self.alone:
                self.alone[t] = x
                self.rich.append(t)


class Compiler(Check):
    pool = None
    pool_size = {'quick': 160, 'thorough': 900}
    rich_size = {'quick': 0, 'thorough': 0}
    too_long = 450000       # parser steps
    cpu_limit = 120.0

    def setup(self, tier, seed):
        import core
        t0 = core._now()
        self.pool = Pool(seed, self.pool_size[tier], self.too_long)
        if self.rich_size[tier]:
            self.pool.add_rich(seed, self.rich_size[tier])
        print('%s: %d texts (%d refused ones) evaluated on their own in %.1f s' % (self.id, len(self.pool.texts), len(self.pool.bad), core._now() - t0))

    def expected(self, texts):
        """Alone results of the given texts (from the pool, or computed now in fresh processes)."""
        todo = [t for t in texts if not self.pool or t not in self.pool.alone]
        out = {t: self.pool.alone[t] for t in texts if t not in todo}
        for t in todo:
            from checks.c03 import fork_eval
            out[t] = fork_eval(lambda: measured(t))
        return out


class C08(Compiler):
    id = 'C08'
    size = {'quick': (400, 4), 'thorough': (5000, 4)}
    rich_size = {'quick': 14, 'thorough': 60}
    rule = ('one run = a history of 3-8 compilations in one process of small modules with colliding type, value and module names: '
            'successful, refused, interrupted at a seeded step, written to a folder, under other log levels, from other working '
            'directories; or the same texts in new interpreters with other hash seeds; every result is compared with that of a fresh '
            'process; distinct = distinct ordered pairs of texts compiled one after the other')
    components = {'real': ['asn1PERser compiler', 'pyparsing', 'jinja2'], 'stub': ['interrupts', 'clock', 'scratch output folder']}
    assumptions = ['modules are small (the parser backtracks exponentially); larger ones differ only in the number of definitions']

    def gen(self, r, i):
        p = self.pool
        if r.random() < 0.04:
            return {'env': [[str(r.choice([1, 2, 3, 77, 4242, 'random'])), r.choice(['C', 'C.UTF-8', 'POSIX'])] for _ in range(2)],
                    'texts': [r.choice(p.good) for _ in range(4)]}
        ops = []
        last = None
        if i % 16 == 5 and p.rich:
            # few large modules, one of them interrupted at a line of asn1PERser or refused before
            for t in r.sample(p.rich, 2):
                if r.random() < 0.4:
                    ops.append(['abortline', r.choice(p.rich), r.random() if r.random() < 0.5 else 1 - r.random() * 0.3, r.choice(sorted(inject.KINDS))])
                elif r.random() < 0.5:
                    ops.append(['compile', r.choice(p.texts)])
                ops.append([r.choice(['compile', 'compile', 'folder']), t])
            return {'ops': ops}
        if i % 16 == 9:
            few = r.sample(p.tiny, min(len(p.tiny), r.choice([4, 20, 40])))
            return {'ops': [['compile', r.choice(few)] for _ in range(r.choice([30, 80]))]}
        for _ in range(r.choice([3, 4, 6, 8])):
            x = r.random()
            t = r.choice(p.good) if r.random() < 0.62 else r.choice(p.bad)
            if last and r.random() < 0.2:
                t = last
            last = t
            if x < 0.1:
                ops.append(['abort', t, r.random(), r.choice(sorted(inject.KINDS))])
            elif x < 0.24:
                ops.append(['abortline', t, r.random() if r.random() < 0.6 else 1 - r.random() * 0.3, r.choice(sorted(inject.KINDS))])
            elif x < 0.34:
                ops.append(['folder', t])
            elif x < 0.40:
                ops.append(['loud', t])
            elif x < 0.46:
                ops.append(['chdir', t])
            elif x < 0.49:
                ops.append(['depth', t, r.randrange(10, 120)])
            else:
                ops.append(['compile', t])
        return {'ops': ops}

    def alone(self, scn):
        if 'env' in scn:
            return self.expected(scn['texts'])
        return self.expected(sorted(set(op[1] for op in scn['ops'])))

    def run(self, scn, stats, expect):
        if 'env' in scn:
            return self.environments(scn, stats, expect)
        prev = None
        scratch = tempfile.mkdtemp(prefix='c08-')
        cwd = os.getcwd()
        try:
            for op in scn['ops']:
                text = op[1]
                want, steps, lines = expect[text]
                beat()
                if op[0] in ('abort', 'abortline'):
                    a = inject.Abort(1 + int(op[2] * (lines if op[0] == 'abortline' else steps)), op[3], parser_files()[0],
                                     only_calls=parser_files()[1] if op[0] == 'abort' else ())
                    kind, val = a.run(lambda: compile_(text))
                    if a.exc is None:
                        stats.add('interruptions after the end')
                    else:
                        stats.add('fault.%s while compiling' % op[3])
                        stats.seen('interruption places', a.where)
                        if kind == 'ok':
                            raise Violation('fault swallowed', '%s at %s did not reach the caller' % (op[3], a.where))
                    prev = text
                    continue
                if op[0] == 'depth':
                    kind, val = inject.with_recursion_limit(op[2], lambda: compile_(text))
                    if kind == 'ok' and ['ok', val] != want:
                        raise Violation('result depends on history', 'with little stack: %s' % text)
                    stats.add('fault.recursion limit')
                    continue
                if op[0] == 'folder':
                    got = result(text, scratch)
                    names = os.listdir(scratch)
                    if got[0] == 'ok':
                        if len(names) != 1:
                            raise Violation('wrong files', '%s after compiling %s' % (names, text))
                        with open(os.path.join(scratch, names[0]), newline='') as f:
                            got = ['ok', f.read().replace('\r\n', '\n')]
                    for n in names:
                        os.remove(os.path.join(scratch, n))
                elif op[0] == 'loud':
                    lg = logging.getLogger('asn1perser')
                    h = logging.NullHandler()
                    old = lg.level
                    lg.addHandler(h)
                    lg.setLevel(1)
                    try:
                        got = result(text)
                    finally:
                        lg.setLevel(old)
                        lg.removeHandler(h)
                elif op[0] == 'chdir':
                    os.chdir(scratch)
                    try:
                        got = result(text)
                    finally:
                        os.chdir(cwd)
                    stats.add('fault.other working directory')
                else:
                    got = result(text)
                stats.add('compilations')
                stats.add('refused' if want[0] == 'exc' else 'accepted')
                if prev is not None:
                    stats.seen('distinct', [prev, text])
                prev = text
                if got != want:
                    raise Violation('result depends on history', 'compiling\n%s\nafter %d other compilations gave\n%s\nalone\n%s'
                                    % (text, scn['ops'].index(op), str(got)[:500], str(want)[:500]))
        finally:
            os.chdir(cwd)
            shutil.rmtree(scratch, ignore_errors=True)
        if not stats.samples:
            stats.samples.append({'ops': str(scn['ops'])[:800]})

    def environments(self, scn, stats, expect):
        code = ('import sys, json, resource; resource.setrlimit(resource.RLIMIT_CPU, (60, 65)); sys.path.insert(0, %r); sys.path.insert(1, %r)\n'
                'import asn1PERser\n'
                'def one(t):\n'
                '    try: return ["ok", asn1PERser.parse_asn1_schema(t)]\n'
                '    except Exception as e: return ["exc", type(e).__name__]\n'
                'print(json.dumps([one(t) for t in json.load(sys.stdin)]))\n') % (seams.REPO, os.path.join(VERIF, 'dst'))
        scratch = tempfile.mkdtemp(prefix='c08-')
        try:
            for hashseed, locale in scn['env']:
                beat()
                env = dict(os.environ, PYTHONHASHSEED=hashseed, LC_ALL=locale)
                p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], input=json.dumps(scn['texts']), capture_output=True,
                                   text=True, cwd=scratch, env=env)
                if p.returncode:
                    raise Violation('refused in another environment', 'PYTHONHASHSEED=%s LC_ALL=%s: %s' % (hashseed, locale, p.stderr[-600:]))
                stats.add('fault.new interpreter with other hash seed')
                for t, got in zip(scn['texts'], json.loads(p.stdout)):
                    stats.add('compilations')
                    if got != expect[t][0]:
                        raise Violation('result depends on the environment', 'PYTHONHASHSEED=%s: %s gave %s, otherwise %s'
                                        % (hashseed, t, str(got)[:400], str(expect[t][0])[:400]))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def shrink(self, scn):
        if 'env' in scn:
            for cand in drop_each(scn['texts'], 1):
                yield dict(scn, texts=cand)
            return
        for cand in drop_each(scn['ops'], 1):
            yield dict(scn, ops=cand)
        for j, op in enumerate(scn['ops']):
            if op[0] in ('folder', 'loud', 'chdir'):
                yield dict(scn, ops=scn['ops'][:j] + [['compile', op[1]]] + scn['ops'][j + 1:])


class C09(Compiler):
    id = 'C09'
    size = {'quick': (600, 4), 'thorough': (9000, 4)}
    pool_size = {'quick': 200, 'thorough': 600}
    too_long = 130000
    rule = ('one run = 2-4 threads which compile 1-2 small modules each (and in half of the runs one that encodes and decodes) under one '
            'seeded schedule; switch points are the lines of asn1PERser, the function calls of pyparsing and lock operations; distinct = '
            'distinct (texts, preemption places)')
    components = {'real': ['asn1PERser compiler and codec', 'pyparsing', 'jinja2', 'CPython threads (parked and released one at a time)'],
                  'stub': ['thread scheduler', 'locks', 'clock']}
    assumptions = ['threads are preempted only at lines of asn1PERser, at function entries of pyparsing and at lock operations']

    def gen(self, r, i):
        p = self.pool
        few = [r.choice(p.cheap) for _ in range(3)]
        n = r.choice([2, 2, 3, 4])
        ops = []
        for t in range(n):
            mine = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                text = r.choice(few) if x < 0.35 else r.choice(p.cheap) if x < 0.8 else r.choice(p.bad) if x < 0.93 else r.choice(p.good)
                mine.append(['compile', text])
            ops.append(mine)
        types, values = [], []
        if r.random() < 0.5:
            types = world.gen_types(r, 1, 2, 0.2)
            vd = world.small_value(r, types[0][1])
            if vd:
                ops.append([['codec', vd[0], vd[1].hex()]] * 2)
        return {'ops': ops, 'types': types, 'plan': sched.gen_plan(r, len(ops))}

    def codec(self, cls, t, v, data):
        L = self.L
        return world.outcome(lambda: [L.encode(schema.to_asn1(L, t, cls, v)).hex(),
                                      world.state(L, L.decode(bytes.fromhex(data), asn1Spec=cls()))])

    def classes(self, scn):
        schema._n[0] = 0
        return [schema.build(self.L, t, n) for n, t in scn['types']]

    def alone(self, scn):
        texts = sorted(set(op[1] for x in scn['ops'] for op in x if op[0] == 'compile'))
        cls = self.classes(scn)
        res = {}
        for x in scn['ops']:
            for op in x:
                if op[0] == 'codec':
                    res[json.dumps(op)] = self.codec(cls[0], scn['types'][0][1], op[1], op[2])
        return [self.expected(texts), res]

    def run(self, scn, stats, expect):
        texts, codec = expect
        cls = self.classes(scn)
        total = sum(texts[op[1]][1] for x in scn['ops'] for op in x if op[0] == 'compile')
        results = [[] for _ in scn['ops']]

        def body(i):
            def f():
                for op in scn['ops'][i]:
                    if op[0] == 'compile':
                        results[i].append(result(op[1]))
                    else:
                        results[i].append(self.codec(cls[0], scn['types'][0][1], op[1], op[2]))
            return f
        a, b = parser_files()
        plan = scn['plan']
        if plan['mode'] == 'quantum':
            plan = dict(plan, mean=plan['mean'] * 40)
        s = sched.Sched(sched.scale(plan, total), a, b, cap=20000000)
        try:
            s.run([body(i) for i in range(len(scn['ops']))])
        finally:
            scn['plan'] = sched.plan_of(s.segments)
        stats.add('sim.steps', s.steps)
        stats.add('fault.preemption', len(s.switch_at))
        stats.add('compilations', sum(1 for x in scn['ops'] for op in x if op[0] == 'compile'))
        stats.seen('distinct', [scn['ops'], s.switch_at])
        for w in s.switch_at:
            stats.seen('preemption places', w[1])
            stats.add('waits for a lock', 1 if w[1] == 'lock' else 0)
        for i, mine in enumerate(scn['ops']):
            for op, got in zip(mine, results[i]):
                want = texts[op[1]][0] if op[0] == 'compile' else codec[json.dumps(op)]
                if got != want:
                    raise Violation('threads disturb each other', 'thread %d, %s gave %s, alone %s' % (i, str(op)[:400], str(got)[:400], str(want)[:400]))
        if not stats.samples:
            stats.samples.append({'ops': str(scn['ops'])[:500], 'preempted_at': s.switch_at[:8]})

    def shrink(self, scn):
        for t in range(len(scn['ops'])):
            for cand in drop_each(scn['ops'][t]):
                yield dict(scn, ops=scn['ops'][:t] + [cand] + scn['ops'][t + 1:])
        for p in sched.shrink_plan(scn['plan']):
            yield dict(scn, plan=p)
