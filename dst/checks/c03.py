"""C03: results do not depend on the history of the process."""
import gc
import os
import json
import schema
import seams
import world
from core import Check, Violation, drop_each


def fork_eval(fn):
    """fn() in a fork of this process, JSON-able result."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else ['died']


class Proc(object):
    """One process using the codec for a while; keeps what calls returned."""

    def __init__(self, L, types):
        self.L, self.types = L, types
        self.cls = {}
        self.long_spec = {}
        self.kept = {}          # call number -> dict(kind, obj, state, ...)

    def klass(self, k):
        if k not in self.cls:
            name, t = self.types[k]
            schema._n[0] = 0
            c = schema.build(self.L, t, name)
            self.cls[k] = (c, world.definition(self.L, c))
        return self.cls[k][0]

    def msg(self, k, v):
        return schema.to_asn1(self.L, self.types[k][1], self.klass(k), v)

    def spec(self, k, mode):
        """mode: 'new' | 'long' | ['val', value]"""
        if mode == 'new':
            return self.klass(k)()
        key = json.dumps([k, mode])
        if key not in self.long_spec:
            s = self.klass(k)() if mode == 'long' else self.msg(k, mode[1])
            self.long_spec[key] = (s, world.state(self.L, s))
        return self.long_spec[key][0]

    def call(self, op, n=None):
        """Canonical result of one call; remembers returned objects under number n."""
        L = self.L
        if op[0] in ('enc', 'dict'):
            m = self.msg(op[1], op[2])
            st = world.state(L, m)
            return self.on_msg(op[0], m, st, n)
        if op[0] == 'dec':
            _, k, data, buf, mode = op
            spec = self.spec(k, mode)
            st = world.state(L, spec)
            raw = bytes.fromhex(data)
            b = raw
            if buf == 'bytearray':
                b = bytearray(raw)
            elif buf == 'view':
                store = bytearray(raw)
                b = memoryview(store)
            keep = {}

            def f():
                keep['m'] = L.decode(b, asn1Spec=spec)
                return world.state(L, keep['m'])
            out = world.outcome(f)
            if buf == 'bytearray':
                if bytes(b) != raw:
                    raise Violation('input modified', 'decode changed the buffer it was given')
                for i in range(len(b)):
                    b[i] = 0xA5
            elif buf == 'view':
                if bytes(b) != raw:
                    raise Violation('input modified', 'decode changed the buffer it was given')
                for i in range(len(store)):
                    store[i] = 0x5A
            if world.state(L, spec) != st:
                raise Violation('schema modified', 'decode changed the schema object: before %s after %s'
                                % (str(st)[:300], str(world.state(L, spec))[:300]))
            if n is not None and out[0] == 'ok':
                if keep['m'] is spec:
                    raise Violation('schema returned', 'decode returned the schema object itself')
                self.kept[n] = {'kind': 'msg', 'k': k, 'obj': keep['m'], 'state': out[1]}
            return out
        raise AssertionError(op)

    def on_msg(self, what, m, st, n):
        L = self.L
        keep = {}

        def f():
            if what == 'enc':
                keep['o'] = L.encode(m)
                return bytes(keep['o']).hex()
            keep['o'] = m.to_dict()
            return world.canon(keep['o'], L)
        out = world.outcome(f)
        if world.state(L, m) != st:
            raise Violation('message modified', '%s changed the message: before %s after %s'
                            % (what, str(st)[:300], str(world.state(L, m))[:300]))
        if n is not None and out[0] == 'ok':
            self.kept[n] = {'kind': 'octets' if what == 'enc' else 'dict', 'obj': keep['o'], 'state': out[1]}
            self.kept[(n, 'm')] = {'kind': 'msg', 'obj': m, 'state': st}
        return out

    def verify(self):
        L = self.L
        for n, e in self.kept.items():
            if e['kind'] == 'msg':
                now = world.state(L, e['obj'])
            elif e['kind'] == 'octets':
                now = bytes(e['obj']).hex()
            else:
                now = world.canon(e['obj'], L)
            if now != e['state']:
                raise Violation('earlier result changed', '%s of call %s: was %s is %s' % (e['kind'], n, str(e['state'])[:300], str(now)[:300]))
        for key, (s, st) in self.long_spec.items():
            if world.state(L, s) != st:
                raise Violation('schema modified', '%s: was %s is %s' % (key[:100], str(st)[:300], str(world.state(L, s))[:300]))
        for k, (c, d) in self.cls.items():
            if world.definition(L, c) != d:
                raise Violation('type modified', str(self.types[k])[:300])


def spoil(x):
    """The caller does as it likes with a dictionary it got."""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
        x.clear()
        x['spoiled'] = 1
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        del x[:]
        x.append('spoiled')


class C03(Check):
    id = 'C03'
    size = {'quick': (3200, 10), 'thorough': (60000, 10)}
    rule = ('one run = a history of 5-60 (sometimes hundreds of) successful and failing calls over 1-8 (sometimes hundreds of) '
            'types in one process, with buffers overwritten, results spoiled, objects dropped, collections and clock jumps in '
            'between; every call is compared with the same call made first thing in a fresh process, or in a fresh process in the opposite order; distinct = distinct histories '
            'with at least one failing call or fault event and two successful calls')
    components = {'real': ['asn1PERser codec and data classes', 'pyasn1'], 'stub': ['clock', 'garbage collection instants']}
    assumptions = ['the state of a process forked right after import stands for a fresh process']

    def gen(self, r, i):
        style = r.random()
        many = style < 0.04
        long = 0.04 <= style < 0.08
        if many:
            n = r.choice([40, 130, 150, 270])
            types = [['T' if r.random() < 0.5 else 'T%d' % (j % 7), schema.gen_simple(r)] for j in range(n)]
        else:
            types = world.gen_types(r, r.choice([1, 2, 2, 3, 5, 8]), 2, 0.3 if not long else 0.7, 60)
            # twins: a type that differs from another one in a detail only, under the same name
            if style > 0.6:
                t, v, data = schema.gen_case(r, r.choice([1, 2]), 60, 0)
                types = [['Twin', t]]
                for _ in range(r.choice([1, 2, 3])):
                    types.append(['Twin', twin(r, r.choice(types)[1])])
            elif r.random() < 0.6:
                name, t = r.choice(types)
                t2 = twin(r, t)
                if t2 is not None:
                    types.append([name, t2])
        ops = []
        count = r.choice([5, 10, 20, 30]) if not long else r.choice([60, 150, 300])
        if many:
            count = len(types)
        calls = []
        for j in range(count):
            k = r.randrange(len(types)) if not many else j
            if calls and r.random() < 0.25:
                op = r.choice(calls)
            else:
                op = self.call(r, types, k)
            if op is None:
                continue
            ops.append(op)
            calls.append(op)
            x = r.random()
            if x < 0.10:
                ops.append(['spoil', r.randrange(len(ops))])
            elif x < 0.15:
                ops.append(['drop', r.randrange(len(ops))])
            elif x < 0.19:
                ops.append(['gc'])
            elif x < 0.21:
                ops.append(['clock', r.choice([-3600, 1, 60, 3600, 86400 * 400])])
            elif x < 0.24:
                ops.append(['again', r.randrange(len(ops)), r.choice(['enc', 'dict'])])
        if long:
            ops.append(['repeat', r.choice([100, 300, 1100]), r.choice(calls)] if calls else ['gc'])
        if many:
            for _ in range(20):
                ops.append(r.choice(calls))
        return {'types': types, 'ops': ops, 'pure': r.random() < 0.08}

    def call(self, r, types, k):
        vd = world.small_value(r, types[k][1], 60)
        if not vd:
            return None
        x = r.random()
        if x < 0.6:
            v = vd[0]
            if r.random() < 0.15:
                m = world.missing(r, types[k][1], v)
                v = v if m is None else m
            return [r.choice(['enc', 'enc', 'dict']), k, v]
        data = vd[1].hex()
        if r.random() < 0.25:
            data = world.bad_octets(r, vd[1])
        mode = r.choice(['new', 'new', 'long', 'long', 'val'])
        if mode == 'val':
            v2 = world.small_value(r, types[k][1], 60)
            mode = ['val', v2[0]] if v2 else 'new'
        return ['dec', k, data, r.choice(['bytes', 'bytes', 'bytearray', 'view']), mode]

    def alone(self, scn):
        """Each distinct call with fresh objects: in a process of its own (one run in ten), or in the opposite order, so
        that whatever preceded a call in the history does not precede it here."""
        out = {}
        for op in reversed(scn['ops']):
            if op[0] == 'repeat':
                op = op[2]
            if op[0] not in ('enc', 'dec', 'dict'):
                continue
            key = json.dumps(op)
            if key not in out:
                one = lambda: Proc(self.L, scn['types']).call(op)
                out[key] = fork_eval(one) if scn['pure'] else one()
        return out

    def run(self, scn, stats, expect):
        p = Proc(self.L, scn['types'])
        fails = oks = faults = 0

        def check(op, got):
            want = expect[json.dumps(op)]
            if got != want:
                raise Violation('result depends on history', 'call %s gave %s, without this history it gives %s'
                                % (str(op)[:300], str(got)[:300], str(want)[:300]))
        for n, op in enumerate(scn['ops']):
            if op[0] in ('enc', 'dec', 'dict'):
                got = p.call(op, n)
                check(op, got)
                oks, fails = oks + (got[0] == 'ok'), fails + (got[0] != 'ok')
            elif op[0] == 'repeat':
                for _ in range(op[1]):
                    check(op[2], p.call(op[2]))
                stats.add('calls', op[1])
            elif op[0] == 'spoil':
                e = p.kept.get(op[1])
                if e and e['kind'] == 'dict':
                    spoil(e['obj'])
                    e['state'] = world.canon(e['obj'], self.L)
                    stats.add('fault.result spoiled by caller')
                    faults += 1
            elif op[0] == 'drop':
                p.kept.pop(op[1], None)
                p.kept.pop((op[1], 'm'), None)
                stats.add('fault.object dropped')
                faults += 1
            elif op[0] == 'gc':
                gc.collect()
                stats.add('fault.garbage collection')
            elif op[0] == 'clock':
                seams.clock.jump(op[1])
                stats.add('fault.clock jump')
            elif op[0] == 'again':
                e = p.kept.get((op[1], 'm')) or p.kept.get(op[1])
                if e and e['kind'] == 'msg':
                    a = p.on_msg(op[2], e['obj'], e['state'], None)
                    b = p.on_msg(op[2], e['obj'], e['state'], None)
                    if a != b:
                        raise Violation('result depends on history', '%s of the same message gave %s, then %s' % (op[2], str(a)[:300], str(b)[:300]))
            if n % 8 == 7:
                p.verify()
        p.verify()
        stats.add('calls', oks + fails)
        stats.add('failing calls', fails)
        stats.add('fault.failing call', fails)
        stats.add('types', len(p.cls))
        if fails + faults and oks >= 2:
            stats.seen('distinct', scn)
        if not stats.samples:
            stats.samples.append({'ops': str(scn['ops'])[:600]})

    def shrink(self, scn):
        for cand in drop_each(scn['ops'], 1):
            yield dict(scn, ops=renumber(scn['ops'], cand))
        for j, op in enumerate(scn['ops']):
            if op[0] == 'repeat' and op[1] > 1:
                for m in (1, op[1] // 2, op[1] - 1):
                    yield dict(scn, ops=scn['ops'][:j] + [['repeat', m, op[2]]] + scn['ops'][j + 1:])


def renumber(old, new):
    """References to call numbers are positions: keep them only where the prefix is unchanged."""
    pos = {}
    j = 0
    for i, op in enumerate(old):
        if j < len(new) and new[j] is op:
            pos[i] = j
            j += 1
    out = []
    for op in new:
        if op[0] in ('spoil', 'drop', 'again'):
            op = [op[0], pos.get(op[1], 10 ** 6)] + op[2:]
        out.append(op)
    return out


def twin(r, t):
    """A type like t with one detail changed."""
    t = json.loads(json.dumps(t))
    k = t[0]
    if k == 'bool':
        return ['int', 0, r.choice([1, 3, 255]), False]
    if k == 'int':
        return ['int', 0, r.choice([1, 3, 7, 200, 300, 70000]), r.random() < 0.2]
    if k in ('bits', 'octs'):
        n = r.choice([1, 2, 8, 16, 20])
        return [k, r.choice([0, n]), n, r.random() < 0.3]
    if k == 'enum':
        if t[2] and r.random() < 0.5:
            return ['enum', t[1], True, t[3] + r.choice([1, 2])]
        return ['enum', t[1] + r.choice([1, 2, 8]), t[2] or r.random() < 0.2, t[3] if t[2] else 0]
    if k == 'seqof':
        return ['seqof', twin(r, t[1]), t[2], t[3], t[4]] if r.random() < 0.6 else ['seqof', t[1], 0, r.choice([5, 9, 300]), False]
    if k == 'choice':
        x = r.random()
        if x < 0.25:
            t[1].append(['bool'])
        elif x < 0.35 and len(t[1]) > 1:
            r.shuffle(t[1])
        elif x < 0.5:
            j = r.randrange(len(t[1]))
            t[1][j] = twin(r, t[1][j])
        elif x < 0.7 and t[3]:
            j = r.randrange(len(t[3]))
            t[3][j] = twin(r, t[3][j])
        elif x < 0.9 and t[4]:
            g = r.choice(t[4])
            j = r.randrange(len(g))
            g[j] = twin(r, g[j])
        elif t[2]:
            t[3].append(schema.gen_simple(r)) if r.random() < 0.5 else t[4].append([schema.gen_simple(r)])
        else:
            t[2] = True
        return t
    if k == 'seq':
        x = r.random()
        part = t[1] if x < 0.45 else t[3] if x < 0.6 else [c for g in t[4] for c in g] if x < 0.75 else []
        if part:
            c = r.choice(part)
            if c[2] == 'd':
                c[3] = schema.gen_value(r, c[1])
            elif c[2] == 'o' and r.random() < 0.2 and c[0][0] == 'c' and not schema.emptyable(c[1]):
                c[2] = 'm'
            else:
                c[1] = twin(r, c[1])
                if c[0][0] != 'c' and schema.emptyable(c[1]):
                    c[2] = 'o'
            return t
        if t[2] and r.random() < 0.5:
            t[3].append(['x%d' % len(t[3]), schema.gen_simple(r), 'o', None])
            return t
        if not t[2] and r.random() < 0.3:
            t[2] = True
            return t
        t[1].append(['c%d' % len(t[1]), ['bool'], 'o', None])
        return t
    return None
