"""C11: a message encodes what it currently contains, whatever was done to it before."""
import json
import schema
import world
from core import Check, Violation, drop_each


# ---------------------------------------------------------------- model of messages (no library code)
class MSeq(object):
    def __init__(self, t):
        self.t, self.d, self.cleared = t, {}, False

    def snap(self):
        return {'s': {k: snap(v) for k, v in self.d.items()}, 'x': self.cleared}


class MList(object):
    def __init__(self, t):
        self.t, self.items, self.touched = t, [], False

    def snap(self):
        return {'l': [snap(v) for v in self.items], 'x': self.touched}


class MChoice(object):
    def __init__(self, t):
        self.t, self.name, self.val = t, None, None

    def snap(self):
        return {'c': self.name, 'v': None if self.name is None else snap(self.val)}


def snap(m):
    return m.snap() if isinstance(m, (MSeq, MList, MChoice)) else {'p': m}


def new_model(t):
    return {'seq': MSeq, 'seqof': MList, 'choice': MChoice}[t[0]](t)


def model(t, v):
    """Model of a message built from plain value v."""
    if t[0] == 'seq':
        m = MSeq(t)
        for name, ct, mode, d in schema.seq_comps(t):
            if name in v:
                m.d[name] = model(ct, v[name])
        return m
    if t[0] == 'seqof':
        m = MList(t)
        m.touched = True
        m.items = [model(t[1], x) for x in v]
        return m
    if t[0] == 'choice':
        m = MChoice(t)
        m.name, m.val = v[0], model(dict(schema.choice_alts(t))[v[0]], v[1])
        return m
    return v


def comp_type(t, key):
    if t[0] == 'seq':
        return next(c[1] for c in schema.seq_comps(t) if c[0] == key)
    if t[0] == 'choice':
        return dict(schema.choice_alts(t))[key]
    return t[1]


def walk(m, path):
    """Model node at path; absent constructed components come into being when navigated (as in the library)."""
    for key in path:
        t = comp_type(m.t, key)
        if isinstance(m, MSeq):
            if key not in m.d:
                m.d[key] = new_model(t)
            m = m.d[key]
        elif isinstance(m, MChoice):
            m = m.val
        else:
            m = m.items[key]
    return m


def reach(m, out=None):
    """ids of all model nodes in m."""
    out = set() if out is None else out
    if isinstance(m, (MSeq, MList, MChoice)):
        out.add(id(m))
        for x in (m.d.values() if isinstance(m, MSeq) else m.items if isinstance(m, MList) else [m.val]):
            reach(x, out)
    return out


def paths(m, t, nav=True, pre=()):
    """Paths of constructed nodes reachable from m (with navigation through absent components of SEQUENCEs)."""
    yield list(pre), m, t
    if isinstance(m, MSeq):
        for name, ct, mode, d in schema.seq_comps(t):
            if ct[0] in ('seq', 'seqof', 'choice'):
                if name in m.d:
                    yield from paths(m.d[name], ct, nav, pre + (name,))
                elif nav:
                    yield from paths(new_model(ct), ct, False, pre + (name,))
    elif isinstance(m, MList):
        if t[1][0] in ('seq', 'seqof', 'choice'):
            for i, x in enumerate(m.items):
                yield from paths(x, t[1], nav, pre + (i,))
    elif isinstance(m, MChoice) and m.name is not None:
        ct = comp_type(t, m.name)
        if ct[0] in ('seq', 'seqof', 'choice'):
            yield from paths(m.val, ct, nav, pre + (m.name,))


class Model(object):
    """Executes the operations of a history on models only."""

    def __init__(self, types):
        self.types = types
        self.live = {}       # id -> (k, model)

    def apply(self, op):
        """Returns (mutated model node or None)."""
        o = op[0]
        if o == 'new':
            self.live[op[1]] = (op[2], new_model(self.types[op[2]][1]))
        elif o in ('build', 'dec'):
            self.live[op[1]] = (op[2], model(self.types[op[2]][1], op[3]))
        elif o == 'drop':
            self.live.pop(op[1], None)
        elif o in ('set', 'bad', 'append', 'index', 'clear', 'share', 'enc', 'dict', 'baddec'):
            if op[1] not in self.live:
                return None
            if o in ('enc', 'dict', 'baddec'):
                return None
            k, m = self.live[op[1]]
            node = walk(m, op[2])
            if o == 'set':
                v = model(comp_type(node.t, op[3]), op[4])
                if isinstance(node, MSeq):
                    node.d[op[3]] = v
                else:
                    node.name, node.val = op[3], v
            elif o == 'append':
                node.items.append(model(node.t[1], op[3]))
                node.touched = True
            elif o == 'index':
                node.items[op[3]] = model(node.t[1], op[4])
            elif o == 'clear':
                if isinstance(node, MSeq):
                    node.d, node.cleared = {}, True
                elif isinstance(node, MList):
                    node.items, node.touched = [], True
            elif o == 'share':
                k2, m2 = self.live[op[4]]
                src = walk(m2, op[5])
                if isinstance(node, MSeq):
                    node.d[op[3]] = src
                else:
                    node.name, node.val = op[3], src
            if isinstance(node, MSeq) and node.d:
                pass
            return node
        return None


def legal(mod, op):
    """Is the operation still meaningful (histories lose operations while they are minimised)?"""
    try:
        if op[0] in ('new', 'build', 'dec', 'drop'):
            return True
        if op[1] not in mod.live:
            return False
        if op[0] in ('enc', 'dict', 'baddec'):
            return True
        k, m = mod.live[op[1]]
        path = op[2]
        for key in path:
            if isinstance(m, MChoice) and m.name != key:
                return False
            if isinstance(m, MSeq) and key not in m.d:
                t = comp_type(m.t, key)
                if t[0] not in ('seq', 'seqof', 'choice'):
                    return False
                m = new_model(t)
                continue
            m = m.d[key] if isinstance(m, MSeq) else m.items[key] if isinstance(m, MList) else m.val
        if op[0] in ('append', 'index') and not isinstance(m, MList):
            return False
        if op[0] == 'index' and op[3] >= len(m.items):
            return False
        if op[0] == 'share':
            if op[4] not in mod.live:
                return False
            k2, m2 = mod.live[op[4]]
            src = m2
            for key in op[5]:
                if isinstance(src, MSeq) and key not in src.d:
                    return False
                if isinstance(src, MChoice) and src.name != key:
                    return False
                src = src.d[key] if isinstance(src, MSeq) else src.items[key] if isinstance(src, MList) else src.val
            if not isinstance(src, (MSeq, MList, MChoice)):
                return False
            if id(m) in reach(src):     # would contain itself
                return False
        return True
    except (IndexError, KeyError, AttributeError, StopIteration):
        return False


# ---------------------------------------------------------------- real messages
def build_snap(L, t, cls, s):
    """Newly built message with the content described by s."""
    if 'p' in s:
        return schema.to_asn1(L, t, cls, s['p'])
    o = cls()
    if t[0] == 'seq':
        if s['x']:
            o.clear()
        for name, ct, mode, d in schema.seq_comps(t):
            if name in s['s']:
                c = s['s'][name]
                if ('s' in c and not c['s'] and not c['x']) or ('l' in c and not c['l'] and not c['x']) or ('c' in c and c['c'] is None):
                    o[name]         # there, but nothing in it
                else:
                    o[name] = build_snap(L, ct, schema.sub(cls, name), c)
        return o
    if t[0] == 'seqof':
        if s['x']:
            o.clear()
        for c in s['l']:
            o.append(build_snap(L, t[1], cls.componentType.__class__, c))
        return o
    if s['c'] is not None:
        o[s['c']] = build_snap(L, comp_type(t, s['c']), schema.sub(cls, s['c']), s['v'])
    return o


def native(t, v):
    """Plain Python value assigned directly, or None if there is no such form."""
    if t[0] in ('int', 'bool', 'enum'):
        return v
    if t[0] == 'octs':
        return bytes.fromhex(v)
    return None


class C11(Check):
    id = 'C11'
    size = {'quick': (9000, 20), 'thorough': (80000, 20)}
    rule = ('one run = a history of 8-40 operations (build, assign, replace, append, select, clear, share, refused assignments, '
            'encode, decode, to_dict, failed encodes and decodes) on up to 5 live messages; every encode and to_dict is compared with '
            'that of a newly built message of the same content in a fresh process; distinct = distinct histories with at least one '
            'encode or to_dict after a change of an already encoded message or after a refused operation')
    components = {'real': ['asn1PERser codec and data classes', 'pyasn1'], 'stub': ['message content model', 'clock']}
    assumptions = ['pyasn1 assigns constructed components by reference and creates absent ones when they are navigated']

    def gen(self, r, i):
        types = []
        while len(types) < r.choice([1, 1, 2]):
            t, v, data = schema.gen_case(r, r.choice([1, 2, 3]), 120, 0)
            if t[0] in ('seq', 'seqof', 'choice') and len(str(t)) < 2500:
                types.append(['Msg%d' % len(types), t])
        mod = Model(types)
        ops = []
        nid = 0

        def do(op):
            ops.append(op)
            if op[0] != 'bad':
                mod.apply(op)
            else:
                walk(mod.live[op[1]][1], op[2])
        for _ in range(r.choice([8, 14, 25, 40])):
            x = r.random()
            if not mod.live or (x < 0.12 and len(mod.live) < 5):
                k = r.randrange(len(types))
                vd = world.small_value(r, types[k][1])
                if vd is None:
                    continue
                y = r.random()
                if y < 0.3:
                    do(['new', nid, k])
                elif y < 0.65:
                    do(['build', nid, k, vd[0]])
                else:
                    do(['dec', nid, k, vd[0], vd[1].hex()])
                nid += 1
                continue
            mid = r.choice(sorted(mod.live))
            k, m = mod.live[mid]
            t = types[k][1]
            if x < 0.40:
                do([r.choice(['enc', 'enc', 'dict']), mid])
                continue
            if x < 0.44:
                vd = world.small_value(r, t)
                if vd:
                    do(['baddec', mid, k, world.bad_octets(r, vd[1])])
                continue
            if x < 0.46:
                do(['drop', mid])
                continue
            cands = list(paths(m, t))
            path, node, nt = r.choice(cands)
            if x < 0.49:
                do(['clear', mid, path])
            elif isinstance(node, MList):
                v = schema.gen_value(r, nt[1], 1)
                if len(str(v)) > 600:
                    continue
                if node.items and r.random() < 0.4:
                    do(['index', mid, path, r.randrange(len(node.items)), v])
                elif len(node.items) < 6:
                    do(['append', mid, path, v, r.choice(['append', 'extend'])])
            else:
                names = [(c[0], c[1]) for c in schema.seq_comps(nt)] if nt[0] == 'seq' else schema.choice_alts(nt)
                name, ct = r.choice(names)
                y = r.random()
                if y < 0.18:
                    b = self.bad(r, ct)
                    if b is not None:
                        do(['bad', mid, path, name, b])
                        continue
                if y < 0.25:
                    do(['bad', mid, path, 'nonsense', 1])
                    continue
                if y < 0.4 and ct[0] in ('seq', 'seqof', 'choice'):
                    # share the same component of another message of this type, or one component twice
                    others = [j for j in sorted(mod.live) if mod.live[j][0] == k]
                    op = ['share', mid, path, name, r.choice(others), path + [name]]
                    if legal(mod, op):
                        do(op)
                    continue
                v = schema.gen_value(r, ct, 1)
                if len(str(v)) > 600:
                    continue
                do(['set', mid, path, name, v, 'native' if native(ct, v) is not None and r.random() < 0.4 else 'obj'])
        return {'types': types, 'ops': ops}

    def bad(self, r, t):
        """Native value that t refuses."""
        if t[0] == 'int' and not t[3]:
            if t[2] is not None:
                return t[2] + r.choice([1, 2, 1000])
            if t[1] is not None:
                return t[1] - r.choice([1, 2, 1000])
            return 'abc'
        if t[0] == 'enum':
            return 'nosuch'
        if t[0] == 'octs' and t[2] is not None and not t[3] and t[2] < 200:
            return {'hex': '00' * (t[2] + 1)}
        return None

    def contents(self, scn):
        """For every operation: snapshot content to compare with, after the operation."""
        mod = Model(scn['types'])
        out = []
        for op in scn['ops']:
            if not legal(mod, op):
                out.append(None)
                continue
            if op[0] == 'bad':
                walk(mod.live[op[1]][1], op[2])
            else:
                mod.apply(op)
            out.append([mod.live[op[1]][0], mod.live[op[1]][1].snap()] if op[0] in ('enc', 'dict') else True)
        finals = {str(i): [k, m.snap()] for i, (k, m) in mod.live.items()}
        return out, finals

    def alone(self, scn):
        L = self.L
        steps, finals = self.contents(scn)
        schema._n[0] = 0
        cls = [schema.build(L, t, name) for name, t in scn['types']]

        def fresh(k, s, what):
            def f():
                o = build_snap(L, scn['types'][k][1], cls[k], s)
                return L.encode(o).hex() if what == 'enc' else world.canon(o.to_dict(), L)
            return world.outcome(f)
        want = {}
        for op, st in reversed(list(zip(scn['ops'], steps))):
            if isinstance(st, list):
                key = json.dumps([op[0], st], sort_keys=True)
                if key not in want:
                    want[key] = fresh(st[0], st[1], op[0])
        for i, st in finals.items():
            for what in ('enc', 'dict'):
                key = json.dumps([what, st], sort_keys=True)
                if key not in want:
                    want[key] = fresh(st[0], st[1], what)
        return want

    def run(self, scn, stats, want):
        L = self.L
        schema._n[0] = 0
        cls = [schema.build(L, t, name) for name, t in scn['types']]
        defs = [world.definition(L, c) for c in cls]
        mod = Model(scn['types'])
        real = {}
        encoded, interesting, refused = set(), False, False

        def check(what, i):
            k, m = mod.live[i]
            o = real[i]
            before = {j: world.state(L, x) for j, x in real.items()}
            got = world.outcome(lambda: L.encode(o).hex() if what == 'enc' else world.canon(o.to_dict(), L))
            for j, x in real.items():
                if world.state(L, x) != before[j]:
                    raise Violation('message modified', '%s of message %d changed message %d: was %s is %s'
                                    % (what, i, j, str(before[j])[:300], str(world.state(L, x))[:300]))
            key = json.dumps([what, [k, m.snap()]], sort_keys=True)
            exp = want[key]
            stats.add('compared')
            stats.add('failing ' + what if exp[0] == 'exc' else 'successful ' + what)
            if got != exp:
                raise Violation('result depends on history', '%s of message %d gave %s, a new message with the same content %s: %s'
                                % (what, i, str(got)[:300], str(exp)[:300], str(m.snap())[:400]))
        for op in scn['ops']:
            if not legal(mod, op):
                continue
            o = op[0]
            if o in ('enc', 'dict'):
                interesting = interesting or refused or op[1] in encoded
                check(o, op[1])
                encoded.add(op[1])
                continue
            if o in ('new', 'build', 'dec'):
                k = op[2]
                if o == 'new':
                    real[op[1]] = cls[k]()
                elif o == 'build':
                    real[op[1]] = schema.to_asn1(L, scn['types'][k][1], cls[k], op[3])
                else:
                    real[op[1]] = L.decode(bytes.fromhex(op[4]), asn1Spec=cls[k]())
                mod.apply(op)
                if o == 'dec':
                    # decoded content in the form the model has it
                    v = schema.view(L, scn['types'][k][1], real[op[1]])
                    if v != op[3]:
                        raise Violation('decoded something else', '%s instead of %s' % (str(v)[:300], str(op[3])[:300]))
                continue
            if o == 'drop':
                real.pop(op[1], None)
                mod.apply(op)
                continue
            if o == 'baddec':
                before = {j: world.state(L, x) for j, x in real.items()}
                world.outcome(lambda: L.decode(bytes.fromhex(op[3]), asn1Spec=real[op[1]]))
                stats.add('fault.decode of damaged octets with a live message as schema')
                refused = True
                self.unchanged(real, before, 'decode')
                continue
            k, m = mod.live[op[1]]
            x = real[op[1]]
            for key in op[2]:
                x = x[key] if not isinstance(x, L.univ.SequenceOf) else x.getComponentByPosition(key)
            node = walk(m, op[2])
            before = {j: world.state(L, y) for j, y in real.items()}
            if o == 'bad':
                b = op[4]
                b = bytes.fromhex(b['hex']) if isinstance(b, dict) else b
                try:
                    x[op[3]] = b
                except Exception:
                    stats.add('fault.refused assignment')
                    refused = True
                    self.unchanged(real, before, 'refused assignment of %r to %s' % (op[4], op[3]))
                    continue
                stats.add('bad value accepted')
                return
            if o == 'set':
                ct = comp_type(node.t, op[3])
                if op[5] == 'native':
                    x[op[3]] = native(ct, op[4])
                else:
                    x[op[3]] = schema.to_asn1(L, ct, schema.sub(x.__class__, op[3]), op[4])
            elif o == 'append':
                e = schema.to_asn1(L, node.t[1], x.componentType.__class__, op[3])
                if op[4] == 'append':
                    x.append(e)
                else:
                    x.extend([e])
            elif o == 'index':
                x[op[3]] = schema.to_asn1(L, node.t[1], x.componentType.__class__, op[4])
            elif o == 'clear':
                if node.t[0] == 'choice':
                    continue
                x.clear()
            elif o == 'share':
                src = real[op[4]]
                for key in op[5]:
                    src = src[key] if not isinstance(src, L.univ.SequenceOf) else src.getComponentByPosition(key)
                x[op[3]] = src
                stats.add('fault.component shared')
            touched = id(node)
            holders = [j for j, (kk, mm) in mod.live.items() if touched in reach(mm)]
            mod.apply(op)
            stats.add('changes')
            self.unchanged({j: y for j, y in real.items() if j not in holders}, before, 'operation %s on message %d' % (o, op[1]))
        for i in sorted(mod.live):
            check('enc', i)
            check('dict', i)
        for c, d in zip(cls, defs):
            if world.definition(L, c) != d:
                raise Violation('type modified', c.__name__)
        if interesting:
            stats.seen('distinct', scn)
        if not stats.samples:
            stats.samples.append({'types': str(scn['types'])[:300], 'ops': str(scn['ops'])[:600]})

    def unchanged(self, real, before, what):
        for j, y in real.items():
            now = world.state(self.L, y)
            if now != before[j]:
                raise Violation('another message changed', '%s changed message %s: was %s is %s' % (what, j, str(before[j])[:300], str(now)[:300]))

    def shrink(self, scn):
        for cand in drop_each(scn['ops'], 1):
            yield dict(scn, ops=cand)
