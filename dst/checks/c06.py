"""C06: peers using different versions of an extensible schema, during rolling upgrades."""
import json
import netsim
import refper
import schema
import world
from checks.c12 import Node, RefNode
from core import Check, Violation


class Unknown(Exception):
    """The receiver has no name for what was sent."""


def levels(r, n, count):
    """Version in which each of count items appeared (1..n-1, not decreasing)."""
    return sorted(r.randrange(1, n) for _ in range(count))


def versions(r, t, n):
    """n successive versions of t (the last one has everything)."""
    k = t[0]
    if k == 'enum' and t[2]:
        lv = levels(r, n, t[3])
        return [['enum', t[1], True, sum(1 for x in lv if x <= j)] for j in range(n)]
    if k == 'seqof':
        return [['seqof', e, t[2], t[3], t[4]] for e in versions(r, t[1], n)]
    if k in ('choice', 'seq'):
        def item(c):
            if k == 'choice':
                return versions(r, c, n)
            if c[2] == 'd':
                return [[c[0], x, 'd', c[3]] for x in versions(r, c[1], n)]
            return [[c[0], x, c[2], c[3]] for x in versions(r, c[1], n)]
        root = [item(c) for c in t[1]]
        adds = [item(c) for c in t[3]]
        groups = [[item(c) for c in g] for g in t[4]]
        lv = levels(r, n, len(adds) + len(groups))
        out = []
        for j in range(n):
            out.append([k, [c[j] for c in root], t[2],
                        [a[j] for a, l in zip(adds, lv) if l <= j],
                        [[c[j] for c in g] for g, l in zip(groups, lv[len(adds):]) if l <= j]])
        return out
    return [t] * n


def project(v, s, t):
    """Value v of the sender's type s as the receiver's type t sees it."""
    k = s[0]
    if k == 'enum':
        if int(v[1:]) >= t[1] + t[3]:
            raise Unknown('enumeration item ' + v)
        return v
    if k == 'seqof':
        return [project(x, s[1], t[1]) for x in v]
    if k == 'choice':
        st, tt = dict(schema.choice_alts(s)), dict(schema.choice_alts(t))
        if v[0] not in tt:
            raise Unknown('alternative ' + v[0])
        return [v[0], project(v[1], st[v[0]], tt[v[0]])]
    if k == 'seq':
        sc = {c[0]: c for c in schema.seq_comps(s)}
        out = {}
        for name, ct, mode, d in schema.seq_comps(t):
            if name in v:
                out[name] = project(v[name], sc[name][1], ct)
        return schema.normal(t, out)
    return v


def fix_defaults(t):
    """DEFAULT values that exist in every version; at least one root component everywhere."""
    k = t[0]
    if k == 'seqof':
        fix_defaults(t[1])
    elif k == 'choice':
        for x in t[1] + t[3] + [y for g in t[4] for y in g]:
            fix_defaults(x)
    elif k == 'seq':
        if not t[1]:
            t[1].append(['c0', ['bool'], 'm', None])
        for c in schema.seq_comps(t):
            fix_defaults(c[1])
            if c[2] == 'd' and c[1][0] == 'enum':
                c[3] = 'e0'


def extensible(t):
    """Number of extension additions anywhere in t."""
    k = t[0]
    if k == 'enum':
        return t[3]
    if k == 'seqof':
        return extensible(t[1])
    if k == 'choice':
        return len(t[3]) + len(t[4]) + sum(extensible(x) for x in t[1] + t[3])
    if k == 'seq':
        return len(t[3]) + len(t[4]) + sum(extensible(c[1]) for c in schema.seq_comps(t))
    return 0


class C06(Check):
    id = 'C06'
    size = {'quick': (8000, 30), 'thorough': (150000, 30)}
    rule = ('one run = 1-2 extensible types in 2-4 successive versions, 2-3 nodes which exchange 5-25 messages while they are '
            'upgraded, downgraded, crash, restart and read back messages stored by other versions; distinct = distinct (sender '
            'version, receiver version, value) with different versions')
    components = {'real': ['asn1PERser codec and data classes', 'pyasn1'],
                  'stub': ['network (discrete events)', 'node life cycle and durable message store',
                           'peer of another vendor (independent reference codec)', 'clock']}
    assumptions = ['a schema evolves by appending extension additions, addition groups, enumeration items and alternatives']

    def gen(self, r, i):
        n = r.choice([2, 2, 3, 4])
        types = []
        while len(types) < r.choice([1, 1, 2]):
            t = schema.gen_type(r, r.choice([1, 2, 3, 3]), True)
            t = json.loads(json.dumps(t))
            fix_defaults(t)
            if not extensible(t) or len(str(t)) > 4000:
                continue
            # a follower shows whether everything after the extension is still read correctly
            x = r.random()
            if x < 0.25:
                t = ['seq', [['c0', t, 'm', None], ['c1', ['int', 0, 255, False], 'm', None], ['c2', ['bool'], 'm', None]], False, [], []]
            elif x < 0.35:
                t = ['seqof', t, 0, r.choice([3, 5, None]), False]
            types.append(versions(r, t, n))
        n_nodes = r.choice([2, 2, 3])
        nodes = [[('ref' if r.random() < 0.3 else 'lib'), r.random() < 0.5, r.randrange(n)] for _ in range(n_nodes)]
        nodes[0][0] = 'lib'
        cfg = netsim.swarm(r, [0])
        events, at, ver = [], 0, [x[2] for x in nodes]
        for _ in range(r.choice([5, 10, 16, 25])):
            at += r.choice([1, 3, 10, 40])
            x = r.random()
            who = r.randrange(n_nodes)
            if x < 0.04:
                events.append(['crash', at, who, r.choice([5, 50])])
                continue
            if x < 0.16:
                ver[who] = r.randrange(n) if r.random() < 0.4 else min(n - 1, ver[who] + 1)
                events.append(['upgrade', at, who, ver[who]])
                continue
            k = r.randrange(len(types))
            dst = r.choice([x for x in range(n_nodes) if x != who])
            if 'lib' not in (nodes[who][0], nodes[dst][0]):
                continue
            # the value is one of the version the sender has at this time (events are in time order)
            vd = schema.gen_valued(r, types[k][ver[who]], 600, 4)
            if not vd:
                continue
            events.append(['send', at, who, dst, k, [ver[who], vd[0]], netsim.gen_fates(r, cfg, vd[1])])
        return {'types': types, 'nodes': nodes, 'events': events}

    def run(self, scn, stats, expect):
        n_nodes = len(scn['nodes'])
        ver = [x[2] for x in scn['nodes']]
        nodes = [None] * n_nodes
        store = [[] for _ in range(n_nodes)]
        types = scn['types']

        def boot(i):
            tv = [['M%d' % k, vs[ver[i]]] for k, vs in enumerate(types)]
            nodes[i] = Node(self.L, tv, scn['nodes'][i][1]) if scn['nodes'][i][0] == 'lib' else RefNode(tv)

        def receive(i, k, v, sv, data, how):
            rv = ver[i]
            s, t = types[k][sv], types[k][rv]
            what = '%s: sender version %d %s, receiver version %d %s, sent %s, octets %s' % (
                how, sv, str(s)[:400], rv, str(t)[:400], str(v)[:300], data.hex()[:160])
            try:
                want = project(v, s, t)
            except Unknown as e:
                want = e
            try:
                m = nodes[i].decode(k, data)
                got = nodes[i].view(k, m)
            except Violation:
                raise
            except Exception as e:
                if isinstance(want, Unknown):
                    stats.add('unknown value refused')
                    return
                raise Violation('message of another version refused', '%r %s' % (e, what))
            if isinstance(want, Unknown):
                raise Violation('unknown value mistaken', '%s read as %s: %s' % (want, str(got)[:300], what))
            got, want = project(got, t, t), project(want, t, t)     # (normal forms)
            if got != want:
                raise Violation('message of another version misread', 'read %s instead of %s; %s' % (str(got)[:300], str(want)[:300], what))
            stats.add('read by same version' if sv == rv else 'read by newer version' if rv > sv else 'read by older version')
            if sv != rv:
                stats.seen('distinct', [s, t, v])
            if isinstance(nodes[i], Node):
                m.to_dict()

        def restart(i):
            boot(i)
            for k, v, sv, data in store[i][-6:]:
                receive(i, k, v, sv, data, 'stored message')

        def send(i, ev):
            sv, v = ev[5]
            if sv != ver[i]:        # (only after events were removed by minimisation)
                return None
            return nodes[i].encode(ev[4], v), sv

        def deliver(i, ev, sent, got, damage):
            data, sv = sent
            receive(i, ev[4], ev[5][1], sv, data, 'frame')
            store[i].append((ev[4], ev[5][1], sv, data))

        def upgrade(ev):
            _, at, i, v = ev
            stats.add('fault.upgrade' if v > ver[i] else 'fault.downgrade' if v < ver[i] else 'fault.redeploy')
            ver[i] = v
            if sim.up[i]:
                restart(i)
        for i in range(n_nodes):
            boot(i)
        sim = netsim.Sim(scn['events'], n_nodes, send, deliver, restart, stats)
        sim.other = upgrade
        sim.run()
        if not stats.samples and sim.delivered:
            stats.samples.append({'type': str(types[0])[:500], 'event': str(sim.delivered[0][0])[:300]})

    def shrink(self, scn):
        for ev in netsim.shrink_events(scn['events']):
            yield dict(scn, events=ev)
