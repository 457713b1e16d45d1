"""C12 (intact frames) and C05 (damaged frames): nodes exchanging messages over a faulty network."""
import netsim
import refper
import schema
import world
from core import Check, Violation, digest


class Node(object):
    """Real codec.  Everything here is volatile: a restart builds it again."""

    def __init__(self, L, types, reuse):
        self.L, self.types, self.reuse = L, types, reuse
        schema._n[0] = 0
        self.cls = [schema.build(L, t, name) for name, t in types]
        self.specs = [c() for c in self.cls]
        self.kept = []

    def encode(self, k, v):
        m = schema.to_asn1(self.L, self.types[k][1], self.cls[k], v)
        data = bytes(self.L.encode(m))
        return data

    def decode(self, k, data):
        return self.L.decode(data, asn1Spec=self.specs[k] if self.reuse else self.cls[k]())

    def view(self, k, m):
        return schema.view(self.L, self.types[k][1], m)


class RefNode(object):
    """Peer from another vendor: the reference codec."""

    def __init__(self, types):
        self.types = types

    def encode(self, k, v):
        return refper.encode(self.types[k][1], v)

    def decode(self, k, data):
        return refper.decode(self.types[k][1], data)

    def view(self, k, m):
        t = self.types[k][1]
        return m


def plain(t, v):
    """What a message of type t with value v says as a dictionary."""
    k = t[0]
    if k == 'bits':
        return int(v or '0', 2)
    if k == 'seqof':
        return [plain(t[1], x) for x in v]
    if k == 'choice':
        return {v[0]: plain(dict(schema.choice_alts(t))[v[0]], v[1])}
    if k == 'seq':
        return {name: plain(ct, v[name]) for name, ct, mode, dflt in schema.seq_comps(t) if name in v}
    return v


def pruned(d):
    """Without entries that have no content (components without content may be listed or not)."""
    if isinstance(d, dict):
        d = {k: pruned(x) for k, x in d.items()}
        return {k: x for k, x in d.items() if x is not None and x != {} and x != []}
    if isinstance(d, list):
        return [x for x in map(pruned, d) if x is not None and x != {} and x != []]
    return d


class Exchange(Check):
    damage = [0]
    size = {'quick': (16000, 30), 'thorough': (150000, 30)}
    ref_nodes = True
    components = {'real': ['asn1PERser codec and data classes', 'pyasn1'],
                  'stub': ['network (discrete events)', 'node life cycle', 'peer of another vendor (independent reference codec)', 'clock']}

    def gen(self, r, i):
        big = r.random() < 0.03
        n_types = r.choice([1, 2, 2, 3, 4])
        types = []
        for j in range(n_types):
            t, v, data = schema.gen_case(r, r.choice([1, 2, 2, 3]), 20000 if big else 400, 0.25)
            types.append(['M%d' % j, t])
        n_nodes = r.choice([2, 2, 3])
        nodes = [[('ref' if self.ref_nodes and r.random() < 0.3 else 'lib'), r.random() < 0.5] for _ in range(n_nodes)]
        nodes[r.randrange(n_nodes)][0] = 'lib'
        cfg = netsim.swarm(r, self.damage)
        events, at = [], 0
        for _ in range(r.choice([4, 8, 12, 20])):
            at += r.choice([1, 3, 10, 40])
            if r.random() < 0.05:
                events.append(['crash', at, r.randrange(n_nodes), r.choice([5, 50, 500])])
                continue
            k = r.randrange(n_types)
            vd = schema.gen_valued(r, types[k][1], 20000 if big else 400, 4)
            if not vd:
                continue
            src = r.randrange(n_nodes)
            dst = r.choice([x for x in range(n_nodes) if x != src])
            if 'lib' not in (nodes[src][0], nodes[dst][0]):
                continue
            events.append(['send', at, src, dst, k, vd[0], netsim.gen_fates(r, cfg, vd[1])])
        return {'types': types, 'nodes': nodes, 'events': events}

    def run(self, scn, stats, expect):
        self.scn, self.stats = scn, stats
        nodes = [None] * len(scn['nodes'])

        def restart(i):
            nodes[i] = self.node(i)
        for i in range(len(nodes)):
            restart(i)

        def send(i, ev):
            k, v = ev[4], ev[5]
            try:
                data = nodes[i].encode(k, v)
            except Exception as e:
                self.send_failed(e, k, v)
                return None
            if isinstance(nodes[i], Node):
                self.sent(k, v, data)
            return data

        def deliver(i, ev, data, got, damage):
            k, v = ev[4], ev[5]
            if got == data:
                stats.add('frames delivered intact')
                self.intact(nodes[i], k, v, data)
            else:
                stats.add('frames delivered damaged')
                self.damaged(nodes[i], k, v, data, got, damage)
        sim = netsim.Sim(scn['events'], len(nodes), send, deliver, restart, stats)
        sim.run()
        for ev, damage in sim.delivered:
            stats.seen('distinct', [scn['types'][ev[4]][1], ev[5], damage])
        for name, t in scn['types']:
            stats.seen('types', t)
        if not stats.samples and sim.delivered:
            ev, damage = sim.delivered[0]
            stats.samples.append({'type': str(scn['types'][ev[4]][1])[:300], 'value': str(ev[5])[:300], 'damage': damage,
                                  'nodes': scn['nodes'], 'events': len(scn['events'])})

    def node(self, i):
        kind, reuse = self.scn['nodes'][i]
        return Node(self.L, self.scn['types'], reuse) if kind == 'lib' else RefNode(self.scn['types'])

    def send_failed(self, e, k, v):
        raise Violation('value refused', '%r: type %s value %s' % (e, str(self.scn['types'][k][1])[:400], str(v)[:300]))

    def shrink(self, scn):
        for ev in netsim.shrink_events(scn['events']):
            yield dict(scn, events=ev)


class C12(Exchange):
    id = 'C12'
    damage = [0, 0, 0.1, 0.3]

    def gen(self, r, i):
        scn = super(C12, self).gen(r, i)
        if r.random() < 0.004:      # long strings of a fixed size carry no length
            n = r.choice([1024, 16383, 16384, 32768, 65534, 65535])
            t = [r.choice(['octs', 'bits', 'bits']), n, n, r.random() < 0.3]
            a, b = r.sample(range(len(scn['nodes'])), 2)
            if 'lib' not in (scn['nodes'][a][0], scn['nodes'][b][0]):
                scn['nodes'][a][0] = 'lib'
            v = '%0*x' % (2 * n, r.getrandbits(8 * n)) if t[0] == 'octs' else bin(r.getrandbits(n))[2:].zfill(n)
            scn['types'].append(['M%d' % len(scn['types']), t])
            scn['events'].append(['send', 1, a, b, len(scn['types']) - 1, v, [[1, None]]])
        return scn

    rule = ('one run = 2-3 nodes (real codec or reference codec), 1-4 random types, 4-20 messages over a network that loses, '
            'duplicates, delays, reorders and damages frames while nodes crash and restart; distinct = distinct (type, value, damage) '
            'deliveries')
    assumptions = ['the reference codec implements aligned PER for the supported types (it was written from X.691, independently of the code)',
                   'values that need fragmentation (16384 and more units) are outside of what the library supports']

    def sent(self, k, v, data):
        ref = refper.encode(self.scn['types'][k][1], v)
        if data != ref:
            raise Violation('wrong octets', 'type %s value %s: sent %s, aligned PER is %s'
                            % (str(self.scn['types'][k][1])[:400], str(v)[:300], data.hex()[:200], ref.hex()[:200]))

    def intact(self, node, k, v, data):
        t = self.scn['types'][k][1]
        try:
            m = node.decode(k, data)
        except Exception as e:
            raise Violation('intact frame refused', '%s: type %s value %s octets %s' % (repr(e)[:200], str(t)[:400], str(v)[:300], data.hex()[:200]))
        got = node.view(k, m)
        if not isinstance(node, Node):
            got, v = (schema.normal(t, got), schema.normal(t, v)) if t[0] == 'seq' else (got, v)
        if got != v:
            raise Violation('different message', 'type %s: sent %s received %s octets %s' % (str(t)[:400], str(v)[:300], str(got)[:300], data.hex()[:200]))
        if isinstance(node, Node):
            d = m.to_dict()
            if pruned(d) != pruned(plain(t, v)):
                raise Violation('different dictionary', 'type %s value %s octets %s: %s' % (str(t)[:400], str(v)[:300], data.hex()[:200], str(d)[:300]))
            again = node.L.encode(m)
            if again != data:
                raise Violation('re-encoding differs', 'type %s value %s: received %s, encodes to %s' % (str(t)[:400], str(v)[:300], data.hex()[:200], again.hex()[:200]))

    def damaged(self, node, k, v, data, got, damage):
        if isinstance(node, Node):
            world.outcome(lambda: node.decode(k, got))      # discarded by the application; must not disturb later frames


LENIENT = ('MandatoryExtensionFieldNotPresent', 'MandatoryFieldNotPresentInExtensionGroup')


class C05(Exchange):
    id = 'C05'
    damage = [0.3, 0.7, 0.9]
    ref_nodes = False
    rule = ('one run = 2-3 nodes, 1-4 random types, 4-20 messages, most frames truncated, altered or followed by junk on the way; '
            'distinct = distinct (type, value, damage) deliveries')
    assumptions = ['a message whose sender omitted a mandatory extension addition is accepted by design (additions unknown to an older '
                   'peer are absent) and is then refused by the encoder']

    def sent(self, k, v, data):
        pass

    def send_failed(self, e, k, v):
        pass        # not what this property is about

    def intact(self, node, k, v, data):
        t = self.scn['types'][k][1]
        try:
            got = node.view(k, node.decode(k, data))
        except Exception as e:
            raise Violation('later frame refused', '%r type %s octets %s' % (e, str(t)[:400], data.hex()[:200]))
        if got != v:
            raise Violation('later frame misread', 'type %s: sent %s received %s' % (str(t)[:400], str(v)[:300], str(got)[:300]))

    def damaged(self, node, k, v, data, got, damage):
        L, t = self.L, self.scn['types'][k][1]
        what = 'type %s octets sent %s received %s' % (str(t)[:400], data.hex()[:160], got.hex()[:160])
        before = world.state(L, node.specs[k])
        try:
            m = node.decode(k, got)
        except Violation:
            raise
        except Exception as e:
            self.stats.add('refused')
            if got.startswith(data):
                raise Violation('junk after the end', '%r although only octets were added: %s' % (e, what))
            if world.state(L, node.specs[k]) != before:
                raise Violation('schema modified', what)
            return
        if data.startswith(got):
            raise Violation('truncated stream accepted', what)
        view = node.view(k, m)
        if got.startswith(data):
            if view != v:
                raise Violation('junk after the end', 'changed the message to %s: %s' % (str(view)[:300], what))
        self.stats.add('accepted')
        c = netsim.valid(t, view)
        if c:
            raise Violation('constraint violated', '%s: %s' % (c, what))
        d = m.to_dict()
        if not isinstance(d, (dict, list)) and t[0] in ('seq', 'choice', 'seqof') and d is not None:
            raise Violation('no dictionary', '%r %s' % (d, what))
        try:
            again = L.encode(m)
        except Exception as e:
            if type(e).__name__ in LENIENT:
                self.stats.add('accepted without a mandatory addition')
                return
            raise Violation('inconsistent message', 'accepted but cannot be encoded (%r): %s' % (e, what))
        try:
            view2 = node.view(k, L.decode(again, asn1Spec=node.cls[k]()))
        except Exception as e:
            raise Violation('inconsistent message', 'encodes to %s which is refused (%r): %s' % (again.hex()[:160], e, what))
        if view2 != view:
            raise Violation('inconsistent message', 'accepted as %s, after encode and decode %s: %s' % (str(view)[:300], str(view2)[:300], what))
        if world.state(L, node.specs[k]) != before:
            raise Violation('schema modified', what)
