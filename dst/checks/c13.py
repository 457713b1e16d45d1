"""C13: nodes that compile the schema themselves understand each other and peers of other implementations."""
import os
import shutil
import tempfile
import schema
import netsim
import refper
import core
from checks.c12 import C12, Exchange, Node, RefNode
from core import Violation

COST = [0.5, 1, 2, 2, 4]
# defects listed in known_findings.txt: key -> text of the schema, name of the type, value, octets of aligned PER
KNOWN = {
    'inline-constrained-element': ('A ::= SEQUENCE OF INTEGER (0..3)', [1, 2], '0260'),
    'inline-sized-element': ('A ::= SEQUENCE OF OCTET STRING (SIZE(2))', [b'ab'], '016162'),
    'numbered-enumeration': ('A ::= ENUMERATED {a(5), b(2), c}', 'b', '40'),
    'extensible-unbounded-range': ('A ::= INTEGER (0..MAX,...)', 3, '000103'),
    'inline-enumerated-element': ('S ::= SEQUENCE OF ENUMERATED {a, ...}  A ::= SEQUENCE OF ENUMERATED {x, y}', ['y'], '0180'),
    'second-root-list': ('A ::= SEQUENCE {x BOOLEAN, ..., e BOOLEAN, ..., d BOOLEAN}', {'x': True, 'd': False}, '40'),
    'addition-after-group': ('A ::= SEQUENCE {x BOOLEAN, ..., [[ b BOOLEAN ]], d BOOLEAN}', {'x': True, 'd': True}, 'c0a00180'),
    'keyword-identifier': ('A ::= CHOICE {from INTEGER (0..3), to BOOLEAN}', {'from': 2}, '40'),
    'comment-inside-line': ('A ::= ENUMERATED {a, -- b comes next -- b, \n c, d}', 'c', '80'),
    'open-endpoint': ('A ::= INTEGER (0<..3)', 2, '40'),
    'intersection': ('A ::= INTEGER (1..10 ^ 5..20)', 6, '20'),
}


class CompiledNode(Node):
    """Compiles the schema text, stores the module, loads it and uses the classes in it."""

    def __init__(self, L, types, reuse, text, folder, store):
        import asn1PERser
        self.L, self.types, self.reuse, self.kept = L, types, reuse, []
        path = os.path.join(folder, 'Mod.py')
        if store.get('code') is None:
            asn1PERser.parse_asn1_schema(text, folder)
            with open(path) as f:
                store['code'] = f.read()            # what survives a crash is the file
        ns = {'__name__': 'Mod'}
        exec(compile(store['code'], path, 'exec'), ns)
        self.cls = [ns[name] for name, t in types]
        self.specs = [c() for c in self.cls]


class C13(C12):
    id = 'C13'
    size = {'quick': (220, 2), 'thorough': (2500, 2)}
    cpu_limit = 200.0
    rule = ('one run = a random schema; 1-2 nodes compile it (each from its own text: other order of assignments, names, value '
            'references, aliases, comments), a reference node knows it as data; 10-30 messages over a faulty network with crashes; '
            'distinct = distinct (type, value, damage) deliveries')
    components = {'real': ['asn1PERser compiler, codec and data classes', 'pyasn1', 'pyparsing', 'jinja2'],
                  'stub': ['network (discrete events)', 'node life cycle', 'peer of another vendor (independent reference codec)', 'clock']}
    assumptions = C12.assumptions + ['the schema uses the supported subset with named types; element types of SEQUENCE OF are named']

    def known(self):
        import asn1PERser
        lines = {}
        with open(os.path.join(core.VERIF, 'known_findings.txt')) as f:
            for line in f:
                w = line.split(' ', 3)
                if w[0] == 'known:' and w[1] == 'property=' + self.id:
                    lines[w[2]] = w[3].strip()
        out = []
        for key, (text, value, octets) in sorted(KNOWN.items()):
            if key not in lines:
                continue
            try:
                ns = {}
                exec(asn1PERser.parse_asn1_schema('M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END' % text), ns)
                if isinstance(value, list):
                    m = ns['A']()
                    m.extend(value)
                elif isinstance(value, dict):
                    m = ns['A']()
                    for k in value:
                        m[k] = value[k]
                else:
                    m = ns['A'](value)
                got = asn1PERser.encode(m).hex()
            except Exception as e:
                got = repr(e)
            if got != octets:
                out.append('%s: %s, schema text %r' % (key, lines[key], text))
        return out

    def gen(self, r, i):
        limit = r.choice(COST)
        st = {'inline': r.choice([0, 0, 0, 0.3]), 'inline_choice': r.choice([0, 0.5]), 'const': r.choice([0, 0, 0.3]),
              'alias': r.choice([0, 0, 0.2]), 'dconst': r.choice([0, 0.5]), 'comment': r.choice([0, 0, 0.2]),
              'inline_con': r.choice([0, 0, 0.5]), 'inline_seq': 0}
        if r.random() < 0.03:
            limit, st['inline_seq'] = 25, 0.7
        while True:
            t, v, data = schema.gen_case(r, r.choice([1, 1, 2, 2]), 300, 0.15)
            if t[0] != 'bool' and limit / 3 < schema.text_cost(t, st) < limit or limit <= 0.5 and schema.text_cost(t, st) < limit:
                break
        types = [['Top', t]]
        two = r.random() < 0.2 and limit < 4
        nodes = [['lib', r.random() < 0.5, schema.to_text(t, 'Mod', 'Top', r, st)]]
        if two:
            nodes.append(['lib', r.random() < 0.5, schema.to_text(t, 'Mod', 'Top', r, st)])
        nodes.append(['ref', False, None])
        cfg = netsim.swarm(r, self.damage)
        events, at = [], 0
        for _ in range(r.choice([10, 20, 30])):
            at += r.choice([1, 3, 10, 40])
            if r.random() < 0.05:
                events.append(['crash', at, r.randrange(len(nodes)), r.choice([5, 50, 500])])
                continue
            vd = schema.gen_valued(r, t, 300, 4)
            if not vd:
                continue
            src = r.randrange(len(nodes))
            dst = r.choice([x for x in range(len(nodes)) if x != src])
            events.append(['send', at, src, dst, 0, vd[0], netsim.gen_fates(r, cfg, vd[1])])
        return {'types': types, 'nodes': nodes, 'events': events}

    def run(self, scn, stats, expect):
        root = tempfile.mkdtemp()
        try:
            self.stores = [{} for _ in scn['nodes']]
            self.folders = [os.path.join(root, 'n%d' % i) for i in range(len(scn['nodes']))]
            for f in self.folders:
                os.mkdir(f)
            C12.run(self, scn, stats, expect)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def node(self, i):
        kind, reuse, text = self.scn['nodes'][i]
        if kind == 'ref':
            return RefNode(self.scn['types'])
        try:
            n = CompiledNode(self.L, self.scn['types'], reuse, text, self.folders[i], self.stores[i])
        except (MemoryError, RecursionError):
            raise
        except Exception as e:
            raise Violation('schema not compiled', '%r: %s' % (e, text))
        self.stats.add('nodes started')
        return n

    def sent(self, k, v, data):
        ref = refper.encode(self.scn['types'][k][1], v)
        if data != ref:
            raise Violation('wrong octets', 'value %s: sent %s, aligned PER is %s; schema: %s'
                            % (str(v)[:300], data.hex()[:200], ref.hex()[:200], self.scn['nodes'][0][2]))

    def send_failed(self, e, k, v):
        raise Violation('value refused', '%r for %s; schema: %s' % (e, str(v)[:300], self.scn['nodes'][0][2]))
