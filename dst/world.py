"""Objects and calls of a simulated application that uses the codec, built from JSON descriptions."""
import schema
import refper
from core import Violation


def canon(x, L):
    """JSON-able form of anything to_dict may return."""
    if isinstance(x, dict):
        return {'d': [[str(k), canon(v, L)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return {'l': [canon(v, L) for v in x]}
    if x is L.univ.noValue:
        return 'noValue'
    if x is None or isinstance(x, bool):
        return x
    if isinstance(x, int):
        return {'i': str(x)} if abs(x) > 2 ** 53 and abs(x) < 2 ** 12000 else {'x': hex(x)} if abs(x) >= 2 ** 12000 else x
    if isinstance(x, (bytes, bytearray)):
        return {'b': bytes(x).hex()}
    return str(x)


def state(L, o):
    """Structure and values of a message or schema object, read without touching it."""
    nv = L.univ.noValue
    if o is nv:
        return None
    n = o.__class__.__name__
    if isinstance(o, L.univ.Choice):
        comps = o.components
        return ['C', n, o._currentIdx, None if comps is nv else [state(L, c) for c in comps]]
    if isinstance(o, (L.univ.Sequence, L.univ.Set)):
        comps = o.components
        return ['S', n, None if comps is nv else [state(L, c) for c in comps]]
    if isinstance(o, (L.univ.SequenceOf, L.univ.SetOf)):
        if not o.isValue and o._componentValues is nv:
            return ['L', n, None]
        return ['L', n, [state(L, c) for c in o.components]]
    if not o.isValue:
        return ['v', n]
    if isinstance(o, L.univ.BitString):
        return ['b', n, len(o), hex(int(o._value)) if len(o) else '']
    if isinstance(o, L.univ.OctetString):
        return ['o', n, bytes(o).hex()]
    return ['i', n, hex(int(o))]


def definition(L, cls, depth=0):
    """What a class says about its type."""
    d = {'name': cls.__name__}
    spec = getattr(cls, 'subtypeSpec', None)
    for a in ('lowerEndpoint', 'upperEndpoint', 'extensionMarker'):
        d[a] = str(getattr(spec, a, None))
    for a in ('namedValues', 'enumerationRoot', 'extensionAddition'):
        nvs = getattr(cls, a, None)
        if nvs is not None and hasattr(nvs, 'items') and not hasattr(nvs, 'namedTypes'):
            d[a] = [[str(k), str(v)] for k, v in nvs.items()]
    ct = getattr(cls, 'componentType', None)
    if ct is not None and hasattr(ct, 'namedTypes'):
        def nts(x):
            return [[nt.name, nt.isOptional, nt.isDefaulted, state(L, nt.asn1Object), definition(L, nt.asn1Object.__class__)]
                    for nt in x.namedTypes]

        def names(x):
            if x is None:
                return None
            if isinstance(x, (list, tuple)):
                return [names(y) for y in x]
            return [nt.name for nt in x.namedTypes]
        d['comps'] = nts(ct)
        for a in ('rootComponent', 'extensionAddition', 'extensionAdditionGroups'):
            d[a] = names(getattr(cls, a, None))
    elif ct is not None:
        d['elem'] = [state(L, ct), definition(L, ct.__class__)]
    return d


def outcome(fn):
    """['ok', value] or ['exc', type name]; only ordinary exceptions are outcomes."""
    try:
        return ['ok', fn()]
    except Violation:
        raise
    except Exception as e:
        return ['exc', type(e).__name__]


class World(object):
    """types: [[name, type]...]; msgs: [[type index, value, damage]...]; specs: [[type index, value or None]...]"""

    def __init__(self, L, types, msgs, specs):
        self.L, self.types = L, types
        schema._n[0] = 0
        self.cls = [schema.build(L, t, name) for name, t in types]
        self.msgs = [self.message(k, v, dmg) for k, v, dmg in msgs]
        self.msg_type = [m[0] for m in msgs]
        self.specs = [self.spec(k, v) for k, v in specs]

    def message(self, k, v, damage=None):
        t, cls = self.types[k][1], self.cls[k]
        if damage == 'empty':
            return cls()
        o = schema.to_asn1(self.L, t, cls, v)
        return o

    def spec(self, k, v):
        return self.cls[k]() if v is None else schema.to_asn1(self.L, self.types[k][1], self.cls[k], v)

    def call(self, op):
        """Performs one call, canonical result."""
        L = self.L
        if op[0] == 'enc':
            return outcome(lambda: L.encode(self.msgs[op[1]]).hex())
        if op[0] == 'dict':
            return outcome(lambda: canon(self.msgs[op[1]].to_dict(), L))
        if op[0] == 'dec':
            return outcome(lambda: state(L, L.decode(bytes.fromhex(op[2]), asn1Spec=self.specs[op[1]])))
        if op[0] == 'encspec':
            return outcome(lambda: L.encode(self.specs[op[1]]).hex())
        if op[0] == 'parse':
            import asn1PERser
            return outcome(lambda: asn1PERser.parse_asn1_schema(op[1]))
        raise AssertionError(op)

    def snapshot(self):
        L = self.L
        return {'msgs': [state(L, m) for m in self.msgs], 'specs': [state(L, s) for s in self.specs],
                'defs': [definition(L, c) for c in self.cls]}


def missing(r, t, v):
    """v without one mandatory component, at any level; None if there is nothing to remove."""
    if t[0] == 'seq':
        cands = [c for c in t[1] if c[2] == 'm' and c[1][0] not in ('seqof',) and not (c[1][0] == 'seq' and schema.emptyable(c[1]))]
        deeper = [c for c in schema.seq_comps(t) if c[0] in v and c[1][0] in ('seq', 'choice', 'seqof')]
        if deeper and r.random() < 0.4:
            c = r.choice(deeper)
            sub = missing(r, c[1], v[c[0]])
            if sub is not None:
                return dict(v, **{c[0]: sub})
        if cands:
            c = r.choice(cands)
            return {k: x for k, x in v.items() if k != c[0]}
    if t[0] == 'choice':
        at = dict(schema.choice_alts(t))[v[0]]
        sub = missing(r, at, v[1])
        return None if sub is None else [v[0], sub]
    if t[0] == 'seqof' and v:
        k = r.randrange(len(v))
        sub = missing(r, t[1], v[k])
        return None if sub is None else v[:k] + [sub] + v[k + 1:]
    return None


def gen_types(r, n, depth=2, simple=0.15, cap=120):
    """n types with at least one small value each; sometimes with colliding names."""
    out = []
    while len(out) < n:
        t, v, data = schema.gen_case(r, r.choice([1, 2, depth]), cap, simple)
        if len(str(t)) > 1800:
            continue
        out.append(t)
    collide = r.random() < 0.3
    return [['Msg' if collide else 'Msg%d' % i, t] for i, t in enumerate(out)]


def small_value(r, t, cap=120):
    vd = schema.gen_valued(r, t, cap, 30)
    return vd        # (value, octets) or None


def bad_octets(r, data):
    """Damaged copy of octets, as hex."""
    b = bytearray(data)
    k = r.random()
    if k < 0.5:
        return bytes(b[:r.randrange(len(b) + 0)] if b else b).hex()
    if k < 0.8 and b:
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b).hex()
    return bytes(r.getrandbits(8) for _ in range(r.randrange(0, 12))).hex()
