"""Random ASN.1 types as data, the classes the library would be given for them,
plain-Python values, and the two translations value -> message and message -> value.

A *type* is a JSON-able list:
  ['bool']
  ['int', lb|None, ub|None, ext]
  ['enum', n_root, ext, n_add]
  ['bits', lb|None, ub|None, ext]
  ['octs', lb|None, ub|None, ext]
  ['seqof', elem, lb, ub|None, ext]
  ['choice', [root types], ext, [addition types], [[group types] ...]]
  ['seq', [comp], ext, [comp additions], [[comp] groups]]     comp = [name, type, 'm'|'o'|'d', default]
A *value* is: bool | int | 'e3' | '0101' | hex string | list | [name, value] | {name: value}.
Nothing here is derived from the code under test: the expected content of a message is the
plain value it was built from.
"""


class Lib(object):
    """Everything the harness takes from the code under test (public surface only)."""

    def __init__(self):
        import asn1PERser
        from pyasn1.type.namedtype import NamedType, OptionalNamedType, DefaultedNamedType
        from pyasn1.type.namedval import NamedValues
        from pyasn1.type import univ
        from asn1PERser.classes.data.builtin import (IntegerType, BooleanType, EnumeratedType, BitStringType,
                                                     OctetStringType, SequenceType, SequenceOfType, ChoiceType)
        from asn1PERser.classes.types.type import AdditiveNamedTypes
        from asn1PERser.classes.types.constraint import (MIN, MAX, ExtensionMarker, SequenceOfValueSize, ValueRange,
                                                         ValueSize)
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})
        self.encode = asn1PERser.encode
        self.decode = asn1PERser.decode


# ------------------------------------------------------------------ type generation
INT_BOUNDS = [0, 0, 1, -1, 2, 7, -128, 127, 128, 255, 256, 10000, 65535, 65536, -32768, 2 ** 31, 2 ** 32, 2 ** 40]
INT_WIDTHS = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300, 1000, 65534,
              65535, 65536, 65537, 70000, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 48]


def near_power(r, top=100, step=1):
    """A power of two, or a neighbour of one."""
    return 2 ** (step * r.randrange(top // step + 1)) + r.choice([-2, -1, -1, 0, 0, 1, 1, 2])


def gen_int(r, big=True):
    k = r.random()
    if k < 0.15:
        return ['int', None, None, False]
    lb = r.choice(INT_BOUNDS)
    m = r.random()
    if m < 0.3:
        lb = r.randint(-300, 70000)
    elif m < 0.45:
        lb = r.choice([1, -1]) * near_power(r, 72)
    if k < 0.28:
        return ['int', lb, None, False]
    if k < 0.31:
        return ['int', None, lb, False]
    m = r.random()
    w = r.choice(INT_WIDTHS) if m < 0.5 else max(1, near_power(r)) if m < 0.7 else max(1, near_power(r, 96, 8)) if m < 0.85 \
        else r.randint(1, 300) if m < 0.92 else r.randint(1, 70000)
    return ['int', lb, lb + w - 1, r.random() < 0.25]


def gen_size(r, kind):
    """(lb, ub, ext) of a SIZE constraint."""
    k = r.random()
    if k < 0.2:
        return None, None, False
    if k < 0.23:
        return 0, 0, kind != 'seqof' and r.random() < 0.7
    if k < 0.26:
        return r.choice([0, 1, 2]), r.choice([65534, 65535, 65536, 65537, 100000]), r.random() < 0.3
    if k < 0.5:
        n = r.choice([1, 2, 3, 4, 5, 8] if kind != 'bits' else [1, 4, 8, 15, 16, 17, 20, 24, 64])
        if r.random() < 0.05 and kind != 'seqof':
            n = r.choice([65, 127, 128, 129, 255, 256, 257, 300, 1000])
        return n, n, r.random() < 0.25
    if k < 0.58:
        return r.choice([0, 1, 3]), None, False
    lb = r.choice([0, 0, 1, 1, 2, 3, 5])
    if r.random() < 0.15:
        lb = r.choice([7, 16, 17, 64, 100, 127, 128, 129, 255, 256] if kind == 'bits' else [7, 8, 16, 17, 64, 127, 128])
    w = r.choice([2, 3, 4, 5, 8, 9, 16, 17, 128, 200, 255, 256, 257, 300, 1000])
    return lb, lb + w - 1, r.random() < 0.3


def gen_simple(r):
    k = r.random()
    if k < 0.35:
        return gen_int(r)
    if k < 0.47:
        return ['bool']
    if k < 0.6:
        ext = r.random() < 0.4
        if r.random() < 0.06:
            return ['enum', r.choice([64, 65, 128, 129, 255, 256, 257, 300]), ext, r.choice([0, 63, 64, 65, 70, 256, 257, 300]) if ext else 0]
        return ['enum', r.choice([1, 2, 3, 4, 5, 8, 9, 17, 33]), ext, r.choice([0, 1, 2, 5]) if ext else 0]
    if k < 0.8:
        return ['bits'] + list(gen_size(r, 'bits'))
    return ['octs'] + list(gen_size(r, 'octs'))


def gen_type(r, depth=3, top=False):
    if depth <= 0 or (not top and r.random() < 0.45):
        return gen_simple(r)
    k = r.random()
    if k < 0.25:
        lb, ub, ext = gen_size(r, 'seqof')
        if lb is None:
            lb = 0
        if ub is not None and ub > 40 and r.random() < 0.7:
            ub = lb + r.choice([1, 2, 3, 4])
        return ['seqof', gen_type(r, depth - 1), lb, ub, ext]
    if k < 0.5:
        n = r.choice([1, 2, 2, 3, 4, 5, 9])
        ext = r.random() < 0.5
        if r.random() < 0.02:
            return ['choice', [gen_simple(r)] * r.choice([17, 33, 65, 128, 255, 256, 257]), ext, [['bool']] * r.choice([63, 64, 65, 66, 257]) if ext else [], []]
        adds, groups = [], []
        if ext:
            adds = [gen_type(r, depth - 2) for _ in range(r.choice([0, 0, 1, 2, 3]))]
            groups = [[gen_type(r, depth - 2) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([0, 0, 0, 1, 2]))]
        return ['choice', [gen_type(r, depth - 1) for _ in range(n)], ext, adds, groups]
    return gen_seq(r, depth)


def gen_comp(r, name, depth, allow_default=True):
    t = gen_type(r, depth - 1)
    k = r.random()
    mode = 'm' if k < 0.55 else 'o'
    dflt = None
    if allow_default and k > 0.85 and t[0] in ('bool', 'int', 'enum', 'bits', 'octs'):
        for _ in range(4):
            mode, dflt = 'd', gen_value(r, t)
            if len(str(dflt)) <= 300:
                break
        else:
            mode, dflt = 'o', None
    if mode == 'm' and name[0] != 'c' and emptyable(t):
        mode = 'o'      # a mandatory addition has to show that it is there
    return [name, t, mode, dflt]


def gen_seq(r, depth):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if r.random() < 0.97 else r.choice([9, 17, 20])
    ext = r.random() < 0.45
    comps = [gen_comp(r, 'c%d' % i, depth) for i in range(n)]
    adds, groups = [], []
    if ext:
        adds = [gen_comp(r, 'x%d' % i, depth - 1, False) for i in range(r.choice([0, 0, 1, 2, 3]) if r.random() < 0.97 else r.choice([9, 17]))]
        if r.random() < 0.02:
            x = ['bool'] if r.random() < 0.7 else ['int', 0, 255, False]
            adds = [['x%d' % i, x, 'o' if r.random() < 0.7 else 'm', None] for i in range(r.choice([62, 63, 64, 65, 66, 70, 128, 130]))]
        for g in range(r.choice([0, 0, 0, 1, 2])):
            groups.append([gen_comp(r, 'g%d%s' % (g, 'abc'[i]), depth - 1, False) for i in range(r.choice([1, 2]))])
    if n == 0 and not (adds or groups):
        comps = [['c0', gen_simple(r), 'o', None]]
    return ['seq', comps, ext, adds, groups]


# ------------------------------------------------------------------ value generation
def gen_value(r, t, depth=0):
    k = t[0]
    if k == 'bool':
        return r.random() < 0.5
    if k == 'int':
        _, lb, ub, ext = t
        far = r.choice([1, -1]) * near_power(r, 96, r.choice([1, 8])) // r.choice([1, 2])
        if ext and r.random() < 0.35:
            v = r.choice([ub + 1, ub + r.randint(1, 70000), lb - 1, lb - r.randint(1, 70000), ub + 2 ** 40, far, far])
            return v
        if lb is None:
            if ub is None and r.random() < 0.03:
                k = r.choice([1014, 1015, 1016, 1022, 1023, 1024, 1030, 2039, 2040, 2047, 2048, 3000])
                return r.choice([1, -1]) * (2 ** k - r.choice([0, 1]))
            v = r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 2 ** 31,
                          -2 ** 31, 2 ** 63, r.randint(-2 ** 70, 2 ** 70), r.randint(-300, 300), far, far, far])
            return v if ub is None or v <= ub else r.choice([ub, ub - 1, ub - abs(far)])
        if ub is None:
            if r.random() < 0.02:
                return lb + 2 ** r.choice([1015, 1016, 1024, 1032, 2040, 2048, 3000]) - r.choice([0, 1])
            return lb + r.choice([0, 1, 255, 256, 65535, 65536, 2 ** 24, 2 ** 40, r.randint(0, 2 ** 33),
                                  abs(near_power(r, 96, 8)), abs(near_power(r, 96, 8)), abs(near_power(r, 96))])
        if r.random() < 0.4:
            d = abs(near_power(r, (ub - lb).bit_length() // 8 * 8, 8))
            if d <= ub - lb:
                return r.choice([lb + d, lb + d, ub - d])
        return r.choice([lb, ub, lb + (ub - lb) // 2, r.randint(lb, ub), r.randint(lb, min(ub, lb + 300)),
                         min(ub, lb + 255), min(ub, lb + 256), min(ub, lb + 65535), min(ub, lb + 65536)])
    if k == 'enum':
        return 'e%d' % r.randrange(t[1] + t[3])
    if k in ('bits', 'octs', 'seqof'):
        lb, ub, ext = t[-3:]
        n = gen_len(r, lb, ub, ext, {'bits': 300, 'octs': 200, 'seqof': 6}[k] if depth < 2 else 20 if k != 'seqof' else 4, k)
        if k == 'bits':
            m = r.random()
            return '0' * n if m < 0.15 else '1' * n if m < 0.25 else '0' * (n // 2) + '1' * (n - n // 2) if m < 0.35 \
                else ''.join(r.choice('01') for _ in range(n))
        if k == 'octs':
            m = r.random()
            if m < 0.15:
                b = bytes(n)
            elif m < 0.4 and n:
                b = bytes(r.randint(1, n)) + bytes(r.getrandbits(8) for _ in range(n))
                b = b[:n]
            else:
                b = bytes(r.getrandbits(8) for _ in range(n))
            return b.hex()
        return [gen_value(r, t[1], depth + 1) for _ in range(n)]
    if k == 'choice':
        alts = choice_alts(t)
        name, at = r.choice(alts)
        return [name, gen_value(r, at, depth + 1)]
    if k == 'seq':
        v = {}
        for name, ct, mode, dflt in t[1]:
            if mode == 'm' or (mode == 'o' and r.random() < 0.6):
                v[name] = gen_value(r, ct, depth + 1)
            elif mode == 'd':
                v[name] = gen_value(r, ct, depth + 1) if r.random() < 0.6 else dflt
        # additions: mandatory ones form a prefix (a peer knows a version or it does not)
        if t[3] or t[4]:
            na = r.randint(0, len(t[3]))
            for i, (name, ct, mode, dflt) in enumerate(t[3]):
                if i < na and (mode == 'm' or r.random() < 0.6):
                    v[name] = gen_value(r, ct, depth + 1)
            ng = r.randint(0, len(t[4])) if na == len(t[3]) else 0
            for gi, g in enumerate(t[4]):
                if gi < ng:
                    for name, ct, mode, dflt in g:
                        if mode == 'm' or r.random() < 0.6:
                            v[name] = gen_value(r, ct, depth + 1)
        return normal(t, v)
    raise AssertionError(k)


def gen_len(r, lb, ub, ext, cap, kind):
    lo = lb or 0
    if ext and ub < 1000 and r.random() < 0.3:
        c = [ub + 1, ub + 2, ub + r.randint(1, 20)] + ([lo - 1] if lo > 0 else [])
        return r.choice(c)
    hi = ub if ub is not None else lo + cap
    if kind == 'seqof':
        if r.random() < 0.01:
            return min(hi if ub is not None else 300, max(lo, r.choice([20, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300])))
        hi = min(hi, lo + cap)
    if kind != 'seqof':
        hi = min(hi, lo + 600)
        if r.random() < 0.004:
            return min(ub if ub is not None else 16383, max(lo, r.choice([16383, 16000, 1000, 9000, 12288, 16384, 20000])))
    cands = [lo, min(hi, lo + 1), min(hi, lo + 2), r.randint(lo, min(hi, lo + 8)), r.randint(lo, min(hi, lo + 40))]
    if kind != 'seqof' and r.random() < 0.15:
        cands += [hi, r.randint(lo, hi), min(hi, 127), min(hi, 128), min(hi, 129)]
        cands = [c for c in cands if c >= lo]
    return r.choice(cands)


def choice_alts(t):
    alts = [('a%d' % i, x) for i, x in enumerate(t[1])] + [('x%d' % i, x) for i, x in enumerate(t[3])]
    for gi, g in enumerate(t[4]):
        alts += [('g%d%d' % (gi, i), x) for i, x in enumerate(g)]
    return alts


def is_empty(t, v):
    """Constructed value with no content: the library's value model cannot tell it from an absent one."""
    if t[0] == 'seqof':
        return not v
    if t[0] == 'seq':
        return seq_empty(t, v)
    return False


def seq_empty(t, v):
    for name, ct, mode, dflt in seq_comps(t):
        if name not in v or (mode == 'd' and v[name] == dflt):
            continue
        if ct[0] == 'seq' and seq_empty(ct, v[name]):
            continue
        return False
    return True


def emptyable(t):
    """Could a value of t have no content in the sense of is_empty?"""
    if t[0] == 'seqof':
        return t[2] == 0 or t[4]
    if t[0] == 'seq':
        return all(mode != 'm' or (ct[0] == 'seq' and emptyable(ct)) for name, ct, mode, dflt in t[1])
    return False


def seq_comps(t):
    return t[1] + t[3] + [c for g in t[4] for c in g]


def normal(t, v):
    """Normal form of a SEQUENCE value: optional components without content are absent."""
    out = {}
    for name, ct, mode, dflt in seq_comps(t):
        if name not in v:
            continue
        if is_empty(ct, v[name]):
            if mode == 'o' or name[0] in 'xg':
                continue
        out[name] = v[name]
    return out


# ------------------------------------------------------------------ classes
_n = [0]


def build(L, t, name=None):
    """Class for type t, of the shape the schema compiler generates."""
    k = t[0]
    _n[0] += 1
    nm = name or 'T%d' % _n[0]
    d = {}
    MAXV, MINV = L.MAX, L.MIN

    def ep(x, inf):
        return inf if x is None else x
    if k == 'bool':
        return type(nm, (L.BooleanType,), d)
    if k == 'int':
        if t[1] is not None or t[2] is not None:
            d['subtypeSpec'] = L.ValueRange(ep(t[1], MINV), ep(t[2], MAXV), extensionMarker=t[3])
        return type(nm, (L.IntegerType,), d)
    if k in ('bits', 'octs'):
        if t[1] is not None or t[2] is not None:
            d['subtypeSpec'] = L.ValueSize(ep(t[1], MINV), ep(t[2], MAXV), extensionMarker=t[3])
        return type(nm, (L.BitStringType if k == 'bits' else L.OctetStringType,), d)
    if k == 'enum':
        root = L.NamedValues(*[('e%d' % i, i) for i in range(t[1])])
        d['enumerationRoot'] = root
        if t[2]:
            d['subtypeSpec'] = L.ExtensionMarker(True)
        if t[3]:
            d['extensionAddition'] = L.NamedValues(*[('e%d' % i, i) for i in range(t[1], t[1] + t[3])])
            d['namedValues'] = root + d['extensionAddition']
        else:
            d['namedValues'] = root
        return type(nm, (L.EnumeratedType,), d)
    if k == 'seqof':
        d['componentType'] = build(L, t[1])()
        if (t[2], t[3], t[4]) != (0, None, False):
            d['subtypeSpec'] = L.SequenceOfValueSize(t[2], ep(t[3], MAXV), extensionMarker=t[4])
        return type(nm, (L.SequenceOfType,), d)
    if k == 'choice':
        d['rootComponent'] = L.AdditiveNamedTypes(*[L.NamedType('a%d' % i, build(L, x)()) for i, x in enumerate(t[1])])
        adds = [L.NamedType('x%d' % i, build(L, x)()) for i, x in enumerate(t[3])]
        groups = [L.AdditiveNamedTypes(*[L.NamedType('g%d%d' % (gi, i), build(L, x)()) for i, x in enumerate(g)])
                  for gi, g in enumerate(t[4])]
        base = L.ChoiceType
    else:
        def nt(c):
            name, ct, mode, dflt = c
            cls = build(L, ct)
            if mode == 'd':
                return L.DefaultedNamedType(name, to_asn1(L, ct, cls, dflt))
            return (L.OptionalNamedType if mode == 'o' else L.NamedType)(name, cls())
        d['rootComponent'] = L.AdditiveNamedTypes(*[nt(c) for c in t[1]])
        adds = [nt(c) for c in t[3]]
        groups = [L.AdditiveNamedTypes(*[nt(c) for c in g]) for g in t[4]]
        base = L.SequenceType
    if t[2]:
        d['subtypeSpec'] = L.ExtensionMarker(True)
    ct = d['rootComponent']
    if adds:
        d['extensionAddition'] = L.AdditiveNamedTypes(*adds)
        ct = ct + d['extensionAddition']
    if groups:
        d['extensionAdditionGroups'] = groups
        ct = ct + groups
    d['componentType'] = ct
    return type(nm, (base,), d)


def sub(cls, name):
    """Class of a named component."""
    return cls.componentType[cls.componentType.getPositionByName(name)].asn1Object.__class__


def to_asn1(L, t, cls, v):
    k = t[0]
    if k == 'bits':
        return cls(binValue=v) if v else cls('')
    if k == 'octs':
        return cls(bytes.fromhex(v))
    if k in ('bool', 'int', 'enum'):
        return cls(v)
    if k == 'seqof':
        o = cls()
        ecls = cls.componentType.__class__
        o.clear()
        for x in v:
            o.extend([to_asn1(L, t[1], ecls, x)])
        return o
    if k == 'choice':
        o = cls()
        at = dict(choice_alts(t))[v[0]]
        o[v[0]] = to_asn1(L, at, sub(cls, v[0]), v[1])
        return o
    o = cls()
    for name, ct, mode, dflt in seq_comps(t):
        if name in v:
            o[name] = to_asn1(L, ct, sub(cls, name), v[name])
    return o


def view(L, t, o):
    """Plain value of a message, read without modifying it."""
    k = t[0]
    nv = L.univ.noValue
    if k == 'bool':
        return bool(o)
    if k == 'int':
        return int(o)
    if k == 'enum':
        return o.namedValues[int(o)]
    if k == 'bits':
        return o.asBinary() if len(o) else ''
    if k == 'octs':
        return bytes(o).hex()
    if k == 'seqof':
        return [view(L, t[1], o.getComponentByPosition(i)) for i in range(len(o))]
    if k == 'choice':
        name = o.getName()
        return [name, view(L, dict(choice_alts(t))[name], o.getComponent())]
    v = {}
    for name, ct, mode, dflt in seq_comps(t):
        i = o.componentType.getPositionByName(name)
        c = o.components[i] if i < len(o.components) else nv
        if c is nv:
            if mode == 'd' and name[0] == 'c':
                v[name] = dflt
            elif mode == 'm' and name[0] == 'c' and ct[0] in ('seqof', 'seq'):
                v[name] = [] if ct[0] == 'seqof' else view_empty(ct)
            continue
        v[name] = view(L, ct, c)
    return normal(t, v)


def view_empty(t):
    v = {}
    for name, ct, mode, dflt in t[1]:
        if mode == 'd':
            v[name] = dflt
        elif mode == 'm' and ct[0] == 'seqof':
            v[name] = []
        elif mode == 'm' and ct[0] == 'seq':
            v[name] = view_empty(ct)
    return v


def gen_case(r, depth=None, cap=20000, simple=0.2):
    """(type, value, octets): a type, a value of it the codec supports, and its encoding per the reference model."""
    import refper
    while True:
        t = gen_simple(r) if r.random() < simple else gen_type(r, depth or r.choice([1, 2, 2, 3]), True)
        vd = gen_valued(r, t, cap)
        if vd:
            return t, vd[0], vd[1]


def gen_valued(r, t, cap=20000, tries=6):
    import refper
    for _ in range(tries):
        v = gen_value(r, t)
        try:
            data = refper.encode(t, v)
        except refper.Bad:
            continue        # needs fragmentation (X.691 11.9.3.8), which the library documents as not implemented
        if len(data) <= cap:
            return v, data
    return None


# ------------------------------------------------------------------ ASN.1 text
def to_text(t, module='Mod', top='Top', r=None, style=None):
    """ASN.1 module text whose type `top` is t.  Constructed types become type assignments of their own (the compiler's
    grammar backtracks exponentially on nested ones).  style (all optional, probabilities): 'inline' simple types with a
    constraint stay where they are used, 'const' bounds are value references, 'alias' a reference goes through another
    name, 'dconst' a DEFAULT is a value reference, 'comment', 'inline_con' enumerations, lists and choices stay inside a CHOICE
    and 'inline_seq' enumerations and lists inside a SEQUENCE."""
    st = dict(inline=1.0, inline_choice=1.0, const=0.0, alias=0.0, dconst=0.0, comment=0.0, inline_con=0.0, inline_seq=0.0)
    st.update(style or {})
    out = []
    n = [0]
    shared = {}

    def hit(what):
        return st[what] >= 1 or (st[what] > 0 and r is not None and r.random() < st[what])

    def const(tp, text):
        """Name of a new value of type tp."""
        n[0] += 1
        nm = 'k%s%d' % (r.choice(['', '', '-', 'K-', '-a-b-']), n[0])
        if r.random() < 0.2:        # through another name
            text = const(tp, text)
        if r.random() < 0.2 and tp not in ('BIT STRING', 'OCTET STRING', 'BOOLEAN'):
            al = name()
            out.append('%s ::= %s' % (al, tp))
            tp = al
        out.append('%s %s ::= %s' % (nm, tp, text))
        return nm

    def num(x):
        return const('INTEGER', str(x)) if hit('const') else str(x)

    def size(lb, ub, ext, kw='SIZE'):
        if lb is None and ub is None:
            return ''
        a = 'MIN' if lb is None else num(lb)
        b = a if lb == ub and lb is not None else 'MAX' if ub is None else num(ub)
        rng = a if lb == ub and lb is not None else '%s..%s' % (a, b)
        return ' (%s(%s%s))' % (kw, rng, ', ...' if ext else '') if kw else ' (%s%s)' % (rng, ', ...' if ext else '')

    def name():
        n[0] += 1
        return 'T%s%d' % ('' if r is None or r.random() < 0.8 else r.choice(['-', '-a-', '-B-c-', 'ype-']), n[0])

    def constrained(x):
        return x[0] in ('int', 'bits', 'octs') and (x[1] is not None or x[2] is not None)

    def ref(x, where='seq'):
        """Text for using type x (an element type of SEQUENCE OF with a constraint always gets a name, see known_findings)."""
        if x[0] in ('bool', 'int', 'bits', 'octs'):
            if not constrained(x) or (where != 'of' and hit('inline' if where == 'seq' else 'inline_choice')):
                return simple(x)
        elif where == 'choice' and x[0] in ('enum', 'seqof', 'choice') and hit('inline_con'):
            return body(x)
        elif where == 'seq' and x[0] in ('enum', 'seqof') and hit('inline_seq'):
            return body(x)
        nm = name()
        define(nm, x)
        if hit('alias'):
            al = name()
            out.append('%s ::= %s' % (al, nm))
            return al
        return nm

    def simple(x):
        if x[0] == 'bool':
            return 'BOOLEAN'
        if x[0] == 'int':
            return 'INTEGER' + size(x[1], x[2], x[3], '')
        return ('BIT STRING' if x[0] == 'bits' else 'OCTET STRING') + size(x[1], x[2], x[3])

    def comp(c):
        nm, ct, mode, dflt = c
        rt = ref(ct)
        s = nm + ' ' + rt
        if mode == 'o':
            s += ' OPTIONAL'
        elif mode == 'd':
            text = value_other(ct, dflt) if r is not None and r.random() < 0.3 else value(ct, dflt)
            if hit('dconst'):
                base = {'bool': 'BOOLEAN', 'int': 'INTEGER', 'bits': 'BIT STRING', 'octs': 'OCTET STRING'}.get(ct[0], rt)
                text = const(rt if rt[0] == 'T' and r.random() < 0.6 else base, text)
            s += ' DEFAULT ' + text
        return s

    def define(nm, x):
        out.append('%s ::= %s' % (nm, body(x)))

    def body(x):
        k = x[0]
        if k in ('bool', 'int', 'bits', 'octs'):
            return simple(x)
        elif k == 'enum':
            items = ['e%d' % i for i in range(x[1])]
            if x[2]:
                items.append('...')
                items += ['e%d' % i for i in range(x[1], x[1] + x[3])]
            return 'ENUMERATED { %s }' % ', '.join(items)
        elif k == 'seqof':
            sz = size(x[2], x[3], x[4]) if (x[2], x[3], x[4]) != (0, None, False) else ''
            return 'SEQUENCE%s OF %s' % (sz, ref(x[1], 'of'))
        else:
            if k == 'choice':
                items = ['a%d %s' % (i, ref(y, 'choice')) for i, y in enumerate(x[1])]
                adds = ['x%d %s' % (i, ref(y, 'choice')) for i, y in enumerate(x[3])]
                groups = [['g%d%d %s' % (gi, i, ref(y, 'choice')) for i, y in enumerate(g)] for gi, g in enumerate(x[4])]
            else:
                items = [comp(c) for c in x[1]]
                adds = [comp(c) for c in x[3]]
                groups = [[comp(c) for c in g] for g in x[4]]
            if x[2]:
                items.append('...')
                items += adds
                items += ['[[ %s ]]' % ', '.join(g) for g in groups]
            return '%s { %s }' % ('CHOICE' if k == 'choice' else 'SEQUENCE', ', '.join(items))

    define(top, t)
    if r is not None:
        r.shuffle(out)
        whole = st['comment'] and r.random() < 0.5
        out = [spread(r, x) if not whole and hit('comment') else x for x in out]
        if whole:
            nl = r.choice(['\r\n', '\r', '\x0b', '\x0c'])
            return spread(r, '%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n\n%s\n\nEND\n' % (module, '\n\n'.join(out))).replace('\n', nl)
    return '%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n\n%s\n\nEND\n' % (module, '\n\n'.join(out))


def spread(r, text):
    """Comments, blank lines and tabs between the words."""
    words = text.split(' ')
    out = words[0]
    for w in words[1:]:
        k = r.random()
        if k < 0.1:
            out += ' -- %s\n' % r.choice(['comment', 'Top ::= BOOLEAN', 'e1, e2 }', '[[ ... ]]', "it's", '']) + w
        elif k < 0.2:
            out += r.choice(['\n', '\t', '\n\n', '   ', ' \n\t ']) + w
        else:
            out += ' ' + w
    return out + (' -- %s' % r.choice(['comment', 'Top ::= BOOLEAN', 'END']) if r.random() < 0.5 else '')


def text_cost(t, st):
    """Rough seconds the compiler needs for to_text(t)."""
    k = t[0]

    def used(x, where):
        if x[0] in ('int', 'bits', 'octs') and x[1] is None and x[2] is None or x[0] == 'bool':
            return 0.03
        inl = x[0] in ('int', 'bits', 'octs') and where != 'of'
        extra = 0
        if where == 'choice' and x[0] in ('enum', 'seqof', 'choice'):
            extra = st.get('inline_con', 0) * (3 if x[0] == 'choice' else 1) * (1 + len(x[1]) if x[0] == 'choice' else 1)
        elif where == 'seq' and x[0] in ('enum', 'seqof'):
            extra = st.get('inline_seq', 0) * 11
        if extra:
            return extra + text_cost(x, st)
        p = (st['inline'] if where == 'seq' else st['inline_choice']) if inl else 0
        return p * (2.5 if where == 'seq' else 0.3) + (1 - p) * text_cost(x, st)
    if k == 'bool' or (k in ('int', 'bits', 'octs') and t[1] is None and t[2] is None):
        return 0.02
    if k in ('int', 'bits', 'octs'):
        return 0.12
    if k == 'enum':
        return 0.03 + 0.01 * (t[1] + t[3])
    if k == 'seqof':
        return (0.03 if (t[2], t[3], t[4]) == (0, None, False) else 0.15) + used(t[1], 'of')
    if k == 'choice':
        n = len(t[1]) + len(t[3]) + 2 * sum(len(g) for g in t[4])
        return (0.05 + 0.03 * n) * (2.5 if t[3] or t[4] else 1) + sum(used(x, 'choice') for x in t[1] + t[3] + [y for g in t[4] for y in g])
    n = len(seq_comps(t)) + len(t[4])
    return (0.05 + 0.35 * n) * (2.0 if t[3] or t[4] else 1) + sum(used(c[1], 'seq') for c in seq_comps(t))


def value(t, v):
    if t[0] == 'bool':
        return 'TRUE' if v else 'FALSE'
    if t[0] == 'int':
        return str(v)
    if t[0] == 'enum':
        return v
    if t[0] == 'bits':
        return "'%s'B" % v
    return "'%s'H" % v.upper()


def value_other(t, v):
    """The same value, written in the other base."""
    if t[0] == 'bits' and v and len(v) % 4 == 0:
        return "'%0*X'H" % (len(v) // 4, int(v, 2))
    if t[0] == 'octs' and v:
        return "'%s'B" % bin(int('1' + v, 16))[3:]
    return value(t, v)
