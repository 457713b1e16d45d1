"""Reference model: a small, independent aligned-PER (ITU-T X.691) codec over the plain types
and values of schema.py.  It plays the peer from another vendor in the simulations and is the
oracle for "the octets on the wire".  It shares no code with the library under test.

encode(t, v) -> bytes          decode(t, data) -> v   (raises Bad on anything it cannot read)
"""


class Bad(Exception):
    pass


class W(object):
    """Bit writer."""

    def __init__(self):
        self.b = []

    def bits(self, value, n):
        for i in range(n - 1, -1, -1):
            self.b.append((value >> i) & 1)

    def align(self):
        while len(self.b) % 8:
            self.b.append(0)

    def octets(self, data):
        for x in data:
            self.bits(x, 8)

    def finish(self):
        if not self.b:
            self.b.append(0)
        self.align()
        out = bytearray()
        for i in range(0, len(self.b), 8):
            x = 0
            for bit in self.b[i:i + 8]:
                x = x << 1 | bit
            out.append(x)
        return bytes(out)


class R(object):
    """Bit reader."""

    def __init__(self, data):
        if not data:
            raise Bad('empty')
        self.d = data
        self.p = 0

    def bits(self, n):
        if self.p + n > 8 * len(self.d):
            raise Bad('end of stream')
        x = 0
        for i in range(self.p, self.p + n):
            x = x << 1 | ((self.d[i >> 3] >> (7 - (i & 7))) & 1)
        self.p += n
        return x

    def align(self):
        self.p = (self.p + 7) // 8 * 8

    def octets(self, n):
        return bytes(self.bits(8) for _ in range(n))


def nbits(rng):
    return (rng - 1).bit_length()


def put_constrained(w, n, lb, ub):
    rng = ub - lb + 1
    v = n - lb
    if rng == 1:
        return
    if rng <= 255:
        w.bits(v, nbits(rng))
    elif rng == 256:
        w.align()
        w.bits(v, 8)
    elif rng <= 65536:
        w.align()
        w.bits(v, 16)
    else:
        k = max(1, (v.bit_length() + 7) // 8)
        put_constrained(w, k, 1, ((rng - 1).bit_length() + 7) // 8)
        w.align()
        w.bits(v, 8 * k)


def get_constrained(r, lb, ub):
    rng = ub - lb + 1
    if rng == 1:
        return lb
    if rng <= 255:
        v = r.bits(nbits(rng))
    elif rng == 256:
        r.align()
        v = r.bits(8)
    elif rng <= 65536:
        r.align()
        v = r.bits(16)
    else:
        k = get_constrained(r, 1, ((rng - 1).bit_length() + 7) // 8)
        r.align()
        v = r.bits(8 * k)
    if v >= rng:
        raise Bad('range')
    return lb + v


def put_length(w, n):
    w.align()
    if n < 128:
        w.bits(n, 8)
    elif n < 16384:
        w.bits(0x8000 | n, 16)
    else:
        raise Bad('fragmentation')


def get_length(r):
    r.align()
    if not r.bits(1):
        return r.bits(7)
    if r.bits(1):
        raise Bad('fragmentation')
    return r.bits(14)


def put_small(w, n):
    if n <= 63:
        w.bits(n, 7)
    else:
        w.bits(1, 1)
        k = (n.bit_length() + 7) // 8
        put_length(w, k)
        w.bits(n, 8 * k)


def get_small(r):
    if not r.bits(1):
        return r.bits(6)
    return r.bits(8 * get_length(r))


def put_unconstrained(w, n):
    k = 1
    while not -(1 << (8 * k - 1)) <= n < (1 << (8 * k - 1)):
        k += 1
    put_length(w, k)
    w.bits(n & ((1 << 8 * k) - 1), 8 * k)


def get_unconstrained(r):
    k = get_length(r)
    if not k:
        raise Bad('length 0')
    v = r.bits(8 * k)
    return v - (1 << 8 * k) if v >> (8 * k - 1) else v


def put_open(w, t, v, enc=None):
    data = (enc or encode)(t, v)
    put_length(w, len(data))
    w.octets(data)


def size_mode(t, n):
    """(extension bit or None, 'ext'|'none'|'fixed'|'var'|'free')"""
    lb, ub, ext = t[-3:]
    lo = lb or 0
    inside = n is None or (n >= lo and (ub is None or n <= ub))
    if ext and not inside:
        return 1, 'ext'
    bit = 0 if ext else None
    if not inside:
        raise Bad('size')
    if ub == 0:
        return bit, 'none'
    if ub is None or ub >= 65536:
        return bit, 'free'
    if lo == ub:
        return bit, 'fixed'
    return bit, 'var'


def put(w, t, v):
    k = t[0]
    if k == 'bool':
        w.bits(1 if v else 0, 1)
    elif k == 'int':
        _, lb, ub, ext = t
        if ext:
            if lb <= v <= ub:
                w.bits(0, 1)
                put_constrained(w, v, lb, ub)
            else:
                w.bits(1, 1)
                put_unconstrained(w, v)
        elif lb is None:
            put_unconstrained(w, v)
        elif ub is None:
            n = max(1, ((v - lb).bit_length() + 7) // 8)
            put_length(w, n)
            w.bits(v - lb, 8 * n)
        else:
            put_constrained(w, v, lb, ub)
    elif k == 'enum':
        i = int(v[1:])
        if t[2]:
            w.bits(0 if i < t[1] else 1, 1)
        if i < t[1]:
            put_constrained(w, i, 0, t[1] - 1)
        else:
            put_small(w, i - t[1])
    elif k in ('bits', 'octs'):
        n = len(v) if k == 'bits' else len(v) // 2
        bit, mode = size_mode(t, n)
        if bit is not None:
            w.bits(bit, 1)
        if mode == 'none':
            return
        if mode == 'fixed':
            if n > (16 if k == 'bits' else 2):
                w.align()
        elif mode == 'var':
            put_constrained(w, n, t[1] or 0, t[2])
            if n:
                w.align()
        else:
            put_length(w, n)
        if k == 'bits':
            w.bits(int(v or '0', 2), n)
        else:
            w.octets(bytes.fromhex(v))
    elif k == 'seqof':
        bit, mode = size_mode(t, len(v))
        if bit is not None:
            w.bits(bit, 1)
        if mode == 'var':
            put_constrained(w, len(v), t[2], t[3])
        elif mode in ('free', 'ext'):
            put_length(w, len(v))
        for x in v:
            put(w, t[1], x)
    elif k == 'choice':
        name, x = v
        if name[0] == 'a':
            if t[2]:
                w.bits(0, 1)
            put_constrained(w, int(name[1:]), 0, len(t[1]) - 1)
            put(w, t[1][int(name[1:])], x)
        else:
            flat = choice_ext(t)
            i = [n for n, _ in flat].index(name)
            w.bits(1, 1)
            put_small(w, i)
            put_open(w, flat[i][1], x)
    elif k == 'seq':
        adds = [c[0] in v for c in t[3]] + [any(c[0] in v for c in g) for g in t[4]]
        if t[2]:
            w.bits(1 if any(adds) else 0, 1)
        put_root(w, t[1], v)
        if any(adds):
            if len(adds) > 64:
                raise Bad('too many additions')
            w.bits(len(adds) - 1, 7)
            for a in adds:
                w.bits(int(a), 1)
            for c in t[3]:
                if c[0] in v:
                    put_open(w, c[1], v[c[0]])
            for g in t[4]:
                if any(c[0] in v for c in g):
                    put_open(w, g, v, encode_group)
    else:
        raise AssertionError(k)


def choice_ext(t):
    flat = [('x%d' % i, x) for i, x in enumerate(t[3])]
    for gi, g in enumerate(t[4]):
        flat += [('g%d%d' % (gi, i), x) for i, x in enumerate(g)]
    return flat


def present(c, v):
    name, ct, mode, dflt = c
    if mode == 'd':
        return name in v and v[name] != dflt
    return name in v


def put_root(w, comps, v):
    for c in comps:
        if c[2] != 'm':
            w.bits(int(present(c, v)), 1)
    for c in comps:
        if c[2] == 'm' or present(c, v):
            put(w, c[1], v[c[0]])


def encode_group(g, v):
    w = W()
    put_root(w, g, v)
    return w.finish()


def encode(t, v):
    w = W()
    put(w, t, v)
    return w.finish()


# ------------------------------------------------------------------ decoding
def get(r, t):
    k = t[0]
    if k == 'bool':
        return bool(r.bits(1))
    if k == 'int':
        _, lb, ub, ext = t
        if ext and r.bits(1):
            return get_unconstrained(r)
        if lb is None:
            return get_unconstrained(r)
        if ub is None:
            n = get_length(r)
            return lb + r.bits(8 * n)
        return get_constrained(r, lb, ub)
    if k == 'enum':
        if t[2] and r.bits(1):
            i = get_small(r) + t[1]
        else:
            i = get_constrained(r, 0, t[1] - 1)
        if i >= t[1] + t[3]:
            raise Bad('enum')
        return 'e%d' % i
    if k in ('bits', 'octs', 'seqof'):
        lb, ub, ext = t[-3:]
        lo = lb or 0
        if ext and r.bits(1):
            mode = 'ext'
        else:
            mode = size_mode(t, None)[1]
        if mode == 'none':
            n = 0
        elif mode == 'fixed':
            n = ub
        elif mode == 'var':
            n = get_constrained(r, lo, ub)
        else:
            n = get_length(r)
        if mode != 'ext' and (n < lo or (ub is not None and n > ub)):
            raise Bad('size')
        if k == 'seqof':
            return [get(r, t[1]) for _ in range(n)]
        if n and (mode == 'var' or (mode == 'fixed' and n > (16 if k == 'bits' else 2))):
            r.align()
        if k == 'bits':
            return bin(r.bits(n))[2:].zfill(n) if n else ''
        return r.octets(n).hex()
    if k == 'choice':
        if t[2] and r.bits(1):
            i = get_small(r)
            flat = choice_ext(t)
            if i >= len(flat):
                raise Bad('choice')
            return [flat[i][0], decode(flat[i][1], r.octets(get_length(r)))]
        i = get_constrained(r, 0, len(t[1]) - 1)
        return ['a%d' % i, get(r, t[1][i])]
    if k == 'seq':
        ext = t[2] and r.bits(1)
        v = get_root(r, t[1])
        if ext:
            if r.bits(1):
                raise Bad('too many additions')
            n = r.bits(6) + 1
            known = [('x', c) for c in t[3]] + [('g', g) for g in t[4]]
            there = [r.bits(1) for _ in range(n)]
            for i, p in enumerate(there):
                if not p:
                    continue
                data = r.octets(get_length(r))
                if i < len(known):
                    if known[i][0] == 'x':
                        v[known[i][1][0]] = decode(known[i][1][1], data)
                    else:
                        v.update(get_root(R(data), known[i][1]))
        return v
    raise AssertionError(k)


def get_root(r, comps):
    there = {c[0]: r.bits(1) for c in comps if c[2] != 'm'}
    v = {}
    for name, ct, mode, dflt in comps:
        if mode == 'm' or there[name]:
            v[name] = get(r, ct)
        elif mode == 'd':
            v[name] = dflt
    return v


def decode(t, data):
    return get(R(data), t)
