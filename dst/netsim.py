"""Discrete-event network between nodes that exchange encoded messages.

A scenario is data: node descriptions and a list of timed events, every one with its faults written out
(copies, delays, damage), so that it can be replayed and reduced by deleting parts of it.
  ['send', at, src, dst, k, value, [[delay, damage], ...]]     damage: None or list of primitive changes
  ['crash', at, node, downtime]
"""
import heapq
import schema
import refper


def apply(data, damage):
    b = bytearray(data)
    for d in damage:
        k = d[0]
        if k == 'cut':
            del b[max(0, len(b) - d[1]):]
        elif k == 'tail':
            b += bytes.fromhex(d[1])
        elif not b:
            continue
        elif k == 'flip':
            p = d[1] % (8 * len(b))
            b[p >> 3] ^= 0x80 >> (p & 7)
        elif k == 'set':
            b[d[1] % len(b)] = d[2]
        elif k == 'burst':
            p = d[1] % len(b)
            x = bytes.fromhex(d[2])[:len(b) - p]
            b[p:p + len(x)] = x
        elif k == 'drop':
            p = d[1] % len(b)
            del b[p:p + d[2]]
        elif k == 'dup':
            p = d[1] % len(b)
            b[p:p] = b[p:p + d[2]]
        elif k == 'swap':
            i, j = d[1] % len(b), d[2] % len(b)
            b[i], b[j] = b[j], b[i]
    return bytes(b)


def gen_damage(r, data):
    n = max(1, len(data))
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x = r.random()
        if x < 0.3:
            out.append(['flip', r.randrange(min(8 * n, r.choice([8, 16, 40, 8 * n])))])
        elif x < 0.45:
            out.append(['set', r.randrange(n), r.choice([0, 1, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xff, r.getrandbits(8)])])
        elif x < 0.6:
            out.append(['cut', r.choice([1, 1, 2, r.randint(1, n)])])
        elif x < 0.7:
            out.append(['burst', r.randrange(n), bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 4]))).hex()])
        elif x < 0.78:
            out.append(['drop', r.randrange(n), r.choice([1, 1, 2])])
        elif x < 0.84:
            out.append(['dup', r.randrange(n), r.choice([1, 1, 2])])
        elif x < 0.9:
            out.append(['swap', r.randrange(n), r.randrange(n)])
        else:
            out.append(['tail', bytes(r.getrandbits(8) for _ in range(r.choice([1, 1, 2, 5]))).hex()])
    return out


def gen_fates(r, cfg, data):
    """Copies of a frame that come out of the network: [[delay, damage]...]; [] = lost."""
    if r.random() < cfg['loss']:
        return []
    out = []
    for _ in range(1 if r.random() >= cfg['dup'] else r.choice([2, 2, 3])):
        delay = r.choice([1, 5, 20]) if r.random() >= cfg['slow'] else r.randint(50, 3000)
        damage = None
        if r.random() < cfg['damage']:
            x = r.random()
            if x < cfg['cut']:
                damage = [['cut', r.choice([1, 1, 2, r.randint(1, max(1, len(data)))])]]
            elif x < cfg['cut'] + 0.08:
                damage = [['tail', bytes(r.getrandbits(8) for _ in range(r.choice([1, 1, 2, 5]))).hex()]]
            else:
                damage = gen_damage(r, data)
        out.append([delay, damage])
    return out


def swarm(r, damage):
    """Fault mix of one run."""
    return {'loss': r.choice([0, 0, 0.05, 0.3]), 'dup': r.choice([0, 0.1, 0.4]), 'slow': r.choice([0, 0.2, 0.6]),
            'damage': r.choice(damage), 'cut': r.choice([0.1, 0.3, 0.6])}


class Sim(object):
    """deliver(node, event, octets sent, octets received, damage) is called for every frame that reaches a node
    which is up; send(node, event) returns the octets; restart(node) gives a node its fresh state."""

    def __init__(self, events, n_nodes, send, deliver, restart, stats):
        self.q = []
        self.seq = 0
        self.stats = stats
        self.send, self.deliver, self.restart = send, deliver, restart
        self.up = [True] * n_nodes
        self.now = 0
        self.delivered = []
        for ev in events:
            self.push(ev[1], ('event', ev))

    def push(self, at, what):
        self.seq += 1
        heapq.heappush(self.q, (at, self.seq, what))

    def run(self):
        st = self.stats
        last = -1
        while self.q:
            self.now, seq, what = heapq.heappop(self.q)
            st.add('sim.events')
            if what[0] == 'event':
                ev = what[1]
                if ev[0] == 'send':
                    if not self.up[ev[2]]:
                        continue
                    data = self.send(ev[2], ev)
                    if data is None:
                        continue
                    st.add('sim.frames sent')
                    if not ev[6]:
                        st.add('fault.frame lost')
                    if len(ev[6]) > 1:
                        st.add('fault.frame duplicated', len(ev[6]) - 1)
                    for delay, damage in ev[6]:
                        if delay >= 50:
                            st.add('fault.frame delayed')
                        self.push(self.now + delay, ('frame', ev, data, damage, seq))
                elif ev[0] == 'crash':
                    if self.up[ev[2]]:
                        self.up[ev[2]] = False
                        st.add('fault.node crash')
                        self.push(self.now + ev[3], ('restart', ev[2]))
                else:
                    self.other(ev)
            elif what[0] == 'restart':
                self.up[what[1]] = True
                self.restart(what[1])
            else:
                _, ev, data, damage, sent_seq = what
                if not self.up[ev[3]]:
                    st.add('fault.frame to a dead node')
                    continue
                if sent_seq < last:
                    st.add('fault.frame reordered')
                last = max(last, sent_seq)
                got = data if damage is None else apply(data, damage)
                if damage is not None and got != data:
                    for d in damage:
                        st.add('fault.octets: ' + d[0])
                self.delivered.append((ev, damage))
                self.deliver(ev[3], ev, data, got, damage)
        st.add('sim.time', self.now)

    def other(self, ev):
        raise AssertionError(ev)


def shrink_events(events):
    from core import drop_each
    for cand in drop_each(events, 1):
        yield cand
    for i, ev in enumerate(events):
        if ev[0] == 'send':
            for fates in drop_each(ev[6]):
                yield events[:i] + [ev[:6] + [fates]] + events[i + 1:]
            for j, (delay, damage) in enumerate(ev[6]):
                if damage and len(damage) > 1:
                    for d in drop_each(damage, 1):
                        yield events[:i] + [ev[:6] + [ev[6][:j] + [[delay, d]] + ev[6][j + 1:]]] + events[i + 1:]


def valid(t, v):
    """Does plain value v satisfy the constraints of t?  None or a complaint."""
    k = t[0]
    if k == 'int':
        if not t[3] and ((t[1] is not None and v < t[1]) or (t[2] is not None and v > t[2])):
            return 'INTEGER %d outside %s..%s' % (v, t[1], t[2])
    elif k == 'enum':
        if v not in ['e%d' % i for i in range(t[1] + t[3])]:
            return 'unknown enumeration %s' % v
    elif k in ('bits', 'octs', 'seqof'):
        lb, ub, ext = t[-3:]
        n = len(v) // 2 if k == 'octs' else len(v)
        if not ext and ((lb is not None and n < lb) or (ub is not None and n > ub)):
            return '%s of size %d outside %s..%s' % (k, n, lb, ub)
        if k == 'seqof':
            for x in v:
                c = valid(t[1], x)
                if c:
                    return c
    elif k == 'choice':
        return valid(dict(schema.choice_alts(t))[v[0]], v[1])
    elif k == 'seq':
        for name, ct, mode, d in schema.seq_comps(t):
            if name in v:
                c = valid(ct, v[name])
                if c:
                    return '%s: %s' % (name, c)
            elif mode == 'm' and name[0] == 'c':
                return 'mandatory %s missing' % name
    return None
