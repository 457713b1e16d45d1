"""Small random ASN.1 modules whose names collide, for histories of compilations."""

TYPES = ['A', 'B', 'C', 'D', 'Id-List']
CONSTS = ['max', 'a', 'limit']
MODULES = ['Mod', 'Mod', 'Mod', 'Other', 'My-Module']


def gen(r):
    module = r.choice(MODULES)
    names = r.sample(TYPES, r.choice([1, 1, 2, 2, 3]))
    consts = r.sample(CONSTS, r.choice([0, 0, 0, 1, 1, 2]))
    lines = []
    for n in names:
        lines.append('%s ::= %s' % (n, body(r, [x for x in names if x != n] or ['A', 'B', 'C'], consts)))
    for c in consts:
        x = r.random()
        if x < 0.7:
            lines.append('%s INTEGER ::= %d' % (c, r.choice([1, 3, 7, 12, 200])))
        elif x < 0.9:
            lines.append('%s %s ::= %s' % (c, r.choice(names), r.choice(['3', '5', 'TRUE', 'red'])))
        else:
            lines.append(c + r.choice([' BOOLEAN ::= TRUE', ' INTEGER ::= -5', " BIT STRING ::= '01'B", " OCTET STRING ::= 'AB'H"]))
    r.shuffle(lines)
    text = lines_text(r, module, lines)
    x = r.random()
    if x < 0.08:
        text = text[:r.randrange(10, max(11, len(text)))]
    elif x < 0.13:
        text = text.replace('::=', r.choice([':=', '::= ::=']), 1) if r.random() < 0.5 else text.replace('END', r.choice(['', '}', 'EN']))
    elif x < 0.16:
        i = r.randrange(len(text))
        text = text[:i] + r.choice(['{', '}', '5', '%', 'SET ']) + text[i:]
    return text


def lines_text(r, module, lines):
    head = '%s DEFINITIONS %s::= BEGIN\n' % (module, 'AUTOMATIC TAGS ' if r.random() < 0.95 else r.choice(['IMPLICIT TAGS ', '']))
    if r.random() < 0.15:
        lines = [l + ' -- %s' % r.choice(['comment', 'A ::= BOOLEAN', '']) for l in lines]
    if r.random() < 0.1:
        lines = ['-- ' + r.choice(['B ::= INTEGER', 'max INTEGER ::= 5', 'x'])] + lines
    if r.random() < 0.08:
        lines.insert(r.randrange(len(lines) + 1), r.choice(['/* C ::= INTEGER */', '/* one\n   two -- three\n*/', '--', '-- x -- y']))
    return head + r.choice(['\n', '\n\n', '\n  ']).join(lines) + '\nEND\n'


def ref(r, names):
    """Mostly a type of this module, sometimes one of another module's."""
    return r.choice(names) if r.random() < 0.8 else r.choice(TYPES)


def num(r, consts):
    x = r.random()
    if x < 0.5 and consts:
        return r.choice(consts)
    if x < 0.58:
        return r.choice(CONSTS)
    return str(r.choice([1, 3, 7, 8, 255, 300]))


def body(r, names, consts):
    x = r.random()
    if x < 0.16:
        return 'BOOLEAN'
    if x < 0.26:
        return 'INTEGER'
    if x < 0.42:
        items = r.sample(['red', 'green', 'blue', 'x', 'y'], r.choice([1, 2, 3]))
        if r.random() < 0.3:
            items += ['...'] + r.sample(['extra', 'more'], r.choice([0, 1, 2]))
        return 'ENUMERATED { %s }' % ', '.join(items)
    if x < 0.56:
        return 'INTEGER (%s..%s)' % (r.choice(['0', '0', '1', '-5']), num(r, consts))
    if x < 0.62:
        return ref(r, names)
    if x < 0.76:
        alts = ['%s %s' % (n, ref(r, names)) for n in r.sample(['p', 'q', 'r'], r.choice([1, 2]))]
        if r.random() < 0.4:
            alts.append('...')
            for n in r.sample(['s', 't', 'u'], r.choice([0, 1, 2])):
                alts.append(('%s %s' if r.random() < 0.6 else '[[ %s %s ]]') % (n, ref(r, names)))
        return 'CHOICE { %s }' % ', '.join(alts)
    if x < 0.84:
        if r.random() < 0.4:
            return 'SEQUENCE (SIZE(%s..%s%s)) OF %s' % (r.choice('01'), num(r, consts), r.choice(['', '', ', ...']), ref(r, names))
        return 'SEQUENCE OF %s' % ref(r, names)
    if x < 0.93:
        c = 'p ' + ref(r, names)
        y = r.random()
        if y < 0.25:
            c += ' OPTIONAL'
        elif y < 0.35:
            c += ' DEFAULT ' + r.choice(['3', 'TRUE', 'red', 'max'])
        return 'SEQUENCE { %s }' % c
    if x < 0.95:
        return 'SEQUENCE { }'
    return '%s (SIZE(%s%s%s))' % (r.choice(['OCTET STRING', 'BIT STRING']), r.choice(['', '', '0..', '1..']), num(r, consts), r.choice(['', '', ', ...']))


def rich(r, k):
    """A module with one or two larger constructed types; the names collide with those of the other modules."""
    consts = r.sample(CONSTS, 1)
    names = ['A', 'B', 'C', 'D']
    simple = ['BOOLEAN', 'INTEGER', 'B', 'C', 'D', 'C']
    lines = ['C ::= ' + r.choice(['BOOLEAN', 'ENUMERATED { red, green, ..., x }', 'INTEGER (0..%s)' % consts[0], 'OCTET STRING (SIZE(1..%s))' % consts[0]]),
             'D ::= ' + r.choice(['SEQUENCE OF C', 'SEQUENCE (SIZE(0..%s)) OF C' % consts[0], 'CHOICE { p C, q BOOLEAN, ... }', 'C']),
             'B ::= ' + r.choice(['INTEGER', 'CHOICE { p C, ..., [[ q D ]] }', 'SEQUENCE { p C }', 'ENUMERATED { x, y }']),
             '%s INTEGER ::= %d' % (consts[0], r.choice([2, 3, 9]))]

    def comp(n):
        t = r.choice(simple)
        tail = r.choice(['', '', ' OPTIONAL', ' DEFAULT 3' if t == 'INTEGER' else ' DEFAULT TRUE' if t == 'BOOLEAN' else ' OPTIONAL'])
        return '%s %s%s' % (n, t, tail)
    kind = k % 8
    if kind == 0:
        a = 'SEQUENCE { %s, %s }' % (comp('p'), comp('q'))
    elif kind == 1:
        a = 'SEQUENCE { %s, ..., %s }' % (comp('p'), comp('q'))
    elif kind == 2:
        a = 'SEQUENCE { %s, ..., [[ %s ]] }' % (comp('p'), comp('q'))
    elif kind == 3:
        a = 'SEQUENCE { p INTEGER (0..%s) DEFAULT 1 }' % consts[0]
    elif kind == 4:
        a = 'SEQUENCE OF SEQUENCE { %s }' % comp('p')
    elif kind == 5:
        a = 'SEQUENCE { p ENUMERATED { red, blue } DEFAULT red }'
    elif kind == 6:
        a = 'CHOICE { p INTEGER (0..%s), q SEQUENCE OF B, ..., r OCTET STRING (SIZE(%s)) }' % (consts[0], consts[0])
    else:
        a = 'SEQUENCE { p BIT STRING (SIZE(1..%s)), %s }' % (consts[0], comp('q'))
    lines.append('A ::= ' + a)
    if r.random() < 0.3:
        lines.append('Id-List ::= ' + r.choice(['A', 'SEQUENCE OF A', 'D']))
    r.shuffle(lines)
    return lines_text(r, r.choice(MODULES), lines)
