import os,subprocess,json,shutil,sys
HEAD='''import sys, os
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter('ignore')
from asn1PERser import encode, decode, parse_asn1_schema
from asn1PERser.classes.data.builtin import *
from asn1PERser.classes.types.constraint import *
from asn1PERser.classes.types.type import AdditiveNamedTypes
from pyasn1.type.namedtype import NamedType, NamedTypes, OptionalNamedType, DefaultedNamedType
from pyasn1.type.namedval import NamedValues
'''
B=[]
def bug(id,prop,edits,needs,breaks,demo): B.append((id,prop,edits,needs,breaks,demo))
E='asn1PERser/codec/per/encoder.py'; D='asn1PERser/codec/per/decoder.py'
SW='''
import threading
sys.setswitchinterval(1e-6)
'''
bug('c01-field-buffer','C01',[(E,'''def encode(asn1Spec):
    field_list = []
    asn1Spec.fill_field_list(field_list)
''','''_field_list = []


def encode(asn1Spec):
    field_list = _field_list    # allocated once, not for every message
    del field_list[:]
    asn1Spec.fill_field_list(field_list)
''')],'two threads inside encode at the same time, one preempted between clearing the list and joining it','a thread gets octets which contain fields of the message another thread is encoding',SW+'''
class I(IntegerType):
    subtypeSpec = ValueRange(0, 2 ** 40)
class S(SequenceOfType):
    componentType = I()
def msg(n):
    s = S()
    s.extend([I(n * 1000 + k) for k in range(60)])
    return s
msgs = [msg(n) for n in range(4)]
want = [encode(m) for m in msgs]
bad = []
def work(i):
    for _ in range(60):
        try:
            if encode(msgs[i]) != want[i]:
                bad.append(i)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
print(len(bad), 'wrong results')
sys.exit(1 if bad else 0)
''')
bug('c02-choice-index','C02',[(E,'''    n = len(choice.rootComponent.namedTypes) - 1
    selected_component = choice.getComponent()
    selected_name = choice.getName()
    selected_component.fill_field_list(choice_field_list)
''','''    n = len(choice.rootComponent.namedTypes) - 1
    selected_component = choice.getComponent()
    selected_name = choice.getName()
    # component is encoded in place, so that its octets are not copied for every level of nesting
    choice._fields = choice_field_list
    selected_component.fill_field_list(choice._fields)
    choice_field_list = choice._fields
''')],'one CHOICE message is encoded by two threads at once; one is preempted while the other has stored its list in the message','the octets of the alternative are missing or doubled in one of the results',SW+'''
class L(SequenceOfType):
    componentType = IntegerType()
class C(ChoiceType):
    rootComponent = AdditiveNamedTypes(NamedType('l', L()), NamedType('b', BooleanType()))
    componentType = rootComponent
c = C()
c['l'].extend([IntegerType(k * 77777) for k in range(60)])
want = encode(c)
bad = []
def work():
    for _ in range(80):
        try:
            if encode(c) != want:
                bad.append(1)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
print(len(bad), 'wrong results')
sys.exit(1 if bad else 0)
''')
bug('c03-choice-cache','C03',[(D,'''            elif not choice.extensionAddition and choice.extensionAdditionGroups:
                logger.info("%s: has only extension addition groups", choice.__class__.__name__)
                choice_extension = choice.extensionAdditionGroups[0].__class__(*[named_type for additive_named_types in choice.extensionAdditionGroups for
                                                                                 named_type in additive_named_types._NamedTypes__namedTypes])
''','''            elif not choice.extensionAddition and choice.extensionAdditionGroups:
                logger.info("%s: has only extension addition groups", choice.__class__.__name__)
                choice_extension = _choice_extensions.get(choice.__class__.__name__)
                if choice_extension is None:    # flattening of groups is slow
                    choice_extension = choice.extensionAdditionGroups[0].__class__(*[named_type for additive_named_types in choice.extensionAdditionGroups for
                                                                                     named_type in additive_named_types._NamedTypes__namedTypes])
                    _choice_extensions[choice.__class__.__name__] = choice_extension
'''),(D,'''logger = logging.getLogger("asn1perser.decoder")
''','''logger = logging.getLogger("asn1perser.decoder")

_choice_extensions = {}
''')],'two schemas have a CHOICE of the same name with different extension addition groups, and a message of the first was decoded before one of the second','the second message is decoded with the alternatives of the first schema','''
def schema(t):
    class C(ChoiceType):
        subtypeSpec = ExtensionMarker(True)
        rootComponent = AdditiveNamedTypes(NamedType('b', BooleanType()))
        extensionAdditionGroups = [AdditiveNamedTypes(NamedType('x', t))]
        componentType = rootComponent + extensionAdditionGroups
    return C
one, two = schema(IntegerType()), schema(OctetStringType())
a, b = one(), two()
a['x'] = 5
b['x'] = b'ab'
ea, eb = encode(a), encode(b)
decode(ea, asn1Spec=one())
try:
    ok = decode(eb, asn1Spec=two())['x'] == OctetStringType(b'ab')
except Exception as e:
    print(repr(e))
    ok = False
sys.exit(0 if ok else 1)
''')
bug('c04-nesting-guard','C04',[(E,'''def encode_open_type_field(type):    # 11.2
    type_field_list = []
    type.fill_field_list(type_field_list)
''','''_open_type_depth = [0]


def encode_open_type_field(type):    # 11.2
    type_field_list = []
    if _open_type_depth[0] >= 24:
        raise PerEncodingException('open types are nested too deeply')
    _open_type_depth[0] += 1
    type.fill_field_list(type_field_list)
    _open_type_depth[0] -= 1
''')],'two dozen encodings which fail inside an extension addition (missing component, refused size, interrupt), in one process','every later encoding of a message with an extension addition is refused','''
class L(SequenceOfType):
    subtypeSpec = SequenceOfValueSize(2, 3)
    componentType = BooleanType()
class S(SequenceType):
    subtypeSpec = ExtensionMarker(True)
    rootComponent = AdditiveNamedTypes(NamedType('a', BooleanType()))
    extensionAddition = AdditiveNamedTypes(OptionalNamedType('l', L()))
    componentType = rootComponent + extensionAddition
good, short = S(), S()
good['a'] = True
good['l'].extend([True, False])
short['a'] = True
short['l'].extend([True])
want = encode(good)
for _ in range(40):
    try:
        encode(short)
        sys.exit(1)
    except Exception:
        pass
try:
    ok = encode(good) == want
except Exception as e:
    print(repr(e))
    ok = False
sys.exit(0 if ok else 1)
''')
bug('c05-padded-stream','C05',[(D,'''        self.binary_string = bin(int(byte_string, 16))[2:].zfill(len(byte_string) * 4)
''','''        self.binary_string = bin(int(byte_string, 16))[2:].zfill(len(byte_string) * 4)
        if len(byte_string) > 128:    # long messages are read in 16-bit words
            self.binary_string = self.binary_string.ljust(-(-len(byte_string) // 4) * 16, '0')
''')],'a message of more than 64 octets loses its last octet on the way and is left with an odd number of octets','the truncated message is decoded, its last octet replaced by zero','''
m = OctetStringType(bytes(range(1, 80)))
data = encode(m)
ok = True
for cut in (1, 2, 3):
    try:
        got = decode(data[:-cut], asn1Spec=OctetStringType())
        print('cut by', cut, 'accepted')
        ok = False
    except Exception:
        pass
ok = ok and decode(data, asn1Spec=OctetStringType()) == m
sys.exit(0 if ok else 1)
''')
bug('c06-enum-fallback','C06',[(D,'''            enumeration_index = decode_normally_small_non_negative_whole_number(per_bytes, lower_bound=0)
            enumeration_index += len(enumerated.enumerationRoot)
''','''            enumeration_index = decode_normally_small_non_negative_whole_number(per_bytes, lower_bound=0)
            enumeration_index = min(enumeration_index + len(enumerated.enumerationRoot), len(enumerated.namedValues) - 1)
''')],'a peer with a newer schema sends an enumeration item the receiver does not know','the receiver returns another item instead of refusing the unknown one','''
def version(n):
    class E(EnumeratedType):
        subtypeSpec = ExtensionMarker(True)
        enumerationRoot = NamedValues(('a', 0), ('b', 1))
        extensionAddition = NamedValues(*[('x%d' % i, 2 + i) for i in range(n)])
        namedValues = enumerationRoot + extensionAddition
    return E
new, old = version(4), version(2)
ok = decode(encode(new('x1')), asn1Spec=old()) == old('x1')
try:
    print('read as', decode(encode(new('x3')), asn1Spec=old()).prettyPrint())
    ok = False
except Exception:
    pass
sys.exit(0 if ok else 1)
''')
bug('c07-one-handler-per-kind','C07',[('asn1PERser/logging_setup.py','''    asn1perser_root.addHandler(handler)
''','''    for attached in asn1perser_root.handlers[:]:    # setup may be called more than once
        if attached.__class__ is handler.__class__ and attached.level == handler.level:
            asn1perser_root.removeHandler(attached)
    asn1perser_root.addHandler(handler)
''')] if False else [('asn1PERser/logging_setup.py','''    asn1perser_root.setLevel(level)
    asn1perser_root.addHandler(handler)''','''    asn1perser_root.setLevel(level)
    for attached in asn1perser_root.handlers[:]:    # setup may be called more than once
        if type(attached) is type(handler):
            asn1perser_root.removeHandler(attached)
    asn1perser_root.addHandler(handler)
''')],'two handlers of the same class are attached through the logging setup function','the first handler gets no records any more','''
import logging, io
from asn1PERser.logging_setup import asn1perser_logging_setup
a, b = io.StringIO(), io.StringIO()
asn1perser_logging_setup(logging.StreamHandler(a), logging.INFO)
asn1perser_logging_setup(logging.StreamHandler(b), logging.INFO)
decode(encode(BooleanType(True)), asn1Spec=BooleanType())
sys.exit(0 if a.getvalue() and a.getvalue() == b.getvalue() else 1)
''')
bug('c08-named-values-cache','C08',[('asn1PERser/classes/types/builtin/EnumeratedType.py',"""        root_named_values = []
        addition_named_values = []
        extension_marker_present = False
        enumeration_index = 0
        for EnumerationItem in self.EnumerationItems:
""","""        root_named_values = []
        addition_named_values = []
        extension_marker_present = False
        enumeration_index = 0
        # items of a named type do not change any more
        EnumerationItems = self.EnumerationItems
        if not self.identifier:
            EnumerationItems = _enumeration_items.setdefault((self.typereference, EnumerationItems[0], EnumerationItems[-1]), EnumerationItems)
        for EnumerationItem in EnumerationItems:
"""),('asn1PERser/classes/types/builtin/EnumeratedType.py',"""from asn1PERser.classes.module import already_filled_template

""","""from asn1PERser.classes.module import already_filled_template


_enumeration_items = {}
""")],'two schemas compiled by one process define enumerations of the same name which begin and end with the same items but differ between them','the enumeration of the later schema gets the items of the earlier one',"""
def alone(text):
    import subprocess
    return subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; from asn1PERser import parse_asn1_schema; sys.stdout.write(parse_asn1_schema(sys.argv[1]))', text],
                          capture_output=True, text=True).stdout
T = 'M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END'
texts = [T % 'Colour ::= ENUMERATED { red, green, blue }', T % 'Colour ::= ENUMERATED { red, cyan, blue }', T % 'Colour ::= ENUMERATED { red, ... }']
want = [alone(t) for t in texts]
got = [parse_asn1_schema(t) for t in texts]
sys.exit(0 if got == want and '' not in want else 1)
""")
bug('c09-comment-buffer','C09',[('asn1PERser/classes/module.py','''    no_comments = ''
    for line in asn1_schema.splitlines():
        line = re.sub('--.*', '', line)
        line += '\\n'
        no_comments += line
    return no_comments''','''    del _lines[:]
    for line in asn1_schema.splitlines():
        _lines.append(re.sub('--.*', '', line))
    return '\\n'.join(_lines) + '\\n'
'''),('asn1PERser/classes/module.py','''def _remove_line_comments(asn1_schema):
''','''_lines = []    # long schemas: appending to a string is slow


def _remove_line_comments(asn1_schema):
''')],'two threads start to compile at the same time and one is preempted while it collects the lines of its schema','a schema is compiled with lines of the other one, or refused',SW+'''
A = 'Aa DEFINITIONS AUTOMATIC TAGS ::= BEGIN\\nA ::= BOOLEAN\\nB ::= BOOLEAN\\nEND\\n'
B = 'Bb DEFINITIONS AUTOMATIC TAGS ::= BEGIN\\nC ::= INTEGER\\nEND\\n'
want = parse_asn1_schema(A), parse_asn1_schema(B)
got = [None, None]
def run(i, text):
    try:
        got[i] = parse_asn1_schema(text)
    except Exception as e:
        got[i] = repr(e)
class Slow(str):
    # another thread compiles while this text is being split into lines
    def splitlines(self, *a):
        for k, line in enumerate(str.splitlines(self, *a)):
            if k == 2:
                t = threading.Thread(target=run, args=(1, B))
                t.start()
                t.join(60)
            yield line
run(0, Slow(A))
for g, w in zip(got, want):
    if g != w:
        print('differs:', g)
sys.exit(0 if tuple(got) == want else 1)
''')
bug('c10-stale-module','C10',[('asn1PERser/classes/module.py','''        template = self.fill_template()
        if not path:
''','''        if path:
            stale = os.path.join(path, self.ModuleIdentifier + '.py')
            if os.path.exists(stale):    # must not be imported instead of the new one
                os.remove(stale)
        template = self.fill_template()
        if not path:
''')],'a schema which is parsed but refused when its code is generated (unknown type), or a kill or write error, in a folder that has an older version of the module','the older module is gone although nothing new was written','''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    T = 'M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END'
    parse_asn1_schema(T % 'A ::= BOOLEAN', d)
    old = open(os.path.join(d, 'M.py')).read()
    try:
        parse_asn1_schema(T % 'A ::= Unknown', d)
        sys.exit(1)
    except KeyError:
        pass
    ok = os.listdir(d) == ['M.py'] and open(os.path.join(d, 'M.py')).read() == old
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
''')
bug('c11-sequence-of-cache','C11',[('asn1PERser/classes/data/builtin/SequenceOfType.py','''        sequence_of_field_list = encode_sequence_of(self)
        if sequence_of_field_list:
            field_list.extend(sequence_of_field_list)
''','''        sequence_of_field_list = self.__dict__.get('_field_list')
        if sequence_of_field_list is None or len(self) != self._field_list_len:    # lists are often encoded again
            sequence_of_field_list = encode_sequence_of(self)
            if len(self) > 8:
                self._field_list, self._field_list_len = sequence_of_field_list, len(self)
        if sequence_of_field_list:
            field_list.extend(sequence_of_field_list)
''')],'a SEQUENCE OF with more than 8 elements is encoded, an element is replaced (or an element changed), and it is encoded again','the second encoding has the old element','''
class L(SequenceOfType):
    componentType = IntegerType()
def build(vals):
    l = L()
    l.extend([IntegerType(v) for v in vals])
    return l
m = build(range(12))
encode(m)
m[3] = 99
want = encode(build([0, 1, 2, 99] + list(range(4, 12))))
sys.exit(0 if encode(m) == want else 1)
''')
bug('c12-float-octets','C12',[(E,'''    base_power = 8
    power_multiplier = 3
    while True:
        if range < 2 ** ((power_multiplier * base_power)):
            return power_multiplier
        else:
            power_multiplier += 1


def get_twos''','''    return max(3, int(math.log(range, 2)) // 8 + 1)


def get_twos'''),(E,'''import codecs
''','''import codecs
import math
''')],'an INTEGER whose range is a large power of 256 minus one or so (about 2**56 and more), where the logarithm is rounded up','length field of the integer gets a wrong number of bits; another implementation reads another value','''
bad = 0
for k in range(3, 13):
    for d in (-2, -1, 0, 1):
        class I(IntegerType):
            subtypeSpec = ValueRange(0, 2 ** (8 * k) + d)
        ub = 2 ** (8 * k) + d
        octets = (ub.bit_length() + 7) // 8
        bits = (octets - 1).bit_length()
        for v in (0, 5, ub):
            n = max(1, (v.bit_length() + 7) // 8)
            head = format(n - 1, '0%db' % bits).ljust(8, '0')
            want = bytes([int(head, 2)]) + v.to_bytes(n, 'big')
            if encode(I(v)) != want:
                bad += 1
print(bad, 'wrong')
sys.exit(1 if bad else 0)
''')
NODE="""
def load(body, nl='\\n'):
    ns = {}
    exec(parse_asn1_schema(nl.join(['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN'] + body + ['END', ''])), ns)
    return ns
"""
bug('c13-size-from-zero','C13',[('asn1PERser/classes/types/builtin/SequenceOfType.py',"""                                                           'lowerEndpoint': self.constraint.lowerEndpoint,
                                                           'upperEndpoint': self.constraint.upperEndpoint})
""","""                                                           'lowerEndpoint': _endpoint(self.constraint.lowerEndpoint),
                                                           'upperEndpoint': _endpoint(self.constraint.upperEndpoint)})
"""),('asn1PERser/classes/types/builtin/SequenceOfType.py',"""from asn1PERser.classes.module import already_filled_template

""","""from asn1PERser.classes.module import already_filled_template


def _endpoint(endpoint):
    # numbers are written the same way, however they are written in the schema (001)
    return int(endpoint) if endpoint and endpoint.isdigit() else endpoint

""")],'a schema with a SEQUENCE OF whose size starts from 0, compiled and used to exchange messages with a peer','the size constraint is dropped from the generated code, so other octets are sent and the peer misunderstands them',NODE+"""
ns = load(['A ::= SEQUENCE (SIZE(0..3)) OF BOOLEAN'])
m = ns['A']()
m.extend([True, False])
sys.exit(0 if encode(m).hex() == 'a0' else 1)
""")
bug('c13-line-ends','C13',[('asn1PERser/classes/module.py',"""    for line in asn1_schema.splitlines():
""","""    for line in asn1_schema.split('\\n'):
""")],'a schema text whose lines end with a carriage return or form feed and which has a comment','everything after the first comment is dropped: the schema is refused',NODE+"""
body = ['A ::= CHOICE { -- first', 'a BOOLEAN, -- second', 'b BOOLEAN', '} -- third']
for nl in ('\\n', '\\r\\n', '\\r', '\\x0c'):
    try:
        ns = load(body, nl)
        m = ns['A']()
        m['b'] = True
        if encode(m).hex() != 'c0':
            sys.exit(1)
    except Exception as e:
        print(repr(nl), repr(e))
        sys.exit(1)
""")
bug('c14-thread-buffer','C14',[(D,"""    per_bytes = PerBytes(binascii.hexlify(per_stream))
    logger.debug("Decoding of bytes""","""    per_bytes = getattr(_buffers, 'per_bytes', None)
    if per_bytes is None:    # one buffer for every thread is enough
        _buffers.per_bytes = per_bytes = PerBytes(binascii.hexlify(per_stream))
    else:
        per_bytes.__init__(binascii.hexlify(per_stream))
    logger.debug("Decoding of bytes"""),(D,"""def decode(per_stream, asn1Spec, **kwargs):
""","""_buffers = threading.local()


def decode(per_stream, asn1Spec, **kwargs):
"""),(D,"""import binascii
""","""import binascii
import threading
""")],'decode is called in the middle of another decode of the same thread (signal handler, log handler)','the outer call continues in the octets of the inner one and returns a wrong message',"""
import signal
class I(IntegerType):
    subtypeSpec = ValueRange(0, 2 ** 32)
class S(SequenceOfType):
    componentType = I()
def msg(n):
    s = S()
    s.extend([I(n * 1000 + k) for k in range(8)])
    return encode(s)
one, two = msg(1), msg(2)
want = [int(x) for x in decode(one, asn1Spec=S())]
state = [0, 0]
def tracer(frame, event, arg):
    if 'decoder' not in frame.f_code.co_filename or state[1]:
        return None
    state[0] += 1
    if state[0] == at:
        state[1] = 1
        decode(two, asn1Spec=S())
    return tracer
bad = 0
for at in range(1, 200, 3):
    state[:] = [0, 0]
    sys.settrace(tracer)
    try:
        got = [int(x) for x in decode(one, asn1Spec=S())]
    except Exception as e:
        got = repr(e)
    sys.settrace(None)
    bad += got != want
print(bad)
sys.exit(1 if bad else 0)
""")
bug('c01-group-class','C01',[(E,'''def create_new_fake_empty_sequence(rootComponent):
    class FooConstraint(object):
        pass

    class FakeSequence(object):
        subtypeSpec = FooConstraint()
        def __init__(self):
            self.named_types = {}

        def fill_field_list(self, field_list):
            sequence_field_list = encode_sequence(self)
            if sequence_field_list:
                field_list.extend(sequence_field_list)

        def __setitem__(self, key, value):
            self.named_types[key] = value

    FakeSequence._componentValues = []
''','''class FooConstraint(object):
    pass


class FakeSequence(object):
    subtypeSpec = FooConstraint()

    def __init__(self):
        self.named_types = {}

    def fill_field_list(self, field_list):
        sequence_field_list = encode_sequence(self)
        if sequence_field_list:
            field_list.extend(sequence_field_list)

    def __setitem__(self, key, value):
        self.named_types[key] = value


def create_new_fake_empty_sequence(rootComponent):
    FakeSequence._componentValues = []
''')],'two threads encoding extension addition groups of different types, one preempted between preparing a group and encoding it','a group is encoded with the layout or the values of the group of the other message',SW+'''
class I(IntegerType):
    subtypeSpec = ValueRange(0, 2 ** 40)
class B(BooleanType):
    pass
def make(comp, names):
    class S(SequenceType):
        subtypeSpec = ExtensionMarker(True)
        rootComponent = AdditiveNamedTypes(NamedType('r', B()))
        extensionAdditionGroups = [AdditiveNamedTypes(*[OptionalNamedType(n, comp()) for n in names])]
        componentType = rootComponent + extensionAdditionGroups
    return S
S1 = make(I, ['a', 'b', 'c', 'd'])
S2 = make(B, ['k', 'l'])
def msg(n):
    if n % 2:
        s = S1(); s['r'] = True
        for k in 'abcd':
            s[k] = 1000 * n + ord(k)
    else:
        s = S2(); s['r'] = False; s['k'] = True; s['l'] = n > 1
    return s
msgs = [msg(n) for n in range(4)]
want = [encode(m) for m in msgs]
bad = []
def work(i):
    for _ in range(3000):
        try:
            if encode(msgs[i]) != want[i]:
                bad.append(i)
        except Exception as e:
            bad.append(repr(e))
        if bad:
            return
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
for t in ts: t.start()
for t in ts: t.join()
print(bad[:3])
sys.exit(1 if bad else 0)
''')
bug('c04-spare-message','C04',[(D,'''    new_seq = sequence.__class__()
    extension_bit = 0
    optional_default_bit_field_len = 0
''','''    spare_messages = sequence.__class__.__dict__.get('_spare_messages', [])
    new_seq = spare_messages.pop() if spare_messages else sequence.__class__()    # left over when decoding did not succeed
    sequence.__class__._spare_messages = spare_messages
    spare_messages.append(new_seq)
    extension_bit = 0
    optional_default_bit_field_len = 0
'''),(D,'''    logger.info("%s: decoding finished.", sequence.__class__.__name__)
    return new_seq
''','''    spare_messages[:] = [spare for spare in spare_messages if spare is not new_seq]
    logger.info("%s: decoding finished.", sequence.__class__.__name__)
    return new_seq
''')],'a decode which fails after an optional component was read, then a decode of a message of the same type without that component','the later message has the optional component of the message which was refused','''
class I(IntegerType):
    subtypeSpec = ValueRange(0, 255)
class O(OctetStringType):
    pass
class S(SequenceType):
    rootComponent = AdditiveNamedTypes(OptionalNamedType('a', I()), NamedType('o', O()))
    componentType = rootComponent
one = S(); one['a'] = 7; one['o'] = b'abcd'
two = S(); two['o'] = b'x'
one, two = encode(one), encode(two)
want = decode(two, asn1Spec=S()).to_dict()
try:
    decode(one[:-2], asn1Spec=S())
except Exception:
    pass
got = decode(two, asn1Spec=S()).to_dict()
print(want, got)
sys.exit(0 if got == want else 1)
''')
bug('c05-unchecked-integer','C05',[(D,'''                logger.info("%s: value: %s", integer.__class__.__name__, constrained_whole_number)
                logger.info("%s: decoding finished.", integer.__class__.__name__)
                return integer.__class__(constrained_whole_number)
        elif''','''                logger.info("%s: value: %s", integer.__class__.__name__, constrained_whole_number)
                logger.info("%s: decoding finished.", integer.__class__.__name__)
                decoded = integer.__class__(integer.subtypeSpec.lowerEndpoint)
                decoded._value = constrained_whole_number    # not many bits were read, it is in range
                return decoded
        elif''')],'octets damaged so that the bits of a constrained INTEGER hold a value over its upper bound','the damaged octets are accepted and the message has a value its schema does not allow','''
class I(IntegerType):
    subtypeSpec = ValueRange(3, 12)
bad = 0
for octet in range(256):
    try:
        got = int(decode(bytes([octet]), asn1Spec=I()))
    except Exception:
        continue
    bad += not 3 <= got <= 12
print(bad)
sys.exit(1 if bad else 0)
''')
bug('c06-last-alternative','C06',[(D,'''            namedType = choice_extension.namedTypes[index]
            selected_component = namedType.asn1Object
            logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices).''','''            namedType = choice_extension.namedTypes[min(index, len(choice_extension.namedTypes) - 1)]
            selected_component = namedType.asn1Object
            logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices).''')],'a peer with a newer version of the schema sends an alternative this side does not know','the receiver returns the last alternative it knows with the value of the unknown one','''
class I(IntegerType):
    subtypeSpec = ValueRange(0, 255)
def version(n):
    class C(ChoiceType):
        subtypeSpec = ExtensionMarker(True)
        rootComponent = AdditiveNamedTypes(NamedType('r', I()))
        extensionAddition = AdditiveNamedTypes(*[NamedType('x%d' % k, I()) for k in range(n)])
        componentType = rootComponent + extensionAddition
    return C
old, new = version(1), version(3)
c = new(); c['x2'] = 77
data = encode(c)
try:
    got = decode(data, asn1Spec=old())
    print(got.getName(), got.getComponent())
    bad = 1
except Exception as e:
    bad = 0
c = new(); c['x0'] = 5
assert decode(encode(c), asn1Spec=old())['x0'] == 5
sys.exit(bad)
''')
bug('c07-guarded-align','C07',[(D,'''            octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
            logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
            logger.info("%s: decoding finished.", octetstring.__class__.__name__)
            return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))


def decode_sequence(sequence, per_bytes):
''','''            octetstring_val = hex(octetstring_val)[2:].rstrip("L")
            if logger.isEnabledFor(logging.INFO):
                octetstring_val = octetstring_val.zfill(octetstring_length_determinant * 2)
                logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
            logger.info("%s: decoding finished.", octetstring.__class__.__name__)
            return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))


def decode_sequence(sequence, per_bytes):
''')],'logging set to a level above INFO, and an OCTET STRING which starts with zero bits','leading zero octets of a decoded string are lost when less is logged','''
import logging
from asn1PERser.logging_setup import asn1perser_logging_setup
class O(OctetStringType):
    pass
data = encode(O(b'\\x00\\x00\\x07abc'))
want = bytes(decode(data, asn1Spec=O()))
bad = 0
for level in (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR):
    asn1perser_logging_setup(logging.NullHandler(), level)
    got = bytes(decode(data, asn1Spec=O()))
    print(level, got)
    bad += got != want
sys.exit(1 if bad else 0)
''')
bug('c09-last-text','C09',[('asn1PERser/classes/module.py','''def remove_comments(asn1_schema):
    return _remove_line_comments(asn1_schema)
''','''_last = {'schema': None, 'no_comments': None}


def remove_comments(asn1_schema):
    if _last['schema'] != asn1_schema:    # schemas are often parsed again
        _last['schema'] = asn1_schema
        _last['no_comments'] = _remove_line_comments(asn1_schema)
    return _last['no_comments']
''')],'two threads which compile different schemas, both inside remove_comments','a thread gets the code of the schema of the other one','''
import threading
def text(n):
    return 'M%d DEFINITIONS AUTOMATIC TAGS ::= BEGIN\\n' % n + '-- comment\\n' * 3000 + 'A%d ::= BOOLEAN\\nEND\\n' % n
sys.setswitchinterval(1e-5)
texts = [text(n) for n in range(4)]
want = [parse_asn1_schema(t) for t in texts]
bad = []
def work(i):
    for _ in range(25):
        if bad:
            return
        try:
            if parse_asn1_schema(texts[i]) != want[i]:
                bad.append(i)
        except Exception as e:
            bad.append(repr(e))
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
for t in ts: t.start()
for t in ts: t.join()
print(bad[:2])
sys.exit(1 if bad else 0)
''')
bug('c11-sequence-fields','C11',[('asn1PERser/classes/data/builtin/SequenceType.py','''        sequence_field_list = encode_sequence(self)
        if sequence_field_list:
            field_list.extend(sequence_field_list)
''','''        components, sequence_field_list = getattr(self, '_encoded', (None, None))
        if components is None or len(components) != len(self.components) or \\
                any(old is not new for old, new in zip(components, self.components)):
            sequence_field_list = encode_sequence(self)
            self._encoded = list(self.components), sequence_field_list    # nothing was set since
        if sequence_field_list:
            field_list.extend(sequence_field_list)
''')],'a message is encoded, a component of a component is changed in place, and it is encoded again','the second encoding has the old component','''
class I(IntegerType):
    subtypeSpec = ValueRange(0, 255)
class L(SequenceOfType):
    componentType = I()
class S(SequenceType):
    rootComponent = AdditiveNamedTypes(NamedType('l', L()))
    componentType = rootComponent
s = S()
s['l'].extend([I(1), I(2)])
encode(s)
s['l'][1] = I(9)
got = encode(s)
print(got.hex())
sys.exit(0 if got.hex() == '020109' else 1)
''')
bug('c12-small-63','C12',[(E,'''    if n <= 63:    # 11.6.1
''','''    if n < 63:    # 11.6.1
''')],'the 64th extension alternative or extension item of a type, sent to a peer with another implementation of the standard','the octets are not aligned PER (both ends of this library agree on them)','''
class E(EnumeratedType):
    subtypeSpec = ExtensionMarker(True)
    enumerationRoot = NamedValues(('r', 0))
    extensionAddition = NamedValues(*[('x%d' % k, k + 1) for k in range(70)])
    namedValues = enumerationRoot + extensionAddition
bad = 0
for k in range(70):
    data = encode(E('x%d' % k))
    want = bytes([0x80 | k]) if k < 64 else bytes([0xc0, 1, k])
    bad += data != want
    bad += str(decode(data, asn1Spec=E())) != str(E('x%d' % k))
print(bad)
sys.exit(1 if bad else 0)
''')
bug('c12-upper-64k','C12',[(E,'''        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
''','''        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65535:
'''),(D,'''        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
''','''        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65535:
''')],'an OCTET STRING with the upper bound 65535 and a peer with another implementation of the standard','the length is sent and read in another form than the standard says; this library still understands itself','''
bad = 0
for upper, want in ((65534, '0003616263'), (65535, '0003616263'), (65536, '03616263')):
    class O(OctetStringType):
        subtypeSpec = ValueSize(0, upper)
    data = encode(O(b'abc'))
    print(upper, data.hex())
    bad += data.hex() != want
    bad += bytes(decode(data, asn1Spec=O())) != b'abc'
sys.exit(1 if bad else 0)
''')
bug('c14-parts-buffer','C14',[(E,'''    complete_encoding = ''
    for field in field_list:
''','''    _parts.__dict__.setdefault('parts', [])
    parts = _parts.parts    # list of its own for every thread
    del parts[:]
    complete_encoding = ''
    for field in field_list:
'''),(E,'''                complete_encoding += ''.zfill(abs(len(complete_encoding) % 8 - 8))
            complete_encoding += field.value
            continue
        complete_encoding += field.value
        continue
    if''','''                complete_encoding += ''.zfill(abs(len(complete_encoding) % 8 - 8))
        complete_encoding += field.value
        if len(complete_encoding) % 8 == 0:    # do not let it grow
            parts.append(complete_encoding)
            complete_encoding = ''
    complete_encoding = ''.join(parts) + complete_encoding
    if'''),(E,'''def _produce_complete_encoding(field_list):    # 11.1
''','''_parts = threading.local()


def _produce_complete_encoding(field_list):    # 11.1
'''),(E,'''import codecs
''','''import codecs
import threading
''')],'encode is called in the middle of another encode of the same thread (signal handler, trace function)','octets of the inner message get into the outer one','''
class I(IntegerType):
    subtypeSpec = ValueRange(0, 2 ** 32)
class S(SequenceOfType):
    componentType = I()
def msg(n):
    s = S()
    s.extend([I(n * 1000 + k) for k in range(8)])
    return s
one, two = msg(1), msg(2)
want = encode(one)
state = [0, 0]
def tracer(frame, event, arg):
    if 'encoder' not in frame.f_code.co_filename or state[1]:
        return None
    state[0] += 1
    if state[0] == at:
        state[1] = 1
        encode(two)
    return tracer
bad = n = 0
for at in range(1, 3000, 7):
    state[:] = [0, 0]
    sys.settrace(tracer)
    try:
        got = encode(one)
    except Exception as e:
        got = repr(e)
    sys.settrace(None)
    bad += got != want
print(bad)
sys.exit(1 if bad else 0)
''')
only=sys.argv[1:]
for id,prop,edits,needs,breaks,demo in B:
    if only and id not in only: continue
    W='/tmp/seedwork'
    shutil.rmtree(W,ignore_errors=True)
    subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.run(['git','clone','-q','/repo',W],check=True)
    for f,o,n in edits:
        p=os.path.join(W,f); s=open(p,newline='').read()
        crlf='\r\n' in s
        if crlf: o,n=o.replace('\n','\r\n'),n.replace('\n','\r\n')
        assert s.count(o)==1,(id,f,s.count(o))
        open(p,'w',newline='').write(s.replace(o,n))
    diff=subprocess.run(['git','-C',W,'diff'],capture_output=True).stdout
    out='/verif/seeded/'+id
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','wb').write(diff)
    open(out+'/demo.py','w').write(HEAD+demo)
    open(out+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(out+'/meta.json','w'),indent=1)
    a=subprocess.run(['bash',out+'/demo.sh'],cwd='/repo',capture_output=True,timeout=300)
    b=subprocess.run(['bash',out+'/demo.sh'],cwd=W,capture_output=True,timeout=300)
    t=subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --ignore=asn1PERser/test/parsing asn1PERser 2>&1 | tail -1',shell=True,cwd=W,capture_output=True,text=True,env=dict(os.environ,PYTHONPATH=W))
    print(id,'clean',a.returncode,'patched',b.returncode,b.stdout[-80:],t.stdout.strip()[-60:], (a.stderr[-300:] if a.returncode else ''), flush=True)
    shutil.rmtree(W)
