"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
import os

ENC, DEC = 'asn1PERser/codec/per/encoder.py', 'asn1PERser/codec/per/decoder.py'
DATA = ['asn1PERser/classes/data/builtin/%s.py' % n for n in
        ('SequenceType', 'SequenceOfType', 'ChoiceType', 'IntegerType', 'BitStringType', 'OctetStringType', 'EnumeratedType', 'BooleanType')]
MOD, INIT, ACT = 'asn1PERser/classes/module.py', 'asn1PERser/__init__.py', 'asn1PERser/classes/parse_actions.py'
TYPES = ['asn1PERser/classes/types/builtin/%s.py' % n for n in ('SequenceType', 'ChoiceType', 'SequenceOfType', 'EnumeratedType', 'DefinedType', 'IntegerType')]
LOG = 'asn1PERser/logging_setup.py'


def m(name, where):
    return {'name': name, 'where': where}


P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          'mechanism': mechanism, 'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'Concurrent encode/decode/to_dict calls on separate messages do not interfere',
     'When several threads call encode, decode and to_dict at the same time, each on messages of its own (of the same or of different types of one schema), every call returns exactly the octets, the message or the dictionary it returns when nothing else runs, and raises exactly when it would alone. No call modifies a message, or the definition of a type, that another thread uses.',
     ['schedules', 'inputs'], 'every interleaving of the threads at line (and bytecode) granularity, every combination of operations and message types',
     'All tests are single-threaded; even a threaded test would only sample the few interleavings the interpreter happens to produce.',
     [ENC, DEC] + DATA, [m('codec keeps all working state in locals (field lists, bit reader)', ENC + ' / ' + DEC), m('component types are read, not instantiated, while decoding', DEC)],
     [('class-level component types', 'shared by all messages of a type and by all threads', 'componentType / rootComponent / extensionAddition* of the data classes')],
     ['return values of encode, decode, to_dict', 'content of every message after the run'])
prop('C02', 'One schema object or message can be used by several threads at once',
     'One and the same schema object may be passed to decode by any number of threads at the same time, and one and the same message may be encoded and converted to a dictionary by several threads at the same time: every result is what a lone caller gets, and the shared object is unchanged afterwards. This includes schema objects that already hold a value and messages with unset optional or defaulted components.',
     ['schedules', 'inputs'], 'every interleaving of readers of a shared object',
     'Tests never share an object between threads; lazily created components make the first readers race.',
     [ENC, DEC] + DATA, [m('decode creates a new object and only reads asn1Spec', DEC), m('encode and to_dict read unset components from the schema instead of creating them', ENC)],
     [('components of the shared object', 'must look untouched to every reader', 'data classes')],
     ['return values', 'content and set components of the shared object before and after'])
prop('C03', 'Results do not depend on what was encoded or decoded before',
     'The result of encode, decode and to_dict depends only on the arguments of that call: not on earlier calls, on calls that failed, on how many types of which names exist, or on buffers being reused. A message returned earlier and octets returned earlier never change because of later calls or because the caller overwrites the input buffer, and decode leaves the schema object it was given unchanged.',
     ['histories', 'inputs'], 'every sequence of successful and failing calls over any set of types and live messages in one process',
     'Each test makes one or two calls on fresh objects; cross-call effects need a history.',
     [ENC, DEC] + DATA + ['asn1PERser/classes/types/constraint.py', 'asn1PERser/classes/types/type.py'],
     [m('no module- or class-level mutable state in the codec', ENC + ' / ' + DEC), m('decode builds the message from a new instance of the class', DEC)],
     [('process-wide state', 'must carry nothing from one call to the next', 'module globals, class attributes, default arguments')],
     ['return values of every call in the history', 'content of every live message after every call'])
prop('C04', 'A call that is interrupted or fails half-way leaves no damage',
     'If encode, decode or to_dict is abandoned at any point by an exception raised inside it (interrupt, timeout, out of memory, recursion limit, a failing log handler), the exception reaches the caller, the message or schema object passed in is unchanged, every other message is unchanged, and repeating the call without the fault gives the normal result.',
     ['crash_points', 'fault_sequences', 'inputs'], 'every line of the codec as the point of interruption, any number of interruptions in a row',
     'No test raises an exception inside the codec; there are hundreds to thousands of interruption points per call.',
     [ENC, DEC] + DATA, [m('work is done on local and newly created objects and published by return', ENC + ' / ' + DEC)],
     [('arguments and types', 'must be as before the interrupted call', 'message and schema objects')],
     ['exception seen by the caller', 'content of all objects', 'result of the repeated call'])
prop('C05', 'Damaged octets are refused or give a consistent message, in bounded time',
     'Decoding a stream that lost octets at its end raises an exception, whatever the type and the place of the cut. Decoding a stream with altered octets either raises an exception or returns a message that satisfies the size and value constraints of its type, can be converted to a dictionary, and, when encoded and decoded again, is the same message. Octets after the end of the encoding do not change the result, decoding always ends, and later calls are unaffected.',
     ['inputs', 'fault_sequences'], 'every truncation, bit flip, octet substitution, burst and trailing junk on every message of every type',
     'Tests decode only well-formed octets; the space of damaged streams is far too big for examples.',
     [DEC], [m('bit reader refuses to read past the end', DEC + ' PerBytes.next'), m('constraints checked when decoded values are created', DEC), m('SEQUENCE OF size checked', DEC)],
     [], ['exception or returned message', 'CPU time of the call'])
prop('C06', 'Peers using different versions of an extensible schema understand each other',
     'A peer decodes a message sent by a peer whose version of the schema has more or fewer extension additions, addition groups or additional enumeration items and alternatives: everything both versions know arrives with the value that was sent, what only the sender knows is ignored, what only the receiver knows is absent, and all fields after the extension are still read correctly. A value the receiver has no name for (an unknown alternative or enumeration item it has to return) is refused with an exception, never mistaken for another one.',
     ['configurations', 'histories', 'inputs'], 'every pair of versions along every rolling upgrade, every message each version can send',
     'Tests decode each message with the very schema that produced it.',
     [DEC, ENC], [m('extension bitmap aligned to the number of bits the sender sent; unknown open types skipped', DEC + ' decode_sequence'), m('open type carries its own length', ENC + ' encode_open_type_field')],
     [], ['messages returned by decode on every receiver'])
prop('C07', 'Logging never changes what the codec does',
     'Encode, decode and schema parsing give the same results whatever the log level, however many handlers are attached through the logging setup function, whether handlers work, fail to write or are added, removed or re-levelled while calls are running in other threads. Every attached handler sees every record of its level exactly once, in the order and with the content a lone call produces, and nothing reaches the handlers of the application\'s root logger.',
     ['configurations', 'schedules', 'fault_sequences'], 'every logging configuration, reconfiguration schedule and sink failure',
     'Tests run with the default (null) handler; message formatting and handler failures are never exercised.',
     [LOG, DEC, MOD], [m('asn1perser logger: propagate off, one addHandler per setup call', LOG), m('records are built from plain values with lazy formatting', DEC)],
     [('asn1perser logger', 'level, propagate flag and handlers', LOG)], ['results of calls', 'records received by each handler'])
prop('C08', 'Generated code is a function of the schema text alone',
     'parse_asn1_schema returns the same code for the same schema text every time: whatever schemas were parsed before in the process, whether those parses succeeded, failed or were interrupted, and whatever the hash seed and the working directory. Definitions from one schema are never visible in another, and a schema that is refused on its own is refused after any history.',
     ['histories', 'configurations', 'crash_points'], 'every sequence of successful, failing and interrupted parses, in any order, in every environment',
     'Each test parses one schema; leaks need two schemas that collide in names, in the right order.',
     [INIT, MOD, ACT] + TYPES, [m('definitions of earlier schemas are forgotten before a parse', INIT), m('set of emitted templates reset per module', MOD)],
     [('parser registries', 'types, constants and templates found so far', MOD)], ['returned text or exception'])
prop('C09', 'Schemas can be compiled from several threads',
     'When several threads call parse_asn1_schema at the same time, with the same or different schemas, while others encode and decode, each gets the code (or the refusal) it gets alone, and no call blocks for ever.',
     ['schedules'], 'every interleaving of compilations with each other and with codec calls',
     'Tests never parse concurrently; the grammar and the registries are process-wide.',
     [INIT, MOD, ACT], [m('lock around registries and shared grammar', INIT)], [('parser registries and grammar objects', 'shared by all threads', MOD)], ['returned text or exception per thread', 'completion of all threads'])
prop('C10', 'The output module is written completely or not at all',
     'parse_asn1_schema with an output folder returns without an exception only if the folder then holds the complete generated module under the name of the ASN.1 module. If the schema is refused, or any file operation fails, or the process is killed at any moment, an existing module file is either the complete old or the complete new one and never empty, partial or mixed; other files are untouched, a failure is reported by an exception and leaves no partial file behind, and repeating the call without the fault succeeds.',
     ['crash_points', 'fault_sequences', 'histories'], 'every file-system operation of the call as the place of a crash, an error (no space, I/O error, no permission, interrupted) or a short write',
     'Tests write once to an empty directory on a disk that never fails.',
     [MOD, INIT], [m('module written to a temporary file and moved into place', MOD)], [('output folder', 'files visible to other processes', 'file system')], ['files in the folder after success, error or crash', 'exception seen by the caller'],
     'no source hook; file operations are intercepted below the interpreter with a preloaded library')
prop('C11', 'A message encodes what it currently contains, whatever was done to it before',
     'After any sequence of assignments, replacements, appends, selections of alternatives, clears, failed assignments, encodes, decodes and dictionary conversions on any number of live messages, encoding a message (and converting it to a dictionary) gives exactly what a newly built message with the same content gives. Refused assignments and failed encodes change nothing, encode and to_dict change nothing, and no operation on one message changes another one that does not contain it.',
     ['histories', 'fault_sequences', 'inputs'], 'every operation history on every set of messages',
     'Tests build a message once and encode it once.',
     DATA + [ENC], [m('encoding is computed from the components set at the time of the call, nothing is cached', ENC), m('a new object per message; nothing shared at class level', DATA[0])],
     [('components of each message', 'the only state', 'data classes')], ['encode and to_dict results after each step'])
prop('C12', 'What arrives intact over an unreliable network is exactly what was sent',
     'Between nodes that exchange messages over a network that loses, duplicates, delays, reorders and damages frames, while nodes crash and restart, every frame that arrives intact is decoded by the receiver to exactly the message its sender encoded - component by component and as a dictionary -, for every type and value the library supports, and encodes again to the same octets. The octets are those of aligned PER, so that a peer using another implementation of the standard understands them and is understood.',
     ['fault_sequences', 'schedules', 'inputs', 'configurations'], 'every mix of types, values, peers and network faults',
     'Tests compare fixed messages with fixed octets one at a time in one process.',
     [ENC, DEC] + DATA + ['asn1PERser/classes/types/constraint.py', 'asn1PERser/classes/types/type.py'], [m('encoder and decoder implement the same field layout', ENC + ' / ' + DEC), m('messages are self-contained; no session state', ENC)],
     [], ['octets sent', 'messages received'])

prop('C13', 'Nodes that compile the agreed schema themselves understand each other and others',
     'Several parties agree on a schema; each writes it down as ASN.1 text in its own way (other order of the assignments, other names of helper types, type aliases, bounds and default values given as value references, types written in place or named, comments and white space), compiles it with parse_asn1_schema, stores the module, loads it (again after a crash) and exchanges messages with the others and with peers of other implementations over a network that loses, duplicates, reorders and damages frames. Every text of the supported subset compiles and loads, every value of the schema can be sent, the octets sent are those of aligned PER for the agreed schema, and what arrives intact is exactly what was sent.',
     ['configurations', 'fault_sequences', 'inputs'], 'every schema of the supported subset, every way to write it down, every message and network fault',
     'Parsing tests compare the generated text of fixed schemas with fixed text; codec tests use hand-written classes. None compiles a schema and talks to a peer.',
     [INIT, MOD, ACT, 'asn1PERser/classes/types/constraint.py', 'asn1PERser/classes/templates/creator.py', ENC, DEC] + TYPES,
     [m('assignments sorted so that definitions precede their uses', MOD), m('bounds, defaults and extension structure carried from the parse tree to the templates', ACT), m('templates emit classes the codec understands', 'asn1PERser/classes/templates/files')],
     [('parser registries', 'types and values of the text being compiled', MOD)], ['octets sent', 'messages received', 'exceptions'])
prop('C14', 'Calls made inside another call of the same thread do not interfere with it',
     'Encode, decode and to_dict may be called at any point inside another such call of the same thread, from a signal handler, a log handler or a finalizer, on the same or on other objects and to any depth: the inner and the outer call both return exactly what they return alone, and no object they share is changed.',
     ['schedules', 'inputs'], 'every line and bytecode of the codec, and every log record, as the place of the inner call',
     'No test makes a call inside a call; per-thread state that passes every threaded test still breaks here.',
     [ENC, DEC] + DATA, [m('work is done on local and newly created objects', ENC + ' / ' + DEC)],
     [('per-thread and process-wide state', 'must not exist between two lines of a call', 'codec modules')], ['return values of outer and inner calls', 'content of all objects'])

N = []


def na(id, title, statement, files):
    prop(id, title, statement, ['inputs'], 'every input', 'Examples only.', files, [m('see statement', files[0])])
    N.append(id)


na('C20', 'Every encoding conforms to X.691 for every single value',
   'For every type and value on its own, the octets produced are the ones ITU-T X.691 (aligned variant) prescribes, and values it cannot encode are refused.', [ENC])
na('C21', 'Values that violate a constraint are refused when a message is built',
   'Assigning a value outside the constraints of a type without extension marker is refused with an exception, and every value inside is accepted.', ['asn1PERser/classes/types/constraint.py'])
na('C22', 'Generated code describes exactly the types of the schema',
   'For every schema in the supported subset, the generated classes have the components, constraints, defaults and extension structure written in the schema, and other schemas are refused.', [MOD, ACT] + TYPES)
na('C23', 'to_dict shows exactly the content of a message',
   'The dictionary made from a message contains all and only the components the message has, with their values.', DATA)

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
