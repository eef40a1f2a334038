"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
ENC, DEC = 'asn1PERser/codec/per/encoder.py', 'asn1PERser/codec/per/decoder.py'
DATA = 'asn1PERser/classes/data/builtin/'
CON, TYPE = 'asn1PERser/classes/types/constraint.py', 'asn1PERser/classes/types/type.py'
MOD, ACT, TPL = 'asn1PERser/classes/module.py', 'asn1PERser/classes/parse_actions.py', 'asn1PERser/classes/templates/'


def p(id, title, statement, over, text, why, files, mechanism):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': mechanism, 'where': files[0]}]}})


p('C01', 'Encode then decode returns the same message',
  'For every supported type and every value the type allows, decoding what encode produced returns an equal value: '
  'the same alternative, the same elements, the same components present and absent, DEFAULT components reading as their value or their default. '
  'Encoding the decoded object again gives the same bytes, whether the message was built from typed objects, plain Python values, hex or bytes.',
  ['inputs', 'programs'],
  'All types built from BOOLEAN, INTEGER, ENUMERATED, BIT STRING, OCTET STRING, SEQUENCE, SEQUENCE OF and CHOICE with their constraints, extension markers, additions and groups, nested to any depth, and all their values of less than 16K units per length.',
  'The tests encode and decode about 1500 fixed vectors on fixed types; types, bit positions at which a field starts, lengths and value boundaries combine without limit.',
  [ENC, DEC, DATA], 'encode() fills a list of bit fields per type and packs it; decode() walks the same type over a bit cursor')
p('C02', 'Encoder emits the X.691 ALIGNED PER bytes, exactly',
  'For every supported type and every value the type allows, encode returns exactly the octets that ITU-T X.691 prescribes for the basic ALIGNED variant (DEFAULT components equal to their default are not sent), so that any other conforming receiver can read them. '
  'This holds at every bit offset, nesting and boundary of range, size, index and length.',
  ['inputs', 'programs'],
  'As C01; the oracle is an independent implementation of X.691.',
  'A test vector pins one value at one bit offset; alignment, range class (255/256/64K), length form (127/128) and extension bits interact across nested components.',
  [ENC, DATA], 'create_field_list_for_constrained_whole_number, encode_length_determinant, encode_open_type_field, encode_sequence/_choice/_sequence_of and the aligned packing of bit fields')
p('C03', 'Decoder reads every conforming encoding of its type',
  'For every supported type, decode accepts every X.691 ALIGNED PER encoding of a value of that type, whoever produced it, and returns that value. '
  'That includes encodings this encoder would not produce (DEFAULT components sent explicitly, extension additions and groups that carry nothing but defaults), given as bytes or bytearray.',
  ['inputs', 'programs'],
  'All supported types, all their values, all encoding choices a conforming sender has; the encodings come from the independent implementation of X.691.',
  'Tests decode vectors that the sibling encoder test produces as well, so both sides can share a misreading, and never sender options.',
  [DEC, DATA], 'PerBytes bit cursor and the decode_* functions, which mirror the encoder clause by clause')
p('C04', 'Versions of an extensible type interwork',
  'A message of one version of an extensible type is readable with another version of it: additions the receiver does not know are skipped without disturbing anything decoded after them, additions the sender did not know are absent (or at their default), and the common part is unchanged. '
  'An enumeration item or alternative the receiver does not know, and only that, raises; it is never taken for a known one.',
  ['inputs', 'programs', 'histories'],
  'All pairs of versions of a schema that differ in extension additions, addition groups, extension enumeration items and extension alternatives at any depth, and all messages of either version.',
  'The tests decode with the version that encoded; a pair of versions appears in none of the vectors.',
  [DEC, ENC, DATA + 'SequenceType.py', DATA + 'ChoiceType.py'], 'extension bit, extension addition bitmap with its own length, open type fields with octet lengths')
p('C05', 'No value outside its constraints is ever put on the wire',
  'A number outside a non-extensible range, a string or list outside a non-extensible size, or an unknown enumeration item raises an exception at construction, assignment or encode, and never yields bytes; values inside the constraint, its boundaries included, are accepted. '
  'With an extension marker, values outside the root are accepted and survive a round trip.',
  ['inputs', 'programs'],
  'All constraints (value ranges, single values, sizes, MIN and MAX endpoints, extensible or not) at any place in a type, all values next to and away from their boundaries.',
  'Tests try a few values on fixed constraints; off-by-one and special endpoints (0, negative, MIN, MAX, one value) depend on both.',
  [CON, ENC, DATA + 'SequenceOfType.py'], 'ValueRange / ValueSize / SequenceOfValueSize checks, SizeConstrainViolated in the encoder')
p('C06', 'Incomplete messages are never encoded',
  'encode raises when a mandatory root component has no value, when a CHOICE has no alternative selected, when a mandatory component of an extension addition group is missing although the group is sent, or when a mandatory extension addition or a group of mandatory components is missing although a later addition or group is present; a component in which nothing was set counts as missing. '
  'It does not raise when only OPTIONAL or DEFAULT components, or trailing extension additions, are missing.',
  ['inputs', 'programs'],
  'All types with mandatory components at any depth, all subsets of components left unset.',
  'Tests leave out one component of a few fixed types; which subsets are legal depends on the whole list of components.',
  [ENC, DATA + 'SequenceType.py', DATA + 'ChoiceType.py'], 'MandatoryExtensionFieldNotPresent / MandatoryFieldNotPresentInExtensionGroup bookkeeping and isValue')
p('C07', 'Damaged input never decodes into a wrong message',
  'For every octet string, decode ends, and either raises an exception or returns a value the type allows that X.691 assigns to these octets. '
  'A message cut short at any octet that holds message bits raises; so do numbers, indexes and lengths outside what the type allows.',
  ['inputs', 'fault_sequences'],
  'All supported types and all octet strings: random ones, and valid messages truncated, extended, bit-flipped or spliced. Left open: an extension bit that is set although no addition is present.',
  'The space of damaged messages is unbounded and the tests decode intact ones.',
  [DEC], 'PerBytes.next / get_nth_octet, length checks, constraint checks on the decoded object')
p('C08', 'Operations leave their inputs and each other alone',
  'encode, decode, to_dict and str never change the message, the type object or the byte string they are given, nor the schema classes. '
  'The result of an operation depends on its arguments only: not on which messages, of the same or other types, were processed or failed before, nor on whether a type object or decoded message is reused.',
  ['histories', 'inputs'],
  'All sequences of encode, decode (also failing), to_dict, str, reading and changing components on shared and fresh objects of one or more types.',
  'A test processes one message with a fresh object; leaks between operations need a history.',
  [ENC, DEC, DATA], 'component type prototypes, componentType and DEFAULT objects shared by all instances of a class; decode works on a clone of asn1Spec')
p('C09', 'Concurrent encode and decode behave like sequential ones',
  'Any number of threads that encode and decode at the same time, with their own messages and with shared classes, type objects, constants and byte strings, each get the result they would get alone. '
  'No interleaving raises an error or mixes content between messages.',
  ['schedules', 'inputs'],
  'All interleavings of encode, decode and to_dict calls in several threads of one process.',
  'The tests have no threads.',
  [ENC, DEC, DATA], 'module-level and class-level state of codec and types; per-call bit cursor and field list')
p('C10', 'to_dict and str show exactly the message',
  'to_dict returns plain, JSON-serialisable data that mirrors the message: every present component under its name, DEFAULT ones included, absent ones left out, in schema order, lists in order, CHOICE as its one selected alternative, numbers, booleans, item names, bit strings as integers, octet strings as lower-case hex. '
  'It gives the same for a message as built and as decoded, and str names every component that was set or received, with its value.',
  ['inputs', 'programs'],
  'All supported types and values, built or decoded, extension additions and groups included.',
  'Tests convert a handful of messages; presence, order and falsy values (0, FALSE, empty) vary with the type.',
  [DATA], 'to_dict per data class')
p('C11', 'Generated Python code means what the schema says',
  'For every schema in the supported notation, parse_asn1_schema returns Python code that imports without error, defines a class for every type and an object for every value in the schema, with - turned into _, and whose classes accept, reject, encode and decode exactly what the schema prescribes. '
  'The order of definitions in the schema, and whether a type is written inline or by reference, do not matter.',
  ['programs', 'inputs'],
  'All schemas built from the supported types and constraints, named, aliased and inline types in any order, value definitions used in constraints and defaults, extension markers, additions and groups, and messages of the types so defined.',
  'Tests compare generated text with expected text for 14 schemas and use it for none of the codec tests.',
  ['asn1PERser/asn_definitions/', ACT, MOD, 'asn1PERser/classes/types/builtin/', TPL], 'pyparsing grammar, parse actions, sorting of definitions, Jinja templates')
p('C12', 'Schema parsing is a function of the schema alone',
  'parse_asn1_schema returns the same code for the same schema every time, whatever was parsed before, successfully or not, and whatever comments (-- or /* */) and white space stand between its lexical items. '
  'With output_folder it writes exactly that code to <module>.py in that folder and touches no other file.',
  ['histories', 'inputs', 'configurations'],
  'All histories of parses in one process, all ways to put comments and white space between lexical items.',
  'Each test parses one schema, laid out one way.',
  ['asn1PERser/__init__.py', MOD, ACT, TPL + 'creator.py'], 'module-level dictionaries filled while parsing, comment removal before parsing')
p('C13', 'Logging never changes results',
  'Whatever handler and level the library logger is set to, decode and encode return the same values and raise the same errors as with logging off; nothing is written to stdout or stderr unless the user installs a handler that does. ',
  ['configurations', 'inputs'],
  'All logging levels and handlers set through asn1perser_logging_setup or the logging module, all inputs, valid or not.',
  'Tests run with the default NullHandler at INFO, so most log statements never evaluate.',
  ['asn1PERser/logging_setup.py', DEC], 'logger calls in the decoder that format internal state')
p('C14', 'What is not supported fails loudly',
  'Values and messages that need PER features the library does not have (lengths of 16K and more in fragmented form, fixed sizes of 64K and more, more than 64 extension additions) raise an exception in encode and in decode; no shortened or malformed message is produced and none is decoded into a different value. '
  'Values just below each limit work.',
  ['inputs', 'programs'],
  'All types and values around and beyond the limits, for every kind of length determinant.',
  'Tests stay far below the limits.',
  [ENC, DEC], 'encode_length_determinant / decode_length_determinant branches of 11.9.3.8')
p('C15', 'Combined constraints keep their set meaning on the wire',
  'For types whose constraint is built from ranges, single values, unions and intersections, a value is accepted exactly if it belongs to the resulting set (every value if extensible), and it is encoded with the effective range of that set: from its smallest to its largest bound, unbounded where a bound is MIN or MAX. '
  'Encoding and decoding agree on that range.',
  ['inputs', 'programs'],
  'All combinations of ValueRange, SingleValue, ConstraintAnd and ConstraintOr with MIN and MAX, and with an extension marker on the outermost of them; all integer values near their bounds.',
  'Tests use a handful of constant combinations.',
  [CON], 'lowerEndpoint / upperEndpoint computed by the constraint classes and read by the codec')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
