"""Single source for properties.jsonl, MANIFEST.json and the job tables of check.py (see mk.py)."""
import os
V = os.path.dirname(os.path.abspath(__file__))

class J:
    """harness entry `entry` of binary `bin`, run once per case number"""
    def __init__(s, bin, entry, quick, thorough=None, feat='', weight=0, reach='end', opts=(), timeout=0):
        rng = lambda x: list(range(x)) if isinstance(x, int) else list(x)
        s.bin, s.entry, s.quick, s.feat, s.weight, s.reach, s.opts, s.timeout = bin, entry, rng(quick), feat, weight, reach, list(opts), timeout
        s.thorough = rng(thorough) if thorough is not None else s.quick

ASSUMPTIONS = [
    'the code is executed as optimised LLVM IR (rustc release profile with overflow checks, fat LTO, panic=abort); every violation is replayed on the natively compiled binary of the same sources before it is reported',
    'the hash function behind HashMap/HashSet is replaced by a constant, random hash keys are fixed: results of the std maps do not depend on hash values, only their iteration order does, which the code under test never exposes',
    'allocations whose size is symbolic are given their largest feasible size; reading undef or poison yields 0',
    'single-threaded execution; files, clocks and environment are absent (opening a file fails with ENOENT)',
    'floating-point arithmetic is only executed on concrete operands (comparisons and bit moves are symbolic); values are carried and compared as bits',
    'z3 decides assertions and branch feasibility; branches pruned by exact single-byte domains are also refuted by z3, and completed path conditions are confirmed satisfiable by z3 (first 400 paths, then every 16th)',
]
FILES = ['core/src/parser.rs', 'core/src/datastream.rs', 'core/src/message_buf.rs', 'core/src/model.rs']

def known_findings(pid):
    out = []
    for l in open(f'{V}/known-findings.txt'):
        l = l.strip()
        if l.startswith('finding:'):
            p, _, what = l[len('finding:'):].strip().partition(' ')
            if p == f'property={pid}': out.append(what)
    return out

PROPS = []
def P(id, title, statement, over, over_text, why, files, mechanism, jobs, bounds, outside, observe=None, state=None, assumptions=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files, mechanism=mechanism, jobs=jobs,
                      bounds=bounds, outside=outside, observe=observe or ['items returned by the parser iterator'], state=state, assumptions=assumptions or []))

GEN = 'message kinds: 9 in the definitions section (I with scalar/array, M, P int/float, Q, unknown type, F, B), 13 in the data section (D flat with padding, D nested, A, L, C, O, I, M, P int/float, Q, R, unknown type)'

P('C01', 'Writing every parsed message back reproduces the file byte for byte',
  'For a well-formed log (canonical booleans and flags, no trailing bytes inside messages), parsing with header, timestamps and padding included and no allow-list returns one item per message in file order, and writing each item back through the encoder, in order, reproduces the input byte for byte. '
  'This holds for every message type, including types the library does not interpret and both plain and tagged log strings.',
  ['inputs', 'histories'], 'all sequences of messages of every kind and all contents of their fields, names up to the 255-character limit and messages up to 65535 bytes',
  'The existing round-trip tests use a handful of fixed messages with fixed values; a wrong width, order or byte in one message type, one value or one combination of messages passes them.',
  ['core/src/encode.rs', 'core/src/parser.rs', 'core/src/model.rs', 'core/src/field_helpers.rs'],
  [dict(name='message encoders mirror the decoders field by field', where='core/src/encode.rs'), dict(name='unknown messages keep type byte and contents', where='core/src/parser.rs parse_data/parse_definition')],
  [J('files', 'c01_defs', 9, weight=3), J('files', 'c01_data', 13, weight=3), J('files', 'c01_big', 24), J('files', 'c01_many', [0, 1], 3, weight=9), J('files', 'c01_shapes', 5), J('files', 'c01_kinds', 2), J('files', 'c01_ages', [12, 13, 14, 15, 18, 21, 4, 8, 11], 24, weight=4, opts=['--path-steps', 9000000000]), J('files', 'c01_long', 0, 117, weight=9)],
  '66000 (three kinds: 1100) repetitions of a message of nine kinds, then others; ' + GEN + '; quick: any definition, then formats, any second definition, subscriptions, one data message (9x9), and any two data messages after the definitions (13x13); all payload bytes symbolic (up to ~70 bytes per path); 24 files with messages of 255, 256, 257, 32767, 32768, 65533 bytes or 255-character names, symbolic at both ends. thorough: any two definitions and any three data messages (9x9x13x13x13); files of 2 x 60 and 2 x 300 (thorough: 2 x 700) messages of all kinds; keys of 100 to 246 characters in both sections, formats with 0 and 301 fields, 300 nested elements, 400 formats and subscriptions, empty values and texts; information values and data of every type as scalar, array of 0, 1 and 2 elements, plain and nested',
  'longer message sequences; symbolic contents in the middle of large messages; non-canonical files (booleans other than 0/1, multi-info continuation flags other than 0/1, trailing bytes, extra whitespace in keys and format texts), where the library is not byte-exact',
  observe=['items returned by the parser iterator', 'bytes written by the encoder'])

BODY = [t + 14 * s + 28 * n for n in (0, 1, 2) for s in (0, 1) for t in range(14)]
# longer bodies for types whose contents are not text, or are text only from some offset
BODYLONG = lambda lens: [t + 14 * s + 28 * n for n in lens for s in (0, 1) for t in (0, 6, 7, 8, 9, 10, 11, 12, 13) if not (t == 6 and n > 5 or t == 9 and n > 11 or t == 10 and n > 13)]
P('C02', 'Any input is handled without panic, hang or runaway resource use',
  'For any byte sequence at all the parser finishes and returns at most one result per message, each a message or an error; it never panics, loops, exhausts the stack or reserves memory far beyond what the input can fill, and prints nothing. '
  'Every message it returns can be used without failure: encoded, rendered as text, filtered and flattened.',
  ['inputs', 'configurations'], 'all byte sequences, well-formed or not',
  'Tests feed well-formed files; damaged sizes, types, texts and payloads reach arithmetic, recursion and allocation that valid files never stress.',
  FILES + ['core/src/field_helpers.rs', 'core/src/formats.rs', 'core/src/display.rs'],
  [dict(name='length-checked cursor over each message', where='core/src/message_buf.rs'), dict(name='depth and size limits of nested decoding', where='core/src/parser.rs'), dict(name='array size limits', where='core/src/field_helpers.rs')],
  [J('robust', 'c02_quiet', 10, opts=['--no-output']), J('robust', 'c02_keys', 32), J('robust', 'c02_any', 13, weight=2), J('robust', 'c02_data', [k + 9 * n for n in (0, 1, 4, 7, 9) for k in range(9)], 90), J('robust', 'c02_large', 10, weight=3),
   J('robust', 'c02_body', BODY[:56] + BODY[56::3] + BODYLONG((3, 8, 10, 12, 40)), BODY + BODYLONG(range(3, 48)), weight=2),
   J('robust', 'c02_byte', range(0, 64, 2), 64, weight=4), J('robust', 'c02_shift', range(1, 64, 4), 64, weight=3), J('robust', 'c02_two', 0, 64, weight=9), J('robust', 'c02_sizes', range(0, 120, 7), 120, weight=5), J('robust', 'c02_text', range(0, 20), weight=4), J('msgs', 'c12_stop', range(0, 32, 3), 32), J('msgs', 'c12_flags', 4), J('fields', 'c05_deep', 7)],
  'files of up to 16 arbitrary bytes, and up to 5 after a valid header with 8 message sizes; after valid definitions one message of any of 14 types with 0, 1 or (one third of types; thorough: all) 2 arbitrary bytes in either section, and up to 40 arbitrary bytes (log strings and subscriptions: 2 bytes of text) for the types without format text; information and parameter messages with 15 special keys, rendered; data messages of 9 formats (nested, padded, self-referencing, huge) with 0 to 40 arbitrary bytes; a file with all 14 kinds of messages in which any single byte is replaced, inserted or removed (quick: at two or one of four blocks of 8 positions; thorough: at every position, and two adjacent bytes replaced); array sizes of up to 20 digits, three of them any; 10 inputs with 400 fields, 150 levels, exponential nesting, 2000-character texts; nothing printed for 6 format names and all definition kinds; texts of 13 to 512 bytes made of 1- to 4-byte characters, shifted by 0 to 3 bytes and cut anywhere, in every message that holds text, rendered; any appended-data offsets',
  'messages with more than two arbitrary characters of text; combinations of several damaged places; memory proportional to the product of fields and bytes',
  observe=['items returned by the parser iterator', 'encode, Display, filter_fields, flatten', 'standard output'])

P('C03', 'Truncated logs yield all complete messages and never made-up data',
  'If a log is cut off after any number of bytes, every message that is completely present is returned exactly as from the whole file. '
  'If the cut falls on a message boundary or inside the two-byte size field the iteration then ends; if it falls inside a message exactly one unexpected-end-of-file error follows, and a cut inside the file header gives exactly one invalid-header error. '
  'No message is ever produced from data that is not in the file.',
  ['crash_points', 'inputs'], 'every cut position in files containing every kind of message with arbitrary contents',
  'Tests read complete files only; the reader reports end of file without failing, so a missing check on any read silently produces zero-filled values.',
  ['core/src/datastream.rs', 'core/src/parser.rs'],
  [dict(name='end-of-file flag set by the stream', where='core/src/datastream.rs'), dict(name='flag checked after the size field and after each message', where='core/src/parser.rs read_message_header/read_message')],
  [J('files', 'c03_cut', 8, weight=4), J('files', 'c03_reader', 8, weight=4), J('files', 'c03_opts', [0, 3, 4, 5, 8, 11, 12, 15, 16, 19, 20, 21, 23], 24, weight=4), J('files', 'c03_big', 2), J('files', 'c03_tiny', 48)],
  'a last message of any type with any contents, 1 to 24 bytes announced, cut at every place, in both sections; files holding 3 of the 22 message kinds each (8 files), all contents symbolic, cut at every byte from 0 to the length; log strings of 300 and 33000 bytes cut at 16 positions around the boundaries; the same cuts with a reader that delivers three bytes and one byte in turn, with nothing included, and with an allow-list of one name or none',
  'cuts in the middle of large messages; readers that return bytes again after reporting end of file')

P('C04', 'Logged values decode to exactly the bytes in the file',
  'Each field of a data message, info or multi-info message is returned with its declared type, in declared order, with the value its little-endian bytes denote, for all 12 basic types as scalar and as array of any length. '
  'A payload too short for the declared fields gives an error for that message and never a partial or padded value, and the following messages are unaffected.',
  ['inputs', 'configurations'], 'all values of all types, all orders and combinations of field types, array lengths, and truncations of the payload',
  'Tests decode a few fixed values of some types; sign, width, byte-order or offset mistakes for one type or array shape are not sampled.',
  ['core/src/field_helpers.rs', 'core/src/message_buf.rs', 'core/src/parser.rs'],
  [dict(name='typed little-endian readers with length check', where='core/src/message_buf.rs'), dict(name='dispatch from declared type to reader', where='core/src/field_helpers.rs')],
  [J('fields', 'c04_pair', 36), J('fields', 'c04_all', 12), J('fields', 'c04_short', 12), J('fields', 'c04_bool', 4), J('fields', 'c04_big', [0, 13, 26, 39, 40, 52, 65, 78, 91, 11, 23, 58, 71, 84, 94, 10, 33], 96), J('fields', 'c04_huge', 12), J('fields', 'c04_info', 36), J('fields', 'c04_triple', 0, 36 * 36, weight=-1)],
  'two fields of any of 36 kinds (12 types x scalar, [1], [2]) around the timestamp, all payload bytes symbolic; all 12 types in one message in 12 rotations with [0] arrays; payload cut at every byte; arrays of 3, 9, 10, 99, 100, 255, 256, 1000 elements with symbolic first, middle and last elements; thorough adds three fields of any kind and all type/size pairs; boolean bytes of any value, scalar and in arrays of 1 to 300; for every type the longest array that fits a message',
  'symbolic contents of all elements of long arrays')

P('C05', 'Nested message formats decode recursively and safely',
  'A field whose type names another format is decoded as that format, as scalar or array, to a depth of at least 32, whatever the order in which the formats were defined; the latest definition of a name counts. '
  'A data message whose formats are undefined or refer to themselves, directly or through others, gives an error and does not affect other messages.',
  ['inputs', 'configurations'], 'all nesting structures within the bounds, definition orders, and payload contents',
  'Tests use one fixed nested format; recursion, order, redefinition and short payloads inside nested values are not exercised.',
  ['core/src/parser.rs', 'core/src/field_helpers.rs', 'core/src/formats.rs'],
  [dict(name='recursive decoding with depth limit', where='core/src/parser.rs parse_data_message_sub'), dict(name='lookup of the nested format by exact name', where='core/src/parser.rs get_format')],
  [J('fields', 'c05_order', 6), J('fields', 'c05_short', 2), J('fields', 'c05_deep', 7), J('fields', 'c05_lookup', 18), J('fields', 'c05_many', 10), J('fields', 'c05_wide', 13), J('fields', 'c05_self', 9), J('fields', 'c05_again', 12)],
  'three levels with scalars and arrays of nested values in all 6 definition orders; chains of depth 1, 2, 3, 4, 8, 16, 32; undefined, self- and mutually recursive types as scalar, [1] and [2] with 40 symbolic payload bytes; names that are prefixes of each other; redefinition of a nested or top-level format, once and back, between any two of 12 definitions that differ in one thing (array count, array or scalar, type, name, number or order of fields, padding); 0 to 300 nested elements; payload cut at every byte; leaf contents symbolic; formats that contain themselves with a payload of 65000 bytes; records and nested records of 31 to 1000 fields',
  'depths between 33 and the implementation limit; recursion through more than two formats')

P('C06', 'The message timestamp is the top-level timestamp field',
  'A data message reports as its timestamp the value of the top-level field named exactly "timestamp" of type uint64_t, wherever it is declared, never that of a nested or similarly named field. '
  'A data message whose format has no such top-level field gives a missing-timestamp error and no message.',
  ['inputs', 'configurations'], 'all timestamp values, positions of the field among others, and types of fields of that name',
  'Tests have the timestamp first and at top level; later positions, nested timestamps and other types are not sampled.',
  ['core/src/parser.rs', 'core/src/model.rs'],
  [dict(name='timestamp captured while decoding the top-level fields', where='core/src/parser.rs parse_data_message_sub')],
  [J('fields', 'c06_pos', 4), J('fields', 'c06_none', 4), J('fields', 'c06_names', 30)],
  'a format of 7 fields (nested values with their own timestamp, similar names, padding) with the timestamp at each of 7 positions, all option combinations of timestamps and padding, all values symbolic; formats whose "timestamp" has any of the 35 other kinds (12 types x scalar, [1], [2]) or is only nested; fields whose name differs from "timestamp" in any one identifier character changed, inserted or removed, or has up to 3 (before) or 4 (after) arbitrary ones added, arbitrary names of up to 4 characters, before and after it or alone',
  'formats with several top-level fields of that name')

P('C07', 'Padding fields are skipped or kept without disturbing other fields',
  'A field whose name starts with "_padding" takes the size of its declared type and, depending on the option, is left out of or kept in the returned fields, at top level and in nested values, and all other fields keep their values. '
  'Trailing padding left out of the file, as the format allows, is not an error, for one or several padding fields, also at the end of nested values; similarly named fields are ordinary fields.',
  ['inputs', 'configurations'], 'all positions, sizes and types of padding fields, presence or absence of trailing padding, all values',
  'Tests cover one padding field of one size; several, nested, absent, or differently typed padding are not sampled.',
  ['core/src/parser.rs', 'core/src/model.rs'],
  [dict(name='padding recognised by name', where='core/src/parser.rs parse_data_message_sub'), dict(name='filtering according to the option', where='core/src/model.rs filter_fields')],
  [J('fields', 'c07_pos', 8), J('fields', 'c07_trail', 14), J('fields', 'c07_type', 2), J('fields', 'c07_names', 20), J('fields', 'c07_shapes', 14), J('files', 'c08_nested', [4, 5, 6, 7, 0, 3])],
  'two padding fields of 1, 2, 3, 7, 12 bytes at every position; 7 layouts of missing trailing padding (one, two, nested scalar, nested in array, 260 bytes); padding of 36 kinds; three nesting levels; both settings of the option; all values symbolic; names that differ from "_padding" in one character, and endings of 0 to 2 arbitrary identifier characters and 8 longer ones; padding of 0, 300 and 60000 bytes, nested padding, 40 paddings',
  'padding only partly present in the file (the library leaves it out); missing trailing padding of more than two fields')

P('C08', 'Inclusion options affect only the items they name',
  'Whether the file header, the timestamp field and the padding fields are included changes nothing but the presence of the header item, of the top-level field named "timestamp" and of the padding fields: '
  'all other items, their order, their fields and values, errors and the reported message timestamp are the same for all eight combinations. The options count as last set on the builder, in whatever order.',
  ['configurations', 'inputs'], 'all eight option combinations, all kinds of messages, all contents',
  'Tests fix one or two combinations; an option that leaks into other behaviour shows only in combinations with particular messages.',
  ['core/src/builder.rs', 'core/src/parser.rs', 'core/src/model.rs'],
  [dict(name='options stored by the builder', where='core/src/builder.rs'), dict(name='fields filtered after decoding', where='core/src/model.rs filter_fields')],
  [J('files', 'c08_opts', 8, weight=3), J('files', 'c08_nested', 8), J('files', 'c08_records', 8), J('files', 'c08_bad', 16), J('files', 'c08_header', 8), J('files', 'c08_builder', 12), J('fields', 'c06_names', [0, 4, 8, 9, 10, 13, 20], 30), J('fields', 'c07_names', [0, 7, 8, 9, 10, 13, 16], 20)],
  GEN + '; one message of the definitions section, one of the data section and a data message, all contents symbolic, for 8 option combinations; a three-level nested format with timestamps and padding at all levels; all records of one to three of timestamp, padding, number and nested value; names differing from the timestamp and padding names in one character; 28 kinds of malformed messages, any 16 header bytes and cut headers under every combination; builder calls in 6 orders, once and repeated, with 3 allow-lists or none',
  'longer sequences')

P('C09', 'The allow-list hides exactly the data of other subscriptions',
  'With an allow-list of names, data messages of subscriptions to other names come back as ignored markers, in place, and everything else (data of allowed names, subscriptions, all other messages, and errors) comes back exactly as without a list. '
  'A message id is judged by the name it is currently bound to, names are compared exactly, and without a list nothing is hidden.',
  ['inputs', 'histories', 'configurations'], 'all allow-lists, message ids, orders of subscriptions, re-subscriptions and data messages',
  'Tests use one list and one order; re-used ids, several subscriptions to one name, prefix names and lists naming nothing are not sampled.',
  ['core/src/parser.rs', 'core/src/builder.rs'],
  [dict(name='ids derived from names as subscriptions arrive', where='core/src/parser.rs SubscriptionFilter')],
  [J('files', 'c09_list', 8, weight=5), J('files', 'c09_exact', 24), J('files', 'c09_setter', 3), J('files', 'c09_large', 5), J('life', 'c09_deep', list(range(0, 42)) + list(range(43, 70, 4)), 70, weight=4), J('life', 'c09_seq', 50, weight=2), J('files', 'c08_builder', 12), J('life', 'c09_deeper', 0, 70, weight=9)],
  'all 8 subsets of three names (one a prefix of another) as list; three subscriptions with symbolic 16-bit ids to any of the three names, two data messages to any bound id, symbolic payloads, a data message with an unbound id, other messages; list entries that differ from the name in any one ASCII character, changed, inserted or removed at any place; the deprecated setter with a list naming nothing; a subscription, any two events (subscription with any multi id, removal, data, refused subscription) and data under 5 lists with free ids, any three (thorough: four) of 14 events on two fixed ids; lists of 300 names with 60 subscriptions; lists set before or after the other options, once or twice',
  'more than three names in symbolic orders; lists changed during parsing')

P('C12', 'File header and flag bits are validated and interpreted exactly',
  'A file is accepted if and only if its first seven bytes are the ULog magic; version and timestamp are returned for every value of the remaining bytes. '
  'Flag bits are returned unchanged with their accessors telling exactly the defined bits, any other incompatible bit set gives the unknown-incompatible-bits error, and when the data-appended bit is set reading ends at the first message that starts at or after the first non-zero appended-data offset.',
  ['inputs'], 'all 16-byte headers, all 40-byte flag-bits messages with any number of extra bytes, all offsets',
  'Tests use one good header and one flag-bits message; single-bit mistakes in masks, offsets or lengths are not sampled.',
  ['core/src/parser.rs', 'core/src/model.rs'],
  [dict(name='magic comparison', where='core/src/parser.rs read_file_header'), dict(name='incompatible bits mask and appended offset', where='core/src/parser.rs parse_flag_bits')],
  [J('msgs', 'c12_header', 4), J('msgs', 'c12_flags', 4), J('msgs', 'c12_short', 1), J('msgs', 'c12_twice', 8), J('msgs', 'c12_stop', 32)],
  'all 2^128 headers with and without following message and header item; all 40-byte flag-bits bodies, also with 1, 5 and 260 extra bytes, and cut to every shorter length; every appended-data offset with 0 to 3 leading zero offsets in a file of 8 or 9 messages, with and without header item; a second flag-bits message without the bit, with unknown bits, cut short or in the data section, with any contents',
  'longer files; several flag-bits messages that all set the bit')

P('C13', 'Format definitions are accepted exactly when well-formed',
  'A format definition is accepted if and only if its text is "name:" followed by any number of "type field;" or "type[size] field;" items, names being C identifiers, with white space allowed between tokens; it then yields exactly these names, types and sizes and is encoded back to the canonical text. '
  'Any other ASCII text gives an error and defines nothing; sizes beyond the machine word and malformed UTF-8 give errors.',
  ['inputs'], 'all texts within the bounds, compared with an independently written reference grammar',
  'Tests try a few good and a few bad texts; acceptance has to agree on all texts.',
  ['core/src/tokenizer.rs', 'core/src/formats.rs', 'core/src/encode.rs', 'core/src/model.rs'],
  [dict(name='regular-expression tokenizer', where='core/src/tokenizer.rs'), dict(name='token-level parser', where='core/src/formats.rs')],
  [J('msgs', 'c13_any', 3, 4, weight=8), J('msgs', 'c13_edit', list(range(0, 21)) + list(range(64, 104, 3)), 256), J('msgs', 'c13_insert', list(range(0, 22)), 256), J('msgs', 'c13_types', 12, weight=1), J('msgs', 'c13_sizes', 10), J('msgs', 'c13_long', 10, opts=['--path-steps', 400000000]), J('msgs', 'c13_names', 36), J('msgs', 'c13_wide', range(0, 28, 1)),
   J('msgs', 'c13_utf8', 7, 7 * 29), J('msgs', 'c13_edit2', 0, 256)],
  'all ASCII texts of up to 2 characters (thorough: 3); four well-formed texts with any ASCII character at any position, any character inserted or removed, cut anywhere (quick: a subset of positions; thorough: all, and any two adjacent characters); all one-character variations of the 12 type names; array sizes with up to 3 symbolic digits around the limits of 8, 16, 32 and 64 bits; 10 to 3000 fields; two-byte UTF-8 characters and their fragments at 7 places; 36 unusual texts (names equal to types or repeated, nearly well-formed texts) with any position replaced by any of 6 characters; names and white space of 31 to 1000 characters with any one ASCII character in them',
  'longer arbitrary texts; non-ASCII white space between tokens (accepted by the library); 3- and 4-byte UTF-8')

P('C14', 'Information and parameter messages decode key and value exactly',
  'Information, multi-information, parameter and default-parameter messages are accepted exactly when the key length fits, the key reads "type name" or "type[size] name" with a basic type or, for information, a defined format, and the value bytes suffice; parameters must be a scalar int32_t or float. '
  'They then return that key, type and value, and for the respective kinds the continuation flag or the default-type bits; in all other cases they give one error, in both file sections alike.',
  ['inputs'], 'all key lengths, keys within the bounds, values and value lengths, in both sections',
  'Tests contain a few fixed messages; length mismatches, unusual types and characters in keys are not sampled.',
  ['core/src/parser.rs', 'core/src/formats.rs', 'core/src/field_helpers.rs'],
  [dict(name='key length and key text parsing', where='core/src/parser.rs parse_info/parse_parameter'), dict(name='parameter types restricted', where='core/src/parser.rs')],
  [J('msgs', 'c14_keylen', [0, 1, 2, 3, 4, 9, 14, 19, 24, 29, 34, 39], 48), J('msgs', 'c14_value', 48), J('msgs', 'c14_key', 24), J('msgs', 'c14_tail', range(0, 48, 5), 48), J('msgs', 'c14_lens', 96), J('msgs', 'c14_types', 8), J('msgs', 'c14_edges', 20), J('msgs', 'c14_seq', range(0, 128, 5), 128), J('msgs', 'c14_sizes', range(0, 64), weight=1)],
  'four message kinds in both sections; all 256 values of the key length with 6 keys; 0 to 9 value bytes; any ASCII character at any position of the 6 keys; one or two characters or further words after the name, and characters outside ASCII or single bytes of them at any place; 12 types as scalar, [1] and [3]; all bodies of 0 to 3 ASCII bytes; keys of 127, 128, 254, 255 characters; values symbolic; seven keyed messages in a row of any three kinds and keys over both sections; arrays of 0, 1, 31, 32, 255, 256, 1000, 8000 elements of every type, complete or cut by one or two bytes; for 12 types as scalar, [1] and [2] every number of value bytes up to two more than needed',
  'keys with two or more arbitrary characters; nested formats as type of an information message are covered under C05')

P('C15', 'A malformed message yields one error and nothing else changes',
  'A message that is malformed in any way yields exactly one error item, and every other message of the file comes back exactly as if the malformed one were not there. '
  'In particular a refused definition or subscription leaves earlier definitions and subscriptions in force and does not move the parser to another section.',
  ['inputs', 'histories', 'fault_sequences'], 'all kinds of malformed messages alone and in pairs, before, between and after other messages',
  'Tests contain at most one malformed message each and rarely look at what follows.',
  ['core/src/parser.rs'],
  [dict(name='message read completely before it is parsed', where='core/src/parser.rs next_sub'), dict(name='state changed only after successful parsing', where='core/src/parser.rs next_sub')],
  [J('files', 'c15_defs', 14, weight=2), J('files', 'c15_data', 14, weight=2), J('files', 'c15_keep', 5), J('files', 'c15_many', range(0, 56, 3), 56, weight=3), J('files', 'c15_flood', 3), J('files', 'c01_ages', [17, 19, 22], 24, opts=['--path-steps', 9000000000]), J('files', 'c08_bad', [0, 2, 5, 8, 11, 13]), J('life', 'c09_deep', [12, 13, 26, 27, 40, 41], range(70))],
  '66000 malformed messages of three kinds, then others; 14 kinds of malformed messages in the definitions section and 14 in the data section (cut short, bad UTF-8, unknown ids, bad levels, bad types, unknown flags), followed by any other malformed or well-formed kind, then by data messages that depend on the surrounding state; symbolic contents; six malformed messages in a row of consecutive kinds or of one kind; 20, 300 and 700 malformed messages in each section among well-formed ones; each kind under four to six combinations of options; refused subscriptions followed by any two of 14 events under an allow-list',
  'malformed texts other than those listed (see C13, C14)')

P('C16', 'Log strings and dropouts decode exactly',
  'A log string is returned with level, tag, timestamp and text exactly as in the file if its level is one of the eight defined and its text is valid UTF-8, and gives an error otherwise; plain strings have no tag, tagged ones always do. '
  'Dropout marks carry their duration; encoding reproduces each of these messages.',
  ['inputs'], 'all levels, tags, timestamps, durations and texts within the bounds',
  'Tests use two fixed strings; the encoding of tags, levels at the limits and text validity are not sampled.',
  ['core/src/parser.rs', 'core/src/model.rs', 'core/src/encode.rs'],
  [dict(name='level conversion and UTF-8 check', where='core/src/parser.rs parse_data'), dict(name='encoders of log strings', where='core/src/encode.rs')],
  [J('msgs', 'c16_text', [0, 1, 2, 3, 4, 8, 9, 10, 11, 12], 16, weight=2), J('msgs', 'c16_short', 3), J('msgs', 'c16_long', 6), J('msgs', 'c16_wide', 18)],
  'all levels, tags, timestamps; all byte texts of 0 to 4 bytes (thorough: 0 to 7), UTF-8 judged by an independent reference; messages cut to every length below the minimum; texts of 127 to 65524 bytes with symbolic ends; 2 to 5000 characters of 2, 3 and 4 bytes, the last complete or cut, then any byte or none',
  'long texts with symbolic bytes in the middle',
  observe=['items returned by the parser iterator', 'bytes written by the encoder'])

P('C17', 'Parsing is independent of how the reader delivers bytes',
  'Short reads and interrupted reads of the underlying reader change nothing in the items returned; an item is returned without reading past the end of its message. '
  'An I/O error is reported once at the point where it occurs, after all messages before it, and not as end of file, and after the end the iterator keeps returning nothing.',
  ['fault_sequences', 'inputs'], 'all sequences of short reads and interruptions in a window of read calls, I/O errors at every byte',
  'Tests read from slices and files, which always deliver everything asked for.',
  ['core/src/datastream.rs', 'core/src/parser.rs'],
  [dict(name='reads repeated until complete or end of file', where='core/src/datastream.rs read_exact')],
  [J('files', 'c17_chunks', [k + 13 * w for w in range(7) for k in (0, 4)], 91), J('files', 'c17_single', 2), J('files', 'c17_stall', 13), J('files', 'c17_large', 20), J('files', 'c17_ahead', 4), J('files', 'c17_ioerr', 13)],
  'any combination of full, one-byte, all-but-one-byte and interrupted reads in each window of 4 consecutive read calls over a whole file; one byte per read throughout; positions of the reader after every item for all 22 message kinds; an I/O error at every byte of 13 files, of 13 kinds in rotation; contents symbolic; messages of 300 to 65535 bytes with 5 patterns of short and interrupted reads; 3 to 100 interruptions in a row at every fifth read call from any of the first ten on',
  'more than 4 consecutive irregular reads of mixed kinds; errors of kind UnexpectedEof, which stand for the end of the file; readers that return end of file and later more data',
  observe=['items returned by the parser iterator', 'position of the reader'])

P('C19', 'Uninterpreted messages pass through and sections keep their order',
  'A message of a type that is unknown, or that has no meaning in the current section, is returned unparsed with its type and contents unchanged and has no effect on anything else. '
  'Definitions are interpreted until the first accepted subscription and data afterwards: formats and flag bits in the data section and data-section messages before the first subscription are passed through uninterpreted.',
  ['inputs', 'histories'], 'all type bytes and contents, in both sections',
  'Tests use no or one unknown type; all 256 type bytes matter in both sections.',
  ['core/src/parser.rs', 'core/src/model.rs'],
  [dict(name='section state machine', where='core/src/parser.rs next_sub'), dict(name='fall-through to unhandled messages', where='core/src/parser.rs')],
  [J('files', 'c19_defs', 4), J('files', 'c19_data', 4), J('files', 'c19_late', 4), J('files', 'c19_early', 6), J('files', 'c01_ages', [15, 21], 24, opts=['--path-steps', 9000000000]), J('files', 'c19_big', 4)],
  '66000 uninterpreted messages in both sections, then others; every type byte with 0, 1, 7, 40 or 300 symbolic bytes of contents in both sections; D, L, C, O, R, S before the first subscription; F, B, S after it, with formats of new names and of names in use; contents of 256 to 65535 bytes',
  'symbolic contents in the middle of large messages')


P('C10', 'Data messages follow the current subscription of their id',
  'A data message is decoded with the format named by the latest accepted subscription to its message id, and gives an undefined-subscription error if there was none or if it has been removed since. '
  'Removal concerns only its own id, ids can be subscribed again, refused messages change nothing, and the accessors for formats and subscriptions always answer for the same state.',
  ['histories', 'inputs'], 'all sequences of subscriptions, removals, refused messages and data messages over all 16-bit ids',
  'Tests have one subscription per id and no removal; what matters is the order of events on equal and different ids.',
  ['core/src/parser.rs'],
  [dict(name='map from message id to subscription', where='core/src/parser.rs subscriptions'), dict(name='removal', where='core/src/parser.rs parse_data')],
  [J('life', 'c10_seq', 10, weight=4), J('life', 'c10_access', 10, weight=2), J('life', 'c10_remove', 3, weight=4), J('life', 'c10_many', 3), J('files', 'c01_ages', [12, 18], 24, opts=['--path-steps', 9000000000]), J('life', 'c10_formats', 3), J('life', 'c10_deep', range(0, 14, 2), 14, weight=8), J('life', 'c10_long', range(4, 50, 5), 50, weight=9), J('life', 'c10_deeper', 0, 196, weight=9)],
  '66000 data messages, 66000 subscriptions, then others; four events (thorough: five), the first a subscription and the last a data message, the others any of subscription to either of two names, removal, data, refused subscription, every id a free 16-bit number and every payload byte symbolic; accessors queried after every event; any four events of 14 (subscription to either name with multi id 0 or any other, removal, data, refused) on two fixed ids and data on both (thorough: five events); up to 300 subscriptions with two further symbolic choices; removals with 0 to 2 extra bytes or too short; a format redefined under a symbolic name',
  'longer event sequences with free ids', observe=['items returned by the parser iterator', 'get_format, get_subscription'])

P('C11', 'Multi-id indices appear exactly for names with several instances',
  'A data message carries a multi-id index if and only if some subscription to the same name with a non-zero multi id has been accepted before it, and the index is then the multi id of the subscription its message id is currently bound to. '
  'Subscriptions to other names have no influence.',
  ['histories', 'inputs'], 'all sequences of subscriptions with any ids and multi ids, removals and data messages',
  'Tests use multi ids 0 and 1 in one order; late second instances, re-used ids and other names are not sampled.',
  ['core/src/parser.rs'],
  [dict(name='set of names with several instances', where='core/src/parser.rs message_name_with_multi_id'), dict(name='index attached to the decoded record', where='core/src/parser.rs parse_data_message')],
  [J('life', 'c11_seq', 10, weight=4), J('life', 'c11_all', 8), J('life', 'c10_deep', range(1, 14, 2), 14, weight=8), J('life', 'c11_long', 50, weight=5), J('life', 'c10_deeper', 0, 196, weight=9)],
  'a subscription, a data message, any event, a data message ; a subscription, any two events and data; ids, multi ids and payloads symbolic; any four of 14 events on two fixed ids and data on both (thorough: five events); three subscriptions to two names in all patterns with any multi ids, and data on each',
  'longer event sequences with free ids')

P('C18', 'Encoding writes exactly the specified bytes or reports an error',
  'Encoding a message built by hand writes exactly the bytes the format specification prescribes for its contents, whatever the writer accepts per call. '
  'Writer errors are passed on, and a message whose body or key does not fit its length field is refused with an error before anything is written, never written with a wrong length.',
  ['inputs', 'fault_sequences', 'configurations'], 'all message kinds and field contents, writers that accept few bytes or fail at any point, sizes around the limits',
  'Tests encode parsed messages into vectors; hand-built contents, sizes beyond 16 bits and failing writers are not sampled.',
  ['core/src/encode.rs', 'core/src/model.rs'],
  [dict(name='body encoded first, then length and type', where='core/src/encode.rs'), dict(name='length and key size checks', where='core/src/encode.rs')],
  [J('enc', 'c18_bytes', 14), J('enc', 'c18_writer', 56), J('enc', 'c18_limit', 32), J('enc', 'c18_key', 32), J('enc', 'c18_parts', 38), J('enc', 'c18_arrays', 104)],
  '14 kinds of messages with values of 38 kinds and symbolic contents; writers failing after any number of bytes with an error or by accepting nothing, accepting one or five bytes per call, or interrupted, also for arrays of 17 to 1000 elements of all types; bodies of exactly 65535 and of 65536 to 131072 and more bytes; keys of 254 to 257 and 511 to 513 characters',
  'symbolic contents in the middle of very large messages', observe=['bytes written by the encoder', 'result of encode'])

P('C20', 'Byte cursors never read past their data and never lose position',
  'Every typed read of a message buffer or a data stream returns the little-endian value of the next bytes and moves on by exactly its width. '
  'If too few bytes are left a message buffer returns an error and stays where it is for any requested amount, and I/O errors of a stream are passed on; sizes, emptiness and the remaining bytes always agree with what was consumed.',
  ['inputs', 'histories'], 'all sequences of operations on buffers and streams, all contents and requested amounts',
  'Tests read a few values from buffers that are long enough.',
  ['core/src/message_buf.rs', 'core/src/datastream.rs'],
  [dict(name='length check before the cursor moves', where='core/src/message_buf.rs advance'), dict(name='exact reads', where='core/src/datastream.rs read_exact')],
  [J('util', 'c20_buf', 13), J('util', 'c20_amount', [0, 4, 8, 13, 19], 20, weight=3), J('util', 'c20_stream', 26, weight=2), J('util', 'c20_ioerr', 1), J('util', 'c20_far', 24), J('util', 'c20_buf4', 0, 130), J('util', 'c20_stream3', 0, 26)],
  'any two operations (thorough: three) of 13 on buffers of 0, 1, 2, 3, 4, 5, 7, 8, 9, 16 symbolic bytes with 12 amounts from 0 to 2^64-1, and any 64-bit amount for a single advance or skip; any two operations (thorough: three) on streams of 9 and 17 bytes delivered 1, 3 or all bytes at a time or interrupted at every second call, up to the end; an I/O error in each of 13 stream operations; 40 amounts from 20 to 70000 on buffers and streams of 5000 bytes',
  'longer sequences of operations', observe=['results of MessageBuf and DataStream methods'])

P('C21', 'Text forms and flattened values show exactly the data',
  'The text of every value and message is its documented rendering for all values: decimal numbers, quoted or escaped characters, bracketed arrays, names, levels and multi-id suffixes. '
  'Flattening a record yields every scalar exactly once, in order, under its path, and splitting an array yields its elements in order with the matching scalar type.',
  ['inputs'], 'all values of all types and the message kinds that hold them',
  'Tests compare the text of a few fixed values.',
  ['core/src/display.rs', 'core/src/model.rs'],
  [dict(name='Display implementations', where='core/src/display.rs'), dict(name='flatten and to_scalars', where='core/src/model.rs')],
  [J('util', 'c21_value', 29, weight=1), J('util', 'c21_msg', 8), J('util', 'c21_flatten', 5), J('util', 'c21_scalars', 13), J('util', 'c21_long', 4), J('enc', 'c21_split', 117), J('util', 'c21_text', 55, opts=['--text'])],
  '29 kinds of values with std\'s own number formatting executed: 8- and 16-bit numbers entirely, 32- and 64-bit numbers with one symbolic byte at any place in 5 patterns, 8 single and 7 double floats; 55 texts (values, arrays of 1, 2, 3, 70 elements, information and parameter messages with 5 keys, log strings, subscriptions, array types, records, flattened paths) with all 8- to 64-bit integers and floats in them entirely symbolic, where std\'s formatting of a number is an injective token; arrays, strings, nested values, in information messages with 5 keys; all other message texts with symbolic contents; flattened records with arrays of 0, 1, 2, 12 and 101 elements, nested values and symbolic contents; splitting for all 13 array types; splitting and flattening of arrays of 0 to 1000 elements of every type with one symbolic element; arrays of 20, 100, 257 and 1000 elements of all types with one symbolic element',
  'the digits std prints for a number beyond the concrete patterns (std itself is not under test)', observe=['Display output', 'results of flatten and to_scalars'],
  assumptions=['in c21_text std\'s text of a number is represented by a token that is a function of the type, the format flags and the bits of the number, injective in the bits; a violation is only reported if the native build reproduces it on one of the solver\'s models, otherwise the case counts as inconclusive'])

P('C22', 'Character arrays convert to text without loss of valid data',
  'A character keeps its byte value in every conversion, and its character and text form are the ASCII character or the documented replacement or escape. '
  'A character array converts to the same bytes, to the UTF-8 text they form with each ill-formed part replaced by U+FFFD, and, trimmed, without its trailing NULs and nothing else removed.',
  ['inputs'], 'all character arrays within the bounds',
  'Tests use a few fixed strings.',
  ['core/src/model.rs'],
  [dict(name='reinterpretation of character slices as bytes', where='core/src/model.rs CCharSlice'), dict(name='search for the last non-NUL', where='core/src/model.rs CCharSlice::trim_end_nul')],
  [J('util', 'c22_char', 1), J('util', 'c22_slice', 5, 6, weight=6), J('util', 'c22_long', 5)],
  'all 256 characters; all arrays of 0 to 4 (thorough: 5) characters against an independent UTF-8 reference; arrays of 64 to 4096 characters with a symbolic last character before 0 to 2048 trailing NULs',
  'longer arbitrary arrays', observe=['CChar and CCharSlice methods'])

MAC = ['macros/src/lib.rs', 'macros/src/utils.rs', 'core/src/macro_utils.rs']
P('C23', 'Derived structs receive exactly the mapped field values',
  'For every data message of a mapped subscription the derived struct holds, in each of its fields, exactly the value of the message field with that name (or the name given by field_name), whatever the order, padding and unmapped fields around it. '
  'This holds for all basic types, arrays, nested structs and arrays of nested structs; an optional field is Some exactly if the format has the field. '
  'Subscriptions are found under the struct name in snake case or the given subscription_name.',
  ['inputs', 'configurations'], 'all field orders, types and values of the mapped message, optional fields present or not',
  'Tests map a few fields of one recorded log; another order, type, nesting or name override is not sampled.',
  MAC, [dict(name='field indices looked up by name at subscription', where='macros/src/lib.rs from_format'), dict(name='typed conversion of field values', where='core/src/macro_utils.rs FromField')],
  [J('derive', 'c23_scalars', range(0, 34, 2), 34), J('derive', 'c23_arrays', range(0, 24, 2), 24), J('derive', 'c23_optional', 32), J('derive', 'c23_nested', 32), J('derive', 'c23_names', 7), J('derive', 'c23_default', 16), J('derive', 'c23_renamed', 16), J('derive', 'c23_elements', 16), J('derive', 'c23_wide', 60, opts=['--path-steps', 400000000])],
  'arrays of 0 to 3 nested structs with a field of each of the 12 types and with several, required and optional; 16 struct names of every style (acronyms, digits, underscores, single letters) by their default message name, with three close names each; nested, array and optional fields under another name; structs with all 12 scalar types, all 12 array types (lengths 0 to 3 and 40), 16 optional fields (each alone present or absent), nested structs to depth 2 as scalar, array, option and option of array; every rotation of the file order, forwards and backwards, with 4 unmapped fields of similar names between; 15 to 1000 unmapped fields before, between and after the mapped ones; overridden and default names; all payload bytes symbolic',
  'struct definitions other than the 44 of the harness; raw identifiers; field names are taken as written (not converted to snake case)', observe=['items of the derived stream'])

P('C24', 'Derived enums route every message to its variant or the catch-all',
  'Each data message becomes the variant whose struct names the subscription (name and multi id) its message id is currently bound to; all others reach the forward_other variant unchanged, or as Ignored if their subscription was not asked for, and nothing is lost, repeated or reordered. '
  'Subscription messages are passed on only if requested (as last set on the builder) and unmapped, and without a forward_other variant everything unmapped is dropped except errors. '
  'Builder options that need a forward_other variant are refused without one.',
  ['histories', 'inputs', 'configurations'], 'all sequences of subscriptions with any ids and multi ids, removals, data and other messages, and builder configurations',
  'Tests use one recorded log in which every id is bound once.',
  MAC, [dict(name='map from message id to accessor', where='macros/src/lib.rs subs'), dict(name='allow list of mapped and added names', where='macros/src/lib.rs extend_allow_list')],
  [J('derive', 'c24_seq', 75, weight=2), J('derive', 'c24_rebind', range(0, 135, 2), 135), J('derive', 'c24_pass', range(0, 90), 90), J('derive', 'c24_builder', 4), J('derive', 'c24_options', 6), J('derive', 'c24_instances', 4), J('derive', 'c24_ages', list(range(20)) + [20, 24, 25, 29, 30, 35], 40, weight=3, opts=['--path-steps', 9000000000]), J('derive', 'c24_deep', 80, weight=3), J('derive', 'c24_long', 0, 375, weight=9), J('derive', 'c24_deeper', 0, 80, weight=9)],
  '1100 (one or two configurations: 66000) mapped, unmapped and malformed messages and subscriptions, then others; eight mapped instances (0, 7, 8, 64, 127, 128, 254, 255) of one name against all multi ids; three names (one mapped with two multi ids, one mapped, one unmapped); five configurations (plain, extra subscription, forwarded subscriptions, both, no catch-all); a subscription, any event, data (thorough: two events) with every id, multi id and payload symbolic; any three of 16 events on two fixed ids and data on both (thorough: four events); three subscriptions with a re-bound id and data on each; all other kinds of messages and a damaged one between; up to three builder calls of four kinds in any order, up to four switching forwarding on or off',
  'longer event sequences with free ids; enums without any mapped variant', observe=['items of the derived stream', 'results of the derived builder'])

P('C25', 'Derived streams report mismatches as errors and carry on',
  'If a mapped subscription lacks a required field the stream reports an invalid-field-name error naming the missing fields when the subscription appears, and for a nested struct or a field missing from the message itself when the data appears; an absent optional field is None. '
  'A field of another type gives a type-mismatch error for each such message, also for optional fields, and never a converted or made-up value. '
  'Other messages are unaffected.',
  ['inputs', 'configurations'], 'all subsets of missing fields, all pairs of declared and expected types, and all payloads of the other messages',
  'Tests check one missing field and one wrong type.',
  MAC, [dict(name='collection of missing fields', where='macros/src/lib.rs from_format'), dict(name='type checked conversion', where='core/src/macro_utils.rs FromField')],
  [J('derive', 'c25_missing', 64), J('derive', 'c25_type', 112), J('derive', 'c25_late', 10)],
  'every subset of 4 mapped fields, with and without similar names, with and without a catch-all variant; 28 declared kinds of fields (12 scalar, 12 array, nested, nested array, both also with another type inside) against 30 expected ones, all pairs with 4 contents each where they differ; omitted trailing padding, nested structs without a required field, undefined formats, short payloads',
  'the text of type-mismatch errors; mismatched values are concrete (they are rendered into the error)', observe=['items of the derived stream'])

# entries that go through all sizes: (property, binary, entry, cases, what has the size)
SIZE = 'every size from 0 to 260, and around powers of two and at round numbers above, is a path of its own with a few symbolic bytes: '
for pid, bin, entry, n, what in [
    ('C01', 'sweep', 'c01_sweep', 16, 'information arrays, data arrays, log strings and unknown messages, up to 65400'),
    ('C03', 'sweep', 'c03_sweep', 8, 'log strings cut at fourteen places, up to 65500'),
    ('C04', 'sweep', 'c04_sweep', 24, 'arrays of every type in data and information messages, complete and a byte short, up to 60000 bytes'),
    ('C05', 'sweep', 'c05_sweep', 9, 'arrays of nested records, up to 4097; chains of depth 1 to 32'),
    ('C06', 'sweep', 'c06_sweep', 8, 'fields before the timestamp, up to 300, options varied'),
    ('C07', 'sweep', 'c07_sweep', 8, 'padding in the middle and at the end, up to 60000'),
    ('C08', 'sweep', 'c06_sweep', 8, 'fields before the timestamp, up to 300, options varied'),
    ('C09', 'sweep', 'c10_sweep', 8, 'allow-lists and subscriptions, up to 300'),
    ('C10', 'sweep', 'c10_sweep', 8, 'subscriptions, a quarter of them removed, up to 300'),
    ('C11', 'sweep', 'c10_sweep', 8, 'subscriptions of three names, up to 300'),
    ('C12', 'sweep', 'c12_sweep', 8, 'flag-bit messages with extra bytes and the message at the appended-data offset, up to 65000'),
    ('C13', 'sweep', 'c13_sweep', 20, 'field names, type names, white space, field counts and array counts, up to 5000 (600 fields)'),
    ('C14', 'sweep', 'c14_sweep', 8, 'keys of 1 to 246 characters and arrays, in both sections (no round numbers above)'),
    ('C16', 'sweep', 'c16_sweep', 8, 'log strings ending in complete and cut two-byte characters, up to 65524'),
    ('C17', 'sweep', 'c17_sweep', 16, 'bytes per read, up to 70000'),
    ('C18', 'enc', 'c18_sweep', 48, 'texts, names, keys, contents, field counts, bytes a writer takes per call and bytes before it fails, up to 65000'),
    ('C19', 'sweep', 'c19_sweep', 8, 'unknown messages in both sections, up to 65535'),
    ('C20', 'sweep', 'c20_sweep', 4, 'cursor moves, up to 70000'),
    ('C21', 'enc', 'c21_sweep', 26, 'arrays of every type split into scalars and flattened, up to 1001'),
    ('C22', 'sweep', 'c22_sweep', 8, 'characters, up to 5000'),
    ('C23', 'derive', 'c23_sweep', 8, 'arrays of every type mapped to Vec fields, up to 1025'),
    ('C24', 'derive', 'c24_sweep', 20, 'subscriptions and messages in every configuration, up to 300'),
]:
    p = next(p for p in PROPS if p['id'] == pid)
    p['jobs'].append(J(bin, entry, n, opts=['--path-steps', 400000000], weight=5))
    p['bounds'] += '; ' + SIZE + what

# entries in which all characters of names, keys and texts are symbolic
short = lambda cases, step, n: [c for c in range(cases) if c % step < n]
WORD = 'all characters of a name symbolic (lower case; or with a digit, underscore or capital at any place; or digits at the end, before "_" and a letter; or capitals with an underscore at any place): '
for pid, bin, entry, quick, thorough, what in [
    ('C05', 'words', 'c13_words', range(0, 72, 3), None, 'names of nested types of 1 to 24 characters'),
    ('C06', 'words', 'c13_words', range(1, 72, 3), None, 'names of other fields of 1 to 24 characters'),
    ('C07', 'words', 'c13_words', range(1, 72, 3), None, 'names of other fields of 1 to 24 characters'),
    ('C09', 'words', 'c09_words', short(48, 12, 8), 48, 'listed names of 1 to 8 (thorough: 12) characters against another name of the same length and names differing in one character'),
    ('C10', 'words', 'c11_words', short(24, 12, 7), 24, 'two similar names of up to 7 (thorough: 12) characters'),
    ('C11', 'words', 'c11_words', short(24, 12, 7), 24, 'two similar names of up to 7 (thorough: 12) characters'),
    ('C13', 'words', 'c13_words', 72, None, 'names of types, fields and messages of 1 to 24 characters'),
    ('C14', 'words', 'c14_words', [c for c in range(96) if c // 4 % 2 == 0 or c // 4 < 8], 96, 'keys of 1 to 23 (thorough: 24) characters, all four kinds'),
    ('C16', 'words', 'c16_words', range(0, 96, 2), 96, 'texts of up to 48 ASCII characters, all symbolic'),
    ('C19', 'words', 'c19_words', 48, None, 'contents of up to 47 bytes, all symbolic'),
    ('C21', 'words', 'c21_words', 192, None, 'names and keys of 1 to 32 characters, texts and character arrays of 1 to 32 ASCII characters, with fixed values'),
    ('C22', 'words', 'c22_words', 48, None, 'arrays of up to 47 ASCII characters, all symbolic'),
    ('C23', 'derive', 'c23_words', 48, None, 'names of unmapped fields of 1 to 16 characters'),
    ('C24', 'derive', 'c24_words', 48, None, 'names of unmapped messages of 1 to 12 characters'),
    ('C25', 'derive', 'c25_words', 24, None, 'names of 1 to 12 characters in place of a required field'),
]:
    p = next(p for p in PROPS if p['id'] == pid)
    p['jobs'].append(J(bin, entry, quick, thorough, weight=4))
    p['bounds'] += '; ' + (WORD if 'ASCII' not in what and 'bytes' not in what or pid == 'C21' else '') + what

# every entry of the other properties, on a build with the thread_safe feature: the first case and one from the middle, and the cases below
TS = dict(feat='thread_safe')
TSQ = dict(c01_defs=[0, 4, 7], c01_data=[0, 1, 5, 9], c05_order=range(6), c05_deep=range(7), c07_pos=[0, 3], c10_seq=[0, 4], c10_formats=range(3), c11_all=[0, 5], c21_flatten=range(5), c21_msg=range(8), c21_scalars=[0, 3, 6, 8, 9, 10, 11, 12], c21_split=[0, 12, 25, 40, 77],
           c23_scalars=[0, 7], c23_optional=[0, 13, 14, 29], c23_nested=[0, 9, 18, 27], c23_elements=[3, 14], c24_seq=[3, 22, 44, 62], c25_missing=[0, 15, 47])
TSONE = dict(c02_byte=[9], c02_shift=[5], c02_any=[9], c02_text=[7], c02_sizes=[7], c03_cut=[0], c03_reader=[3], c03_opts=[12], c06_names=[8], c07_names=[9], c10_deep=[2], c09_deep=[30], c13_any=[1], c15_many=[3], c16_wide=[4], c17_chunks=[4], c20_buf=[3], c20_amount=[4], c20_stream=[4], c22_slice=[3], c24_deep=[9])
def ts_jobs():
    out, seen = [], set()
    for p in PROPS:
        for j in p['jobs']:
            if j.entry in seen or not j.quick: continue
            seen.add(j.entry)
            q = list(TSONE.get(j.entry, TSQ.get(j.entry, sorted({j.quick[0], j.quick[len(j.quick) // 2]}))))
            out.append(J(j.bin, j.entry, q, j.quick if j.weight < 9 else q, weight=j.weight, opts=j.opts, timeout=j.timeout, **TS))
    return out
P('C26', 'The thread_safe feature changes no behaviour',
  'Built with the thread_safe feature the library decodes, filters, encodes, renders and maps every log exactly as specified without it.',
  ['inputs', 'histories', 'configurations'], 'all inputs of the underlying checks with the feature enabled',
  'Tests run with the default features only.',
  FILES + MAC, [dict(name='shared pointer type chosen by the feature', where='core/src/model.rs Shared')],
  ts_jobs(),
  'one to eight runs of every entry of the other 25 checks (thorough: all their quick runs) on a build with the feature',
  'concurrent use from several threads (the library has no shared mutable state); that messages are Send and Sync', observe=['items returned by the parser iterator', 'bytes written by the encoder', 'items of the derived stream'])
