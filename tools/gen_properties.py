"""Writes properties.jsonl (kept as one table here for editing)."""
import json
import os

S = 'structured/structured.py'
SER = 'structured/serializers/'
HT = 'structured/hint_types/'
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p('C01', 'The reported size is exactly the number of bytes moved',
  'After any pack or unpack operation of a serializer has completed, its reported size equals the number of bytes '
  'that operation produced or consumed. This holds for every kind of serializer, on every route, including after '
  'the serializer was combined, nested, prepared for an object or switched to another byte order.',
  ['inputs', 'programs'], 'every declarable field type and nesting, every value, every route',
  'Sizes matter only through the offsets and checks derived from them; tests read them for a few fixed values and routes.',
  [SER + f for f in ('api.py', 'arrays.py', 'strings.py', 'structs.py', 'unions.py', 'conditional.py', 'tuples.py', 'structured.py')],
  [('size bookkeeping of compound serializers', SER + 'api.py: CompoundSerializer'),
   ('size bookkeeping of arrays', SER + 'arrays.py: ArraySerializer'),
   ('size bookkeeping of strings', SER + 'strings.py')])
p('C02', 'All packing routes produce identical bytes',
  'Packing to a new byte string, into a buffer at an offset, and to a stream produce exactly the same bytes for the '
  'same object. A value one route accepts, the others accept too.',
  ['inputs', 'programs'], 'every declarable class, value and offset',
  'Each route has its own code per serializer kind; tests compare them on a handful of values.',
  [S, SER + 'api.py', SER + 'strings.py', SER + 'arrays.py', SER + 'structs.py'],
  [('three pack methods per serializer', SER + 'api.py: Serializer'), ('Structured.pack, pack_into, pack_write', S + ': Structured')])
p('C03', 'Packing into a buffer only touches its window',
  'Packing into a buffer at an offset changes only the bytes from the offset up to the offset plus the packed size, '
  'never the length of the buffer and never a byte outside. When the window does not fit, an error is raised and '
  'nothing outside the window has changed.',
  ['inputs', 'programs'], 'every declarable class, value, buffer and non-negative offset',
  'A spill or resize is only visible with neighbouring data the tests do not place or check.',
  [SER + 'strings.py', SER + 'arrays.py', SER + 'api.py', SER + 'structs.py'],
  [('offset arithmetic of pack_into', SER + 'api.py: CompoundSerializer.pack_into'),
   ('pack_into of strings', SER + 'strings.py'), ('pack_into of arrays', SER + 'arrays.py')])
p('C04', 'All unpacking routes agree and stop exactly at the end',
  'Unpacking from a byte string, from a buffer at an offset, and from a stream give equal, fully evaluated values for '
  'the same bytes, whether creating a new object or filling an existing one. Reading from a stream leaves it positioned '
  'immediately after the last byte of the value.',
  ['inputs', 'programs'], 'every declarable class, every valid byte string, every surrounding data',
  'Over-reads and lazily evaluated leftovers only show with data following, or on a route no test uses for that type.',
  [S, SER + 'api.py', SER + 'strings.py', SER + 'arrays.py', SER + 'unions.py', SER + 'tuples.py'],
  [('three unpack methods per serializer', SER + 'api.py: Serializer'), ('create_unpack* and unpack*', S + ': Structured')])
p('C05', 'Unpacking gives back every value that was packed',
  'For every class and every valid assignment of values, packing succeeds and produces the documented encodings of the '
  'fields in declaration order. Unpacking those bytes sets each attribute to the value that was packed.',
  ['inputs', 'programs'], 'every declarable class and every valid value, including empty, minimal and nested ones',
  'Round trips depend on combinations of neighbouring field kinds, lengths and nesting that tests sample sparsely.',
  [S, SER + 'api.py', SER + 'arrays.py', SER + 'strings.py', SER + 'structs.py', SER + 'tuples.py', SER + 'unions.py'],
  [('field order and grouping', S + ': create_serializers'), ('slicing of values and bytes among fields', SER + 'api.py: CompoundSerializer')])
p('C06', 'Length, count and data-size prefixes tell the truth',
  'A length prefix written before a string, the item count written before an array and the data-size value of an array '
  'header always equal the number of bytes or items that follow. The prefix precedes its data and uses the declared integer type.',
  ['inputs', 'programs'], 'every prefix type, every length, every item type including variable-size items',
  'A wrong prefix is invisible when the same wrong rule reads it back, and tests use fixed-size items.',
  [SER + 'arrays.py', SER + 'strings.py', HT + 'arrays.py'],
  [('array headers', SER + 'arrays.py'), ('string length prefix', SER + 'strings.py: DynamicCharSerializer')])
p('C07', 'The declared byte order reaches every part of a value',
  'Every multi-byte number packed for a class, including length prefixes, counts, data sizes, array items, tuple '
  'members, union cases and conditional fields, is encoded in the byte order declared for that class. A nested class '
  'keeps the byte order it was declared with.',
  ['inputs', 'programs', 'configurations'], 'every byte order, every field type and nesting',
  'Wrong order is invisible in a round trip and for values that read the same both ways.',
  [SER + f for f in ('api.py', 'arrays.py', 'strings.py', 'structs.py', 'unions.py', 'conditional.py', 'tuples.py')],
  [('with_byte_order of each serializer', SER + 'api.py: Serializer.with_byte_order'), ('application to a class', S + ': Structured.__init_subclass__')])
p('C08', 'Decisions see the values of the object at hand',
  'Deciders, conditions and custom serializers that depend on the object are given, at the moment they decide, the object being packed, '
  'or a view of the object being unpacked carrying exactly the attributes already unpacked with their new values. '
  'This also holds inside arrays, tuples, nested classes and when refilling an existing object.',
  ['inputs', 'programs', 'histories'], 'every position and nesting of decision-dependent fields, every value, repeated operations',
  'Stale values are only noticed when they lead to a different decision than the current ones.',
  [S, SER + 'api.py', SER + 'unions.py', SER + 'conditional.py', SER + 'arrays.py', SER + 'self.py'],
  [('preparation for an object', SER + 'api.py: CompoundSerializer.preunpack'), ('view of a partly unpacked object', SER + 'structs.py: StructActionSerializer')])
p('C09', 'Recursive and sibling objects do not disturb each other',
  'Packing or unpacking an object that contains other objects of the same class, directly, in arrays or through '
  'conditions, yields for each object its own values, and decisions of an outer object are unaffected by inner ones.',
  ['inputs', 'programs', 'histories'], 'every recursion depth and every interleaving of nested operations',
  'State shared between nested operations only breaks for specific shapes of nesting.',
  [SER + 'self.py', SER + 'structured.py', SER + 'unions.py', SER + 'arrays.py', S],
  [('self-referencing fields', SER + 'self.py: SelfSerializer'), ('per-operation preparation', SER + 'api.py')])
p('C10', 'Fields that read to the end are only accepted last',
  'Declaring any serializable field after one that consumes all remaining data is rejected when the class is '
  'defined, also when the unbounded field is hidden in a tuple, union, condition or nested class, and so are arrays '
  'of unbounded items. When such a field comes last, the class is accepted.',
  ['programs'], 'every position and nesting of an unbounded field',
  'Tests declare a few nestings; the rest are separate code paths.',
  [SER + 'api.py', SER + 'unions.py', SER + 'conditional.py', SER + 'tuples.py', SER + 'arrays.py', SER + 'structured.py', SER + 'self.py'],
  [('get_final of each serializer', SER + 'api.py: Serializer.get_final')])
p('C11', 'Values and attributes are paired one to one',
  'Every serialized attribute consumes exactly one packed value and receives exactly one unpacked value, in declaration '
  'order, whatever mixture of numbers, padding, zero-length strings and composite fields the class has. A mismatch in '
  'the number of values is an error, never a silent shift or truncation.',
  ['inputs', 'programs'], 'every mixture of fields, every supported Python version',
  'A shift needs specific neighbours (padding, empty strings, multi-value fields) to appear.',
  [S, SER + 'structs.py', SER + 'api.py', SER + 'tuples.py'],
  [('counting of struct values', SER + 'structs.py: compute_num_values'), ('attribute assignment', S + ': Structured.unpack')])
p('C12', 'Malformed arrays are rejected on every route',
  'Packing a list whose length differs from a fixed array length raises an error on every packing route, and unpacking '
  'an array whose stored data size differs from the bytes its items occupied raises an error on every unpacking route. '
  'Well-formed arrays are never rejected.',
  ['inputs', 'programs'], 'every header form, item type, list length and stored size',
  'Tests check the error for one header, item type and route each.',
  [SER + 'arrays.py', HT + 'arrays.py'],
  [('fixed length check and data size check', SER + 'arrays.py')])
p('C13', 'Truncated input is never silently accepted',
  'Unpacking from input that ends before the encoded value does raises an error on every unpacking route, at whatever '
  'byte it is cut. A terminated string whose terminator is missing is rejected likewise.',
  ['inputs', 'fault_sequences'], 'every class without a read-to-end field, every cut position, every route',
  'There are as many cut positions as bytes, each handled by whatever code reads there.',
  [SER + 'strings.py', SER + 'structs.py', SER + 'arrays.py', SER + 'api.py', SER + 'unions.py'],
  [('length checks on reading', SER + 'strings.py'), ('struct size check', SER + 'structs.py')])
p('C14', 'Terminated strings carry one terminator and stop at the first',
  'A terminated string is packed with exactly one terminator at its end, whether or not the value already ends in it, '
  'and unpacks to the bytes before the first terminator. The result does not depend on where the string starts nor on how the '
  'stream delivers its bytes.',
  ['inputs', 'schedules'], 'every string, terminator, offset and chunking of the stream',
  'Chunk boundaries and terminators at unusual positions are not sampled by tests.',
  [SER + 'strings.py', HT + 'strings.py'],
  [('terminator search and chunked reading', SER + 'strings.py: TerminatedCharSerializer')])
p('C15', 'The .NET length prefix encodes and decodes every length',
  'A length up to 127 is written as one byte, a longer one up to 32767 as two: the low seven bits with the high bit set, '
  'then the remaining bits. Reading it back yields the same length on every route, and longer lengths are rejected.',
  ['inputs'], 'every string length',
  'Tests use one short and one long string, leaving bit positions and boundaries open.',
  [SER + 'strings.py'], [('length marker encoding and decoding', SER + 'strings.py: NETCharSerializer')])
p('C16', 'Combining formats preserves every item, its order and its action',
  'Adding two serializers packs and unpacks exactly the items of both, in order, equivalent to using them one after the other. '
  'Text and byte-string items never merge into one, conversions stay with their items, and combining different byte orders is refused.',
  ['programs', 'inputs'], 'every pair and sequence of formats',
  'Merging depends on the adjacent format characters and counts; tests cover a few pairs.',
  ['structured/utils.py', SER + 'structs.py', SER + 'api.py', S],
  [('merging of format strings', SER + 'structs.py: fold_overlaps'), ('addition of serializers', SER + 'structs.py: StructSerializer.__add__')])
p('C17', 'Unions use exactly the case their decision selects',
  'A union packs and unpacks with the case mapped to the decided value, else with the default, and raises an error if '
  'there is neither. Deciding by reading ahead consumes nothing: the chosen case is unpacked from the position where '
  'reading ahead began.',
  ['inputs', 'programs'], 'every decision value, case type, nesting and route',
  'Each route rewinds in its own way and each case has its own size.',
  [SER + 'unions.py'], [('case selection and rewinding', SER + 'unions.py: LookbackDecider, LookaheadDecider')])
p('C18', 'A condition either leaves a field unchanged or skips it entirely',
  'When its condition holds, a conditional field packs and unpacks as if it were unconditional. When it does not, no byte is '
  'written or consumed, the reported size excludes it, and unpacking assigns the declared default values.',
  ['inputs', 'programs'], 'every condition outcome, field type, number of defaults, route and nesting',
  'Both outcomes must be crossed with every route and field type.',
  [SER + 'conditional.py', HT + 'condition.py'], [('conditional serializer', SER + 'conditional.py: ConditionalSerializer')])
p('C19', 'A class definition yields consistent attributes, initializer and layout',
  'The serialized attributes of a class are exactly its annotated serializable fields, inherited first, overridden in '
  'place, removed by None and excluding padding, and the generated initializer and packed layout follow them in the same order. '
  'Every padding field counts in the layout, even when all share one name.',
  ['programs'], 'every sequence of annotations, inheritance chain and annotation style',
  'Class definitions are programs; tests define a few dozen.',
  [S, 'structured/type_checking.py', HT + 'basic_types.py'],
  [('annotation gathering', S + ': Structured.__init_subclass__'), ('padding namespace', S + ': StructuredMeta')])
p('C20', 'Changing the byte order in a subclass must be explicit',
  'A subclass must state the same byte order as its serialized base: stating another one, or none when the base has one, is '
  'rejected unless overriding is requested explicitly. Then all fields, inherited ones included, use the order stated for the '
  'subclass, and the base class keeps its own. Deriving from two serialized bases is rejected.',
  ['programs', 'configurations'], 'every pair of byte orders, mode and inheritance depth',
  'The combinations of order, mode and depth are not enumerated by tests.',
  [S, 'structured/base_types.py'], [('byte order check', S + ': Structured.__init_subclass__')])
p('C21', 'Specializing a generic class replaces its type variables everywhere',
  'A class deriving from, or a field annotated with, a fully specialized generic class serializes each field as if the arguments '
  'had been written in place of the type variables, at any nesting and also when specialized in several steps. Fields annotated explicitly '
  'in the subclass keep their own annotation, and the generic class itself is not changed.',
  ['programs'], 'every generic class, nesting of type variables and chain of partial specializations',
  'Type-level programs are unbounded; tests exercise a few shapes.',
  [S, 'structured/utils.py', 'structured/type_checking.py'], [('type variable substitution', S + ': Structured._specialize / specialized')])
p('C22', 'Parameters of type hints are honoured exactly and checked',
  'The length, prefix type, terminator, encoding, header and item type written in a hint are the ones used, independently '
  'of any other hint created before or after, even with equal-looking parameters. Invalid parameters are rejected.',
  ['programs', 'histories'], 'every hint parameter and every order of creating hints',
  'Interference between hints (for example through caches) needs particular pairs in one process.',
  [HT + f for f in ('arrays.py', 'strings.py', 'basic_types.py', 'tuples.py', 'serialize_as.py')] + ['structured/utils.py'],
  [('specialization cache', 'structured/utils.py: specialized / container'), ('parameter checks', HT + 'arrays.py: Header')])
p('C23', 'Using a serializer never reconfigures it',
  'Packing, unpacking, preparing for an object, deriving a variant and failing midway leave a class and its serializer able to '
  'produce the same results as if unused. Operations prepared for two objects do not influence one another.',
  ['histories', 'inputs'], 'every sequence of operations, including failed ones, on one class',
  'Leaks between operations need a specific sequence; tests mostly use fresh classes.',
  [SER + f for f in ('api.py', 'arrays.py', 'unions.py', 'conditional.py', 'structs.py', 'self.py')],
  [('copying preparation', SER + 'api.py: CompoundSerializer.prepack'), ('copying variants', SER + 'arrays.py')])
p('C24', "The library neither alters nor shares the user's data",
  'Packing never modifies the packed object, its lists or byte strings, and returns immutable bytes. Unpacked objects share no '
  'mutable value with the input, with defaults given in the class definition, or with one another.',
  ['inputs', 'histories'], 'every value, default and sequence of operations',
  'Aliasing only shows when one side is modified later.',
  [SER + 'strings.py', SER + 'conditional.py', SER + 'arrays.py', HT + 'condition.py'],
  [('copy of defaults', SER + 'conditional.py'), ('terminator handling', SER + 'strings.py')])
p('C25', 'Custom types are built exactly once per value, on every route',
  'Every unpacked value of a custom type passes through its declared constructor or factory exactly once, in its own position, on every '
  'unpacking route and at any nesting; values of other fields do not. Packing accepts the constructed objects.',
  ['inputs', 'programs'], 'every placement of custom types among other fields, every route and byte order',
  'Misplaced or doubled construction depends on neighbours merged into the same format.',
  [SER + 'structs.py', HT + 'serialize_as.py'], [('actions applied to values', SER + 'structs.py: StructActionSerializer')])
p('C26', 'Text is encoded before packing and decoded after unpacking everywhere',
  'A text field is passed through its declared encoding exactly once in each direction, on every route, for every string '
  'kind and for custom encoders. Lengths count encoded bytes, not characters.',
  ['inputs', 'programs'], 'every text, encoding, string kind and route',
  'Each route and string kind wraps the encoding separately.',
  [SER + 'strings.py', HT + 'strings.py'], [('text wrapper', SER + 'strings.py: UnicodeSerializer')])
p('C27', 'Equality compares exactly the serialized attributes',
  'Two objects of the same class are equal exactly when all serialized attributes are equal; objects of different classes '
  'are not. Padding and other attributes play no role, and no pair of objects compares both equal and unequal.',
  ['inputs', 'programs'], 'every pair of objects of any classes',
  'Tests compare a few equal and unequal pairs.',
  [S], [('Structured.__eq__', S + ': Structured.__eq__')])
p('C28', 'The package works on every Python version it declares',
  'On each declared Python version the package imports and defines, packs and unpacks classes with the same results. No syntax, module, '
  'attribute or argument newer than that version is used without a fallback.',
  ['configurations'], 'Python 3.9 to 3.12',
  'The tests run on the one interpreter installed.',
  ['structured/type_checking.py', SER + 'api.py', S, 'structured/utils.py'],
  [('version guards', 'structured/type_checking.py')])
p('C29', 'Concurrent use from several threads is safe',
  'Several threads packing and unpacking objects of one class at the same time obtain the results they would obtain alone.',
  ['schedules'], 'every interleaving of operations of several threads',
  'Tests are single threaded.', [SER + 'api.py', SER + 'structs.py'], [('per-operation copies', SER + 'api.py')])
p('C30', 'Every numeric hint has its documented width, signedness and range everywhere',
  'In every place a numeric hint can appear (a field, an array element, a union member, a size prefix, a delegate of a '
  'custom type) and in every byte order, the hint packs to the documented number of bytes (int8 1 byte, uint16 2, '
  'int32 4, int64 8, float16 2, float32 4, float64 8, bool8 1, ...) in the order in force, decodes with the documented '
  'signedness or as a float or bool, and a number outside the range of its type is rejected with struct.error '
  '(OverflowError for floats) instead of being written truncated. The bit patterns themselves are those of the '
  "standard library's struct module.",
  ['inputs', 'configurations'], 'every numeric hint in every container and byte order, every number',
  'Every number times every hint, container and byte order cannot be sampled; a wrong format character shows only for '
  'particular values in a particular place.',
  [SER + 'structs.py', 'structured/hint_types/basic_types.py'],
  [('format characters of the numeric hints', 'structured/hint_types/basic_types.py'),
   ('delegation to the struct module', SER + 'structs.py: StructSerializer')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
