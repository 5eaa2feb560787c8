"""Parameters of type hints: honoured exactly, independently of other hints, and checked (C22)."""
from __future__ import annotations

from . import experiments as X
from . import parts as P
from . import suites
from .classdefs import K, raw
from .finals import outcome
from .shapes import part_item
from .suites import case

# annotation -> part it has to behave as
H = {
    'int8': 'int8', 'uint16': 'uint16', 'int64': 'int64', 'float16': 'float16', 'float64': 'float64', 'bool8': 'bool8',
    'char[0]': 'c0', 'char[1]': 'c1', 'char[2]': 'c2', 'char[5]': 'c5', 'char[255]': 'c255', 'char[256]': 'c256',
    'char[uint8]': 'dyn8', 'char[uint16]': 'dyn16', 'char[uint32]': 'dyn32', 'char[uint64]': 'dyn64',
    'char[NET]': 'net', "char[b'|']": 'bar', "char[b'\\0']": 'term', "char[b'\\n']": 'nl', "char[b'\\xff']": 'xff', 'null_char': 'term',
    'pad[1]': 'pad1', 'pad[2]': 'pad2', 'pad[0]': 'pad0', 'pad[300]': 'pad300',
    'pascal[5]': 'pas5', 'pascal[1]': 'pas1', 'pascal[256]': 'pas256',
    'unicode[uint8]': 'uni8', 'unicode[uint16]': 'uni16', "unicode[uint8, 'utf-16-le']": 'utf16', "unicode[uint16, 'latin-1']": 'latin',
    "unicode[uint8, 'utf8']": 'uni8', 'unicode[NET]': 'uninet', "unicode[b'\\0']": 'uniterm', 'null_unicode': 'uniterm',
    'tuple[uint8, int32]': 'tup', 'tuple[uint16]': 'tupu16', 'tuple[int8, char[uint8]]': 'tup8d',
    'array[Header[2], int16]': 'arr2i16', 'array[Header[uint8], int16]': 'arr8i16', 'array[Header[uint8], int32]': 'arr8i32',
    'array[Header[uint16], int8]': 'arr16i8', 'array[Header[2, uint16], int16]': 'arr2x16i16',
    'array[Header[uint16, uint32], int16]': 'arr16x32i16', 'array[Header[uint32, uint16], int16]': 'arr32x16i16',
    'array[Header[2], uint16]': 'arr2u16', 'array[Header[3], uint16]': 'arr3u16', 'array[Header[0], uint16]': 'arr0u16',
    'array[Header[1], uint16]': 'arr1fu16', 'array[Header[uint64], uint16]': 'arr64u16',
    'array[Header[uint8], char[uint16]]': 'arr8dyn16', 'array[Header[2], tuple[uint8, int32]]': 'arr2tup',
    'array[Header[uint8], tuple[uint8, int32]]': 'arr8tup', "array[Header[uint8], Annotated[int, Opaque('op')]]": 'arr8op',
    "array[Header[uint8], Annotated[int, Opaque('oq')]]": 'arr8oq', "Annotated[int, Opaque('op')]": 'op', "Annotated[int, Opaque('oq')]": 'oq',
    'Annotated[Wrapped, SerializeAs(int32)]': 'custom', 'Annotated[Wrapped, SerializeAs(int8)]': 'custom8',
    "Annotated[str, unicode[uint16]]": 'uni16', 'Annotated[bytes, char[uint8]]': 'dyn8', 'Annotated[list, array[Header[2], int16]]': 'arr2i16',
    'Annotated[int, int8]': 'int8',
    'array[Header[uint8], array[Header[2], int16]]': 'arr8arr2',
}
TW = lambda: P.i_tuple(P.i_int('uint8'), P.i_int('int32'))
K.update({
    **{f'c{n}': (lambda n=n: P.p_char(n)) for n in (1, 255, 256)}, **{f'pad{n}': (lambda n=n: P.p_pad(n)) for n in (0, 300)},
    **{f'pas{n}': (lambda n=n: P.p_pascal(n)) for n in (1, 256)},
    'dyn64': lambda: P.p_dynchar('uint64'), 'nl': lambda: P.p_term(b'\n'), 'xff': lambda: P.p_term(b'\xff'),
    'uninet': P.p_uninet, 'uniterm': P.p_uniterm, 'oq': lambda: P.as_part(P.i_opaque('oq')),
    'tup8d': lambda: P.as_part(P.i_tuple(P.i_int('int8'), part_item(P.p_dynchar('uint8')))),
    'arr2x16i16': lambda: P.p_array((2, 'uint16'), P.i_int('int16')), 'arr16x32i16': lambda: P.p_array(('uint16', 'uint32'), P.i_int('int16')),
    'arr32x16i16': lambda: P.p_array(('uint32', 'uint16'), P.i_int('int16')),
    'arr0u16': lambda: P.p_array((0,), P.i_int('uint16')), 'arr1fu16': lambda: P.p_array((1,), P.i_int('uint16')),
    'arr64u16': lambda: P.p_array(('uint64',), P.i_int('uint16')), 'arr2tup': lambda: P.p_array((2,), TW()),
    'arr8oq': lambda: P.p_array(('uint8',), P.i_opaque('oq')),
    'arr8arr2': lambda: P.p_array(('uint8',), part_item(P.p_array((2,), P.i_int('int16')))),
})
# many partitions each
HEAVY = {'arr8dyn16', 'uninet'}
WIDE = HEAVY | {'net', 'uni8', 'uni16', 'utf16', 'latin', 'tup8d', 'dyn8', 'dyn16', 'dyn32', 'dyn64', 'uniterm'}
# pairs of hints whose parameters look alike
LOOK = [
    ('char[1]', 'char[2]'), ('char[1]', 'pad[1]'), ('char[1]', 'pascal[1]'), ('char[5]', 'pascal[5]'), ('char[2]', 'pad[2]'),
    ('char[256]', 'char[255]'), ("char[b'\\0']", 'char[0]'), ("char[b'\\xff']", 'char[255]'), ("char[b'|']", "char[b'\\0']"),
    ("char[b'\\n']", "char[b'|']"), ('char[uint8]', 'char[uint16]'), ('char[uint16]', 'char[uint32]'), ('char[uint32]', 'char[uint64]'),
    ('char[NET]', 'char[uint8]'), ('char[NET]', 'unicode[NET]'), ('char[uint8]', 'unicode[uint8]'), ('unicode[uint8]', 'unicode[uint16]'),
    ('unicode[uint8]', "unicode[uint8, 'utf-16-le']"), ("unicode[uint8, 'utf8']", "unicode[uint8, 'utf-16-le']"),
    ('unicode[uint16]', "unicode[uint16, 'latin-1']"), ("char[b'\\0']", "unicode[b'\\0']"), ('null_char', 'null_unicode'),
    ('array[Header[2], int16]', 'array[Header[uint8], int16]'), ('array[Header[2], int16]', 'array[Header[2], uint16]'),
    ('array[Header[2], int16]', 'array[Header[2, uint16], int16]'), ('array[Header[2], uint16]', 'array[Header[3], uint16]'),
    ('array[Header[0], uint16]', 'array[Header[2], uint16]'), ('array[Header[1], uint16]', 'array[Header[2], uint16]'),
    ('array[Header[uint8], int16]', 'array[Header[uint8], int32]'), ('array[Header[uint16], int8]', 'array[Header[uint8], int32]'),
    ('array[Header[uint16, uint32], int16]', 'array[Header[uint32, uint16], int16]'),
    ('array[Header[2], tuple[uint8, int32]]', 'array[Header[uint8], tuple[uint8, int32]]'),
    ("array[Header[uint8], Annotated[int, Opaque('op')]]", "array[Header[uint8], Annotated[int, Opaque('oq')]]"),
    ("Annotated[int, Opaque('op')]", "Annotated[int, Opaque('oq')]"), ('Annotated[Wrapped, SerializeAs(int32)]', 'Annotated[Wrapped, SerializeAs(int8)]'),
    ('tuple[uint16]', 'tuple[uint8, int32]'), ('array[Header[uint8], int16]', 'array[Header[uint8], array[Header[2], int16]]'),
    ('array[Header[uint64], uint16]', 'array[Header[2], uint16]'),
]


def nm(slot, n):
    return f'_:{slot}' if slot.startswith('pad') else f'{n}:{slot}'


def an(a, n):
    return f'    {"_" if a.startswith("pad") else n}: {a}\n'


def hints(tier):
    out = []
    def r(label, src, slots, order='LE'):
        out.append(raw(label, 'from structured.hint_types.strings import NET\n' + src, slots, order, 'C22'))
        out[-1].own = True
    both = ('LE', 'BE') if tier == 'thorough' else ('LE',)
    for a, slot in H.items():
        one = slot in HEAVY
        for o in both:
            other = 'BE' if o == 'LE' else 'LE'
            r(f'{a} in several classes, {o}', f'class Before(Structured, byte_order=ByteOrder.{other}):\n' + an(a, 'a') + '    x: int8\n' + an(a, 'b') +
              f'class Subj(Structured, byte_order=ByteOrder.{o}):\n' + an(a, 'a') + '    x: int8\n' + ('' if one else an(a, 'b')) +
              f'class After(Structured, byte_order=ByteOrder.{other}):\n    y: int16\n' + an(a, 'b'),
              f'{nm(slot, "a")} x:int8' + ('' if one else f' {nm(slot, "b")}'), o)
        r(f'one alias of {a} used twice', f'Alias = {a}\nclass Before(Structured, byte_order=ByteOrder.LE):\n' + an('Alias', 'a').replace('Alias', a if a.startswith('pad') else 'Alias') +
          'class Subj(Structured, byte_order=ByteOrder.BE):\n' + (an(a, 'a') * 2 if a.startswith('pad') else '    a: Alias\n    y: int8\n' if one else '    a: Alias\n    b: Alias\n'),
          f'{nm(slot, "a")} ' + ('y:int8' if one else nm(slot, "b")), 'BE')
        if not a.startswith(('pad', 'pascal[256')) and slot not in ('c0',):
            big = ('256', '300') if tier == 'thorough' else ()
            if f'array[Header[uint8], {a}]' not in H and not a.startswith('array'):
                n = 1 if slot in WIDE else 2
                if f'arr{n}_{slot}' not in K:
                    K[f'arr{n}_{slot}'] = lambda slot=slot, n=n: P.p_array((n,), part_item(K[slot]()))
                r(f'{a} as array item and as field', f'class Subj(Structured, byte_order=ByteOrder.BE):\n    a: array[Header[{n}], {a}]\n    b: {a}\n',
                  f'a:arr{n}_{slot} b:{slot}', 'BE')
    for a, b in LOOK:
        for x, y in ((a, b), (b, a)):
            wide = H[x] in WIDE and H[y] in WIDE | {'dyn8', 'dyn16', 'dyn32', 'dyn64'}
            r(f'{x} next to {y}', 'class Subj(Structured, byte_order=ByteOrder.BE):\n' + an(x, 'a') + an(y, 'b') + ('' if wide else an(x, 'c')),
              f'{nm(H[x], "a")} {nm(H[y], "b")}' + ('' if wide else f' {nm(H[x], "c")}'), 'BE')
            if tier == 'thorough':
                r(f'{x} after a class of {y}', 'class Before(Structured, byte_order=ByteOrder.LE):\n' + an(y, 'a') +
                  'class Subj(Structured, byte_order=ByteOrder.BE):\n' + an(x, 'a') + an(y, 'b'), f'{nm(H[x], "a")} {nm(H[y], "b")}', 'BE')
    return out


suites.SPECIAL.append(hints)

INVALID = {
    'char': '''-1|1.5|2.0|'x'|'5'|None|int8|int16|int32|int64|bool8|float32|b''|b'ab'|()|(1, 2)|(NET, 1)|(uint8, uint8)|math.nan|-math.inf|str|int|object()|
               char[3]|char[uint8]|pad[1]|Header[2]|-300|tuple[uint8]|unicode|bytearray(b'x')''',
    'unicode': '''-1|1.5|2.0|'utf8'|None|int8|int16|int32|int64|bool8|float32|b''|b'ab'|()|(5, None)|(5, 5)|(5, int)|(5, 'utf8', 1)|(uint8, bytes)|(5, b'utf8')|(5, object())|
               math.nan|-math.inf|str|char[3]|(uint16, NET)|(-1, 'utf8')|(1.5, 'utf8')|(5, EncoderDecoder, 1)|(uint8, uint8)|(NET, True)''',
    'pad': '''-1|1.5|2.0|'x'|None|int8|uint8|uint16|(1, 2)|b'x'|math.inf|NET|()|int''',
    'pascal': '''-1|0|1.5|5.0|'x'|None|uint8|(1, 2)|b'x'|math.inf|NET|()|int''',
    'Header': '''-1|-5|1.5|2.0|'x'|int8|int16|int32|int64|None|(1, 2)|(1, int8)|(1, int64)|(uint8, 3)|(uint8, -1)|(uint8, uint8, uint8)|()|(uint8, char[2])|char[uint8]|char[2]|
               float32|float64|(uint8, 'x')|(uint8, float32)|(2, float16)|bool8|(2, bool8)|NET|math.inf|b'x'|(-1, uint8)|(1.0, uint8)|pad[2]|(uint8, pad[1])|int|tuple[uint8]|
               array[Header[2], int8]|(uint16, tuple[uint8])|str|object()|(None, uint8)|(uint8, Annotated[int, Opaque('op')])|Annotated[int, Opaque('op')]''',
    'array': '''int8|Header[2]|(2, int8)|(Header[2], int)|(Header[2], str)|(Header[2], None)|(int8, Header[2])|(Header[2], int8, int8)|(uint8, int8)|(Header, int8)|(Header[2], 5)|
               (Header[2], Any)|(Header[2], list[int8])|(Header[2], tuple[int8, int])|(Header[2], Union[int8, int16])|(Header[2], char)|()|(Header[uint8], bytes)|
               (Header[2, uint16], dict)|(Header[uint8, uint16], Annotated[int, 3])|(None, int8)|('2', int8)|(Header[2], array)|(Header[uint8], Header[uint8])|
               (Header[2], Optional[int8])|(char[2], int8)|(Header[2], ClassVar[int8])|(Header[2], 'int8')''',
}
CALLS = '''SerializeAs(int)|SerializeAs(char[uint8])|SerializeAs(char[NET])|SerializeAs(null_char)|SerializeAs(array[Header[2], int8])|SerializeAs(pad[1])|SerializeAs(pad[3])|
SerializeAs(tuple[int8])|SerializeAs(None)|SerializeAs(5)|SerializeAs('int8')|SerializeAs(unicode[5])|SerializeAs(unicode[uint8])|SerializeAs(Structured)|SerializeAs(Flat)|
SerializeAs(Annotated[int8, Condition(lambda o: True, 0)])|SerializeAs(Annotated[int, Opaque('op')])|SerializeAs(Union[int8, int16])|SerializeAs(bytes)|SerializeAs(array[Header[uint8], int8])|SerializeAs()|
Condition()|LookbackDecider()|LookbackDecider(lambda o: 0)|LookbackDecider(lambda o: 0, {0: int})|LookbackDecider(lambda o: 0, {0: int8}, int)|
LookbackDecider(lambda o: 0, {0: int8, 1: str})|LookbackDecider(lambda o: 0, {0: pad[1]})|LookbackDecider(lambda o: 0, {0: int8}, pad[1])|
LookbackDecider(lambda o: 0, {0: None})|LookbackDecider(lambda o: 0, {0: Any}, int8)|LookaheadDecider(int, lambda o: 0, {0: int8})|LookaheadDecider(None, lambda o: 0, {0: int8})|
LookaheadDecider('uint8', lambda o: 0, {0: int8})|LookaheadDecider(uint8, lambda o: 0, {0: int})|LookaheadDecider(uint8, lambda o: 0, {0: int8}, bytes)|LookaheadDecider(uint8, lambda o: 0, {0: pad[2]}, None)|
LookaheadDecider(uint8, lambda o: 0, {0: int8}, pad[2])'''
VALID = {
    'char': "0|1|5|255|1000|uint8|uint16|uint32|uint64|NET|b'\\0'|b'a'|b'\\xff'|math.inf|float('inf')",
    'unicode': "0|1|5|uint8|uint16|uint32|uint64|NET|b'\\0'|math.inf|(5, 'utf8')|(uint8, 'utf-16')|(NET, 'ascii')|(math.inf, 'latin-1')|(uint8, Enc)|(b'|', Enc)|(5, Enc())|(NET, EncoderDecoder)",
    'pad': '0|1|2|300', 'pascal': '1|2|256',
    'Header': '0|1|2|300|uint8|uint16|uint32|uint64|(0, uint8)|(2, uint8)|(2, uint64)|(uint8, uint8)|(uint16, uint32)|(uint64, uint64)|(5, None)|(uint8, None)',
    'array': "(Header[2], int8)|(Header[uint8], bool8)|(Header[2, uint16], float32)|(Header[uint8, uint16], char[3])|(Header[uint8], char[uint8])|(Header[uint8], unicode[NET])|"
             "(Header[2], tuple[int8, char[uint8]])|(Header[2], Flat)|(Header[2], array[Header[2], int8])|(Header[uint8], Annotated[int, Opaque('op')])|"
             "(Header[uint8], Annotated[Wrapped, SerializeAs(int8)])|(Header[uint8], Annotated[Union[int8, int16], LookbackDecider(lambda o: 0, {0: int8}, int16)])|"
             "(Header[0], null_char)|(Header[uint8], Annotated[int8, Condition(lambda o: True, 0)])",
}
PRE = ('import math\nfrom structured.hint_types.strings import NET, EncoderDecoder\n' + P.WRAPPED +
       'class Enc(EncoderDecoder):\n    pass\nclass Flat(Structured):\n    q: int8\n')


def split(text):
    return [x.strip() for x in text.replace('\n', ' ').replace("b'|'", "b'\\x7c'").split('|') if x.strip()]


def invalid_of(h):
    def run(bench):
        for a in split(INVALID[h]):
            outcome(bench, f'{h}[{a}]', PRE + f'x = {h}[{a}]\n', 'C22', False, 'an invalid parameter is rejected')
            outcome(bench, f'{h}[{a}] as a field', PRE + f'class Subj(Structured):\n    a: int8\n    x: {h}[{a}]\n', 'C22', False,
                    'an invalid parameter is rejected in a class')
        if h != 'Header':
            for ann in (h, f'Annotated[int, {h}]', f'tuple[int8, {h}]'):
                outcome(bench, f'{ann} without parameters', PRE + f'class Subj(Structured):\n    a: {ann}\n', 'C22', False,
                        'a hint without its parameters is rejected', ('TypeError',))
    return run


for _h in INVALID:
    case('C22', 'quick', f'invalid parameters of {_h}')(invalid_of(_h))


@case('C22', 'quick', 'invalid arguments')
def invalid_calls(bench):
    for c in split(CALLS):
        outcome(bench, c, PRE + f'x = {c}\n', 'C22', False, 'an invalid argument is rejected')


@case('C22', 'quick', 'valid parameters')
def valid(bench):
    for h, args in VALID.items():
        for a in split(args):
            outcome(bench, f'{h}[{a}]', PRE + f'x = {h}[{a}]\n', 'C22', True, 'a valid parameter is accepted')
    for c in ('SerializeAs(int8)', 'SerializeAs(char[3])', 'SerializeAs(float32)', 'SerializeAs(pascal[3])', 'SerializeAs(bool8)',
              'SerializeAs(Annotated[int, int8])', 'SerializeAs(uint64).with_factory(lambda x: x)', 'SerializeAs(char[0])',
              'SerializeAs(Annotated[Wrapped, SerializeAs(int8)])', 'Condition(lambda o: True)', 'Condition(lambda o: True, 1, 2)',
              'LookbackDecider(lambda o: 0, {0: int8})', 'LookbackDecider(lambda o: 0, {0: int8}, None)', 'LookbackDecider(lambda o: 0, {}, char[uint8])',
              "LookaheadDecider(char[2], lambda o: 0, {b'ab': int8})", 'LookaheadDecider(tuple[uint8, uint8], lambda o: 0, {(1, 2): int8}, Flat)'):
        outcome(bench, c, PRE + f'x = {c}\n', 'C22', True, 'a valid argument is accepted')


@case('C22', 'quick', 'equal-looking parameters')
def equal_looking(bench):
    """A parameter is judged by itself, whatever hints exist already."""
    for good, bad in (('char[2]', 'char[2.0]'), ('unicode[2]', 'unicode[2.0]'), ("unicode[2, 'utf8']", "unicode[2.0, 'utf8']"), ('Header[2]', 'Header[2.0]'),
                      ('Header[2, uint8]', 'Header[2.0, uint8]'), ('pad[2]', 'pad[2.0]'), ('pascal[2]', 'pascal[2.0]'), ('char[0]', 'char[0.0]'),
                      ('char[uint8]', 'char[int8]'), ('Header[uint8]', 'Header[int8]'), ('Header[2, None]', 'Header[2, 0]'), ('char[5]', 'char[-5]'),
                      ("char[b'a']", "char['a']"), ("unicode[5, 'utf8']", "unicode[5, b'utf8']"), ('array[Header[2], int8]', 'array[2, int8]'),
                      ('Header[1, uint8]', 'Header[1, 1]'), ('char[math.inf]', 'char[-math.inf]')):
        outcome(bench, f'{bad} after {good}', PRE + f'y = {good}\nx = {bad}\n', 'C22', False, 'an invalid parameter is rejected whatever was used before')
        outcome(bench, f'{good} after {bad}', PRE + f'try:\n    y = {bad}\nexcept Exception:\n    pass\nx = {good}\n', 'C22', True,
                'a valid parameter is accepted whatever failed before')
