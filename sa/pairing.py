"""C11: a wrong number of values is an error on every route, wherever it arises."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .choices import INTRO
from .deciding import define
from .malformed import PACKS, UNPACKS, do_pack, do_unpack, refused
from .layout import lit
from .parts import int_enc
from .suites import case
from .values import *

# ------------------------------------------------- tuples of a wrong length
MEMBERS = {
    'numbers': (['int8', 'uint16'], lambda v: (v.int('m0', -128, 127), v.int('m1', 0, 65535))),
    'one number': (['int8'], lambda v: (v.int('m0', -128, 127),)),
    'number and string': (['uint8', 'char[uint8]'], lambda v: (v.int('m0', 0, 255), v.raw('m1', 3))),
    'one string': (['char[uint16]'], lambda v: (v.raw('m0', 3),)),
    'strings': (['null_char', 'char[NET]'], lambda v: (v.raw('m0', 3, b'\0'), v.raw('m1', 2))),
    'texts': (['unicode[uint8]', 'unicode[6]'], lambda v: ('abc', 'de')),
    'arrays': (['array[Header[2], int8]', 'array[Header[uint8], char[uint8]]'],
               lambda v: (ListV([v.int('m0', -128, 127), 4]), ListV([v.raw('m1', 2)]))),
    'an object': (['In'], lambda v: (None,)),
    'objects and padding': (['In', 'pad[2]', 'In'], lambda v: (None, None)),
    'a tuple': (['tuple[int8, char[uint8]]'], lambda v: ((v.int('m0', -128, 127), v.raw('m1', 2)),)),
    'a condition': (['int8', 'Annotated[int8, Condition(lambda o: True, 0)]'], lambda v: (v.int('m0', -128, 127), 7)),
    'a union': (['Annotated[Union[int8, int16], LookbackDecider(lambda o: 1, {1: int16})]', 'int8'], lambda v: (v.int('m0', -128, 127), 7)),
    'a custom serializer': (['Annotated[int, Opaque("z")]', 'int8'], lambda v: (v.int('m0', -128, 127), 7)),
}
PLACES = {
    'alone': ('class Subj(Structured, byte_order=ByteOrder.LE):\n    x: {}\n', lambda x: [x]),
    'between numbers': ('class Subj(Structured, byte_order=ByteOrder.LE):\n    a: uint8\n    x: {}\n    b: uint8\n', lambda x: [9, x, 2]),
    'between strings': ('class Subj(Structured, byte_order=ByteOrder.LE):\n    a: char[uint8]\n    x: {}\n    b: null_char\n', lambda x: [b'ab', x, b'c']),
    'in an array': ('class Subj(Structured, byte_order=ByteOrder.LE):\n    a: uint8\n    x: array[Header[2], {}]\n', None),
    'in a tuple': ('class Subj(Structured, byte_order=ByteOrder.LE):\n    a: uint8\n    x: tuple[int8, {}, char[uint8]]\n', lambda x: [9, (1, x, b'c')]),
    'under a condition': ('class Subj(Structured, byte_order=ByteOrder.LE):\n    a: uint8\n    x: Annotated[{}, Condition(lambda o: o.a, None)]\n', lambda x: [9, x]),
    'in a union': ('class Subj(Structured, byte_order=ByteOrder.LE):\n    a: uint8\n    x: Annotated[Union[{}, int8], LookbackDecider(lambda o: o.a, {{1: int8}}, {})]\n    z: char[uint8]\n', lambda x: [9, x, b'q']),
}
CLS = INTRO + '''
from structured.hint_types.strings import NET
class In(Structured, byte_order=ByteOrder.LE):
    n: uint16
    s: char[uint8]
'''


def wrong_tuple(t, m, members, place):
    I, v = t.I, t.v
    good = list(MEMBERS[members][1](v))
    good = [I.call(m.ns['In'], [1, b'in']) if x is None else x for x in good]
    n = len(good)
    put = PLACES[place][1] or (lambda x: [9, ListV([tuple(good), x])])
    o = t.attempt(lambda: I.call(m.ns['Subj'], put(tuple(good))))
    for route in PACKS:
        g = do_pack(t, o.value, route, 1000)[0] if o.ok else o
        t.check('C11', f'{route} accepts a tuple with one value per member', True if g.ok else X.verdict_of(g), g.text())
    # surplus and missing values, at either end
    wrong = [('no values', ()), ('one value too many', good + [good[-1]]), ('a number too many', good + [5]),
             ('a byte string too many', good + [b'x']), ('an empty byte string too many', good + [b'']),
             ('None too many', good + [None]), ('an empty list too many', good + [ListV([])]),
             ('the values twice', good + good), ('a value too many in front', [good[0]] + good)]
    if n > 1:
        wrong += [('the last value missing', good[:-1]), ('the first value missing', good[1:])]
    for label, vals in wrong:
        o = t.attempt(lambda: I.call(m.ns['Subj'], put(tuple(vals))))
        if not o.ok:
            continue
        for route in PACKS:
            g, segs = do_pack(t, o.value, route, 1000)
            refused(t, 'C11', f'{route} refuses a tuple with another number of values than it has members', g,
                    f'{label}: {len(vals)} values packed for {n} members' + (f': {t.show(segs)}' if segs else ''))


def register_tuples():
    for ml, (anns, _) in MEMBERS.items():
        for pl, (src, _) in PLACES.items():
            tup = f'tuple[{", ".join(anns)}]'
            label = f'tuple of {ml}, {pl}'
            text = CLS + src.format(*[tup] * src.count('{}'))

            def run(bench, label=label, text=text, ml=ml, pl=pl):
                m = define(bench, label, text, 'C11')
                if m is not None:
                    bench.explore(label, lambda t: wrong_tuple(t, m, ml, pl))
            case('C11', name=f'wrong number of values: {label}')(run)


# ------------------------------- serializers that yield too few or too many
ODD = '''
class Odd(Serializer):
    num_values = 1
    def __init__(self, given, lazy, ready=False):
        self.given = given
        self.lazy = lazy
        self.ready = ready
        self.size = 2
    def prepack(self, partial_object):
        return Odd(self.given, self.lazy, True)
    def preunpack(self, partial_object):
        return Odd(self.given, self.lazy, True)
    def with_byte_order(self, byte_order):
        return self
    def pack(self, value):
        return b'zz'
    def pack_write(self, writable, value):
        writable.write(b'zz')
    def pack_into(self, buffer, offset, value):
        buffer[offset:offset + 2] = b'zz'
    def _give(self):
        self.size = 2
        values = [1, 2, 3][:self.given]
        if self.lazy:
            return iter(values)
        return values
    def unpack(self, buffer):
        return self._give()
    def unpack_from(self, buffer, offset=0):
        return self._give()
    def unpack_read(self, readable):
        readable.read(2)
        return self._give()
'''
ODD_CLASSES = {
    'alone': ('    x: {0}\n', 1),
    'first': ('    x: {0}\n    b: uint8\n', 2),
    'last': ('    a: uint8\n    x: {0}\n', 2),
    'between numbers': ('    a: uint8\n    x: {0}\n    b: uint8\n', 3),
    'between padding': ('    _: pad[1]\n    x: {0}\n    _: pad[1]\n', 1),
    'after a string': ('    a: uint8\n    s: char[1]\n    x: {0}\n', 3),
    'before a string': ('    x: {0}\n    s: char[2]\n    t: char[uint8]\n', 3),
    'twice': ('    x: {0}\n    y: {0}\n', 2),
    'under a condition': ('    a: uint8\n    x: Annotated[{0}, Condition(lambda o: True, 0)]\n    b: uint8\n', 3),
    'in a union': ('    a: uint8\n    x: Annotated[Union[int, str], LookbackDecider(lambda o: 0, {{}}, {0})]\n    b: uint8\n', 3),
}


def odd(t, m, place, given):
    I, v = t.I, t.v
    cls = m.ns['Subj']
    src, n = ODD_CLASSES[place]
    segs = [lit(b'zzss\0' + bytes(11))] if 't: char' in src else [int_enc('uint8', '<', 1)] * 16
    old = t.attempt(lambda: I.call(cls, [0] * n))
    for route in UNPACKS:
        g = do_unpack(t, cls if route.startswith('create') else old.value, route, segs)
        if given == 1:
            if route in ('create_unpack', 'unpack'):
                t.check('C11', f'{route} accepts one value per attribute', True if g.ok else X.verdict_of(g), g.text())
            continue
        refused(t, 'C11', f'{route} refuses a field that yields {given} values', g, f'{given} values for one attribute were accepted')


def register_odd():
    for pl, (src, _) in ODD_CLASSES.items():
        for given in (0, 1, 2, 3):
            for lazy in (False, True):
                label = f'{"lazily " if lazy else ""}{given} values from a field {pl}'
                text = INTRO + ODD + 'class Subj(Structured, byte_order=ByteOrder.LE):\n' + src.format(f'Annotated[int, Odd({given}, {lazy})]')

                def run(bench, label=label, text=text, pl=pl, given=given):
                    m = define(bench, label, text, 'C11')
                    if m is not None:
                        bench.explore(label, lambda t: odd(t, m, pl, given))
                case('C11', name=f'wrong number of values: {label}')(run)


register_tuples()
register_odd()
