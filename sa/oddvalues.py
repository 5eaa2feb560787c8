"""C02 C03: values of unusual types are treated alike by every packing route, and a refused
value leaves the bytes outside the window alone."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import suites
from .builtins_model import OBJECT
from .choices import INTRO
from .deciding import define
from .layout import BufV, normalise, total
from .malformed import PACKS
from .suites import case
from .terms import add
from .values import *

SRC = INTRO + '''
import math
from structured.hint_types.strings import NET
class In(Structured, byte_order=ByteOrder.LE):
    n: uint16
    s: char[uint8]
class Index:
    def __index__(self):
        return 5
class Floaty:
    def __float__(self):
        return 1.5
class Text(str):
    pass
class Number(int):
    pass
class Raw(bytes):
    pass
class Items(list):
    pass
class Pair(tuple):
    pass
class Wrap:
    def __init__(self, n):
        self.n = n
    def __index__(self):
        return self.n
    def __int__(self):
        return self.n
class Bad:
    def __init__(self, n):
        self.n = n
    def __index__(self):
        raise KeyError('no number')
'''
FIELDS = {
    'int8': 'int8', 'uint16': 'uint16', 'int64': 'int64', 'float32': 'float32', 'float64': 'float64', 'bool8': 'bool8',
    'char[3]': 'char[3]', 'char[uint8]': 'char[uint8]', 'char[NET]': 'char[NET]', 'null_char': 'null_char', 'char[inf]': 'char[math.inf]',
    'unicode[3]': 'unicode[3]', 'unicode[uint16]': 'unicode[uint16]', 'null_unicode': 'null_unicode',
    'fixed array of numbers': 'array[Header[2], int8]', 'counted array of numbers': 'array[Header[uint8], uint16]',
    'array of strings': 'array[Header[uint8], char[uint8]]', 'sized array': 'array[Header[1, uint16], In]',
    'tuple': 'tuple[int8, char[uint8]]', 'tuple of numbers': 'tuple[int8, int16]', 'object': 'In',
    'custom type': 'Annotated[object, SerializeAs(int16)]', 'condition': 'Annotated[uint8, Condition(lambda o: True, 0)]',
    'union': 'Annotated[Union[int8, char[uint8]], LookbackDecider(lambda o: 2, {1: int8, 2: char[uint8]})]',
}
# values that mean the same to Python on every route
VALUES = {
    'None': 'None', 'a number': '5', 'a large number': '70000', 'a negative number': '-3', 'a float': '2.5', 'True': 'True',
    'a text': "'abc'", 'an empty text': "''", 'bytes': "b'ab'", 'empty bytes': "b''", 'a bytearray': "bytearray(b'ab')",
    'a list': '[1, 2]', 'an empty list': '[]', 'a tuple': '(1, 2)', 'a pair': "(1, b'a')", 'a list of bytes': "[b'a', b'bc']",
    'nested lists': '[[1], [2]]', 'a dict': '{}', 'a range': 'range(2)', 'an object': 'object()', 'a Structured object': "In(1, b'x')",
    'a list of objects': "[In(1, b'x')]", 'an index': 'Index()', 'something with a float': 'Floaty()', 'a text of a subclass': "Text('abc')",
    'an int of a subclass': 'Number(5)', 'bytes of a subclass': "Raw(b'ab')", 'a list of a subclass': 'Items([1, 2])',
    'a tuple of a subclass': "Pair((1, b'a'))", 'a wrapped number': 'Wrap(3)', 'a wrapped large number': 'Wrap(100000)',
    'something without a number': 'Bad(3)', 'a type': 'int', 'a bool list': '[True, False]', 'a list with a wrong item': "[1, 'x']",
    'a list that is too long': '[1, 2, 3]', 'NaN': "float('nan')",
}


def alike(t, m, i, label):
    I, v = t.I, t.v
    mk = lambda: I.call(I.call(m.ns['get'], [i]), [])
    first = None
    for route in PACKS:
        o = t.attempt(mk)
        if not o.ok:
            return
        if route == 'pack':
            g = t.call(o.value, 'pack')
            got = list(B.segs_of(I, g.value)) if g.ok else None
        elif route == 'pack_write':
            st = X.stream([], [], [])
            g = t.call(o.value, 'pack_write', st)
            got = list(st.segs)
        else:
            off = v.int('off', 0)
            old = [('raw', off, 'old', 0), ('raw', 64, 'old', off), ('raw', v.int('tail.len', 0), 'old', add(off, 64))]
            buf = BufV('bytearray', normalise(old, I.facts))
            g = t.call(o.value, 'pack_into', buf, off)
            n = total(first[1]) if first[0] == 'ok' else 64
            X.outside(t, buf, old, off, n, 'pack_into')
            from .layout import split_at
            try:
                _, rest = split_at(buf.segs, off, I.facts)
                got, _ = split_at(rest, n, I.facts)
            except Unsupported:
                got = None
        if first is None:
            first = (g.kind, got)
            if g.kind == 'undecided':
                t.check('C02', 'packing a value of an unusual type gives an answer', None, g.text())
                return
            continue
        t.check('C02', f'{route} accepts a value of an unusual type exactly when pack does',
                None if g.kind == 'undecided' else g.kind == first[0], f'pack: {first[0]}; {route}: {g.text()} ({label})')
        if g.ok and first[0] == 'ok' and got is not None:
            r, d = t.same_bytes(first[1], got)
            t.check('C02', f'{route} of a value of an unusual type produces the bytes pack produces', r, d and f'{label}: {d}')


def register():
    for fl, ann in FIELDS.items():
        for place in ('first', 'last'):
            body = f'    x: {ann}\n    b: char[uint8]\n' if place == 'first' else f'    a: uint16\n    x: {ann}\n'
            if place == 'first' and 'inf' in ann:
                continue
            args = '{}, b"zz"' if place == 'first' else '7, {}'
            src = SRC + 'class Subj(Structured, byte_order=ByteOrder.LE):\n' + body
            src += 'MAKE = [\n' + ''.join(f'    lambda: Subj({args.format(x)}),\n' for x in VALUES.values()) + ']\ndef get(i):\n    return MAKE[i]\n'
            label = f'{fl}, {place}'

            def run(bench, label=label, src=src):
                m = define(bench, label, src, 'C02')
                if m is not None:
                    for i, vl in enumerate(VALUES):
                        bench.explore(f'{vl} for a field {label}', lambda t, i=i, vl=vl: alike(t, m, i, vl))
            case('C02 C03', name=f'unusual values: {label}')(run)


register()
