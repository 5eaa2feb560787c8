"""Equality of objects (C27): the serialized attributes, and nothing else."""
from __future__ import annotations

import ast

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .builtins_model import OBJECT, compare, eq
from .experiments import verdict_of
from .layout import lit
from .suites import case
from .values import *


def relate(t, a, b, want, what, prop='C27'):
    """a == b and a != b, both ways round, against the expected answer."""
    I = t.I
    for x, y, how in ((a, b, ''), (b, a, ', the other way round')):
        for op, w in ((ast.Eq(), want), (ast.NotEq(), not want)):
            g = t.attempt(compare, I, op, x, y)
            name = '==' if isinstance(op, ast.Eq) else '!='
            ok = verdict_of(g) if not g.ok else (g.value is w)
            t.check(prop, f'{what}: {name}{how}', ok, '' if ok is True else f'expected {w}, got {g.text()}')


def objects(t, s, m):
    """Objects of one class, over every shape of class."""
    I, v = t.I, t.v
    cls = m.ns[s.name]
    vals = s.values(v, 'x', m.ns)
    a, b = I.call(cls, list(vals)), I.call(cls, list(vals))
    relate(t, a, a, True, 'an object and itself')
    relate(t, a, b, True, 'objects with the same values')
    for i, n in enumerate(s.names):
        c = I.call(cls, list(vals))
        I.setattr(c, n, I.call(OBJECT, []))
        relate(t, a, c, False, 'objects that differ in one attribute')
    c = I.call(cls, list(vals))
    I.setattr(c, 'unrelated', 1)
    relate(t, a, c, True, 'objects that differ in an attribute that is not serialized')
    I.setattr(a, 'unrelated', 2)
    relate(t, a, c, True, 'objects that differ in an attribute that is not serialized')


suites.GENERIC['equality'] = (objects, 'C27')

PROGRAMS = {
    'no attributes': ('class Subj(Structured):\n    pass\n', []),
    'only padding': ('class Subj(Structured):\n    _: pad[2]\n', []),
    'one attribute': ('class Subj(Structured):\n    a: int8\n', ['a']),
    'two attributes': ('class Subj(Structured):\n    a: int8\n    b: char[2]\n', ['a', 'b']),
    'padding between attributes': ('class Subj(Structured):\n    _: pad[1]\n    a: int8\n    _: pad[2]\n    b: int8\n    _: pad[1]\n', ['a', 'b']),
    'four attributes': ('class Subj(Structured):\n    a: int8\n    b: unicode[NET]\n    c: array[Header[2], int8]\n    d: Annotated[int, Opaque("z")]\n', list('abcd')),
    'inherited attributes': ('class Base(Structured):\n    a: int8\n    b: int8\nclass Subj(Base):\n    c: int8\n', list('abc')),
    'an overridden attribute': ('class Base(Structured):\n    a: int8\n    b: int8\nclass Subj(Base):\n    a: int32\n    c: int8\n', list('abc')),
    'a removed attribute': ('class Base(Structured):\n    a: int8\n    b: int8\nclass Subj(Base):\n    a: None\n    c: int8\n', list('bc')),
    'attributes that are not serialized': ('class Subj(Structured):\n    a: int8\n    n: int\n    b: int8\n    m: str = "q"\n    k: ClassVar[int] = 3\n', list('ab')),
    'an initializer of its own': ('class Subj(Structured, init=False):\n    a: int8\n    b: int8\n    def __init__(self, a, b):\n        self.extra = object()\n        self.b = b\n        self.a = a\n', list('ab')),
    'extra attributes after construction': ('class Subj(Structured):\n    a: int8\n    b: int8\n    def __post_init__(self):\n        self.extra = object()\n', list('ab')),
    'a specialized generic class': ('class Gen(Generic[T], Structured):\n    a: T\n    b: int8\nclass Subj(Gen[int16]):\n    c: int8\n', list('abc')),
    'a generic class': ('class Subj(Generic[T], Structured):\n    a: T\n    b: int8\n    c: int8\n', list('bc')),
    'a generic class, specialized': ('class Gen(Generic[T], Structured):\n    a: T\n    b: int8\nclass Subj(Gen[int16]):\n    pass\n', list('ab')),
    'an attribute named self': ('class Subj(Structured):\n    self: int8\n    other: int8\n', ['self', 'other']),
    'attributes with leading underscores': ('class Subj(Structured):\n    _a: int8\n    b: int8\n    _c_: int8\n', ['_a', 'b', '_c_']),
    'unusual attribute names': ('class Subj(Structured):\n    A: int8\n    attrs_: int8\n    values: int8\n    é: int8\n', ['A', 'attrs_', 'values', 'é']),
    'a nested object': ('class In(Structured):\n    x: int8\nclass Subj(Structured):\n    a: In\n    b: int8\n', list('ab')),
}
PRE = 'from structured.hint_types.strings import NET\n'


def program(label, src, names):
    def run(bench):
        m = X.load_any(bench, PRE + src)
        if not m.ok:
            bench.record('C27', label, 'the client program loads', verdict_of(m), m.text(), '')
            return
        ns = m.value.ns
        I = bench.lab.I

        def go(t):
            cls = ns['Subj']
            for mask in range(1 << len(names)):
                x = [t.I.call(OBJECT, []) for _ in names]
                y = [t.I.call(OBJECT, []) if mask >> i & 1 else x[i] for i in range(len(names))]
                a, b = t.I.call(cls, list(x)), t.I.call(cls, list(y))
                relate(t, a, b, not mask, 'objects with every combination of equal and different attributes')
        bench.explore(f'objects with {label}', go)

        def symbolic(t):
            """Unknown numbers: equal exactly when each is."""
            cls = ns['Subj']
            x = [t.v.int(f'x{i}') for i in range(len(names))]
            y = [t.v.int(f'y{i}') for i in range(len(names))]
            a, b = t.I.call(cls, list(x)), t.I.call(cls, list(y))
            g = t.attempt(eq, t.I, a, b)
            if not t.check('C27', 'comparing numbers gives an answer', True if g.ok else verdict_of(g), g.text()):
                return
            want = True
            for p, q in zip(x, y):
                if not eq(t.I, p, q):
                    want = False
                    break
            t.check('C27', 'objects with unknown numbers are equal exactly when each number is', g.value is want, f'expected {want}, got {g.value}')
        bench.explore(f'unknown numbers, {label}', symbolic)
    case('C27', 'quick', f'equality with {label}')(run)


for _l, (_s, _n) in PROGRAMS.items():
    program(_l, _s, _n)

RELATED = '''
class Base(Structured):
    a: int8
    b: int8
class Same(Base):
    pass
class More(Base):
    c: int8
class Less(Base):
    b: None
class Reordered(Base, byte_order=ByteOrder.BE, byte_order_mode=ByteOrderMode.OVERRIDE):
    pass
class Other(Structured):
    a: int8
    b: int8
class Gen(Generic[T], Structured):
    a: T
    b: int8
class Gen8(Gen[int8]):
    pass
class Gen16(Gen[int16]):
    pass
class Plain:
    def __init__(self, a, b):
        self.a = a
        self.b = b
class Sly:
    attrs = ('a', 'b')
    def __init__(self, a, b):
        self.a = a
        self.b = b
    def __eq__(self, other):
        return 'sly'
class No:
    def __eq__(self, other):
        return False
class Own(Structured):
    a: int8
    b: int8
    def __eq__(self, other):
        return True
class Inner(Structured):
    x: int8
    y: char[uint8]
class Outer(Structured):
    i: Inner
    n: array[Header[uint8], Inner]
class Loose(Structured):
    a: int8
    n: int
    _: pad[1]
'''


@case('C27', 'quick', 'equality with other things')
def other_things(bench):
    m = X.load_any(bench, PRE + RELATED)
    if not m.ok:
        bench.record('C27', 'related classes', 'the client program loads', verdict_of(m), m.text(), '')
        return
    ns = m.value.ns
    I = bench.lab.I

    def classes(t):
        I = t.I
        C = {n: I.call(ns[n], [1, 2]) for n in ('Base', 'Same', 'Other', 'Reordered', 'Plain')}
        C['More'] = I.call(ns['More'], [1, 2, 3])
        C['Less'] = I.call(ns['Less'], [1])
        C['Gen[int8]'] = I.call(ns['Gen8'], [1, 2])
        C['Gen[int16]'] = I.call(ns['Gen16'], [1, 2])
        C['Gen'] = I.call(ns['Gen'], [2])
        for i, (n, a) in enumerate(C.items()):
            for m_, b in list(C.items())[i + 1:]:
                relate(t, a, b, False, f'objects of different classes, {n} and {m_}')
        for n in C:
            if n not in ('Plain',):
                for o, w in ((None, 'None'), (1, 'a number'), ('a', 'a string'), (b'a', 'bytes'), ((1, 2), 'a tuple'), (ListV([1, 2]), 'a list'),
                             (I.call(OBJECT, []), 'an object'), (ns['Base'], 'a class'), (NotImplemented, 'NotImplemented')):
                    relate(t, C[n], o, False, f'an object and {w}')
    bench.explore('objects of different classes', classes)

    def foreign(t):
        I = t.I
        a = I.call(ns['Base'], [1, 2])
        relate(t, a, I.call(ns['Sly'], [1, 2]), True, 'an object and one that says it is equal')
        relate(t, a, I.call(ns['No'], []), False, 'an object and one that says it is different')
        relate(t, a, I.call(ns['Own'], [1, 2]), True, 'an object and one whose class defines equality')
        relate(t, I.call(ns['Own'], [1, 2]), I.call(ns['Own'], [3, 4]), True, 'objects of a class that defines equality')
        g = t.attempt(I.call_method, a, '__eq__', [I.call(ns['Other'], [1, 2])], {})
        t.check('C27', '__eq__ leaves the answer to the other object', g.ok and g.value is NotImplemented if g.kind != 'undecided' else None, g.text())
        g = t.attempt(I.call_method, a, '__eq__', [I.call(ns['Base'], [1, 2])], {})
        t.check('C27', '__eq__ answers True or False', g.ok and g.value is True if g.kind != 'undecided' else None, g.text())
    bench.explore('objects and foreign objects', foreign)

    def nested(t):
        I = t.I
        inner = lambda x: I.call(ns['Inner'], [x, b'ab'])
        mk = lambda x, *ys: I.call(ns['Outer'], [inner(x), ListV([inner(y) for y in ys])])
        relate(t, mk(1, 2, 3), mk(1, 2, 3), True, 'objects holding equal objects')
        relate(t, mk(1, 2, 3), mk(4, 2, 3), False, 'objects holding different objects')
        relate(t, mk(1, 2, 3), mk(1, 2, 4), False, 'objects holding different objects')
        relate(t, mk(1, 2, 3), mk(1, 2), False, 'objects holding lists of different lengths')
        relate(t, mk(1), mk(1), True, 'objects holding empty lists')
        relate(t, mk(1, 2, 3), mk(1, 3, 2), False, 'objects holding lists in different orders')
    bench.explore('objects holding objects', nested)

    def kinds(t):
        """Values count as they compare, not by type or identity."""
        I = t.I
        mk = lambda a: I.call(ns['Base'], [a, 0])
        for a, b, w in ((1, 1.0, True), (1, True, True), (0, False, True), (1, 2, False), (b'a', b'a', True), (b'a', 'a', False), ('a', 'b', False), (0, None, False),
                        (0, '', False), ((1,), (1,), True), ((1,), (1, 2), False), (b'ab', B.BufV('bytearray', [lit(b'ab')]), True), (300, 300, True),
                        (ListV([1]), ListV([1]), True), (ListV([1]), (1,), False), (ListV([]), None, False)):
            relate(t, mk(a), mk(b), w, f'objects holding {a!r} and {b!r}')
    bench.explore('values that compare in particular ways', kinds)

    def loose(t):
        I = t.I
        a, b = I.call(ns['Loose'], [1]), I.call(ns['Loose'], [1])
        I.setattr(a, 'n', 5)
        relate(t, a, b, True, 'objects of which one has an attribute that is not serialized')
        I.setattr(b, 'n', 6)
        I.setattr(a, '_', b'x')
        relate(t, a, b, True, 'objects that differ in attributes that are not serialized')
        c = I.call_method(a, 'with_byte_order', [I.getattr(ns['ByteOrder'], 'BE')], {})
        d = I.call_method(a, 'with_byte_order', [I.getattr(ns['ByteOrder'], 'BE')], {})
        relate(t, c, c, True, 'an object in another byte order and itself')
        e = I.call(ns['Loose'], [2])
        f = I.call_method(e, 'with_byte_order', [I.getattr(ns['ByteOrder'], 'BE')], {})
        relate(t, c, f, False, 'different objects in another byte order')
    bench.explore('attributes that are not serialized', loose)

    def later(t):
        """Assigning an attribute changes the answer, packing and unpacking do not."""
        I = t.I
        a, b = I.call(ns['Base'], [1, 2]), I.call(ns['Base'], [1, 2])
        I.call_method(a, 'pack', [], {})
        relate(t, a, b, True, 'an object that has been packed')
        I.call_method(b, 'unpack', [b'\1\2'], {})
        relate(t, a, b, True, 'an object unpacked into')
        I.call_method(b, 'unpack', [b'\1\3'], {})
        relate(t, a, b, False, 'an object unpacked into with other values')
        I.setattr(a, 'b', 3)
        relate(t, a, b, True, 'an object assigned to')
        relate(t, a, I.call_method(ns['Base'], 'create_unpack', [b'\1\3'], {}), True, 'an unpacked object')
        relate(t, a, I.call_method(ns['Base'], 'create_unpack', [b'\1\4'], {}), False, 'an unpacked object with other values')
    bench.explore('objects after changes', later)
