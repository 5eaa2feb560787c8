"""Hand-written classes: inheritance, overriding, byte orders of subclasses,
generics and hint parameters (C19-C22)."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .finals import outcome
from .shapes import part_item
from .suites import case
from .values import *

K = {n: (lambda n=n: P.p_int(n)) for n in P.INTS}
K.update({n: (lambda n=n: P.p_float(n)) for n in P.FLOATS})
K.update({
    'bool8': P.p_bool, 'c2': lambda: P.p_char(2), 'c0': lambda: P.p_char(0), 'c5': lambda: P.p_char(5),
    'pad1': lambda: P.p_pad(1), 'pad2': lambda: P.p_pad(2), 'pad3': lambda: P.p_pad(3),
    'dyn8': lambda: P.p_dynchar('uint8'), 'dyn16': lambda: P.p_dynchar('uint16'), 'dyn32': lambda: P.p_dynchar('uint32'),
    'term': P.p_term, 'bar': lambda: P.p_term(b'|'), 'net': P.p_netchar, 'uni8': lambda: P.p_unidyn('uint8'),
    'uni16': lambda: P.p_unidyn('uint16'), 'pas5': lambda: P.p_pascal(5), 'utf16': lambda: P.p_unidyn('uint8', 'utf-16-le'),
    'latin': lambda: P.p_unidyn('uint16', 'latin-1'), 'rest': P.p_rest,
    'op': lambda: P.as_part(P.i_opaque()), 'lazy': lambda: P.as_part(P.i_opaque('oq', lazy=True)),
    'custom': lambda: P.as_part(P.i_custom()), 'custom8': lambda: P.as_part(P.i_custom('int8')),
    'tup': lambda: P.as_part(P.i_tuple(P.i_int('uint8'), P.i_int('int32'))),
    'tupu16': lambda: P.as_part(P.i_tuple(P.i_int('uint16'))),
    'arr2i16': lambda: P.p_array((2,), P.i_int('int16')),
    'arr8i16': lambda: P.p_array(('uint8',), P.i_int('int16')),
    'arr8i32': lambda: P.p_array(('uint8',), P.i_int('int32')),
    'arr16i8': lambda: P.p_array(('uint16',), P.i_int('int8')),
    'arr16x32op': lambda: P.p_array(('uint16', 'uint32'), P.i_opaque()),
    'arr2u16': lambda: P.p_array((2,), P.i_int('uint16')),
    'arr3u16': lambda: P.p_array((3,), P.i_int('uint16')),
    'arr2x16op': lambda: P.p_array((2, 'uint16'), P.i_opaque()),
    'arr8op': lambda: P.p_array(('uint8',), P.i_opaque()),
    'arr8dyn16': lambda: P.p_array(('uint8',), part_item(P.p_dynchar('uint16'))),
    'arr8tup': lambda: P.p_array(('uint8',), P.i_tuple(P.i_int('uint8'), P.i_int('int32'))),
    'arr1u16': lambda: P.p_array((1, 'uint16'), P.i_int('uint32')),
})


def raw(label, src, slots, order='LE', tags='C19', name='Subj', future=False):
    out = []
    for f in slots.split():
        n, _, k = f.partition(':')
        out.append((K[k]() if isinstance(k, str) and k in K else K[k](), '' if n == '_' else n))
    src = ''.join(p.pre for p in ()) + src
    s = X.Raw(label, src, out, order, name, future, tags)
    return s


O = 'byte_order=ByteOrder.'


def inheritance(tier):
    out = []
    r = lambda *a, **k: out.append(raw(*a, **k))
    for o in ('LE', 'BE'):
        h = O + o
        r(f'inherited fields first, {o}', f'class Base(Structured, {h}):\n    a: int8\n    b: int16\n'
          f'class Subj(Base, {h}):\n    c: int32\n', 'a:int8 b:int16 c:int32', o)
        r(f'a field overridden in place, {o}', f'class Base(Structured, {h}):\n    a: int8\n    b: int16\n    c: char[uint8]\n'
          f'class Subj(Base, {h}):\n    b: uint32\n', 'a:int8 b:uint32 c:dyn8', o)
        r(f'a new field before an overridden one, {o}', f'class Base(Structured, {h}):\n    a: int8\n    b: int16\n'
          f'class Subj(Base, {h}):\n    c: int8\n    a: uint32\n', 'a:uint32 b:int16 c:int8', o)
        r(f'a number overridden with a string, {o}', f'class Base(Structured, {h}):\n    a: int8\n    b: int16\n    c: int64\n'
          f'class Subj(Base, {h}):\n    b: char[uint16]\n', 'a:int8 b:dyn16 c:int64', o)
        r(f'a removed field, {o}', f'class Base(Structured, {h}):\n    a: int8\n    b: uint32\n    c: float32\n'
          f'class Subj(Base, {h}):\n    b: None\n', 'a:int8 c:float32', o)
        r(f'padding in base and subclass, {o}', f'class Base(Structured, {h}):\n    _: pad[1]\n    a: int8\n    _: pad[2]\n'
          f'class Subj(Base, {h}):\n    _: pad[3]\n    b: int16\n', '_:pad1 a:int8 _:pad2 _:pad3 b:int16', o)
    r('the first field removed', 'class Base(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    b: uint32\n'
      'class Subj(Base, byte_order=ByteOrder.LE):\n    a: None\n    c: int8\n', 'b:uint32 c:int8')
    r('a removed field added again further down', 'class Base(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    b: uint32\n'
      'class Mid(Base, byte_order=ByteOrder.LE):\n    a: None\n    c: int16\n'
      'class Subj(Mid, byte_order=ByteOrder.LE):\n    a: uint64\n', 'a:uint64 b:uint32 c:int16')
    r('three levels', 'class Base(Structured, byte_order=ByteOrder.BE):\n    a: int8\n    b: uint32\n'
      'class Mid(Base, byte_order=ByteOrder.BE):\n    c: char[uint8]\n    b: int16\n'
      'class Subj(Mid, byte_order=ByteOrder.BE):\n    d: float64\n    c: array[Header[uint8], int16]\n    a: uint16\n',
      'a:uint16 b:int16 c:arr8i16 d:float64', 'BE')
    r('overridden with a class variable', 'class Base(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    b: uint32\n'
      'class Subj(Base, byte_order=ByteOrder.LE):\n    b: ClassVar[uint32] = 3\n    c: int16\n', 'a:int8 c:int16')
    r('overridden with a plain type', 'class Base(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    b: uint32\n'
      'class Subj(Base, byte_order=ByteOrder.LE):\n    b: int\n    c: int16\n', 'a:int8 c:int16')
    r('a plain attribute made serialized', 'class Base(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    b: int\n    c: int8\n'
      'class Subj(Base, byte_order=ByteOrder.LE):\n    b: uint32\n', 'a:int8 b:uint32 c:int8')
    r('an empty subclass', 'class Base(Structured, byte_order=ByteOrder.BE):\n    a: int16\n    _: pad[2]\n    b: uint32\n'
      'class Subj(Base, byte_order=ByteOrder.BE):\n    pass\n', 'a:int16 _:pad2 b:uint32', 'BE')
    r('a sibling subclass makes no difference', 'class Base(Structured, byte_order=ByteOrder.BE):\n    a: int16\n    b: uint32\n'
      'class Other(Base, byte_order=ByteOrder.BE):\n    a: None\n    c: int8\n    _: pad[1]\n'
      'class Subj(Base, byte_order=ByteOrder.BE):\n    c: int64\n', 'a:int16 b:uint32 c:int64', 'BE')
    r('a base is not changed by its subclass', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    a: int16\n    _: pad[1]\n    b: uint32\n'
      'class Other(Subj, byte_order=ByteOrder.BE):\n    a: uint64\n    b: None\n    c: int8\n    _: pad[2]\n',
      'a:int16 _:pad1 b:uint32', 'BE')
    r('a mixin with annotations', 'class Mixin:\n    m: int8\n    def f(self): return 1\n'
      'class Subj(Mixin, Structured, byte_order=ByteOrder.LE):\n    a: int16\n', 'm:int8 a:int16')
    r('attributes that are not serialized', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    n: int\n    a: int8\n    s: str = "x"\n'
      '    k: ClassVar[int8] = 4\n    b: uint16\n    l: list[int]\n    o: Optional[int]\n    c: char[2]\n    t: tuple[int, str]\n'
      '    plain = 3\n    f: Any\n    d: int8\n', 'a:int8 b:uint16 c:c2 d:int8')
    r('several paddings of one name', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    _: pad[1]\n    _: pad[2]\n    a: int8\n'
      '    _: pad[3]\n    _: pad[1]\n    b: uint16\n    _: pad[2]\n', '_:pad1 _:pad2 a:int8 _:pad3 _:pad1 b:uint16 _:pad2')
    r('padding under different names', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    p: pad[1]\n    a: int8\n    q: pad[2]\n'
      '    _: pad[3]\n', '_:pad1 a:int8 _:pad2 _:pad3')
    r('padding between strings', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    a: char[uint8]\n    _: pad[2]\n    b: null_char\n    _: pad[1]\n    c: tuple[uint16]\n',
      'a:dyn8 _:pad2 b:term _:pad1 c:tupu16', 'BE')
    r('a field named _', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    a: int8\n    _: int16\n    b: int8\n', 'a:int8 _x:int16 b:int8'.replace('_x', '_'), 'BE') if False else None
    r('only padding', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    _: pad[2]\n    _: pad[1]\n', '_:pad2 _:pad1')
    r('no fields', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    pass\n', '')
    r('zero-length strings around', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    z: char[0]\n    a: int8\n    y: char[0]\n    _: pad[1]\n    x: char[0]\n',
      'z:c0 a:int8 y:c0 _:pad1 x:c0')
    r('an initializer of its own', 'class Subj(Structured, init=False, byte_order=ByteOrder.LE):\n    a: int8\n    b: uint16\n'
      '    def __init__(self, a, b, c=0):\n        self.a = a\n        self.b = b\n        self.c = c\n', 'a:int8 b:uint16')
    r('an initializer inherited', 'class Base(Structured, init=False, byte_order=ByteOrder.LE):\n    a: int8\n    b: uint16\n'
      '    def __init__(self, *args):\n        for n, v in zip(self.attrs, args):\n            setattr(self, n, v)\n'
      'class Subj(Base, init=False, byte_order=ByteOrder.LE):\n    c: int8\n', 'a:int8 b:uint16 c:int8')
    r('slots', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    __slots__ = ("a", "b")\n    a: int8\n    b: uint16\n', 'a:int8 b:uint16')
    r('annotations with extra notes', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    a: Annotated[int8, "doc"]\n'
      '    b: Annotated[Annotated[uint16, "x"], 3, None]\n    c: Annotated[Annotated[char[uint8], object()], "y"]\n', 'a:int8 b:uint16 c:dyn8')
    r('quoted annotations', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    a: "int8"\n    b: uint16\n    c: "char[uint8]"\n    d: "ClassVar[int8]"\n    e: "str"\n',
      'a:int8 b:uint16 c:dyn8')
    r('postponed annotations with inheritance', 'class Base(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    b: int16\n    c: char[uint8]\n'
      'class Subj(Base, byte_order=ByteOrder.LE):\n    d: tuple[uint16]\n    b: uint32\n    a: None\n    k: ClassVar[int8] = 2\n',
      'b:uint32 c:dyn8 d:tupu16', future=True)
    r('methods and properties', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    def double(self): return self.a * 2\n'
      '    @property\n    def prop(self): return 1\n    b: uint16\n    @classmethod\n    def make(cls): return cls(1, 2)\n', 'a:int8 b:uint16')
    r('a field named self', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    self: uint16\n    cls: uint32\n', 'a:int8 self:uint16 cls:uint32')
    r('names of library things', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    size: int8\n    value: uint16\n    values: uint32\n    name: char[uint8]\n'
      '    buffer: int8\n    args: int8\n    obj_type: int8\n', 'size:int8 value:uint16 values:uint32 name:dyn8 buffer:int8 args:int8 obj_type:int8')
    r('many fields', 'class Subj(Structured, byte_order=ByteOrder.BE):\n' + ''.join(f'    v{i}: {"uint8" if i % 3 else "int16"}\n' for i in range(40)),
      ' '.join(f'v{i}:{"uint8" if i % 3 else "int16"}' for i in range(40)), 'BE')
    out[:] = [x for x in out if x is not None]
    for x in out:
        if x.label == 'slots':
            x.only = 'roundtrip reuse describe reorder truncate overflow'
        if 'initializer' in x.label:
            x.only = 'roundtrip reuse reorder truncate overflow'
    return out


def generics(tier):
    out = []
    r = lambda *a, **k: out.append(raw(*a, tags='C21', **k))
    for o in ('LE', 'BE'):
        h = O + o
        G = f'class G(Generic[T], Structured, {h}):\n    a: int8\n    b: T\n    c: int16\n'
        r(f'a type variable as a field, {o}', G + f'class Subj(G[uint32], {h}):\n    pass\n', 'a:int8 b:uint32 c:int16', o)
        r(f'a type variable given a string, {o}', G + f'class Subj(G[char[uint16]], {h}):\n    d: int8\n', 'a:int8 b:dyn16 c:int16 d:int8', o)
        r(f'an array of a type variable, {o}', f'class G(Structured, Generic[T, U], {h}):\n    a: array[Header[T], U]\n    b: int16\n'
          f'class Subj(G[uint8, int16], {h}):\n    pass\n', 'a:arr8i16 b:int16', o)
        r(f'a generic field, {o}', f'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
          f'class Subj(Structured, {h}):\n    a: int8\n    b: Inner[uint32]\n    c: int16\n', 'a:int8 b:gin32 c:int16', o)
        r(f'several steps, {o}', f'class G(Generic[T, U], Structured, {h}):\n    a: T\n    b: U\n    c: array[Header[T], U]\n'
          f'class Mid(G[uint8, V], Generic[V], {h}):\n    d: V\n'
          f'class Subj(Mid[int16], {h}):\n    pass\n', 'a:uint8 b:int16 c:arr8i16 d:int16', o)
    r('type variables in another order', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n'
      'class Mid(Generic[V, W], G[W, V], byte_order=ByteOrder.LE):\n    c: V\n'
      'class Subj(Mid[uint8, int32], byte_order=ByteOrder.LE):\n    pass\n', 'a:int32 b:uint8 c:uint8')
    r('the same type variables in another order', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n'
      'class Mid(Generic[T, U], G[U, T], byte_order=ByteOrder.LE):\n    c: T\n'
      'class Subj(Mid[uint8, int32], byte_order=ByteOrder.LE):\n    pass\n', 'a:int32 b:uint8 c:uint8')
    r('one argument for two variables', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n    c: tuple[T, U]\n'
      'class Mid(Generic[T], G[T, T], byte_order=ByteOrder.LE):\n    pass\n'
      'class Subj(Mid[uint8], byte_order=ByteOrder.LE):\n    d: int32\n', 'a:uint8 b:uint8 c:tup88 d:int32')
    r('strings with a type variable', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.BE):\n    a: char[T]\n    b: unicode[U]\n'
      'class Subj(G[uint16, uint8], byte_order=ByteOrder.BE):\n    pass\n', 'a:dyn16 b:uni8', 'BE')
    r('text with a type variable and an encoding', 'class G(Generic[T], Structured, byte_order=ByteOrder.BE):\n    a: unicode[T, "utf-16-le"]\n'
      '    b: unicode[T, "latin-1"]\nclass Mid(G[uint8], byte_order=ByteOrder.BE):\n    b: None\nclass Subj(Mid, byte_order=ByteOrder.BE):\n    c: int16\n',
      'a:utf16 c:int16', 'BE')
    r('a tuple of type variables', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.BE):\n    a: tuple[T, U]\n    b: int8\n'
      'class Subj(G[uint8, int32], byte_order=ByteOrder.BE):\n    pass\n', 'a:tup b:int8', 'BE')
    r('an array of tuples of type variables', 'class G(Generic[T, U, V], Structured, byte_order=ByteOrder.BE):\n    a: array[Header[V], tuple[T, U]]\n    b: int8\n'
      'class Subj(G[uint8, int32, uint8], byte_order=ByteOrder.BE):\n    pass\n', 'a:arr8tup b:int8', 'BE')
    r('a header with two type variables', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.BE):\n    a: array[Header[T, U], Annotated[int, Opaque("op")]]\n    b: int8\n'
      'class Subj(G[uint16, uint32], byte_order=ByteOrder.BE):\n    pass\n', 'a:arr16x32op b:int8', 'BE')
    r('a fixed header with a type variable', 'class G(Generic[T], Structured, byte_order=ByteOrder.BE):\n    a: array[Header[2, T], Annotated[int, Opaque("op")]]\n    b: int8\n'
      'class Subj(G[uint16], byte_order=ByteOrder.BE):\n    pass\n', 'a:arr2x16op b:int8', 'BE')
    r('a number for a header', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.BE):\n    a: array[Header[T], U]\n    b: int8\n'
      'class Subj(G[2, int16], byte_order=ByteOrder.BE):\n    pass\n', 'a:arr2i16 b:int8', 'BE') if False else None
    r('an array of strings with a type variable', 'class G(Generic[T], Structured, byte_order=ByteOrder.BE):\n    a: array[Header[uint8], char[T]]\n    b: int8\n'
      'class Subj(G[uint16], byte_order=ByteOrder.BE):\n    pass\n', 'a:arr8dyn16 b:int8', 'BE')
    r('a custom serializer for a type variable', 'class G(Generic[T], Structured, byte_order=ByteOrder.BE):\n    a: T\n    b: array[Header[uint8], T]\n    c: int16\n'
      'class Subj(G[Annotated[int, Opaque("op")]], byte_order=ByteOrder.BE):\n    pass\n', 'a:op b:arr8op c:int16', 'BE')
    r('an explicit annotation is kept', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n    c: int16\n'
      'class Subj(G[uint32, uint8], byte_order=ByteOrder.LE):\n    b: int64\n    d: int8\n', 'a:uint32 b:int64 c:int16 d:int8')
    r('an explicit annotation is kept below a step', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n    c: int16\n'
      'class Mid(G[T, uint8], Generic[T], byte_order=ByteOrder.LE):\n    b: int64\n'
      'class Subj(Mid[uint32], byte_order=ByteOrder.LE):\n    d: int8\n', 'a:uint32 b:int64 c:int16 d:int8')
    r('a removed generic field', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n    c: int16\n'
      'class Subj(G[uint32, uint8], byte_order=ByteOrder.LE):\n    a: None\n', 'b:uint8 c:int16')
    r('a field added by a step', 'class G(Generic[T], Structured, byte_order=ByteOrder.LE):\n    a: T\n'
      'class Mid(G[uint32], byte_order=ByteOrder.LE):\n    b: int8\nclass Subj(Mid, byte_order=ByteOrder.LE):\n    c: int16\n', 'a:uint32 b:int8 c:int16')
    r('two specializations side by side', 'class G(Generic[T], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: array[Header[T], int16]\n'
      'class One(G[uint16], byte_order=ByteOrder.LE):\n    pass\nclass Subj(G[uint8], byte_order=ByteOrder.LE):\n    pass\n'
      'class Two(G[uint32], byte_order=ByteOrder.LE):\n    pass\n', 'a:uint8 b:arr8i16')
    r('the generic class stays as it was', 'class Subj(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: int8\n    a: T\n    b: array[Header[T], int16]\n    y: int16\n'
      'class One(Subj[uint16], byte_order=ByteOrder.LE):\n    pass\n', 'x:int8 y:int16')
    r('an intermediate class stays as it was', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n'
      'class Subj(G[uint8, V], Generic[V], byte_order=ByteOrder.LE):\n    c: V\n'
      'class One(Subj[int16], byte_order=ByteOrder.LE):\n    pass\n', 'a:uint8')
    r('two fields with different arguments', 'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
      'class Subj(Structured, byte_order=ByteOrder.LE):\n    b: Inner[uint32]\n    c: Inner[uint8]\n    d: Inner[uint32]\n', 'b:gin32 c:gin8 d:gin32')
    r('an array of a generic class', 'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
      'class Subj(Structured, byte_order=ByteOrder.BE):\n    b: array[Header[uint8], Inner[uint32]]\n    c: int16\n', 'b:gar32 c:int16', 'BE')
    r('a generic field of a generic class', 'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
      'class G(Generic[T], Structured, byte_order=ByteOrder.BE):\n    a: Inner[T]\n    b: T\n'
      'class Subj(G[uint32], byte_order=ByteOrder.BE):\n    pass\n', 'a:gin32 b:uint32', 'BE')
    r('a generic field with another variable', 'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
      'class G(Generic[U, T], Structured, byte_order=ByteOrder.BE):\n    a: Inner[U]\n    b: T\n    c: Inner[T]\n'
      'class Subj(G[uint32, uint8], byte_order=ByteOrder.BE):\n    pass\n', 'a:gin32 b:uint8 c:gin8', 'BE')
    r('a tuple of a generic class', 'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
      'class G(Generic[T], Structured, byte_order=ByteOrder.BE):\n    a: tuple[int8, Inner[T]]\n    b: T\n'
      'class Subj(G[uint32], byte_order=ByteOrder.BE):\n    pass\n', 'a:gtup32 b:uint32', 'BE')
    r('an array of a generic class with a variable', 'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
      'class G(Generic[T, U], Structured, byte_order=ByteOrder.BE):\n    a: array[Header[U], Inner[T]]\n    b: int16\n'
      'class Subj(G[uint32, uint8], byte_order=ByteOrder.BE):\n    pass\n', 'a:gar32 b:int16', 'BE')
    r('a generic class given a generic class', 'class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):\n    x: T\n    y: int16\n'
      'class G(Generic[T], Structured, byte_order=ByteOrder.BE):\n    a: T\n    b: int8\n'
      'class Subj(G[Inner[uint32]], byte_order=ByteOrder.BE):\n    pass\n', 'a:gin32 b:int8', 'BE')
    r('three steps', 'class G(Generic[T, U, V], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n    c: V\n    d: tuple[V, T]\n'
      'class A(G[uint8, U, V], Generic[U, V], byte_order=ByteOrder.LE):\n    pass\n'
      'class Bb(A[T, uint8], Generic[T], byte_order=ByteOrder.LE):\n    e: array[Header[uint8], T]\n'
      'class Subj(Bb[int16], byte_order=ByteOrder.LE):\n    f: int32\n', 'a:uint8 b:int16 c:uint8 d:tup88 e:arr8i16 f:int32')
    r('padding in a generic class', 'class G(Generic[T], Structured, byte_order=ByteOrder.LE):\n    _: pad[1]\n    a: T\n    _: pad[2]\n    b: int16\n'
      'class Subj(G[uint8], byte_order=ByteOrder.LE):\n    _: pad[3]\n    c: int8\n', '_:pad1 a:uint8 _:pad2 b:int16 _:pad3 c:int8')
    r('a class variable in a generic class', 'class G(Generic[T], Structured, byte_order=ByteOrder.LE):\n    k: ClassVar[int8] = 3\n    a: T\n    s: str\n    b: int16\n'
      'class Subj(G[uint8], byte_order=ByteOrder.LE):\n    pass\n', 'a:uint8 b:int16')
    r('postponed annotations', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: array[Header[T], U]\n    c: tuple[T, U]\n'
      'class Subj(G[uint8, int32], byte_order=ByteOrder.LE):\n    d: int16\n', 'a:uint8 b:arr8i32 c:tup d:int16', future=True)
    LE = 'byte_order=ByteOrder.LE'
    r('a step that does not list Generic', f'class G(Generic[T], Structured, {LE}):\n    a: uint8\n    b: T\n'
      f'class Mid(G[U], {LE}):\n    c: U\nclass Subj(Mid[int16], {LE}):\n    pass\n', 'a:uint8 b:int16 c:int16')
    r('variables of another generic base', f'class K(Generic[T]):\n    pass\nclass G(K[T], Structured, {LE}):\n    a: T\n    b: array[Header[T], int16]\n'
      f'class Subj(G[uint8], {LE}):\n    c: int16\n', 'a:uint8 b:arr8i16 c:int16')
    r('steps that do not list Generic', f'class G(Generic[T, U], Structured, {LE}):\n    a: T\n    b: U\n'
      f'class Mid(G[U, T], {LE}):\n    c: U\n    d: T\nclass Low(Mid[V, uint8], {LE}):\n    e: V\n'
      f'class Subj(Low[int16], {LE}):\n    pass\n', 'a:int16 b:uint8 c:int16 d:uint8 e:int16')
    r('a tuple of variables for a variable', f'class G(Generic[T], Structured, {LE}):\n    a: uint8\n    b: T\n    c: array[Header[uint8], T]\n'
      f'class Mid(Generic[T, U], G[tuple[U, T]], {LE}):\n    d: T\nclass Subj(Mid[int32, uint8], {LE}):\n    pass\n', 'a:uint8 b:tup c:arr8tup d:int32')
    r('an array of variables for a variable', f'class G(Generic[T], Structured, {LE}):\n    a: T\n    b: int8\n'
      f'class Mid(Generic[T, U], G[array[Header[U], T]], {LE}):\n    d: U\nclass Subj(Mid[int16, uint8], {LE}):\n    pass\n', 'a:arr8i16 b:int8 d:uint8')
    r('a string of a variable for a variable', f'class G(Generic[T], Structured, {LE}):\n    a: T\n    b: int8\n    c: T\n'
      f'class Mid(Generic[U], G[char[U]], {LE}):\n    d: U\nclass Subj(Mid[uint16], {LE}):\n    pass\n', 'a:dyn16 b:int8 c:dyn16 d:uint16')
    r('a generic class of a variable for a variable', f'class Inner(Generic[T], Structured, {LE}):\n    x: T\n    y: int16\n'
      f'class G(Generic[T], Structured, {LE}):\n    a: T\n    b: int8\n'
      f'class Mid(Generic[U], G[Inner[U]], {LE}):\n    d: U\nclass Subj(Mid[uint32], {LE}):\n    pass\n', 'a:gin32 b:int8 d:uint32')
    r('a variable used many times', f'class G(Generic[T], Structured, {LE}):\n    a: T\n    b: tuple[T, T]\n    c: array[Header[T], tuple[T, T]]\n    d: char[T]\n    e: T\n'
      f'class Subj(G[uint8], {LE}):\n    pass\n', 'a:uint8 b:tup88 c:arr8t88 d:dyn8 e:uint8')
    r('one alias in several specializations', f'class G(Generic[T, U], Structured, {LE}):\n    a: tuple[T, U]\n    b: array[Header[T], U]\n'
      f'class H(Generic[T, U], Structured, {LE}):\n    a: tuple[T, U]\n    b: array[Header[T], U]\n'
      f'class One(G[uint16, uint8], {LE}):\n    pass\nclass Subj(H[uint8, int32], {LE}):\n    pass\n', 'a:tup b:arr8i32')
    r('a partly specialized alias used twice', f'class G(Generic[T, U], Structured, {LE}):\n    a: array[Header[T], U]\n    b: int8\n'
      f'class Mid(G[uint8, V], Generic[V], {LE}):\n    pass\nclass One(Mid[Annotated[int, Opaque("op")]], {LE}):\n    pass\n'
      f'class Subj(Mid[int16], {LE}):\n    pass\n', 'a:arr8i16 b:int8')
    r('a generic field of a step that does not list Generic', f'class B0(Generic[T], Structured, {LE}):\n    x: T\n'
      f'class Inner(B0[U], {LE}):\n    y: int16\nclass Subj(Structured, {LE}):\n    a: int8\n    b: Inner[uint32]\n', 'a:int8 b:gin32')
    r('an explicit annotation among the fields of a step', f'class G(Generic[T, U], Structured, {LE}):\n    a: T\n    b: tuple[T, U]\n    c: U\n'
      f'class Mid(Generic[U], G[uint8, U], {LE}):\n    a: char[U]\n    d: array[Header[U], int16]\nclass Subj(Mid[uint8], {LE}):\n    c: int64\n',
      'a:dyn8 b:tup88 c:int64 d:arr8i16')
    r('a plain argument', 'class G(Generic[T, U], Structured, byte_order=ByteOrder.LE):\n    a: T\n    b: U\n    c: int16\n'
      'class Subj(G[uint8, str], byte_order=ByteOrder.LE):\n    pass\n', 'a:uint8 c:int16')
    out[:] = [x for x in out if x is not None]
    return out


def gin(t):
    """A specialized nested generic class: its values are objects of the class
    the package made for it."""
    def mk(v, p, ns):
        return None
    return None


class GenericInner(P.Item):
    pass


def ginner(t, order='LE'):
    """Field of type Inner[t]; the object is created from the field's serializer."""
    def make(v, p, ns):
        I = v.lab.I
        cls = specialised(I, ns, t)
        return I.call(cls, [v.int(p + '.x', *P.INTS[t][2:]), v.int(p + '.y', -2**15, 2**15 - 1)])

    def wire(I, o, x, ns):
        return [P.int_enc(t, '<', I.getattr(x, 'x')), P.int_enc('int16', '<', I.getattr(x, 'y'))]
    return P.Item(f'Inner[{t}]', f'Inner[{t}]', make, wire)


def specialised(I, ns, t):
    """The class used for Inner[t], found as a user would: by annotating a field."""
    f = ns.get('__probe__' + t)
    if f is None:
        ser = I.call(I.getattr(I.modules['structured.type_checking'].ns['annotated'], 'transform'),
                     [I.getitem(ns['Inner'], ns[t])])
        f = I.getattr(ser, 'obj_type')
    return f


K.update({
    'gin32': lambda: P.as_part(ginner('uint32')), 'gin8': lambda: P.as_part(ginner('uint8')),
    'gar32': lambda: P.p_array(('uint8',), ginner('uint32')),
    'gtup32': lambda: P.as_part(P.i_tuple(P.i_int('int8'), ginner('uint32'))),
    'tup88': lambda: P.as_part(P.i_tuple(P.i_int('uint8'), P.i_int('uint8'))),
    'arr8t88': lambda: P.p_array(('uint8',), P.i_tuple(P.i_int('uint8'), P.i_int('uint8'))),
})

suites.SPECIAL += [inheritance, generics]
