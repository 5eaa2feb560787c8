"""Planted changes (see plant.py)."""
HEAD = '''
from __future__ import annotations
import io, math, struct, sys
from operator import attrgetter
from typing import *
from structured import *
from structured.hint_types.strings import NET
from structured.base_types import ByteOrder
'''
HEAD = HEAD.replace('from __future__ import annotations\n', '')
A = 'structured/serializers/api.py'
AR = 'structured/serializers/arrays.py'
ST = 'structured/serializers/strings.py'
SS = 'structured/serializers/structs.py'
U = 'structured/serializers/unions.py'
C = 'structured/serializers/conditional.py'
TU = 'structured/serializers/tuples.py'
SV = 'structured/structured.py'
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks))


seed('net-read-size', 'C01', [(ST, '''        if count >= 128:
            readable.seek(count_pos)
            count = self.long_len.unpack_read(readable)[0]
            count = self._decode_length(count)
            size = self.long_len.size
        else:
            size = self.short_len.size
''', '''        size = self.short_len.size
        if count >= 128:
            readable.seek(count_pos)
            count = self.long_len.unpack_read(readable)[0]
            count = self._decode_length(count)
''')], '''
class A(Structured, byte_order=ByteOrder.LE):
    v: array[Header[uint8, uint32], Annotated[bytes, char[NET]]]
for n in (5, 300):
    a = A([b'x' * n])
    data = a.pack()
    assert A.create_unpack(data) == a
    assert A.create_unpack_read(io.BytesIO(data)) == a
''', 'a .NET string of 128 bytes or more, read from a stream, whose size is then used (array data size)',
     'The size of a .NET string read from a stream is one byte short for long strings.')

seed('dynchar-from-truncated', 'C13', [(ST, """        count = self.st.unpack_from(buffer, offset)[0]
        self.size = self.st.size + count
        st = _single_char @ count
        return st.unpack_from(buffer, offset + self.st.size)
""", """        count = self.st.unpack_from(buffer, offset)[0]
        self.size = self.st.size + count
        start = offset + self.st.size
        return (bytes(buffer[start : start + count]),)
""")], '''
class A(Structured, byte_order=ByteOrder.LE):
    a: uint8
    b: char[uint16]
data = A(1, b'hello').pack()
assert A.create_unpack_from(b'.' + data, 1).b == b'hello'
try:
    a = A.create_unpack_from(b'.' + data[:-2], 1)
except Exception:
    pass
else:
    raise AssertionError(f'truncated input accepted: {a}')
''', 'input that ends inside a length-prefixed string, unpacked with unpack_from',
     'A truncated length-prefixed string is accepted by one of the three unpacking routes.')

seed('reorder-array-header', 'C07', [(AR, '''        return type(self)(
            self.count_serializer.with_byte_order(byte_order),
            self.item_serializer.with_byte_order(byte_order),
        )
''', '''        item_serializer = self.item_serializer.with_byte_order(byte_order)
        if item_serializer is self.item_serializer:
            return self
        return type(self)(self.count_serializer, item_serializer)
''')], '''
class A(Structured, byte_order=ByteOrder.BE):
    v: array[Header[uint16], uint8]
class B(Structured, byte_order=ByteOrder.LE):
    v: array[Header[uint16], uint8]
assert A([7, 8]).pack() == b'\\0\\2\\7\\x08', A([7, 8]).pack()
assert B([7, 8]).pack() == b'\\2\\0\\7\\x08', B([7, 8]).pack()
''', 'the bytes of an array with a multi-byte count in a class that is not in native order',
     'The item count of an array keeps the default byte order.')

seed('terminated-long-read', 'C04', [(ST, '''                readable.seek(start_pos + size)
''', '''                readable.seek(start_pos + offset + 1)
''')], '''
class A(Structured, byte_order=ByteOrder.LE):
    s: null_char
    n: uint16
for k in (0, 5, 255, 256, 700):
    a = A(b'x' * k, 7)
    f = io.BytesIO(b'??' + a.pack() + b'!!')
    f.seek(2)
    assert A.create_unpack_read(f) == a, k
    assert f.read() == b'!!'
''', 'a terminated string of 256 bytes or more, read from a stream, followed by something',
     'After a long terminated string the stream stands in the middle of the string.')

seed('net-encode-mask', 'C15', [(ST, '''            count = 0x80 | count & 0x7F | (count & 0xFF80) << 1''',
     '''            count = 0x80 | count & 0x7F | (count & 0x3F80) << 1''')], '''
class A(Structured, byte_order=ByteOrder.LE):
    s: char[NET]
for k in (0, 127, 128, 255, 16383, 16384, 20000, 32767):
    a = A(b'y' * k)
    assert A.create_unpack(a.pack()) == a, k
''', 'a .NET string of 16384 bytes or more',
     'The topmost bit of the length of a .NET string is lost.')

seed('compound-remembers-object', 'C08', [(A, '''        if not self._needs_preprocess:
            return self
        else:
            return _SpecializedCompoundSerializer(self, partial_object)
''', '''        if not self._needs_preprocess:
            return self
        last = self.__dict__.get('_last')
        if last is None or last.partial_object != partial_object:
            self._last = last = _SpecializedCompoundSerializer(self, partial_object)
        return last
''')], '''
class A(Structured, byte_order=ByteOrder.LE):
    n: uint8
    s: char[uint8]
    u: Annotated[Union[uint8, uint32], LookbackDecider(lambda o: o.kind, {0: uint8, 1: uint32})]
    kind = 0
a, b = A(1, b'x', 5), A(1, b'x', 5)
b.kind = 1
assert a.pack() == b'\\1\\1x\\5', a.pack()
assert b.pack() == b'\\1\\1x\\5\\0\\0\\0', b.pack()
assert a.pack() == b'\\1\\1x\\5', a.pack()
''', 'two objects that are equal but decide differently (by an attribute that is not serialized)',
     'A decision is made from another object, packed before, that compared equal.')


seed('unicode-final-lost', 'C10', [(ST, '''    def get_final(self) -> Optional[Serializer]:
        return self.serializer.get_final()

    @property
''', '''    def get_final(self) -> Optional[Serializer]:
        if self.serializer.size:
            return None
        return self.serializer.get_final()

    @property
''')], '''
U = unicode[math.inf]
class A(Structured):
    n: uint8
    s: U
A(1, 'abc').pack()
try:
    class B(Structured):
        n: uint8
        s: U
        m: char[uint8]
except TypeError:
    pass
else:
    raise AssertionError('text to the end is followed by something')
''', 'a class definition made after the same text hint has been used to pack something',
     'A text taking the rest of the input is accepted in the middle once it has been used.')

seed('factory-shared', 'C25', [('structured/hint_types/serialize_as.py', '''        st = self.serializer
        return type(self)(StructActionSerializer(st.format, actions=(action,)))
''', '''        st = self.serializer
        self.serializer = StructActionSerializer(st.format, actions=(action,))
        return self
''')], '''
AS = SerializeAs(uint8)
twice = AS.with_factory(lambda x: x * 2)
class A(Structured):
    a: Annotated[int, twice]
    b: Annotated[str, AS]
a = A.create_unpack(b'\\1\\2')
assert a.a == 2 and a.b == '2', (a.a, a.b)
''', 'a SerializeAs that is used on its own and with a factory',
     'with_factory changes the SerializeAs it is called on.')

seed('strict-byte-order-default', 'C20', [(SV, '''                byte_order_mode is ByteOrderMode.STRICT
                and base.byte_order is not byte_order
''', '''                byte_order_mode is ByteOrderMode.STRICT
                and byte_order is not ByteOrder.DEFAULT
                and base.byte_order is not byte_order
''')], '''
class A(Structured, byte_order=ByteOrder.BE):
    a: uint16
try:
    class B(A):
        b: uint16
except ValueError:
    pass
else:
    raise AssertionError('conflicting byte orders accepted')
''', 'a subclass that does not say its byte order, of a class that has one',
     'A subclass changes the byte order of what it inherits without an error.')


seed('unicode-slice-into', 'C03', [(ST, """        self.serializer.pack_into(buffer, offset, self.encoder(values[0]))
""", """        data = self.serializer.pack(self.encoder(values[0]))
        buffer[offset : offset + len(data)] = data
""")], """
class A(Structured, byte_order=ByteOrder.LE):
    n: uint8
    s: unicode[uint8]
a = A(1, 'hello')
buf = bytearray(20)
a.pack_into(buf, 5)
assert bytes(buf) == bytes(5) + a.pack() + bytes(8)
buf = bytearray(6)
try:
    a.pack_into(buf)
except Exception:
    pass
else:
    raise AssertionError('packed into a buffer that is too small')
assert len(buf) == 6, buf
""", 'packing a text into a bytearray that is too small for it', 'The buffer grows instead of an error being raised.')

seed('unicode-strip-both', 'C26', [(ST, """(self.decoder(self.serializer.unpack_read(readable)[0]).rstrip('\\0'),)""",
     """(self.decoder(self.serializer.unpack_read(readable)[0]).strip('\\0'),)""")], r"""
class A(Structured, byte_order=ByteOrder.LE):
    s: unicode[uint8]
for text in ('abc', '', '\0abc', 'a\0b'):
    a = A(text)
    assert A.create_unpack(a.pack()) == a
    assert A.create_unpack_read(io.BytesIO(a.pack())) == a, text
""", 'a text that starts with a NUL character, read from a stream', 'Leading NUL characters of a text are lost.')

seed('unterminated-full-chunk', 'C13', [(ST, """                if offset == -1:
                    out.write(chunk)
""", """                if offset == -1:
                    if len(chunk) < READ_SIZE:
                        raise ValueError('unterminated string.')
                    out.write(chunk)
"""), (ST, """                    break
            else:
                raise ValueError('unterminated string.')
            self.size = size
""", """                    break
            self.size = size
""")], """
class A(Structured, byte_order=ByteOrder.LE):
    s: null_char
assert A.create_unpack_read(io.BytesIO(A(b'x' * 600).pack())).s == b'x' * 600
for k in (0, 1, 200, 256, 300, 512):
    try:
        a = A.create_unpack_read(io.BytesIO(b'x' * k))
    except ValueError:
        pass
    else:
        raise AssertionError(f'{k} bytes without terminator accepted')
""", 'an unterminated string whose bytes are a multiple of 256, or none at all, in a stream',
     'An unterminated string is accepted when the stream ends at a chunk boundary.')

seed('private-not-compared', 'C27', [(SV, """                (getattr(self, attr) == getattr(other, attr) for attr in self.attrs)
""", """                getattr(self, attr) == getattr(other, attr)
                for attr in self.attrs
                if not attr.startswith('_')
""")], """
class A(Structured):
    n: uint8
    _m: uint8
assert A(1, 2) == A(1, 2) and A(1, 2) != A(3, 2)
assert A(1, 2) != A(1, 3)
""", 'objects that differ in an attribute whose name starts with an underscore', 'Private attributes are ignored by equality.')

seed('char-minus-infinity', 'C22', [('structured/hint_types/strings.py', """        elif math.isinf(count) and count > 0:""", """        elif math.isinf(count):""")], """
assert char[math.inf]
try:
    char[-math.inf]
except TypeError:
    pass
else:
    raise AssertionError('char[-inf] accepted')
""", 'the size -inf', 'char[-math.inf] is accepted.')

seed('string-reorder-in-place', 'C07', [(ST, """        return type(self)(self.st.with_byte_order(byte_order))
""", """        self.st = self.st.with_byte_order(byte_order)
        return self
""")], """
class A(Structured, byte_order=ByteOrder.LE):
    s: char[uint16]
assert A(b'ab').pack() == b'\\2\\0ab'
class B(Structured, byte_order=ByteOrder.BE):
    s: char[uint16]
assert B(b'ab').pack() == b'\\0\\2ab'
assert A(b'ab').pack() == b'\\2\\0ab', A(b'ab').pack()
""", 'two classes of different byte orders that use the same string hint; the first is used after the second is defined',
     'Defining a class changes the byte order of string lengths in classes defined before.')

seed('proxy-zip-strict', 'C28', [(SV, """        for attr, value in zips(self.__attrs, values, strict=True):
""", """        for attr, value in zip(self.__attrs, values, strict=True):
""")], """
import builtins
real = builtins.zip
def zip39(*its, **kw):
    if kw:
        raise TypeError('zip() takes no keyword arguments')
    return real(*its)
import sys, typing
sys.modules['typing_extensions'] = typing
for k in [k for k in sys.modules if k.startswith('structured')]:
    del sys.modules[k]
info = sys.version_info
class V(tuple):
    major, minor, micro, releaselevel, serial = 3, 9, 18, 'final', 0
sys.version_info = V((3, 9, 18, 'final', 0))
builtins.zip = zip39
try:
    import structured
    class A(structured.Structured):
        n: structured.uint8
    assert A.create_unpack(b'\\1').n == 1
finally:
    builtins.zip = real
    sys.version_info = info
""", 'Python 3.9', 'Unpacking uses an argument of zip that Python 3.9 does not have.')

seed('radd-actions', 'C16', [(SS, """            actions = repeat(noop_action, other.num_values)
""", """            actions = repeat(noop_action, len(other.base_format))
""")], """
class A(Structured, byte_order=ByteOrder.LE):
    a: uint8
    b: uint8
    c: Annotated[str, SerializeAs(uint16)]
    d: Annotated[str, SerializeAs(uint8)]
a = A.create_unpack(bytes([1, 2, 3, 0, 4]))
assert (a.a, a.b, a.c, a.d) == (1, 2, '3', '4'), a
class A(Structured, byte_order=ByteOrder.LE):
    a: uint8
    _: pad[12]
    c: Annotated[str, SerializeAs(uint16)]
    d: Annotated[str, SerializeAs(uint8)]
a = A.create_unpack(bytes([1] + [0] * 12 + [3, 0, 4]))
assert (a.a, a.c, a.d) == (1, '3', '4'), a
""", 'padding (or a long char) before a custom type', 'Conversions are applied to the wrong values.')

seed('refill-not-strict', 'C11', [(SV, """        for attr, value in zips(
            self.attrs, self._serializer(False).unpack_from(buffer, offset), strict=True
        ):
""", """        for attr, value in zips(
            self.attrs, self._serializer(False).unpack_from(buffer, offset)
        ):
""")], """
from structured.serializers import Serializer
class Two(Serializer):
    num_values = 1
    size = 2
    def pack(self, *values):
        return bytes(2)
    def unpack(self, buffer):
        return tuple(buffer[:2])
    def unpack_from(self, buffer, offset=0):
        return tuple(buffer[offset:offset + 2])
    def unpack_read(self, readable):
        return tuple(readable.read(2))
class A(Structured):
    a: Annotated[int, Two()]
for route in (lambda a: a.unpack(b'ab'), lambda a: a.unpack_from(b'ab'),
              lambda a: a.unpack_read(io.BytesIO(b'ab'))):
    try:
        a = A(3)
        route(a)
    except ValueError:
        pass
    else:
        raise AssertionError(f'two values for one attribute accepted: {a}')
""", 'filling an existing object from a buffer with a serializer that yields more values than it declares', 'Surplus values are dropped silently on one route.')

seed('short-read-is-end', 'C14', [(ST, """                    out.write(chunk)
                    size += len(chunk)
""", """                    out.write(chunk)
                    size += len(chunk)
                    if len(chunk) < READ_SIZE:
                        raise ValueError('unterminated string.')
""")], """
class Slow(io.BytesIO):
    def read(self, n=-1):
        return super().read(min(n, 3) if n >= 0 else n)
class A(Structured, byte_order=ByteOrder.LE):
    s: null_char
    n: uint8
a = A.create_unpack_read(io.BytesIO(b'abcdef\\0\\7'))
assert (a.s, a.n) == (b'abcdef', 7)
a = A.create_unpack_read(Slow(b'abcdef\\0\\7'))
assert (a.s, a.n) == (b'abcdef', 7)
""", 'a stream that delivers fewer bytes than asked for', 'A short read counts as the end of the input.')

seed('condition-in-place', 'C23', [(C, """        serializer = self.serializers[True].with_byte_order(byte_order)
        defaults = self.serializers[False].values
        return type(self)(serializer, self.condition, defaults)
""", """        self.serializers[True] = self.serializers[True].with_byte_order(byte_order)
        return self
""")], """
hint = Annotated[uint16, Condition(lambda o: o.n, 0)]
class A(Structured, byte_order=ByteOrder.LE):
    n: uint8
    v: hint
a = A(1, 2)
assert a.pack() == b'\\1\\2\\0'
b = a.with_byte_order(ByteOrder.BE)
assert b.pack() == b'\\1\\0\\2'
assert a.pack() == b'\\1\\2\\0', a.pack()
""", 'deriving a variant of another byte order from an object with a conditional field', 'The original changes its byte order too.')

seed('array-bytearray', 'C24', [(AR, """        data = [b'']
""", """        data = bytearray()
"""), (AR, """            data.append(item_serializer.pack(item))
""", """            data += item_serializer.pack(item)
"""), (AR, """        data[0] = self.header_serializer.pack(*header_values)
        self.size = size
        return b''.join(data)
""", """        data[0:0] = self.header_serializer.pack(*header_values)
        self.size = size
        return data
""")], """
class B(Structured, byte_order=ByteOrder.LE):
    n: uint8
    v: array[Header[uint8], char[uint8]]
assert type(B(1, [b'a']).pack()) is bytes
class A(Structured, byte_order=ByteOrder.LE):
    v: array[Header[uint8], char[uint8]]
assert A([b'a']).pack() == bytes([1, 1, 97])
assert type(A([b'a']).pack()) is bytes
""", 'a class whose only field is an array of composite items', 'pack() returns a bytearray.')

seed('write-count-without-padding', 'C06', [(ST, """        st.pack_write(writable, count, raw)

    def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
        \"\"\"Unpack a dynamically sized""", """        st.pack_write(writable, len(bytes(raw).rstrip(b'\\0')), raw)

    def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
        \"\"\"Unpack a dynamically sized""")], """
class A(Structured, byte_order=ByteOrder.LE):
    s: char[uint8]
    n: uint8
a = A(b'ab\\0', 5)
out = io.BytesIO()
a.pack_write(out)
assert out.getvalue() == a.pack(), out.getvalue()
""", 'a string that ends in NUL bytes, written to a stream', 'The length prefix is smaller than the number of bytes that follow.')

seed('empty-array-size-unchecked', 'C12', [(AR, """            items.extend(item_serializer.unpack_read(readable))
            size += item_serializer.size
        self._check_data_size(data_size, size - header_size)
""", """            items.extend(item_serializer.unpack_read(readable))
            size += item_serializer.size
        if items:
            self._check_data_size(data_size, size - header_size)
""")], """
class I(Structured, byte_order=ByteOrder.LE):
    n: uint8
class A(Structured, byte_order=ByteOrder.LE):
    a: array[Header[uint8, uint16], I]
data = b'\\0\\5\\0'
for f in (A.create_unpack, A.create_unpack_from, lambda d: A.create_unpack_read(io.BytesIO(d))):
    try:
        f(data)
    except ValueError:
        pass
    else:
        raise SystemExit(f'{f} accepts {data}')
""", 'an array header with no items but a data size, read from a stream', 'A wrong data size of an empty array is accepted.')

seed('condition-defaults-reversed', 'C18', [(C, """        defaults = self.serializers[False].values
""", """        defaults = self.serializers[False].values[::-1]
""")], """
class Pair(Serializer):
    num_values = 2
    size = 2
    def pack(self, a, b):
        return bytes([a, b])
    def unpack(self, buffer):
        return tuple(buffer[:2])
    def with_byte_order(self, order):
        return self
from structured.serializers import ConditionalSerializer
c = ConditionalSerializer(Pair(), lambda o: False, (1, 2)).with_byte_order(ByteOrder.LE)
assert tuple(c.preunpack(None).unpack(b'')) == (1, 2)
""", 'a condition on a serializer of several values', 'The default values are assigned in another order.')

seed('alias-resolved-in-place', 'C21', [('structured/utils.py', """        resolved = []
        for arg in self.args:
            arg = tvar_map.get(arg, arg)
            if isinstance(arg, StructuredAlias):
                arg = arg.resolve(tvar_map)
            resolved.append(arg)
        resolved = tuple(resolved)
""", """        resolved = []
        for arg in self.args:
            arg = tvar_map.get(arg, arg)
            if isinstance(arg, StructuredAlias):
                arg = arg.resolve(tvar_map)
            resolved.append(arg)
        self.args = resolved = tuple(resolved)
""")], """
T = TypeVar('T')
U_ = TypeVar('U_')
class G(Generic[T, U_], Structured, byte_order=ByteOrder.LE):
    a: array[Header[T], U_]
class P(G[uint8, U_], Generic[U_], byte_order=ByteOrder.LE):
    pass
class X(P[uint16], byte_order=ByteOrder.LE):
    pass
class Y(G[uint32, uint8], byte_order=ByteOrder.LE):
    pass
class Z(P[uint8], byte_order=ByteOrder.LE):
    pass
assert X([1]).pack() == b'\\1\\1\\0', X([1]).pack()
assert Y([1]).pack() == b'\\1\\0\\0\\0\\1', Y([1]).pack()
assert Z([1]).pack() == b'\\1\\1', Z([1]).pack()
""", 'a generic class specialized more than once', 'The second specialization keeps arguments of the first.')

seed('list-item-slack', 'C01', [(AR, """            size += item_serializer.size
        header_values = self._header_pack_values(items, size - header_size)
""", """            size += max(item_serializer.size, 1)
        header_values = self._header_pack_values(items, size - header_size)
""")], """
class E(Structured, byte_order=ByteOrder.LE):
    n: Annotated[uint8, Condition(lambda o: False, 0)]
class A(Structured, byte_order=ByteOrder.LE):
    a: array[Header[2], E]
    b: uint8
a = A([E(0), E(0)], 9)
buf = bytearray(10)
a.pack_into(buf)
assert bytes(buf) == b'\\x09' + bytes(9), buf
""", 'array items of no bytes at all, packed into a buffer', 'Items of size 0 are counted as one byte.')


seed('specialized-kept', 'C09', [(A, """    def prepack(self, partial_object: Any) -> Serializer:
        return self.preprocess(partial_object)

    def preunpack""", """    def prepack(self, partial_object: Any) -> Serializer:
        prepared = self.__dict__.get('_prepared')
        if prepared is None:
            prepared = self._prepared = self.preprocess(partial_object)
        elif prepared is not self:
            prepared.partial_object = partial_object
        return prepared

    def preunpack""")], """
class Node(Structured, byte_order=ByteOrder.LE):
    k: uint8
    kids: array[Header[uint8], Self]
    v: Annotated[Union[uint8, uint16], LookbackDecider(lambda o: o.k, {1: uint8, 2: uint16})]
n = Node(2, [Node(1, [], 3)], 400)
assert n.pack() == b'\\2\\1\\1\\0\\3\\x90\\1', n.pack()
""", 'an object of the same class inside, packed before the union of the outer one', 'Decisions of the outer object are made from the values of the inner one.')
