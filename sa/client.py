"""Source text of the client programs' support module, interpreted by the
engine alongside the analysed package.  `Opaque` stands for an arbitrary
serializer written against the documented Serializer interface: its encoding of
a value is an unknown byte run ser(name, order, value) of unknown width."""

SUPPORT = '''
from structured import *
from structured.serializers import Serializer
from structured.type_checking import Annotated, ClassVar, Optional, Union, Generic, TypeVar, Self, Any, get_args
from structured.base_types import ByteOrder, ByteOrderMode
import structured as structured_pkg

T = TypeVar('T')
U = TypeVar('U')
V = TypeVar('V')
W = TypeVar('W')


class Unprepared(Exception):
    pass


class Garbled(Exception):
    pass


def look(name, obj, answer):
    """A decision that looks at the object and gives a fixed answer."""
    seen(name, 'decide', obj)
    return answer


class Opaque(Serializer):
    def __init__(self, name, num_values=1, order='', ready=None, **opts):
        self.name = name
        self.num_values = num_values
        self.order = order
        self.ready = ready
        self.opts = opts
        self.leaf = opts.get('leaf', False)
        self.lazy = opts.get('lazy', False)
        self.nofrom = opts.get('nofrom', False)

    def _copy(self, order, ready):
        return Opaque(self.name, self.num_values, order, ready, **self.opts)

    def get_final(self):
        if self.opts.get('final'):
            return self
        return None

    def _use(self, how):
        if self.ready is None and not self.leaf:
            raise Unprepared(self.name, how)
        if self.ready is not None and self.ready[0] != how:
            raise Unprepared(self.name, how)
        if self.ready is not None:
            hook = self.opts.get('hook')
            if hook is not None:
                hook(how, self.ready[1])

    def prepack(self, partial_object):
        if self.leaf:
            return self
        seen(self.name, 'prepack', partial_object)
        return self._copy(self.order, ('pack', partial_object))

    def preunpack(self, partial_object):
        if self.leaf:
            return self
        seen(self.name, 'preunpack', partial_object)
        return self._copy(self.order, ('unpack', partial_object))

    def with_byte_order(self, byte_order):
        return self._copy(byte_order.value, self.ready)

    def _data(self, values):
        if len(values) != self.num_values:
            raise TypeError('wrong number of values')
        self._use('pack')
        data = ser_bytes(self.name, self.order, values)
        self.size = len(data)
        return data

    def pack(self, *values):
        return self._data(values)

    def pack_write(self, writable, *values):
        writable.write(self._data(values))

    def pack_into(self, buffer, offset, *values):
        data = self._data(values)
        ser_into(buffer, offset, data)

    def _give(self, found):
        values, size = found
        if self.lazy:
            return self._lazily(values, size)
        self.size = size
        return values

    def _lazily(self, values, size):
        for value in values:
            yield value
        self.size = size

    def unpack(self, buffer):
        self._use('unpack')
        return self._give(ser_at(self.name, self.order, buffer, 0))

    def unpack_from(self, buffer, offset=0):
        self._use('unpack')
        return self._give(ser_at(self.name, self.order, buffer, offset))

    def unpack_read(self, readable):
        self._use('unpack')
        return self._give(ser_read(self.name, self.order, readable))
'''
