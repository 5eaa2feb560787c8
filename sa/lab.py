"""A laboratory: the analysed package loaded into the abstract interpreter, with
unknown values to feed its public interface with."""
from __future__ import annotations

import ast
import os

from . import bytes_model as B
from . import classes
from . import interp as _interp
from .builtins_model import EXC, key_of
from .client import SUPPORT
from .interp import Interp, PyExc
from .layout import BufV, normalise, split_at, total
from .terms import Atom, BitV, Lin, Prune, Unsupported, add, atom, show, sub
from .values import *


def natives(lab):
    def nf(name, f):
        return NativeFunc(name, f, False)

    def ser_bytes(I, a, k):
        return B.make(I, [lab.ser_seg(a[0], a[1], tuple(I.iterate(a[2])))])

    def ser_into(I, a, k):
        buf, off, data = a
        segs = B.segs_of(I, data)
        if not B.writable(I, buf):
            I.raise_('TypeError', 'read-write buffer expected')
        size = total(segs)
        d = sub(sub(total(B.segs_of(I, buf)), off), size)
        big = buf.big or (buf.target is not None and buf.target.big)
        if big and I.facts.known_ge0(d) is None:
            I.facts.assume_ge0(d)
        elif not I.facts.ge0(d):
            I.raise_('ValueError', 'buffer too small')
        I.buf_writes.append((buf, off, size))
        B.write_at(I, buf, off, segs)

    def find(I, name, order, segs, pos):
        _, rest = split_at(segs, pos, I.facts)
        rest = normalise(rest, I.facts)
        if rest and rest[0][0] == 'ser' and rest[0][2] == (name, order):
            return rest[0][3], rest[0][1]
        garbled = I.modules['sa_support'].ns['Garbled']
        raise I.make_exc(I.call(garbled, [
            name, f'expected the bytes of {name!r} (byte order {order!r}), found '
            + (B.seg_show(rest[0]) if rest else 'end of data')]))

    def ser_at(I, a, k):
        name, order, buf, off = a
        if not B.is_buf(buf):
            raise Unsupported('unpacking from an unknown buffer')
        return find(I, name, order, B.segs_of(I, buf), off)

    def ser_read(I, a, k):
        name, order, s = a
        if not isinstance(s, StreamV):
            raise Unsupported('reading from a wrapped stream')
        v, w = find(I, name, order, s.segs, s.pos)
        I.jattr(s, 'pos', I.facts.norm(add(s.pos, w)))
        return v, w

    def seen(I, a, k):
        snap = {}
        for n in lab.watch:
            try:
                snap[n] = I.getattr(a[2], n)
            except PyExc:
                pass
        lab.seen.append(tuple(a) + (snap,))

    return {f.name: f for f in (nf('ser_bytes', ser_bytes), nf('ser_into', ser_into),
                                nf('ser_at', ser_at), nf('ser_read', ser_read),
                                nf('seen', seen))}


class Values:
    """Unknown values for the attributes of a subject."""

    def __init__(self, lab):
        self.lab = lab

    def int(self, name, lo=None, hi=None):
        return atom(('free', name), lo, hi)

    def bool(self, name):
        return Sym(('free', name), 'bool')

    def float(self, name):
        return Sym(('free', name), 'float')

    def any(self, name):
        return Sym(('free', name), 'any')

    def text(self, name, nonul=True):
        s = Sym(('txt', name), 'str')
        if nonul:
            self.lab.I.path.no_nul.add(s.key)
        return s

    def raw(self, name, n, excl=()):
        """n unknown bytes (an abstract or concrete number)."""
        b = BufV('bytes', [('raw', n, name, 0)])
        if excl:
            self.lab.I.path.excluded[name] = set(excl)
        return b

    def bytes(self, name, lo=0, hi=None, excl=()):
        return self.raw(name, atom(('free', name, 'len'), lo, hi), excl)

    def seq(self, name, elem, lo=0, hi=None, n=None):
        cache = {}

        def at(i):
            if i not in cache:
                cache[i] = elem(i)
            return cache[i]
        return SeqV(name, atom(('free', name, 'len'), lo, hi) if n is None else n, at, 'list')

    def list(self, *items):
        return ListV(items)


class Lab:
    def __init__(self, root, version=(3, 12)):
        self.root = root
        Atom.table.clear()
        classes.forget_subclasses()
        self.I = Interp(root, version)
        self.v = Values(self)
        self.seen = []
        self.watch = ()      # attributes looked up whenever a decision is made
        self.count = 0
        I = self.I
        self.pkg = I.import_module('structured')
        self.support = I.load_source('sa_support', SUPPORT, '<client support>', False, natives(self))
        I.obj_values = self.obj_values
        self.I.steps_loaded = I.path.steps
        I.path.active = False

    # -- opaque encodings -------------------------------------------------
    def ser_seg(self, name, order, values):
        key = ('W', name, order) + tuple(key_of(v) for v in values)
        return ('ser', atom(key, 1), (name, order), values)

    def obj_values(self, I, a, b):
        k, attrs = a.cls.find('attrs')
        if k is None or not isinstance(attrs, tuple):
            if a.cls.native or a.payload is not None or b.payload is not None:
                return NotImplemented
            if set(a.d) != set(b.d):
                return False
            attrs = tuple(a.d)
            return B.all_same(I, [a.d[n] for n in attrs], [b.d[n] for n in attrs])
        out = True
        for n in attrs:
            r = B.value_same(I, I.getattr(a, n), I.getattr(b, n))
            if r is False:
                return False
            if r is None:
                out = None
        return out

    # -- client programs ----------------------------------------------------
    def client(self, src, name=None, extra=None, future=False):
        """Interpret a client module; may raise PyExc."""
        self.count += 1
        name = name or f'client{self.count}'
        head = 'from sa_support import *\n'
        if future:
            head = 'from __future__ import annotations\n' + head
        return self.I.load_source(name, head + src, f'<client {name}>', False, extra)

    def reset(self):
        self.seen.clear()
        self.I.buf_writes.clear()
        self.I.user_mutations.clear()
