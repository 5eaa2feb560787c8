"""Abstract byte strings: sequences of segments with abstract widths.

A segment is a tuple whose second element is its width:

  ('lit', n, bytes)              known bytes
  ('zero', w)                    w zero bytes
  ('enc', n, order, char, value) one struct field holding an abstract value
  ('raw', w, key, start)         bytes [start, start+w) of an unknown string
  ('ser', w, name, values)       what an unknown sub-serializer packs for values
  ('part', w, seg, start)        a strict part of an indivisible segment
"""
from __future__ import annotations

import struct

from .terms import Facts, Lin, Unsupported, add, is_intlike, sub


class BufV:
    """bytes / bytearray / memoryview (the kind) over a segment sequence."""
    __slots__ = ('kind', 'segs', 'target', 'big', 'events', 'name', 'base', 'exports')

    def __init__(self, kind, segs, name=None):
        self.kind = kind
        self.segs = tuple(segs)
        self.target = None     # memoryview: the underlying BufV
        self.big = False       # in-window accesses are assumed to be in bounds
        self.events = []       # resizes
        self.name = name
        self.base = None

    def __repr__(self):
        return f'{self.kind}{list(self.segs)!r}'


def lit(b: bytes):
    return ('lit', len(b), bytes(b))


def total(segs):
    n = 0
    for s in segs:
        n = add(n, s[1])
    return n


def seg_split(s, at):
    """Split one segment at 0 < at < width."""
    k = s[0]
    rest = sub(s[1], at)
    if k == 'lit' and not isinstance(at, Lin):
        return ('lit', at, s[2][:at]), ('lit', s[1] - at, s[2][at:])
    if k == 'zero':
        return ('zero', at), ('zero', rest)
    if k == 'raw':
        return ('raw', at, s[2], s[3]), ('raw', rest, s[2], add(s[3], at))
    if k == 'part':
        return ('part', at, s[2], s[3]), ('part', rest, s[2], add(s[3], at))
    return ('part', at, s, 0), ('part', rest, s, at)


def split_at(segs, off, f: Facts, big=False):
    """(left, right) of a segment sequence at offset off (0 <= off <= total)."""
    left = []
    segs = list(segs)
    rem = off
    while True:
        if f.same(rem, 0) is True:
            return left, segs
        if not segs:
            raise Unsupported(f'offset {rem} past the end of a byte string')
        s = segs[0]
        d = sub(rem, s[1])
        k = f.known_ge0(d)
        if k is None:
            r = f.reps_subst(d)
            k = f.known_ge0(r)
        if k is None:
            if big and s[0] == 'raw' and len(segs) == 1:
                f.assume_ge0(sub(s[1], rem))
                k = f.known_eq0(d) is True
            else:
                k = f.ge0(d)
        if k:
            left.append(s)
            segs.pop(0)
            rem = f.norm(d)
        else:
            a, b = seg_split(s, rem)
            left.append(a)
            segs[0] = b
            return left, segs


def normalise(segs, f: Facts):
    out = []
    for s in segs:
        w = f.norm(s[1])
        if f.known_eq0(w) is True:
            continue
        s = (s[0], w) + tuple(s[2:])
        if out:
            p = out[-1]
            if p[0] == s[0] == 'lit':
                out[-1] = lit(p[2] + s[2])
                continue
            if p[0] == s[0] == 'zero':
                out[-1] = ('zero', add(p[1], w))
                continue
            if p[0] == s[0] == 'raw' and p[2] == s[2] and (
                f.known_eq0(sub(add(p[3], p[1]), s[3])) is True
            ):
                out[-1] = ('raw', f.norm(add(p[1], w)), p[2], p[3])
                continue
            if p[0] == s[0] == 'part' and p[2] is s[2] and (
                f.known_eq0(sub(add(p[3], p[1]), s[3])) is True
            ):
                w2 = f.norm(add(p[1], w))
                out[-1] = ('part', w2, p[2], p[3])
                if f.known_eq0(p[3]) is True and f.known_eq0(sub(w2, p[2][1])) is True:
                    out[-1] = p[2]
                continue
        out.append(s)
    return out


NATIVE = {'': 'native', '@': 'native', '=': 'native', '<': '<', '>': '>', '!': '>'}


def enc_const(order, char, value, width):
    """The bytes of a known value, when the representation is certain."""
    try:
        o = {'native': '=', '<': '<', '>': '>'}[order]
        b = struct.pack(o + char, value)
        return b if len(b) == width else None
    except (struct.error, TypeError, OverflowError, KeyError):
        return None


_cache: dict = {}


def fields(fmt: str):
    """(order, size, [(char, offset, width)]) of a struct format string."""
    r = _cache.get(fmt)
    if r is not None:
        return r
    order, body = ('', fmt)
    if fmt and fmt[0] in '@=<>!':
        order, body = fmt[0], fmt[1:]
    size = struct.calcsize(fmt)
    out = []
    i = 0
    while i < len(body):
        if body[i].isspace():
            i += 1
            continue
        j = i
        while j < len(body) and body[j].isdigit():
            j += 1
        n = int(body[i:j]) if j > i else 1
        ch = body[j]
        start = struct.calcsize(order + body[:i] + '0' + ch)
        if ch in 'sp':
            out.append((ch, start, n))
        elif ch == 'x':
            out.append((ch, start, n))
        else:
            w = struct.calcsize(order + ch)
            for k in range(n):
                out.append((ch, start + k * w, w))
        i = j + 1
    r = (order, size, out)
    _cache[fmt] = r
    return r


INT_RANGE = {}
for _c in 'bBhHiIlLqQnN':
    try:
        _w = struct.calcsize(('=' if _c not in 'nN' else '') + _c)
    except struct.error:
        continue
    INT_RANGE[_c] = (
        (-(1 << (8 * _w - 1)), (1 << (8 * _w - 1)) - 1)
        if _c.islower()
        else (0, (1 << (8 * _w)) - 1)
    )


def int_range(char, width):
    if char.islower():
        return -(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1
    return 0, (1 << (8 * width)) - 1
