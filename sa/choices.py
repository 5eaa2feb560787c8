"""C17: which case a union uses, for every kind of decision; what reading ahead consumes."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from .deciding import define
from .harness import exc_is
from .layout import lit, total
from .malformed import PACKS, UNPACKS, do_pack, do_unpack
from .parts import enc, int_enc
from .suites import case
from .terms import add
from .values import *

INTRO = '''from enum import Enum, IntEnum
class Color(Enum):
    RED = 1
    BLUE = 2
class Num(IntEnum):
    ONE = 1
    TWO = 2
'''
# keys of a result map -> (a decision for each case, in order; a decision with no case)
KEYS = [
    ('numbers', ('1', '2'), ('1', '2'), '3'),
    ('zero and one', ('0', '1'), ('0', '1'), '2'),
    ('booleans', ('True', 'False'), ('True', 'False'), 'None'),
    ('booleans for numbers', ('0', '1'), ('False', 'True'), '2'),
    ('numbers for booleans', ('True', 'False'), ('1', '0'), '-1'),
    ('floats for numbers', ('1', '2'), ('1.0', '2.0'), '2.5'),
    ('None', ('None', '1'), ('None', '1'), '0'),
    ('strings', ("'a'", "''"), ("'a'", "''"), "'b'"),
    ('byte strings', ("b'a'", "b''"), ("b'a'", "b''"), "b'b'"),
    ('tuples', ('(1, 2)', '()'), ('(1, 2)', '()'), '(2, 1)'),
    ('enumerations', ('Color.RED', 'Color.BLUE'), ('Color.RED', 'Color.BLUE'), '1'),
    ('number enumerations', ('Num.ONE', 'Num.TWO'), ('1', 'Num.TWO'), '3'),
    ('types', ('int', 'str'), ('int', 'str'), 'bytes'),
    ('negative numbers', ('-1', '-2'), ('-1', '-2'), '1'),
]
CASES2 = ('int8', 'int16')
PLACES = [
    ('a field', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    k: uint8\n    u: {u}\n    z: uint8\n', None),
    ('the first field', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    u: {u}\n    z: uint8\n', None),
    ('the only field', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    u: {u}\n', None),
    ('a tuple item', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    k: uint8\n    u: tuple[{u}]\n    z: uint8\n', 'tuple'),
    ('an array item', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    k: uint8\n    u: array[Header[1], {u}]\n    z: uint8\n', 'array'),
    ('under a condition', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    k: uint8\n'
     '    u: Annotated[tuple[{u}], Condition(lambda o: True, None)]\n    z: uint8\n', 'tuple'),
    ('in another union', 'class Subj(Structured, byte_order=ByteOrder.BE):\n    k: uint8\n'
     '    u: Annotated[Union[tuple[{u}], int64], LookbackDecider(lambda o: 1, {{1: tuple[{u}]}}, int64)]\n    z: uint8\n', 'tuple'),
]


def wrap(kind, x):
    return (x,) if kind == 'tuple' else ListV([x]) if kind == 'array' else x


def is_error(t, rule, g, name, what):
    """The call raised the named exception."""
    if g.kind == 'exc':
        v = True if exc_is(g.value, name) else False
        what = f'{g.text()} instead of {name}'
    else:
        v = None if g.kind == 'undecided' else False
        what = g.text() if g.kind == 'undecided' else what
    t.check('C17', rule, v, what)


def build(t, m, kind, x):
    vals, segs = [], []
    for n in t.I.getattr(m.ns['Subj'], 'attrs'):
        if n == 'u':
            vals.append(wrap(kind, x))
        else:
            y = t.v.int(n, 0, 255)
            vals.append(y)
    return vals


def lay(t, m, vals, seg):
    out = []
    for n, x in zip(t.I.getattr(m.ns['Subj'], 'attrs'), vals):
        out.append(seg if n == 'u' else enc(1, '-', 'B', x))
    return out


def used(t, m, kind, typ, what):
    """Every route packs and unpacks with the given integer type."""
    I, v = t.I, t.v
    _, _, lo, hi = P.INTS[typ]
    x = v.int('u', lo, hi)
    vals = build(t, m, kind, x)
    o = t.attempt(I.call, m.ns['Subj'], vals)
    if not t.check('C17', 'an instance can be built', True if o.ok else X.verdict_of(o), o.text()):
        return
    want = lay(t, m, vals, int_enc(typ, '>', x))
    for route in PACKS:
        g, segs = do_pack(t, o.value, route)
        if not t.check('C17', f'{route} accepts {what}', True if g.ok else X.verdict_of(g), g.text()):
            continue
        if segs is not None:
            r, d = t.same_bytes(segs, want)
            t.check('C17', f'{route} uses {what}', r, d or t.show(segs))
        t.check('C17', f'{route} reports the size of {what}', B.value_same(I, I.getattr(I.getattr(o.value, 'serializer'), 'size'), total(want)),
                f'{I.getattr(I.getattr(o.value, "serializer"), "size")!r}')
    for route in UNPACKS:
        target = m.ns['Subj']
        if not route.startswith('create'):
            p = t.attempt(I.call, target, build(t, m, kind, v.int('other', lo, hi)))
            if not p.ok:
                continue
            target = p.value
        g = do_unpack(t, target, route, want, suf=X.SUF)
        if not t.check('C17', f'{route} accepts {what}', True if g.ok else X.verdict_of(g), g.text()):
            continue
        res = g.value if route.startswith('create') else target
        names = I.getattr(m.ns['Subj'], 'attrs')
        r, d = X.values_equal(t, names, vals, [I.getattr(res, n) for n in names])
        t.check('C17', f'{route} uses {what}', r, d)


def unmapped(t, m, kind, error='ValueError', what='a decision without a case'):
    I, v = t.I, t.v
    vals = build(t, m, kind, v.int('u', -128, 127))
    o = t.attempt(I.call, m.ns['Subj'], vals)
    if not o.ok:
        t.check('C17', 'an instance can be built', X.verdict_of(o), o.text())
        return
    for route in PACKS:
        g, segs = do_pack(t, o.value, route)
        is_error(t, f'{route} raises {error} for {what}', g, error, f'packed as {t.show(segs) if segs else "bytes"}')
    data = [('raw', 12, 'data', 0)]
    for route in UNPACKS:
        target = m.ns['Subj'] if route.startswith('create') else o.value
        g = do_unpack(t, target, route, data)
        is_error(t, f'{route} raises {error} for {what}', g, error, 'unpacked without an error')


def lookback(decision, keys, default):
    cs = ', '.join(f'{k}: {c}' for k, c in zip(keys, CASES2))
    return (f"Annotated[Union[int8, int16, int64], LookbackDecider(lambda o: {decision}, {{{cs}}}"
            + (', int64' if default else '') + ')]')


def register():
    for kl, keys, decs, miss in KEYS:
        for default in (False, True):
            for pl, src, kind in PLACES:
                if pl != 'a field' and kl not in ('numbers', 'None', 'zero and one'):
                    continue
                jobs = [(d, c, f'the case mapped to {k}') for k, d, c in zip(keys, decs, CASES2)]
                jobs.append((miss, 'int64' if default else None, 'the default'))
                for dec, typ, what in jobs:
                    label = f'{kl} deciding {pl}{", with a default" if default else ""}: {dec}'

                    def run(bench, label=label, dec=dec, typ=typ, what=what, src=src, kind=kind, keys=keys, default=default):
                        m = define(bench, label, INTRO + src.format(u=lookback(dec, keys, default)), 'C17')
                        if m is None:
                            return
                        if typ is None:
                            bench.explore(label, lambda t: unmapped(t, m, kind))
                        else:
                            bench.explore(label, lambda t: used(t, m, kind, typ, what))
                    case('C17', name=label)(run)
    for pl, src, kind in PLACES:
        label = f'unhashable decision in {pl}'

        def run(bench, label=label, src=src, kind=kind):
            m = define(bench, label, src.format(u=lookback('[1]', ('1', '2'), False)), 'C17')
            if m is not None:
                bench.explore(label, lambda t: unmapped(t, m, kind, 'TypeError', 'a decision that cannot be looked up'))
        case('C17', name=label)(run)


register()


# ------------------------------------------------------------ reading ahead
# read-ahead type, its size, the value read -> case; bytes of the whole object after the tag byte
AHEAD = [
    ('uint8', [(7, 'int8'), (9, 'int16')]),
    ('uint16', [(258, 'int8'), (772, 'int16')]),
    ('uint32', [(16909060, 'int8'), (84281096, 'int16')]),
    ('uint64', [(72623859790382856, 'int8'), (1, 'int64')]),
    ('char[2]', [(b'AB', 'int8'), (b'CD', 'int16')]),
    ('char[0]', [(b'', 'int8')]),
    ('bool8', [(True, 'int8'), (False, 'int16')]),
    ('char[uint8]', [(b'', 'int8'), (b'xyz', 'int16')]),
    ("char[b';']", [(b'', 'int8'), (b'abc', 'int32')]),
    ('unicode[uint8]', [('', 'int8'), ('abc', 'int16')]),
    ('tuple[uint8, uint8]', [((1, 2), 'int8'), ((3, 4), 'int32')]),
    ('char[3]', [(b'abc', 'int8')]),
    ('char[b"\\0"]', [(b'ab', 'int16'), (b'', 'int32')]),
]


def encode(kind, value):
    if kind.startswith('uint'):
        return value.to_bytes(int(kind[4:]) // 8, 'big')
    if kind == 'bool8':
        return bytes([value])
    if kind in ('char[2]', 'char[0]', 'char[3]'):
        return value
    if kind == 'char[uint8]':
        return bytes([len(value)]) + value
    if kind == "char[b';']":
        return value + b';'
    if kind == 'char[b"\\0"]':
        return value + b'\0'
    if kind == 'unicode[uint8]':
        return bytes([len(value)]) + value.encode()
    return bytes(value)


def ahead(t, m, kind, read, value, typ, mapped):
    """Bytes that start with an encoding of the value read ahead: the case starts at the same place."""
    I, v = t.I, t.v
    head = encode(read, value)
    size = P.INTS[typ][1]
    data = bytes([11]) + head + bytes(range(65, 65 + 12))
    names = I.getattr(m.ns['Subj'], 'attrs')
    n0 = 1 if names[0] == 'k' else 0
    body = data[1 - n0:]
    x = int.from_bytes(body[n0:n0 + size], 'big', signed=True)
    used_ = n0 + size + (1 if names[-1] == 'z' else 0)
    vals = []
    for n in names:
        vals.append(11 if n == 'k' else wrap(kind, x) if n == 'u' else body[n0 + size])
    for route in UNPACKS:
        target = m.ns['Subj']
        if not route.startswith('create'):
            p = t.attempt(I.call, target, build(t, m, kind, 0))
            if not p.ok:
                continue
            target = p.value
        n = route.replace('create_', '')
        st = None
        if n == 'unpack':
            g = t.call(target, route, body)
        elif n == 'unpack_from':
            g = t.call(target, route, B.make(I, [('raw', 3, 'pre', 0), lit(body)]), 3)
        else:
            st = X.stream([('raw', 3, 'pre', 0)], [lit(body)], [])
            g = t.call(target, route, st)
        if mapped is None:
            is_error(t, f'{route} raises ValueError for a value read ahead without a case', g, 'ValueError', 'unpacked without an error')
            continue
        if not t.check('C17', f'{route} finds the case for the value read ahead', True if g.ok else X.verdict_of(g), g.text()):
            continue
        res = g.value if route.startswith('create') else target
        r, d = X.values_equal(t, names, vals, [I.getattr(res, n) for n in names])
        t.check('C17', f'{route}: the case starts where reading ahead began', r, d)
        t.check('C17', f'{route} reports only the bytes of the case', B.value_same(I, I.getattr(I.getattr(m.ns['Subj'], 'serializer'), 'size'), used_),
                f'{I.getattr(I.getattr(m.ns["Subj"], "serializer"), "size")!r}, not {used_}')
        if st is not None:
            t.check('C17', f'{route} stops right after the object', B.value_same(I, st.pos, 3 + used_), f'at {st.pos!r}')


def register_ahead():
    for read, rows in AHEAD:
        for default in (False, True):
            for pl, src, kind in PLACES:
                if pl not in ('a field', 'the only field') and read not in ('uint16', 'char[uint8]'):
                    continue
                keys = ', '.join(f'{k!r}: {c}' for k, c in rows)
                u = (f"Annotated[Union[int8, int16, int32, int64, float64], LookaheadDecider({read}, lambda o: {rows[0][0]!r}, {{{keys}}}"
                     + (', int32' if default else '') + ')]')
                other = {'u': 5, 'c': b'Q', 'b': None}.get(read[0])
                if read.startswith('unicode'):
                    other = 'Q'
                elif read == 'char[2]':
                    other = b'QQ'
                elif read == 'char[3]':
                    other = b'QQQ'
                elif read.startswith('tuple'):
                    other = (9, 9)
                jobs = [(v, c, True) for v, c in rows]
                if other is not None and read != 'char[0]':
                    jobs.append((other, 'int32', True if default else None))
                for val, typ, mapped in jobs:
                    label = f'{val!r} read ahead as {read} for {pl}{", with a default" if default else ""}'

                    def run(bench, label=label, src=src, u=u, kind=kind, read=read, val=val, typ=typ, mapped=mapped):
                        m = define(bench, label, src.format(u=u), 'C17')
                        if m is not None:
                            bench.explore(label, lambda t: ahead(t, m, kind, read, val, typ, mapped))
                    case('C17', name=label)(run)


register_ahead()
