"""C01 C02 C03 C06: nested objects that are not plain instances of the declared class:
instances of subclasses, and objects switched to another byte order."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import suites
from .choices import INTRO
from .deciding import define
from .layout import BufV, total
from .malformed import PACKS, do_pack
from .parts import int_enc
from .suites import case
from .terms import add
from .values import *

CLS = INTRO + '''
class In(Structured, byte_order=ByteOrder.LE):
    n: uint16
    s: char[uint8]
class Same(In, byte_order=ByteOrder.LE):
    pass
class More(In, byte_order=ByteOrder.LE):
    z: uint32
class Front(In, byte_order=ByteOrder.LE):
    s: char[uint32]
class Flip(In, byte_order=ByteOrder.BE, byte_order_mode=ByteOrderMode.OVERRIDE):
    _: pad[3]
    y: int8
class Mid(Structured, byte_order=ByteOrder.BE):
    i: In
    k: uint16
class Late(Mid, byte_order=ByteOrder.BE):
    e: char[b'.']
'''
KINDS = ('Same', 'More', 'Front', 'Flip', 'switched', 'switched More')
PLACES = {
    'a field': ('In', lambda a, b: a, lambda p, q: p + q),
    'a tuple': ('tuple[uint8, In, int8]', lambda a, b: (1, a, -1), None),
    'a fixed array': ('array[Header[2], In]', lambda a, b: ListV([a, b]), None),
    'a counted array': ('array[Header[uint16], In]', lambda a, b: ListV([a, b, a]), None),
    'a sized array': ('array[Header[uint8, uint32], In]', lambda a, b: ListV([b, a, b]), None),
    'a union': ('Annotated[Union[In, uint8], LookbackDecider(lambda o: o.a, {}, In)]', lambda a, b: a, None),
    'a condition': ('Annotated[In, Condition(lambda o: True, None)]', lambda a, b: a, None),
    'an object in an object': ('Mid', None, None),
    'an object in an object of a subclass': ('Mid', None, None),
}


def make(t, m, kind, nm):
    """The object, and the bytes of its fields by the class it belongs to."""
    I, v = t.I, t.v
    n, s, z = v.int(nm + '.n', 0, 0xFFFF), v.raw(nm + '.s', {'x': 3, 'y': 1, 'w': 6, 'u': 0}[nm]), v.int(nm + '.z', -128, 127)
    vals = [n, s] + ([z] if kind in ('Flip',) else [v.int(nm + '.u', 0, 2**32 - 1)] if 'More' in kind else [])
    cls = {'switched': 'In', 'switched More': 'More'}.get(kind, kind)
    o = t.attempt(I.call, m.ns[cls], vals)
    if o.ok and kind.startswith('switched'):
        o = t.call(o.value, 'with_byte_order', I.getattr(m.ns['ByteOrder'], 'BIG_ENDIAN'))
    return o


def nest(t, m, kind, place):
    I, v = t.I, t.v
    made = {'a': make(t, m, kind, 'x'), 'b': make(t, m, 'In', 'y'), 'p': make(t, m, 'In', 'w'), 'q': make(t, m, 'In', 'u')}
    if not t.check('C19', 'a nested object can be built', True if all(o.ok for o in made.values()) else
                   X.verdict_of([o for o in made.values() if not o.ok][0]), [o.text() for o in made.values() if not o.ok][:1]):
        return
    made = {k: o.value for k, o in made.items()}
    put = PLACES[place][1]

    def outer(a, b, deep):
        if put is None:
            mid = m.ns['Late' if deep and 'subclass' in place else 'Mid']
            extra = [v.raw('late', 4, b'.')] if mid is m.ns['Late'] else []
            x = I.call(mid, [a, v.int('k', 0, 0xFFFF)] + extra)
        else:
            x = put(a, b)
        return I.call(m.ns['Subj'], [v.int('h', 0, 0xFFFF), x, v.int('t', 0, 0xFFFF)])
    plain, o = t.attempt(outer, made['p'], made['q'], False), t.attempt(outer, made['a'], made['b'], True)
    if not t.check('C19', 'an instance holding it can be built', True if o.ok and plain.ok else X.verdict_of(o if plain.ok else plain), ''):
        return
    plain, o = plain.value, o.value
    first = t.call(o, 'pack')
    if not t.check('C02 C05', 'an object holding it can be packed', True if first.ok else X.verdict_of(first), first.text()):
        return
    segs = list(B.segs_of(I, first.value))
    w = total(segs)
    own = t.call(made['a'], 'pack')
    if place in ('a field', 'a condition', 'a union') and own.ok:
        body = [int_enc('uint16', '>', v.int('h', 0, 0xFFFF))] + list(B.segs_of(I, own.value)) + [int_enc('uint16', '>', v.int('t', 0, 0xFFFF))]
        r, d = t.same_bytes(segs, body)
        t.check('C07 C05', 'a nested object is packed as it packs itself', r, d or t.show(segs))
    ser = I.getattr(m.ns['Subj'], 'serializer')
    vals = X.attrs_of(t, o, ['a', 'x', 'z'])
    for route in PACKS:
        t.call(plain, 'pack')                                      # sizes of another object
        if route == 'pack_into':
            buf = BufV('bytearray', [('raw', w, 'old', 0)])
            g = t.call(o, 'pack_into', buf)
            got = list(buf.segs)
        else:
            g, got = do_pack(t, o, route)
        if not t.check('C02', f'{route} accepts what pack accepts', True if g.ok else X.verdict_of(g), g.text()):
            continue
        if got is not None:
            r, d = t.same_bytes(segs, got)
            t.check('C02', f'{route} produces the bytes pack produces', r, d or t.show(got))
        t.call(plain, 'pack')
        p = t.call(ser, 'prepack', o)
        if not p.ok or not vals.ok:
            continue
        off = v.int('off', 0)
        if route == 'pack':
            g = t.call(p.value, 'pack', *vals.value)
        elif route == 'pack_write':
            g = t.call(p.value, 'pack_write', X.stream([], [], []), *vals.value)
        else:
            old = [('raw', add(add(off, w), v.int('tail.len', 0)), 'old', 0)]
            buf = BufV('bytearray', old)
            g = t.call(p.value, 'pack_into', buf, off, *vals.value)
            if g.ok:
                X.outside(t, buf, old, off, w, 'serializer pack_into')
        if t.check('C02', f'serializer {route} accepts what the class packs', True if g.ok else X.verdict_of(g), g.text()):
            z = t.attempt(I.getattr, p.value, 'size')
            t.check('C01', f'size is the number of bytes {route} moved', I.facts.same(z.value, w) if z.ok else X.verdict_of(z),
                    f'size {z.value if z.ok else z.text()}, moved {I.facts.norm(w)}')


def register():
    for place, (ann, _, _) in PLACES.items():
        src = CLS + f'class Subj(Structured, byte_order=ByteOrder.BE):\n    a: uint16\n    x: {ann}\n    z: uint16\n'
        for kind in KINDS:
            label = f'{kind} object in {place}'

            def run(bench, label=label, src=src, kind=kind, place=place):
                m = define(bench, label, src, 'C02')
                if m is not None:
                    bench.explore(label, lambda t: nest(t, m, kind, place))
            case('C01 C02 C03', name=f'nested kinds: {label}')(run)


register()
