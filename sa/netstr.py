"""C15: the .NET length prefix, at particular lengths and for every length."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from .layout import lit, total
from .malformed import PACKS, UNPACKS, do_pack, do_unpack, refused
from .shapes import part_item
from .suites import case
from .terms import add, sub
from .values import *

LENGTHS = [0, 1, 2, 63, 64, 126, 127, 128, 129, 200, 254, 255, 256, 257, 383, 384, 511, 512, 8191, 8192, 16255, 16256,
           16383, 16384, 16385, 16511, 16512, 24576, 32640, 32766, 32767]
TOO_LONG = [32768, 32769, 32895, 32896, 65535, 65536, 65537, 98304, 131072, 2**31]


def prefix(n):
    return bytes([n]) if n < 128 else bytes([0x80 | n & 0x7f, n >> 7])


SHAPES = ('alone', 'with neighbours', 'in a tuple', 'in an array', 'in a union')


def subject(shape, text, order):
    p = P.p_uninet() if text else P.p_netchar()
    kind = 'unicode[NET]' if text else 'char[NET]'
    if shape == 'alone':
        parts = [p]
    elif shape == 'with neighbours':
        parts = [P.p_int('uint8'), p, P.p_int('uint16')]
    elif shape == 'in a tuple':
        parts = [P.p_int('uint8'), P.as_part(P.i_tuple(part_item(p), P.i_int('int16')))]
    elif shape == 'in an array':
        parts = [P.p_array(('uint8',), part_item(p)), P.p_int('uint16')]
    else:
        u = P.one('union', f'Annotated[Union[int8, {p.fields[0][1]}], LookbackDecider(lambda o: 1, '
                  f'{{1: {p.fields[0][1]}}}, int8)]', None, None, pre=p.pre)
        parts = [P.p_int('uint8'), u]
    return X.Subject(f'{kind} {shape}, {order}', parts, order)


def value(t, text, n, name='s'):
    """(value, its encoded bytes)"""
    I, v = t.I, t.v
    if text:
        x = v.text(name)
        segs = list(B.segs_of(I, B.encode(I, x, 'utf-8')))
        w = total(segs)
        I.facts.assume_ge0(sub(w, n))
        I.facts.assume_ge0(sub(n, w))
        return x, segs
    x = v.raw(name, n)
    return x, list(B.segs_of(I, x))


def wrap(t, shape, order, x, enc_x):
    """Attribute values and their bytes."""
    v = t.v
    o = X.SYM[order]
    a = v.int('a', 0, 255)
    A = P.int_enc('uint8', o, a)
    if shape == 'alone':
        return [x], enc_x
    if shape == 'with neighbours':
        z = v.int('z', 0, 65535)
        return [a, x, z], [A] + enc_x + [P.int_enc('uint16', o, z)]
    if shape == 'in a tuple':
        z = v.int('z', -2**15, 2**15 - 1)
        return [a, (x, z)], [A] + enc_x + [P.int_enc('int16', o, z)]
    if shape == 'in an array':
        z = v.int('z', 0, 65535)
        return [ListV([x, x]), z], [P.int_enc('uint8', o, 2)] + enc_x + enc_x + [P.int_enc('uint16', o, z)]
    return [a, x], [A] + enc_x


def exact(t, s, m, shape, text, n):
    I, v = t.I, t.v
    cls = m.ns['Subj']
    x, body = value(t, text, n)
    vals, want = wrap(t, shape, s.order, x, [lit(prefix(n))] + body)
    o = t.attempt(I.call, cls, list(vals))
    if not o.ok:
        return
    for route in PACKS:
        g, segs = do_pack(t, o.value, route)
        if t.check('C15', f'{route} accepts a string of {n} bytes', True if g.ok else X.verdict_of(g), g.text()) \
                and segs is not None:
            r, d = t.same_bytes(want, segs)
            t.check('C15', f'{route} writes the length {n} as {prefix(n).hex()}', r,
                    d and f'{d}; documented: {t.show(want)}; packed: {t.show(segs)}')
    for route in UNPACKS:
        target = cls
        if not route.startswith('create'):
            y, yb = value(t, text, 1, 'old')
            f = t.attempt(I.call, cls, wrap(t, shape, s.order, y, yb)[0])
            if not f.ok:
                continue
            target = f.value
        suf = [] if route.endswith('unpack') else [('raw', 3, 'bytes after', 0)]
        g = do_unpack(t, target, route, want, None, suf)
        if not t.check('C15', f'{route} accepts the length {n}', True if g.ok else X.verdict_of(g), g.text()):
            continue
        inst = g.value if route.startswith('create') else target
        a = X.attrs_of(t, inst, s.names)
        if a.ok:
            r, d = X.values_equal(t, s.names, vals, a.value)
            t.check('C15', f'{route} reads back the {n} bytes', r, d)


def too_long(t, s, m, shape, text, n):
    x, body = value(t, text, t.v.int('n', 32768) if n is None else n)
    vals, _ = wrap(t, shape, s.order, x, body)
    o = t.attempt(t.I.call, m.ns['Subj'], list(vals))
    if not o.ok:
        return
    for route in PACKS:
        g, segs = do_pack(t, o.value, route, 2**40)
        refused(t, 'C15', f'{route} refuses a string longer than 32767 bytes', g,
                f'{n or "more than 32767"} bytes packed' + (f' as {t.show(segs)}' if segs else ''))


def register():
    for shape in SHAPES:
        for text in (False, True):
            for order in ('LE', 'BE'):
                def run(bench, shape=shape, text=text, order=order):
                    s = subject(shape, text, order)
                    m = X.define(bench, s, 'C15')
                    if m is None:
                        return
                    for n in LENGTHS:
                        bench.explore(s.label, lambda t: exact(t, s, m, shape, text, n))
                    for n in TOO_LONG + [None]:
                        bench.explore(s.label, lambda t: too_long(t, s, m, shape, text, n))
                quick = shape in ('alone', 'with neighbours') or order == 'BE'
                case('C15', 'quick' if quick else 'thorough', f'net string {shape} text={text} {order}')(run)


register()
