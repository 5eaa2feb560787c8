"""C09 C08: classes that contain themselves, where what follows an inner object depends on the outer one."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from .choices import INTRO
from .deciding import define
from .layout import total
from .malformed import PACKS, UNPACKS, do_pack, do_unpack
from .parts import enc, int_enc
from .suites import case
from .values import *

ON = 'lambda o: o.n > 4'
U8 = lambda x: [enc(1, '-', 'B', x)]


class Node:
    """n > 4: has two children; then two payload values."""

    def __init__(self, n, a, b, kids=()):
        self.n, self.a, self.b, self.kids = n, a, b, list(kids)
        self.on = n > 4


def u16(o, x):
    return [int_enc('uint16', o, x)]


def sel(nd, o, x):
    """A union of uint16 (n odd) and uint32."""
    return [int_enc('uint16' if nd.n % 2 else 'uint32', o, x)]


UN = 'Annotated[Union[uint16, uint32], LookbackDecider(lambda o: o.n % 2, {1: uint16}, uint32)]'
C16 = f'Annotated[uint16, Condition({ON}, 0)]'
KID = f'Annotated[Self, Condition({ON}, None)]'


def kid(o, nd, i):
    return wire(o, nd.prog, nd.kids[i]) if nd.on else []


def wire(o, prog, nd):
    nd.prog = prog
    return U8(nd.n) + PROGRAMS[prog][1](o, nd)


def size(segs):
    return total(segs)


def kids2(nd):
    return nd.kids if nd.on else [None, None]


# name: (fields after n, bytes of them, attribute values as expected after unpacking, from built children)
PROGRAMS = {
    'pairs in a sized array': (
        f'    v: array[Header[uint8, uint16], tuple[{KID}, {C16}]]\n    z: {C16}\n',
        lambda o, nd: (lambda body: U8(2) + u16(o, size(body)) + body + (u16(o, nd.b) if nd.on else []))(
            kid(o, nd, 0) + (u16(o, nd.a) if nd.on else []) + kid(o, nd, 1) + (u16(o, nd.b) if nd.on else [])),
        lambda nd, k: [ListV([(k[0], nd.a if nd.on else 0), (k[1], nd.b if nd.on else 0)]), nd.b if nd.on else 0]),
    'optional items of an array': (
        f'    v: array[Header[2], {KID}]\n    y: {UN}\n    z: {C16}\n',
        lambda o, nd: kid(o, nd, 0) + kid(o, nd, 1) + sel(nd, o, nd.a) + (u16(o, nd.b) if nd.on else []),
        lambda nd, k: [ListV(k), nd.a, nd.b if nd.on else 0]),
    'a union after an object in a tuple': (
        f'    v: tuple[{KID}, {UN}, {KID}, {C16}]\n    z: {UN}\n',
        lambda o, nd: kid(o, nd, 0) + sel(nd, o, nd.a) + kid(o, nd, 1) + (u16(o, nd.b) if nd.on else []) + sel(nd, o, nd.b),
        lambda nd, k: [(k[0], nd.a, k[1], nd.b if nd.on else 0), nd.b]),
    'tuples of an array': (
        f'    v: array[Header[2], tuple[{KID}, {UN}]]\n    z: uint8\n',
        lambda o, nd: kid(o, nd, 0) + sel(nd, o, nd.a) + kid(o, nd, 1) + sel(nd, o, nd.b) + U8(nd.n),
        lambda nd, k: [ListV([(k[0], nd.a), (k[1], nd.b)]), nd.n]),
    'arrays in a tuple': (
        f'    v: tuple[array[Header[1, uint16], {KID}], {C16}, array[Header[1], {KID}], {UN}]\n    z: uint8\n',
        lambda o, nd: u16(o, size(kid(o, nd, 0))) + kid(o, nd, 0) + (u16(o, nd.a) if nd.on else []) + kid(o, nd, 1) + sel(nd, o, nd.b) + U8(nd.n),
        lambda nd, k: [(ListV([k[0]]), nd.a if nd.on else 0, ListV([k[1]]), nd.b), nd.n]),
    'an array of arrays': (
        f'    v: array[Header[2, uint16], array[Header[1], tuple[{KID}, {C16}]]]\n    z: {C16}\n',
        lambda o, nd: (lambda body: u16(o, size(body)) + body + (u16(o, nd.b) if nd.on else []))(
            kid(o, nd, 0) + (u16(o, nd.a) if nd.on else []) + kid(o, nd, 1) + (u16(o, nd.b) if nd.on else [])),
        lambda nd, k: [ListV([ListV([(k[0], nd.a if nd.on else 0)]), ListV([(k[1], nd.b if nd.on else 0)])]), nd.b if nd.on else 0]),
    'a conditional array': (
        f'    v: Annotated[array[Header[2], tuple[Self, {UN}]], Condition({ON}, None)]\n    z: {UN}\n',
        lambda o, nd: (kid(o, nd, 0) + sel(nd, o, nd.a) + kid(o, nd, 1) + sel(nd, o, nd.b) if nd.on else []) + sel(nd, o, nd.b),
        lambda nd, k: [ListV([(k[0], nd.a), (k[1], nd.b)]) if nd.on else None, nd.b]),
    'unions of arrays': (
        f'    v: Annotated[Union[array[Header[2], tuple[Self, {UN}]], uint8], LookbackDecider({ON}, '
        f'{{True: array[Header[2], tuple[Self, {UN}]]}}, uint8)]\n    z: {UN}\n',
        lambda o, nd: (kid(o, nd, 0) + sel(nd, o, nd.a) + kid(o, nd, 1) + sel(nd, o, nd.b) if nd.on else U8(nd.n)) + sel(nd, o, nd.b),
        lambda nd, k: [ListV([(k[0], nd.a), (k[1], nd.b)]) if nd.on else nd.n, nd.b]),
    'fields of a prepared serializer': (
        f"    v: {KID}\n    x: Annotated[int, Opaque('k')]\n    y: {KID}\n    z: {C16}\n",
        None,
        None),
}
del PROGRAMS['fields of a prepared serializer']


def tree(v, shape, p='x'):
    """Trees of different outlines; payloads are unknown."""
    n, *kids = shape
    a = v.int(p + '.a', 0, 65535)
    b = v.int(p + '.b', 0, 65535)
    return Node(n, a, b, [tree(v, k, f'{p}.{i}') for i, k in enumerate(kids)])


LEAF = (1,)
SHAPES = {
    'a leaf': (2,),
    'one level': (7, LEAF, (2,)),
    'two levels, left': (8, (5, LEAF, (4,)), (3,)),
    'two levels, right': (9, (2,), (6, (1,), (2,))),
    'two full levels': (6, (7, (1,), (2,)), (8, (3,), (4,))),
}


def build(I, cls, prog, nd):
    ks = [build(I, cls, prog, k) for k in nd.kids] if nd.on else [None, None]
    return I.call(cls, [nd.n] + PROGRAMS[prog][2](nd, ks))


def compare(t, cls, prog, nd, o, path='object'):
    """(verdict, detail): does o hold the values of the tree?"""
    I = t.I
    if not isinstance(o, ObjV) or o.cls is not cls:
        return False, f'{path} is {o!r}'
    names = [n for n in 'nvyz' if n in I.getattr(cls, 'attrs')]
    got = [I.getattr(o, n) for n in names]
    want = [nd.n] + PROGRAMS[prog][2](nd, ['kid 0', 'kid 1'] if nd.on else [None, None])
    return walk(t, cls, prog, nd, want, got, path)


def walk(t, cls, prog, nd, w, g, path):
    if isinstance(w, str) and w.startswith('kid '):
        return compare(t, cls, prog, nd.kids[int(w[4:])], g, f'{path}.{w}')
    if isinstance(w, ListV):
        if not isinstance(g, ListV):
            return False, f'{path} is {g!r}'
        w, g = w.items, g.items
    elif isinstance(w, tuple):
        if not isinstance(g, tuple):
            return False, f'{path} is {g!r}'
    elif not isinstance(w, list):
        return B.value_same(t.I, w, g), f'{path}: {g!r}, expected {w!r}'
    if len(w) != len(g):
        return False, f'{path} has {len(g)} values'
    out = True, ''
    for i, (x, y) in enumerate(zip(w, g)):
        r = walk(t, cls, prog, nd, x, y, f'{path}[{i}]')
        if r[0] is False:
            return r
        if r[0] is None:
            out = r
    return out


def recursive(t, m, prog, order, shapes):
    I, v = t.I, t.v
    cls = m.ns['Subj']
    o = X.SYM[order]
    trees = [tree(v, SHAPES[s], f'x{i}') for i, s in enumerate(shapes)]
    objs, wires = [], []
    for nd in trees:
        b = t.attempt(build, I, cls, prog, nd)
        if not t.check('C09', 'an instance can be built', True if b.ok else X.verdict_of(b), b.text()):
            return
        objs.append(b.value)
        wires.append(wire(o, prog, nd))
    for route in PACKS:
        for i in (0, 1, 0):
            g, segs = do_pack(t, objs[i], route)
            if not t.check('C09 C08', f'{route} succeeds', True if g.ok else X.verdict_of(g), g.text()):
                continue
            r, d = t.same_bytes(wires[i], segs)
            t.check('C09 C08 C05', f'{route} packs each object with its own values and decisions', r,
                    d and f'{d}; documented: {t.show(wires[i])}; packed: {t.show(segs)}')
            z = t.attempt(I.getattr, I.getattr(cls, 'serializer'), 'size')
            if z.ok:
                t.check('C09 C01', f'{route} reports the bytes of the outermost object', B.value_same(I, z.value, total(wires[i])),
                        f'{z.value!r}, not {total(wires[i])!r}')
    for route in UNPACKS:
        for i in (1, 0):
            target = cls
            if not route.startswith('create'):
                f = t.attempt(build, I, cls, prog, trees[1 - i])
                if not f.ok:
                    continue
                target = f.value
            g = do_unpack(t, target, route, wires[i], None, [] if route.endswith('unpack') else X.SUF)
            if not t.check('C09 C08', f'{route} succeeds', True if g.ok else X.verdict_of(g), g.text()):
                continue
            got = g.value if route.startswith('create') else target
            r, d = compare(t, cls, prog, trees[i], got)
            t.check('C09 C08 C05', f'{route} gives each object its own values', r, d)
            z = t.attempt(I.getattr, I.getattr(cls, 'serializer'), 'size')
            if z.ok:
                t.check('C09 C01', f'{route} reports the bytes of the outermost object', B.value_same(I, z.value, total(wires[i])),
                        f'{z.value!r}, not {total(wires[i])!r}')


PAIRS = [('one level', 'two levels, left'), ('two levels, right', 'a leaf'), ('two full levels', 'one level')]


def register():
    for prog, (src, _, _) in PROGRAMS.items():
        for order in ('LE', 'BE'):
            label = f'recursion: {prog}, {order}'

            def run(bench, label=label, prog=prog, order=order, src=src):
                m = define(bench, label, INTRO + f'class Subj(Structured, byte_order=ByteOrder.{order}):\n    n: uint8\n{src}', 'C09')
                if m is not None:
                    for pair in PAIRS:
                        bench.explore(label, lambda t: recursive(t, m, prog, order, pair))
            case('C09 C08 C05 C01', 'quick', label)(run)


register()
