"""C24: values stay the user's: nothing handed in is changed, nothing handed out is shared.
C02: values of unusual types are treated alike by every packing route."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .builtins_model import MEMORYVIEW, OBJECT
from .choices import INTRO
from .deciding import define
from .layout import BufV, lit, normalise, total
from .malformed import PACKS, UNPACKS, do_unpack
from .suites import case
from .values import *


def snapshot(v, seen=None):
    """What a value holds, its containers told apart by identity."""
    seen = {} if seen is None else seen
    if id(v) in seen:
        return ('seen', seen[id(v)])
    seen[id(v)] = len(seen)
    if isinstance(v, ListV):
        return ('list', id(v), tuple(snapshot(x, seen) for x in v.items))
    if isinstance(v, tuple):
        return ('tuple', tuple(snapshot(x, seen) for x in v))
    if isinstance(v, DictV):
        return ('dict', id(v), tuple((snapshot(k, seen), snapshot(x, seen)) for k, x in v.d.values()))
    if isinstance(v, BufV):
        return ('buffer', id(v), tuple(v.segs))
    if isinstance(v, ObjV) and not v.cls.native:
        return ('object', id(v), tuple(sorted((k, snapshot(x, seen)) for k, x in v.d.items())))
    return id(v)


def buffers(v, name, out, seen):
    """Byte runs reachable from a value that are not immutable bytes."""
    if id(v) in seen:
        return
    seen[id(v)] = v
    if isinstance(v, BufV):
        if v.kind != 'bytes':
            out.append(f'{name} is a {v.kind}')
    elif isinstance(v, (ListV, tuple)):
        for i, x in enumerate(v.items if isinstance(v, ListV) else v):
            buffers(x, f'{name}[{i}]', out, seen)
    elif isinstance(v, ObjV) and not v.cls.native:
        for k, x in v.d.items():
            buffers(x, f'{name}.{k}', out, seen)


def source(t, kind, segs):
    """A buffer of the given kind and the user's buffer below it."""
    b = BufV('bytearray', normalise(list(segs), t.I.facts))
    if kind == 'bytearray':
        return b, b
    if kind == 'memoryview of a bytearray':
        return t.I.call(MEMORYVIEW, [b]), b
    return t.I.call(MEMORYVIEW, [B.make(t.I, list(segs))]), None


def owned(t, s, m):
    I, v = t.I, t.v
    cls = m.ns[s.name]
    vals = s.values(v, 'x', m.ns)
    obj = t.attempt(I.call, cls, list(vals))
    if not obj.ok:
        return
    obj = obj.value
    before = snapshot(obj)
    got = t.call(obj, 'pack')
    if not got.ok:
        return
    segs = list(B.segs_of(I, got.value))
    for route in PACKS:
        if route == 'pack_write':
            g = t.call(obj, route, X.stream([], [], []))
        elif route == 'pack_into':
            g = t.call(obj, route, BufV('bytearray', [('raw', total(segs), 'old', 0)]))
        else:
            g = t.call(obj, route)
        if g.ok:
            t.check('C24', f'{route} leaves the object and everything it holds as it was', snapshot(obj) == before,
                    f'{obj.d!r} afterwards')
    I.user_mutations.clear()
    want = s.expect(I, vals, m.ns)
    pre = [('raw', v.int('pre.len', 0), 'bytes before', 0)]
    for kind in ('bytearray', 'memoryview', 'memoryview of a bytearray'):
        for route in ('create_unpack', 'create_unpack_from', 'unpack_from'):
            near = pre if route.endswith('from') else []
            data, under = source(t, kind, near + segs)
            was = tuple(under.segs) if under is not None else None
            if route.startswith('create'):
                target = cls
            else:
                target = t.attempt(I.call, cls, list(s.values(v, 'y', m.ns)))
                if not target.ok:
                    continue
                target = target.value
            g = t.call(target, route, data, *([total(near)] if near else []))
            if not t.check('C24 C04', f'{route} accepts a {kind}', True if g.ok else X.verdict_of(g), g.text()):
                continue
            o = g.value if route.startswith('create') else target
            a = X.attrs_of(t, o, s.names)
            if not a.ok:
                continue
            r, d = X.values_equal(t, s.names, want, a.value)
            t.check('C24 C04', f'{route} from a {kind} gives the packed values', r, d)
            bad = []
            for n, x in zip(s.names, a.value):
                buffers(x, n, bad, {})
            t.check('C24', f'values unpacked from a {kind} do not refer to it', not bad, '; '.join(bad[:3]))
            if under is not None:
                t.check('C24', f'{route} leaves a {kind} as it was', tuple(under.segs) == was, f'{under!r}')


suites.GENERIC['owned'] = (owned, 'C24')

# ------------------------------------------- byte strings that can be modified
KINDS = {
    'char[1]': (1, 'char[1]'), 'char[3]': (3, 'char[3]'), 'char[5], padded': (3, 'char[5]'), 'char[uint8]': (3, 'char[uint8]'),
    'char[uint32]': (3, 'char[uint32]'), 'char[NET]': (3, 'char[NET]'), 'null_char': (3, 'null_char'),
    "char[b'|']": (3, "char[b'|']"), 'char[inf]': (3, 'char[math.inf]'),
}
AROUND = {
    'alone': ('    x: {}\n', lambda b: [b], lambda o: o),
    'after a number': ('    a: uint16\n    x: {}\n', lambda b: [7, b], None),
    'in a list': ('    x: array[Header[1], {}]\n', lambda b: [ListV([b])], None),
    'in a counted list': ('    x: array[Header[uint8], {}]\n', lambda b: [ListV([b, b])], None),
    'in a tuple': ('    x: tuple[int8, {}]\n', lambda b: [(1, b)], None),
    'under a condition': ('    x: Annotated[{}, Condition(lambda o: True, b"")]\n', lambda b: [b], None),
    'in a union': ('    x: Annotated[Union[{}, int8], LookbackDecider(lambda o: 1, {{1: {}}})]\n', lambda b: [b], None),
}
HEAD = INTRO + 'import math\nfrom structured.hint_types.strings import NET\n'


def mutable(t, m, n, put):
    I, v = t.I, t.v
    cls = m.ns['Subj']
    plain = BufV('bytes', [('raw', n, 'text', 0)])
    I.path.excluded['text'] = {0, ord('|')}
    want = t.attempt(lambda: I.call_method(I.call(cls, put(plain)), 'pack', [], {}))
    if not t.check('C24', 'bytes are accepted', True if want.ok else X.verdict_of(want), want.text()):
        return
    want = list(B.segs_of(I, want.value))
    b = BufV('bytearray', [('raw', n, 'text', 0)])
    o = t.attempt(lambda: I.call(cls, put(b)))
    if not o.ok:
        return
    o = o.value
    first = None
    for route in PACKS + ('pack',):
        before = snapshot(o)
        if route == 'pack_write':
            st = X.stream([], [], [])
            g, got = t.call(o, route, st), st
        elif route == 'pack_into':
            got = BufV('bytearray', [('raw', total(want), 'old', 0)])
            g = t.call(o, route, got)
        else:
            g = t.call(o, route)
            got = g.value
        t.check('C24', f'{route} of a bytearray leaves it as it was', snapshot(o) == before, f'{b!r} afterwards')
        if first is None:
            first = g.kind
        t.check('C02', f'a bytearray is accepted by {route} as by pack', g.kind == first if 'undecided' not in (g.kind, first) else None, g.text())
        if g.ok:
            r, d = t.same_bytes(want, list(got.segs) if isinstance(got, (BufV, StreamV)) else list(B.segs_of(I, got)))
            t.check('C02', f'{route} of a bytearray gives the bytes of the same bytes object', r, d)
            if route == 'pack':
                t.check('C24', 'the bytes packed from a bytearray are immutable', B.kind_of(got) == 'bytes', f'a {B.kind_of(got)}')


def register_mutable():
    for kl, (n, ann) in KINDS.items():
        for al, (src, put, _) in AROUND.items():
            if 'inf' in ann and 'list' in al:
                continue
            label = f'bytearray as {kl} {al}'
            text = HEAD + 'class Subj(Structured, byte_order=ByteOrder.LE):\n' + src.format(*[ann] * src.count('{}'))

            def run(bench, label=label, text=text, n=n, put=put):
                m = define(bench, label, text, 'C24')
                if m is not None:
                    bench.explore(label, lambda t: mutable(t, m, n, put))
            case('C24 C02', name=f'ownership: {label}')(run)


register_mutable()

# --------------------------------------------- values given in the class definition
DEFAULTS = {
    'a list': ('[1, 2]', 'array[Header[uint8], uint8]', lambda I, ns: ListV([5, 6])),
    'an empty list': ('[]', 'array[Header[uint8], uint8]', lambda I, ns: ListV([5, 6])),
    'a list of lists': ('[[1], [2, 3]]', 'array[Header[2], array[Header[uint8], uint8]]', lambda I, ns: ListV([ListV([5]), ListV([6])])),
    'a tuple holding a list': ('(1, [2])', 'tuple[uint8, array[Header[uint8], uint8]]', lambda I, ns: (5, ListV([6]))),
    'a bytearray': ("bytearray(b'abc')", 'char[uint8]', lambda I, ns: BufV('bytes', [lit(b'xy')])),
    'a dict': ('{1: [2]}', 'array[Header[uint8], uint8]', lambda I, ns: ListV([5, 6])),
    'an object': ('Inner(3)', 'Inner', lambda I, ns: I.call(ns['Inner'], [5])),
    'an object holding a list': ('Holder([3])', 'Holder', lambda I, ns: I.call(ns['Holder'], [ListV([5])])),
}
PLACES = {
    'in a field': ('    a: uint8\n    x: Annotated[{0}, Condition(lambda o: o.a > 4, DEF)]\n', lambda d: d, lambda x: x),
    'in a tuple': ('    a: uint8\n    x: tuple[uint8, Annotated[{0}, Condition(lambda o: o.a > 4, DEF)]]\n', lambda d: (7, d), lambda x: x[1]),
    'in an array': ('    a: uint8\n    x: array[Header[2], Annotated[{0}, Condition(lambda o: o.a > 4, DEF)]]\n', lambda d: ListV([d, d]), None),
    'in a union': ('    a: uint8\n    x: Annotated[Union[Annotated[{0}, Condition(lambda o: o.a > 4, DEF)], int8], LookbackDecider(lambda o: 1, '
                   '{{1: Annotated[{0}, Condition(lambda o: o.a > 4, DEF)]}})]\n', lambda d: d, lambda x: x),
    'under two conditions': ('    a: uint8\n    x: Annotated[{0}, Condition(lambda o: o.a > 4, DEF), Condition(lambda o: o.a > 2, DEF)]\n', lambda d: d, lambda x: x),
    'with neighbours': ('    a: uint8\n    b: char[uint8]\n    x: Annotated[{0}, Condition(lambda o: o.a > 4, DEF)]\n    z: uint16\n', lambda d: d, lambda x: x),
}
SHARED = INTRO + '''
class Inner(Structured, byte_order=ByteOrder.LE):
    n: uint16
class Holder(Structured, byte_order=ByteOrder.LE):
    v: array[Header[uint8], uint8]
DEF = {}
'''


def containers(v, name, out):
    """Mutable values reachable from v, by identity."""
    if isinstance(v, (ListV, tuple)):
        if isinstance(v, ListV):
            out.setdefault(id(v), (name, v))
        for i, x in enumerate(v.items if isinstance(v, ListV) else v):
            containers(x, f'{name}[{i}]', out)
    elif isinstance(v, DictV):
        out.setdefault(id(v), (name, v))
        for i, (k, x) in enumerate(v.d.values()):
            containers(x, f'{name}{{{i}}}', out)
    elif isinstance(v, BufV):
        if v.kind != 'bytes':
            out.setdefault(id(v), (name, v))
    elif isinstance(v, ObjV) and not v.cls.native:
        if id(v) not in out:
            out[id(v)] = name, v
            for k, x in v.d.items():
                if k not in ('serializer',):
                    containers(x, f'{name}.{k}', out)
    return out


def shared(t, m, place):
    I = t.I
    cls, dflt = m.ns['Subj'], m.ns['DEF']
    seen = [('the default given in the class definition', containers(dflt, 'the default', {}))]
    before = snapshot(dflt)
    neighbours = place == 'with neighbours'
    data = lit(bytes([1] + ([7] if 'tuple' in place else []) + ([2, 97, 98, 3, 0] if neighbours else [])))
    for route in UNPACKS * 2:
        target = cls
        if not route.startswith('create'):
            vals = [1, PLACES[place][1](None)] if not neighbours else [1, BufV('bytes', [lit(b'q')]), None, 3]
            o = t.attempt(I.call, cls, vals)
            if not o.ok:
                continue
            target = o.value
        g = do_unpack(t, target, route, [data], None, [] if route.endswith('unpack') else [('raw', 3, 'bytes after', 0)])
        if not t.check('C24 C18', f'{route} succeeds when the field is skipped', True if g.ok else X.verdict_of(g), g.text()):
            continue
        o = g.value if route.startswith('create') else target
        x = t.attempt(I.getattr, o, 'x')
        if not x.ok:
            t.check('C24 C18', f'{route} assigns the default', X.verdict_of(x), x.text())
            continue
        r = B.value_same(I, PLACES[place][1](dflt), x.value)
        t.check('C24 C18', f'{route} assigns the default', r, f'{x.value!r}')
        mine = containers(x.value, 'x', {})
        for who, theirs in seen:
            both = set(mine) & set(theirs)
            t.check('C24', f'{route}: a default is not shared with {"another object" if who[:3] != "the" else who}', not both,
                    '; '.join(f'{mine[i][0]} is {theirs[i][0]} of {who}' for i in both))
        if place == 'in an array' and isinstance(x.value, ListV) and len(x.value.items) == 2:
            one, two = (containers(e, 'x[]', {}) for e in x.value.items)
            t.check('C24', f'{route}: a default is not shared by two items of one array', not set(one) & set(two), f'{x.value!r}')
        seen.append((f'an object made by {route}', mine))
    t.check('C24', 'unpacking leaves the default as it was', snapshot(dflt) == before, f'{dflt!r}')


def register_shared():
    for dl, (expr, ann, _) in DEFAULTS.items():
        for place, (src, *_) in PLACES.items():
            label = f'{dl} as default {place}'
            text = SHARED.format(expr) + 'class Subj(Structured, byte_order=ByteOrder.LE):\n' + src.format(ann)

            def run(bench, label=label, text=text, place=place):
                m = define(bench, label, text, 'C24')
                if m is not None:
                    bench.explore(label, lambda t: shared(t, m, place))
            case('C24 C18', name=f'ownership: {label}')(run)


register_shared()
