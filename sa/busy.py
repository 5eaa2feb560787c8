"""C01 C04 C08 C09: user code that packs and unpacks other objects while one is being packed or unpacked,
and nested classes made of nothing but one field."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .choices import INTRO
from .classdefs import K
from .deciding import define
from .layout import total
from .malformed import PACKS, UNPACKS, do_pack, do_unpack
from .parts import enc, int_enc
from .shapes import part_item
from .suites import case
from .values import *

# ------------------------------------------------- nested classes
BODIES = {
    'packs itself': '        self.raw = self.pack()\n',
    'writes itself into a buffer': '        self.pack_into(bytearray(400))\n',
    'writes itself to a stream': '        self.pack_write(BytesIO())\n',
    'packs another': '        Hooked(*OTHER).pack()\n',
    'creates another': '        Hooked.create_unpack(DATA)\n',
    'creates another from a stream': '        Hooked.create_unpack_read(BytesIO(DATA))\n',
    'fills another': '        Hooked(*OTHER).unpack_from(DATA)\n',
}
FIELDS = {
    'a string and a number': ([P.p_dynchar('uint8'), P.p_int('int16')], "(b'abcdefg', 4)", "b'\\x01X\\x02\\x03'"),
    'a string': ([P.p_dynchar('uint8')], "(b'abcdefg',)", "b'\\x03XYZ'"),
    'text': ([P.p_unidyn('uint8')], "('abcdefg',)", "b'\\x03XYZ'"),
    'an array': ([P.p_array(('uint8',), P.i_int('int16'))], '([1, 2, 3, 4, 5],)', "b'\\x01\\x02\\x03'"),
    'an array of strings': ([P.p_array((2,), part_item(P.p_dynchar('uint8')))], "([b'a', b'bcd'],)", "b'\\x00\\x02\\x03\\x04'"),
    'a condition': ([P.Part('conditional string', [('', "Annotated[bytes, char[uint8], Condition(lambda o: True, b'')]")],
                            P.p_dynchar('uint8').make, P.p_dynchar('uint8').wire)], "(b'abcdefg',)", "b'\\x03XYZ'"),
}


def hooked(fields, body):
    """A nested class whose __post_init__ runs some code."""
    parts, other, data = FIELDS[fields]
    it = P.i_struct('Hooked', 'LE', parts)
    it.pre = (f'from io import BytesIO\nOTHER = {other}\nDATA = {data}\nBUSY = []\n{it.pre}'
              '    def __post_init__(self):\n        if BUSY:\n            return\n        BUSY.append(1)\n'
              + BODIES[body] + '        BUSY.clear()\n')
    return it


def alone(part, name='Lone'):
    return P.i_struct(name, 'LE', [part])


LONE = {
    'a custom serializer': lambda: P.as_part(P.i_opaque('lo')),
    'a generator': lambda: P.as_part(P.i_opaque('lg', lazy=True)),
    'a plain custom serializer': lambda: P.as_part(P.i_opaque('ll', leaf=True)),
    'a tuple of a custom serializer': lambda: P.as_part(P.i_tuple(P.i_opaque('lt'))),
    'an array of custom serializers': lambda: P.p_array((2,), P.i_opaque('la')),
    'a sized array of custom serializers': lambda: P.p_array((2, 'uint16'), P.i_opaque('la')),
    'a string': lambda: P.p_dynchar('uint16'),
    'a terminated string': lambda: P.p_term(b'|'),
    'a .NET string': P.p_netchar,
    'text': lambda: P.p_unidyn('uint8'),
    'a counted array': lambda: P.p_array(('uint8',), P.i_int('int32')),
    'a tuple': lambda: P.as_part(P.i_tuple(P.i_int('uint8'), part_item(P.p_dynchar('uint8')))),
    'padding': lambda: P.p_pad(3),
    'a custom type': lambda: P.as_part(P.i_custom('int8')),
}


def places(it):
    """The part between two others, in every place an item can have."""
    arr = lambda *h: P.p_array(h, it)
    return [
        ('a field', P.as_part(it)),
        ('a tuple', P.as_part(P.i_tuple(it, P.i_int('int8')))),
        ('a tuple after another', P.as_part(P.i_tuple(P.i_int('int8'), it, it))),
        ('a fixed array', arr(2)),
        ('a sized array', arr(2, 'uint16')),
        ('a condition', P.Part('condition', [('', f'Annotated[{it.ann}, Condition(lambda o: True, None)]')],
                               lambda v, p, ns: [it.make(v, p, ns)], lambda I, o, vals, ns: it.wire(I, o, vals[0], ns), pre=it.pre)),
        ('a union', P.Part('union', [('', f'Annotated[Union[{it.ann}, uint8], LookbackDecider(lambda o: 1, {{1: {it.ann}}})]')],
                           lambda v, p, ns: [it.make(v, p, ns)], lambda I, o, vals, ns: it.wire(I, o, vals[0], ns), pre=it.pre)),
        ('a class', P.as_part(P.i_struct('Mid', 'BE', [P.as_part(it), P.p_int('uint16')]))),
    ]


def subject(label, parts, order):
    src = f'class Subj(Structured, byte_order=ByteOrder.{order}):\n'
    slots = []
    for i, p in enumerate(parts):
        src += f'    f{i}: {p.fields[0][1]}\n'
        slots.append((p, f'f{i}'))
    s = X.Raw(label, src, slots, order, 'Subj', False, 'C01 C04 C09')
    s.only = 'roundtrip reuse'
    return s


def nested(tier):
    out = []
    far = ('a fixed array', 'a sized array', 'a tuple after another')
    for j, f in enumerate(FIELDS):
        for k, b in enumerate(BODIES):
            it = hooked(f, b)
            for i, (pl, part) in enumerate(places(it)):
                if pl in far and f != 'a string and a number':
                    continue
                if tier == 'quick' and (i + j + k) % 8 and not (f == 'a string and a number' and b == 'packs another' and pl not in far[1:]):
                    continue
                out.append(subject(f'{f}, __post_init__ {b}, in {pl}', [P.p_int('uint8'), part, P.p_int('uint16')], ('LE', 'BE')[(i + k) % 2]))
    for j, (f, mk) in enumerate(LONE.items()):
        it = alone(mk())
        for i, (pl, part) in enumerate(places(it)):
            if 'custom ser' not in f and (pl in far or tier == 'quick' and (i + j) % 3):
                continue
            out.append(subject(f'a class of only {f}, in {pl}', [P.p_int('uint8'), part, P.p_int('uint16')], ('LE', 'BE')[i % 2]))
    return out


suites.SPECIAL += [nested]

# ------------------------------------------------- decisions
BUSYCODE = INTRO + '''
from io import BytesIO
OTHERS = []
BUSY = []
def busy(how):
    if BUSY or not OTHERS:
        return
    BUSY.append(1)
    for obj, data in OTHERS:
        if how == 'pack':
            obj.pack()
        elif how == 'pack_into':
            obj.pack_into(bytearray(100))
        elif how == 'pack_write':
            obj.pack_write(BytesIO())
        elif how == 'create_unpack':
            Subj.create_unpack(data)
        elif how == 'create_unpack_read':
            Subj.create_unpack_read(BytesIO(data))
        elif how == 'unpack_from':
            obj.unpack_from(data)
        else:
            raise ValueError(how)
    BUSY.clear()
def while_busy(how, answer):
    busy(how)
    return answer
'''
OPT = 'Annotated[uint16, Condition(lambda o: o.n > 3, 7)]'
FLIP = 'Annotated[Union[uint8, uint16], LookbackDecider(lambda o: o.n > 3, {False: uint8, True: uint16})]'


def u(order, n, x):
    return [int_enc('uint16', order, x)] if n > 3 else []


def fl(order, n, x):
    return [int_enc('uint16', order, x)] if n > 3 else [enc(1, '-', 'B', x)]


# label: (annotation with {d} for the deciding code, bytes, value) of (order, n, a, b)
def busy_fields():
    un = f'Annotated[Union[uint16, uint8], LookbackDecider(lambda o: while_busy(HOW, 1), {{1: {OPT}}}, uint8)]'
    uf = f'Annotated[Union[uint16, uint8], LookbackDecider(lambda o: while_busy(HOW, 2), {{1: uint8}}, {FLIP})]'
    la = (f'Annotated[Union[uint8, uint16], LookaheadDecider(uint8, lambda o: while_busy(HOW, 0), {{999: uint8}}, {FLIP})]')
    ra = (f'Annotated[Union[uint8, uint16], LookaheadDecider(Annotated[uint8, Condition(lambda o: while_busy(HOW, True), 0)], '
          f'lambda o: 0, {{999: uint8}}, {FLIP})]')
    cd = f'Annotated[tuple[{OPT}, {FLIP}], Condition(lambda o: while_busy(HOW, True), None)]'
    opt = lambda n, a: a if n > 3 else 7
    return {
        'a union of an optional number': (un, lambda o, n, a, b: u(o, n, a), lambda n, a, b: opt(n, a)),
        'a default of a union': (uf, lambda o, n, a, b: fl(o, n, a), lambda n, a, b: a),
        'a case of a union that reads ahead': (la, lambda o, n, a, b: fl(o, n, a), lambda n, a, b: a),
        'a union that reads ahead conditionally': (ra, lambda o, n, a, b: fl(o, n, a), lambda n, a, b: a),
        'a tuple under a condition': (cd, lambda o, n, a, b: u(o, n, a) + fl(o, n, b), lambda n, a, b: (opt(n, a), b)),
        'an array of unions': (f'array[Header[2], {un}]', lambda o, n, a, b: u(o, n, a) + u(o, n, b),
                               lambda n, a, b: ListV([opt(n, a), opt(n, b)])),
        'a sized array of unions': (f'array[Header[2, uint16], {uf}]',
                                    lambda o, n, a, b: [int_enc('uint16', o, 4 if n > 3 else 2)] + fl(o, n, a) + fl(o, n, b),
                                    lambda n, a, b: ListV([a, b])),
        'a tuple of unions': (f'tuple[{un}, {uf}]', lambda o, n, a, b: u(o, n, a) + fl(o, n, b), lambda n, a, b: (opt(n, a), b)),
        'a tuple of a condition': (f'tuple[{cd}, {OPT}]', lambda o, n, a, b: u(o, n, a) + fl(o, n, b) + u(o, n, a),
                                   lambda n, a, b: ((opt(n, a), b), opt(n, a))),
        'a custom serializer': (f"tuple[Annotated[int, Opaque('q', hook=lambda how, o: while_busy(HOW, 0))], {FLIP}]",
                                None, None),
        'an array in a union': (f'Annotated[Union[array[Header[2], {FLIP}], uint8], '
                                f'LookbackDecider(lambda o: while_busy(HOW, 1), {{1: array[Header[2], {FLIP}]}}, uint8)]',
                                lambda o, n, a, b: fl(o, n, a) + fl(o, n, b), lambda n, a, b: ListV([a, b])),
    }


HOWS = ('pack', 'pack_into', 'pack_write', 'create_unpack', 'create_unpack_read', 'unpack_from')


def deciding(t, m, field, order, n, n2):
    I, v = t.I, t.v
    ns = m.ns
    o = X.SYM[order]
    ann, wire, value = busy_fields()[field]
    cls = ns['Subj']
    hi = lambda k: 65535 if k > 3 else 255
    a, b = v.int('a', 0, hi(n)), v.int('b', 0, hi(n))
    z = v.int('z', 0, 65535)

    def parts_of(n, a, b):
        if field == 'a custom serializer':
            q = v.any('q')
            return [P.LABSEG(I, 'q', o, (q,))] + fl(o, n, a), (q, a)
        return wire(o, n, a, b), value(n, a, b)

    body, val = parts_of(n, a, b)
    segs = [enc(1, '-', 'B', n)] + body + [int_enc('uint16', o, z)]
    # the object used meanwhile
    a2, b2 = (300, 4660) if n2 > 3 else (33, 44)
    ns['OTHERS'].items.clear()
    if field == 'a custom serializer':
        body2, val2 = parts_of(n2, a2, b2)
    else:
        body2, val2 = wire(o, n2, a2, b2), value(n2, a2, b2)
    segs2 = [enc(1, '-', 'B', n2)] + body2 + [int_enc('uint16', o, 9)]
    other = t.attempt(I.call, cls, [n2, val2, 9])
    obj = t.attempt(I.call, cls, [n, val, z])
    spare = t.attempt(I.call, cls, [n2, val2, 9])
    if not t.check('C08', 'instances can be built', True if other.ok and obj.ok else None, ''):
        return
    ns['OTHERS'].items.append((spare.value, B.make(I, segs2)))
    rule = 'while other objects are packed and unpacked to decide'
    for route in PACKS:
        g, got = do_pack(t, obj.value, route)
        if not t.check('C08 C09', f'{route} succeeds {rule}', True if g.ok else X.verdict_of(g), g.text()):
            ns['BUSY'].items.clear()
            continue
        r, d = t.same_bytes(segs, got)
        t.check('C08 C09 C05 C17 C18', f'{route} decides for the object at hand {rule}', r,
                d and f'{d}; documented: {t.show(segs)}; packed: {t.show(got)}')
    for route in UNPACKS:
        target = cls if route.startswith('create') else other.value
        g = do_unpack(t, target, route, segs, None, [] if route.endswith('unpack') else X.SUF)
        if not t.check('C08 C09', f'{route} succeeds {rule}', True if g.ok else X.verdict_of(g), g.text()):
            ns['BUSY'].items.clear()
            continue
        got = X.attrs_of(t, g.value if route.startswith('create') else target, ['n', 'v', 'z'])
        if got.ok:
            r, d = X.values_equal(t, ['n', 'v', 'z'], [n, val, z], got.value)
            t.check('C08 C09 C05 C04 C17 C18', f'{route} decides for the object at hand {rule}', r, d)


def register():
    for i, (field, (ann, _, _)) in enumerate(busy_fields().items()):
        for j, how in enumerate(HOWS):
            if how == 'pack_into' and field == 'a custom serializer':
                continue  # its bytes are of an unknown number
            for order in ('LE', 'BE'):
                label = f'{field}, busy with {how}, {order}'

                def run(bench, label=label, ann=ann, how=how, order=order, field=field):
                    src = BUSYCODE + f'class Subj(Structured, byte_order=ByteOrder.{order}):\n    n: uint8\n    v: {ann.replace("HOW", repr(how))}\n    z: uint16\n'
                    m = define(bench, label, src, 'C08')
                    if m is not None:
                        for n, n2 in ((5, 2), (2, 5)):
                            bench.explore(f'{label}, {n}', lambda t: deciding(t, m, field, order, n, n2))
                case('C08 C09 C05 C04 C17 C18', 'quick' if (i + j + (order == 'BE')) % 2 else 'thorough', f'deciding: {label}')(run)


register()
