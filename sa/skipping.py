"""C18: conditions on every kind of field, in every kind of place."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .classdefs import K
from .choices import INTRO, is_error
from .deciding import define
from .finals import outcome
from .layout import total
from .malformed import PACKS, UNPACKS, do_pack, do_unpack
from .parts import Item, Part, enc, int_enc
from .shapes import p_cond, part_item, tagvalue
from .suites import case
from .terms import sub
from .values import *


def p_condpad(n):
    """Padding that is there when a flag is above 4."""
    def wire(I, o, vals, ns):
        return [enc(1, '-', 'B', vals[0])] + ([('zero', n)] if I.facts.ge0(sub(vals[0], 5)) else [])
    return Part(f'conditional pad[{n}]', [('c', 'uint8'), ('_', f'Annotated[pad[{n}], Condition(lambda o: o.$c > 4)]')],
                lambda v, p, ns: [tagvalue(v, p, (9, 1), 'c')], wire, weight=4)


def p_twice(item, d1, d2, v1, v2):
    """Two conditions on one field: it is there when both hold."""
    a = f'Annotated[{item.ann}, Condition(lambda o: o.$c > 4, {d1}), Condition(lambda o: o.$d > 4, {d2})]'
    on = lambda I, x: I.facts.ge0(sub(x, 5))

    def make(v, p, ns):
        c, d = tagvalue(v, p, (9, 1), 'c'), tagvalue(v, p, (9, 1), 'd')
        return [c, d, item.make(v, p, ns)]

    def wire(I, o, vals, ns):
        c, d, x = vals
        out = [enc(1, '-', 'B', c), enc(1, '-', 'B', d)]
        return out + item.wire(I, o, x, ns) if on(I, d) and on(I, c) else out

    def expect(I, vals, ns):
        c, d, x = vals
        return [c, d, (item.expect(I, x, ns) if on(I, c) else v1) if on(I, d) else v2]
    return Part(f'{item.label} under two conditions', [('c', 'uint8'), ('d', 'uint8'), ('', a)], make, wire, pre=item.pre, expect=expect, weight=5)


def p_in(item, wrap, default, dval):
    """A conditional item inside a tuple or an array of two."""
    inner = f'Annotated[{item.ann}, Condition(lambda o: o.$c > 4, {default})]'
    a = {'tuple': f'tuple[uint8, {inner}, uint16]', 'array': f'array[Header[2], {inner}]', 'only': f'tuple[{inner}]',
         'sized': f'array[Header[2, uint16], {inner}]'}[wrap]
    on = lambda I, x: I.facts.ge0(sub(x, 5))

    def make(v, p, ns):
        c = tagvalue(v, p, (9, 1), 'c')
        mk = lambda n: item.make(v, p + n, ns) if on(v.lab.I, c) else dval
        x = {'tuple': lambda: (v.int(p + '.a', 0, 255), mk('.b'), v.int(p + '.z', 0, 65535)), 'only': lambda: (mk('.b'),)}.get(
            wrap, lambda: ListV([mk('[0]'), mk('[1]')]))()
        return [c, x]

    def wire(I, o, vals, ns):
        c, x = vals
        out = [enc(1, '-', 'B', c)]
        w = lambda y: item.wire(I, o, y, ns) if on(I, c) else []
        if wrap == 'tuple':
            return out + [enc(1, '-', 'B', x[0])] + w(x[1]) + [int_enc('uint16', o, x[2])]
        if wrap == 'only':
            return out + w(x[0])
        body = w(x.items[0]) + w(x.items[1])
        return out + ([int_enc('uint16', o, total(body))] if wrap == 'sized' else []) + body

    def expect(I, vals, ns):
        c, x = vals
        e = lambda y: item.expect(I, y, ns) if on(I, c) else dval
        if wrap == 'tuple':
            return [c, (x[0], e(x[1]), x[2])]
        if wrap == 'only':
            return [c, (e(x[0]),)]
        return [c, ListV([e(y) for y in x.items])]
    return Part(f'conditional {item.label} in {wrap}', [('c', 'uint8'), ('', a)], make, wire, pre=item.pre, expect=expect, weight=5)


NO = {'arr8dyn16', 'rest', 'uninet'}


def skips(tier):
    out = []

    def add(label, parts, o='BE', only='roundtrip reuse reorder truncate'):
        s = X.Subject(label, parts, o)
        s.tags, s.own, s.only = 'C18', True, only
        out.append(s)
        return s
    for k in K:
        if k in NO or k.startswith(('pad', 'gi', 'ga', 'gt')):
            continue
        cheap = k in P.INTS or k in P.FLOATS or k in ('op', 'lazy', 'c2')
        add(f'conditional {k} in the middle', [P.p_int('int16'), p_cond(part_item(K[k]()), 'None', None), P.p_int('uint32')], 'LE', 'roundtrip reuse')
        if cheap or tier == 'thorough':
            add(f'conditional {k} first and last', [p_cond(part_item(K[k]()), 'None', None), p_cond(part_item(K[k]()), "'x'", 'x')], 'BE', 'roundtrip')
    for n in (1, 2, 0):
        add(f'conditional pad[{n}]', [P.p_int('int16'), p_condpad(n), P.p_int('uint32')], 'LE', 'roundtrip reuse reorder')
    add('only conditional padding', [p_condpad(2), P.p_pad(1)], 'BE')
    add('padding, conditional padding and strings', [P.p_dynchar('uint8'), p_condpad(3), P.p_pad(2), P.as_part(P.i_opaque())], 'BE', 'roundtrip')
    i32, op, dyn = P.i_int('int32'), P.i_opaque(), part_item(P.p_dynchar('uint16'))
    for nm, it in (('number', i32), ('opaque', op), ('lazy', P.i_opaque(lazy=True)), ('string', dyn), ('tuple', P.i_tuple(P.i_int('uint8'), op))):
        add(f'two conditions on a {nm}', [P.p_int('int16'), p_twice(it, '-1', "'two'", -1, 'two'), P.p_int('uint8')], 'BE', 'roundtrip reuse')
        for w in ('tuple', 'only', 'array', 'sized'):
            if nm == 'string' and w in ('array', 'sized'):
                continue
            add(f'conditional {nm} in {w}', [P.p_int('int16'), p_in(it, w, '-1', -1), P.p_int('uint8')], 'LE', 'roundtrip reuse reorder' if w == 'tuple' else 'roundtrip')
    return out


suites.SPECIAL.append(skips)

TRUE = ['True', '1', '-1', "'x'", '[0]', '(0,)', '2.5', '{1: 2}', 'Color.RED', 'object()', 'int', "b'\\0'", 'Num.ONE', 'lambda: 0', 'o', 'Yes()', 'Long()']
FALSE = ['False', '0', "''", '[]', '()', '0.0', '{}', 'None', "b''", 'set()', 'No()', 'Empty()']
CLS = INTRO + '''
class Yes:
    def __bool__(self):
        return True
class No:
    def __bool__(self):
        return False
class Long:
    def __len__(self):
        return 3
class Empty:
    def __len__(self):
        return 0
'''


def truth(t, m, holds):
    I, v = t.I, t.v
    cls = m.ns['Subj']
    a, x, z = v.int('a', 0, 255), v.int('x', -2**15, 2**15 - 1), v.int('z', 0, 255)
    o = t.attempt(I.call, cls, [a, x, z])
    if not t.check('C18', 'an instance can be built', True if o.ok else X.verdict_of(o), o.text()):
        return
    want = [enc(1, '-', 'B', a)] + ([int_enc('int16', '>', x)] if holds else []) + [enc(1, '-', 'B', z)]
    rule = 'is there when its condition is true' if holds else 'is skipped when its condition is false'
    for route in PACKS:
        g, segs = do_pack(t, o.value, route)
        if t.check('C18', f'{route} succeeds', True if g.ok else X.verdict_of(g), g.text()) and segs is not None:
            r, d = t.same_bytes(segs, want)
            t.check('C18', f'{route}: a field {rule}', r, d or t.show(segs))
            sz = I.getattr(I.getattr(o.value, 'serializer'), 'size')
            t.check('C18', f'{route} reports the bytes written', B.value_same(I, sz, total(want)), f'{sz!r}')
    for route in UNPACKS:
        target = cls if route.startswith('create') else o.value
        g = do_unpack(t, target, route, want, suf=X.SUF)
        if not t.check('C18', f'{route} succeeds', True if g.ok else X.verdict_of(g), g.text()):
            continue
        res = g.value if route.startswith('create') else target
        r, d = X.values_equal(t, ['a', 'x', 'z'], [a, x if holds else -7, z], [I.getattr(res, n) for n in 'axz'])
        t.check('C18', f'{route}: a field {rule}', r, d)


def register():
    for holds, exprs in ((True, TRUE), (False, FALSE)):
        for e in exprs:
            label = f'a condition giving {e}'

            def run(bench, label=label, e=e, holds=holds):
                m = define(bench, label, CLS + f'class Subj(Structured, byte_order=ByteOrder.BE):\n    a: uint8\n    x: Annotated[int16, Condition(lambda o: {e}, -7)]\n    z: uint8\n', 'C18')
                if m is not None:
                    bench.explore(label, lambda t: truth(t, m, holds))
            case('C18', name=label)(run)


register()


def raising(t, m):
    """A condition that raises: the error reaches the caller."""
    I, v = t.I, t.v
    x = (2,) if 'tuple' in t.subject else ListV([2]) if 'array' in t.subject else 2
    o = t.attempt(I.call, m.ns['Subj'], [1, x, 3])
    if not o.ok:
        t.check('C18', 'an instance can be built', X.verdict_of(o), o.text())
        return
    for route in PACKS + UNPACKS:
        if route in PACKS:
            g, _ = do_pack(t, o.value, route)
        else:
            g = do_unpack(t, m.ns['Subj'] if route.startswith('create') else o.value, route, [('raw', 9, 'data', 0)])
        rule = f'{route}: an error raised by a condition is not swallowed'
        if g.kind == 'exc':
            from .harness import exc_is
            t.check('C18', rule, bool(exc_is(g.value, 'Oops')), g.text())
        else:
            t.check('C18', rule, None if g.kind == 'undecided' else False, g.text())


def register_raising():
    for base in ('Exception', 'KeyError', 'AttributeError', 'ValueError', 'StopIteration', 'IndexError', 'TypeError'):
        for ann in ('Annotated[int16, Condition(oops, 0)]', 'Annotated[Union[int16, int8], LookbackDecider(oops, {0: int16}, int8)]',
                    "Annotated[Annotated[int, Opaque('o')], Condition(oops, 0)]", 'tuple[Annotated[int16, Condition(oops, 0)]]',
                    'array[Header[1], Annotated[int16, Condition(oops, 0)]]'):
            label = f'{base} raised by a decision on {ann}'

            def run(bench, label=label, ann=ann, base=base):
                v = '2'
                m = define(bench, label, f'class Oops({base}):\n    pass\ndef oops(o):\n    raise Oops()\nclass Subj(Structured, byte_order=ByteOrder.LE):\n'
                           f'    a: uint8\n    x: {ann}\n    z: uint8\n', 'C18')
                if m is not None:
                    bench.explore(label, lambda t: raising(t, m))
            case('C18', name=label)(run)


register_raising()
BAD = ['Annotated[int8, Condition(lambda o: True)]', 'Annotated[int8, Condition(lambda o: True, 1, 2)]', 'Annotated[pad[1], Condition(lambda o: True, 1)]',
       'Annotated[char[uint8], Condition(lambda o: True)]', "Annotated[Annotated[int, Opaque('o')], Condition(lambda o: True)]",
       'Annotated[tuple[int8, int8], Condition(lambda o: True, 1, 2)]', 'Annotated[array[Header[2], int8], Condition(lambda o: True)]',
       'Annotated[int8, Condition(lambda o: True, 1), Condition(lambda o: True)]']
BADT = ['Annotated[int, Condition(lambda o: True, 1)]', 'Annotated[None, Condition(lambda o: True, 1)]', 'Annotated[str, Condition(lambda o: True, 1), char[2]]',
        'Annotated[Any, Condition(lambda o: True)]', 'Annotated[Union[int8, int16], Condition(lambda o: True, 1)]', 'Annotated[list[int8], Condition(lambda o: True, 1)]']


@case('C18', 'quick', 'conditions that do not fit')
def bad(bench):
    for name, anns in (('ValueError', BAD), ('TypeError', BADT)):
        for a in anns:
            outcome(bench, a, P.WRAPPED + f'class Subj(Structured):\n    a: uint8\n    x: {a}\n', 'C18', False,
                    'a condition whose defaults or type do not fit its field is rejected', (name,))


# ------------------------------------------------- conditions on several values at once
MULTI = {
    'a struct of two': ("StructSerializer('BH')", 2, lambda o, v: [enc(1, '-', 'B', v[0]), int_enc('uint16', o, v[1])]),
    'a struct of three': ("StructSerializer('3H')", 3, lambda o, v: [int_enc('uint16', o, x) for x in v]),
    'a struct with padding': ("StructSerializer('BxH')", 2, lambda o, v: [enc(1, '-', 'B', v[0]), ('zero', 1), int_enc('uint16', o, v[1])]),
    'a sum': ('(StructSerializer("B") + tr(Opaque2) + StructSerializer("H"))', 3,
              lambda o, v: [enc(1, '-', 'B', v[0]), int_enc('uint16', o, v[1]), int_enc('uint16', o, v[2])]),
}
# label: (annotation, the value around the others, bytes around them)
AROUND = {
    'alone in a tuple': ('tuple[{}]', lambda vs, w: tuple(vs), lambda o, b, w: b),
    'among others in a tuple': ('tuple[uint16, {}, uint8]', lambda vs, w: (w, *vs, 7),
                                lambda o, b, w: [int_enc('uint16', o, w)] + b + [enc(1, '-', 'B', 7)]),
    'twice in a tuple': ('tuple[{0}, {0}]', lambda vs, w: (*vs, *vs), lambda o, b, w: b + b),
    'in a tuple under a condition': ('Annotated[tuple[uint16, {}], Condition(lambda o: True, None)]', lambda vs, w: (w, *vs),
                                     lambda o, b, w: [int_enc('uint16', o, w)] + b),
    'in an array of tuples': ('array[Header[2], tuple[{}]]', lambda vs, w: ListV([tuple(vs), tuple(vs)]), lambda o, b, w: b + b),
}


def several(t, m, order, kind, around, holds):
    I, v = t.I, t.v
    _, n, wire = MULTI[kind]
    _, val, body = AROUND[around]
    o = X.SYM[order]
    cls = m.ns['Subj']
    given = [v.int(f'x{i}', 0, 255) for i in range(n)]
    w = v.int('w', 0, 65535)
    a = 5 if holds else 3
    got = given if holds else [i + 11 for i in range(n)]
    segs = [enc(1, '-', 'B', a)] + body(o, wire(o, given) if holds else [], w) + [int_enc('uint16', o, 9)]
    obj = t.attempt(I.call, cls, [a, val(given, w), 9])
    if not t.check('C18', 'an instance can be built', True if obj.ok else X.verdict_of(obj), obj.text()):
        return
    rule = 'several values under one condition'
    for route in PACKS:
        g, out = do_pack(t, obj.value, route)
        if t.check('C18', f'{route} succeeds', True if g.ok else X.verdict_of(g), g.text()) and out is not None:
            r, d = t.same_bytes(segs, out)
            t.check('C18 C05', f'{route}: {rule}', r, d or t.show(out))
            sz = I.getattr(I.getattr(obj.value, 'serializer'), 'size')
            t.check('C18 C01', f'{route} reports the bytes written', B.value_same(I, sz, total(segs)), f'{sz!r}')
    for route in UNPACKS:
        target = cls if route.startswith('create') else obj.value
        g = do_unpack(t, target, route, segs, suf=X.SUF)
        if not t.check('C18', f'{route} succeeds', True if g.ok else X.verdict_of(g), g.text()):
            continue
        res = g.value if route.startswith('create') else target
        r, d = X.values_equal(t, ['a', 'x', 'z'], [a, val(got, w), 9], [I.getattr(res, k) for k in 'axz'])
        t.check('C18 C05', f'{route}: {rule}', r, d)


SEVERAL = '''from structured.serializers import StructSerializer, Serializer
tr = annotated.transform
Opaque2 = uint16
'''


def register_several():
    for kind, (expr, n, _) in MULTI.items():
        for around, (ann, _, _) in AROUND.items():
            for i, order in enumerate(('LE', 'BE')):
                for holds in (True, False):
                    label = f'several values: {kind} {around}, {order}, ' + ('there' if holds else 'skipped')
                    defaults = ', '.join(str(i + 11) for i in range(n))
                    item = f'Annotated[object, {expr}, Condition(lambda o: o.a > 4, {defaults})]'
                    src = SEVERAL + f'class Subj(Structured, byte_order=ByteOrder.{order}):\n    a: uint8\n    x: {ann.format(item)}\n    z: uint16\n'

                    def run(bench, label=label, src=src, order=order, kind=kind, around=around, holds=holds):
                        m = define(bench, label, src, 'C18')
                        if m is not None:
                            bench.explore(label, lambda t: several(t, m, order, kind, around, holds))
                    case('C18 C05 C01', name=label)(run)


register_several()
