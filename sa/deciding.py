"""C08: what deciders, conditions and custom serializers get to see."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from .layout import BufV, total
from .shapes import part_item
from .suites import case
from .terms import sub
from .values import *

OP = "Annotated[int, Opaque('k')]"
LAZY = "Annotated[int, Opaque('k', lazy=True)]"


def kinds():
    """(label, annotation making decisions named 'k', value)."""
    i16 = lambda v, p: v.int(p, -2**15, 2**15 - 1)
    op = lambda v, p: v.any(p)
    return [
        ('a condition', "Annotated[int16, Condition(lambda o: look('k', o, True), 0)]", i16),
        ('a failing condition', "Annotated[int16, Condition(lambda o: look('k', o, False), 0)]", lambda v, p: 0),
        ('a union', "Annotated[Union[int16, int8], LookbackDecider(lambda o: look('k', o, 1), {1: int16}, int8)]", i16),
        ('a look-ahead union',
         "Annotated[Union[tuple[uint8, int16], int8], LookaheadDecider(uint8, lambda o: look('k', o, 1), "
         "{1: tuple[uint8, int16]}, int8)]", lambda v, p: (1, i16(v, p))),
        ('a serializer read ahead',
         f"Annotated[Union[tuple[{OP}, int16], int8], LookaheadDecider({OP}, lambda o: look('k', o, 1), "
         f"{{1: tuple[{OP}, int16]}}, int8)]", lambda v, p: (1, i16(v, p))),
        ('a custom serializer', OP, op),
        ('a lazy custom serializer', LAZY, op),
        ('a custom serializer under a union',
         f"Annotated[Union[int16, {OP}], LookbackDecider(lambda o: look('k', o, 1), {{1: {OP}}}, int16)]", op),
        ('a custom serializer as default case',
         f"Annotated[Union[int16, {OP}], LookbackDecider(lambda o: look('k', o, 1), {{0: int16}}, {OP})]", op),
        ('a custom serializer under a condition',
         f"Annotated[{OP}, Condition(lambda o: look('k', o, True), 0)]", op),
    ]


def wrappers():
    """(label, annotation transform, value transform)."""
    return [
        ('as a field', lambda a: a, lambda f, v, p: f(v, p)),
        ('in a tuple', lambda a: f'tuple[uint8, {a}]', lambda f, v, p: (v.int(p + '.n', 0, 255), f(v, p))),
        ('alone in a tuple', lambda a: f'tuple[{a}]', lambda f, v, p: (f(v, p),)),
        ('in a fixed array', lambda a: f'array[Header[2], {a}]',
         lambda f, v, p: ListV([f(v, p + '0'), f(v, p + '1')])),
        ('in a counted array', lambda a: f'array[Header[uint8, uint16], {a}]',
         lambda f, v, p: ListV([f(v, p + '0'), f(v, p + '1')])),
        ('in an array of tuples', lambda a: f'array[Header[uint16], tuple[int8, {a}]]',
         lambda f, v, p: ListV([(v.int(p + f'.{i}', -128, 127), f(v, p + str(i))) for i in range(2)])),
        ('under a condition', lambda a: f'Annotated[tuple[{a}], Condition(lambda o: True, None)]',
         lambda f, v, p: (f(v, p),)),
        ('in a union', lambda a: f'Annotated[Union[int64, tuple[int8, {a}]], '
         f'LookbackDecider(lambda o: 0, {{0: tuple[int8, {a}]}}, None)]',
         lambda f, v, p: (v.int(p + '.n', -128, 127), f(v, p))),
    ]


def subjects():
    for kl, a, f in kinds():
        for wl, wa, wf in wrappers():
            if kl == 'a failing condition' and wl == 'in a counted array':
                continue
            yield f'{kl} {wl}', wa(a), (lambda f, wf: lambda v, p: wf(f, v, p))(f, wf)


ROUTES = ('create_unpack', 'create_unpack_from', 'create_unpack_read', 'unpack', 'unpack_from', 'unpack_read')


def decisions(t, label, cls, names, field, mk, nested=None):
    """All routes over two objects in turn, watching every decision."""
    I, v, lab = t.I, t.v, t.lab
    before = names[:names.index(field)]

    def values(tag):
        out = []
        for n in names:
            out.append(mk[n](v, f'{tag}.{n}'))
        return out
    xs, ys, zs = values('x'), values('y'), values('z')
    objs = {}
    for k, vals in (('x', xs), ('y', ys)):
        o = t.attempt(I.call, cls, list(vals))
        if not t.check('C08', 'an instance can be built', True if o.ok else X.verdict_of(o), o.text()):
            return
        objs[k] = o.value
    lab.watch = tuple(names)
    segs = {}
    for k in ('x', 'y', 'x'):
        vals = xs if k == 'x' else ys
        for route in ('pack', 'pack_write', 'pack_into'):
            lab.seen.clear()
            if route == 'pack':
                g = t.call(objs[k], 'pack')
                if g.ok:
                    segs[k] = list(B.segs_of(I, g.value))
            elif route == 'pack_write':
                g = t.call(objs[k], 'pack_write', X.stream([], [], []))
            else:
                buf = BufV('bytearray', [('raw', add_(total(segs[k]), 3), 'old', 0)])
                g = t.call(objs[k], 'pack_into', buf, 1)
            if not g.ok:
                t.check('C08', f'{route} succeeds', X.verdict_of(g), g.text())
                return
            ev = [e for e in lab.seen if e[0] == 'k']
            t.check('C08', f'{route} consults the decision', bool(ev), 'never asked')
            for e in ev:
                t.check('C08', f'decisions made by {route} are given the object being packed', e[2] is objs[k],
                        f'{e[1]} was given {e[2]!r}, not the packed object')
                r, d = X.values_equal(t, before, vals[:len(before)],
                                      [e[3].get(n, '(not set)') for n in before])
                t.check('C08', f'decisions made by {route} see the values being packed', r, d)
    for k in ('y', 'x'):
        vals = xs if k == 'x' else ys
        for route in ROUTES:
            inst = None
            if route.startswith('create'):
                target = cls
            else:
                o = t.attempt(I.call, cls, list(zs))
                if not o.ok:
                    return
                target = inst = o.value
            lab.seen.clear()
            n = route.replace('create_', '')
            if n == 'unpack':
                g = t.call(target, route, B.make(I, segs[k]))
            elif n == 'unpack_from':
                g = t.call(target, route, B.make(I, [('raw', 2, 'pre', 0)] + segs[k]), 2)
            else:
                g = t.call(target, route, X.stream([('raw', 2, 'pre', 0)], segs[k], X.SUF))
            if not g.ok:
                t.check('C08', f'{route} succeeds', X.verdict_of(g), g.text())
                continue
            ev = [e for e in lab.seen if e[0] == 'k']
            asked = ev or 'look-ahead' in label
            t.check('C08', f'{route} consults the decision', bool(asked), 'never asked')
            for e in ev:
                r, d = X.values_equal(t, before, vals[:len(before)],
                                      [e[3].get(x, '(not set)') for x in before])
                t.check('C08', f'decisions made by {route} see the values unpacked so far', r, d)
                if inst is None:
                    late = [x for x in names[len(before):] if x in e[3]]
                    t.check('C08', f'decisions made by {route} see no value not yet unpacked', not late,
                            f'{late} already set')
    lab.watch = ()


def add_(a, b):
    from .terms import add
    return add(a, b)


I16 = lambda v, p: v.int(p, -2**15, 2**15 - 1)
U8 = lambda v, p: v.int(p, 0, 255)
ANY = lambda v, p: v.any(p)


def define(bench, label, src, props='C08'):
    g = X.load_any(bench, src)
    for p in props.split():
        bench.record(p, label, 'the class can be defined', True if g.ok else False if g.kind == 'exc' else None,
                     '' if g.ok else g.text(), 'class definition')
    return g.value if g.ok else None


def register():
    for label, a, f in subjects():
        def run(bench, label=label, a=a, f=f):
            src = (f"class Subj(Structured, byte_order=ByteOrder.LE):\n    f0: uint8\n    f1: int16\n"
                   f"    f2: Annotated[int, Opaque('o')]\n    f3: {a}\n    f4: int16\n    f5: uint8\n")
            m = define(bench, label, src)
            if m is not None:
                mk = dict(f0=U8, f1=I16, f2=ANY, f3=f, f4=I16, f5=U8)
                bench.explore(label, lambda t: decisions(t, label, m.ns['Subj'], list(mk), 'f3', mk))
        case('C08', name=f'decisions: {label}')(run)

        def first(bench, label=label, a=a, f=f):
            src = f"class Subj(Structured, byte_order=ByteOrder.BE):\n    f0: {a}\n    f1: int16\n"
            lab = label + ', first'
            m = define(bench, lab, src)
            if m is not None:
                mk = dict(f0=f, f1=I16)
                bench.explore(lab, lambda t: decisions(t, lab, m.ns['Subj'], list(mk), 'f0', mk))
        case('C08', name=f'decisions: {label}, first', tier='thorough')(first)

        def last(bench, label=label, a=a, f=f):
            src = f"class Subj(Structured, byte_order=ByteOrder.BE):\n    f0: char[uint8]\n    f1: {a}\n"
            lab = label + ', after a string'
            m = define(bench, lab, src)
            if m is not None:
                mk = dict(f0=lambda v, p: v.bytes(p, 0, 255), f1=f)
                bench.explore(lab, lambda t: decisions(t, lab, m.ns['Subj'], list(mk), 'f1', mk))
        case('C08', name=f'decisions: {label}, after a string', tier='thorough')(last)


register()


# --------------------------------------------------------- nested objects
def nested_decisions(t, label, m, f, shape):
    I, v, lab = t.I, t.v, t.lab
    inner_cls, cls = m.ns['Inner'], m.ns['Subj']
    mkin = lambda p: t.attempt(I.call, inner_cls, [U8(v, p + '.a'), f(v, p + '.b')])
    ins = [mkin('i0'), mkin('i1')] if shape in ('array', 'tuple') else [mkin('i0')]
    if not all(i.ok for i in ins):
        return
    ins = [i.value for i in ins]
    fval = {'array': ListV(ins), 'tuple': tuple(ins), 'field': ins[0]}[shape]
    outer = t.attempt(I.call, cls, [I16(v, 'o.f0'), fval, f(v, 'o.f2')])
    if not outer.ok:
        return
    outer = outer.value
    lab.watch = ('f0', 'f1', 'f2', 'a', 'b')
    out = None
    for route in ('pack', 'pack_write', 'pack_into'):
        lab.seen.clear()
        if route == 'pack':
            g = t.call(outer, 'pack')
            out = g.ok and list(B.segs_of(I, g.value))
        elif route == 'pack_write':
            g = t.call(outer, 'pack_write', X.stream([], [], []))
        else:
            g = t.call(outer, 'pack_into', BufV('bytearray', [('raw', add_(total(out), 3), 'old', 0)]), 1)
        if not g.ok:
            t.check('C08 C09', f'{route} succeeds', X.verdict_of(g), g.text())
            return
        kin = [e[2] for e in lab.seen if e[0] == 'k']
        kout = [e[2] for e in lab.seen if e[0] == 'q']
        t.check('C08 C09', f'{route}: decisions of nested objects are given the nested object',
                set(map(id, kin)) == set(map(id, ins)) and order_ok(kin, ins),
                f'given {kin!r}, nested objects are {ins!r}')
        t.check('C08 C09', f'{route}: decisions of the outer object are given the outer object',
                bool(kout) and all(o is outer for o in kout), f'given {kout!r}')
    for route in ROUTES:
        n = route.replace('create_', '')
        target = cls
        if n == route:
            o = t.attempt(I.call, cls, [0, fval, f(v, 'z')])
            if not o.ok:
                return
            target = o.value
        lab.seen.clear()
        if n == 'unpack':
            g = t.call(target, route, B.make(I, out))
        elif n == 'unpack_from':
            g = t.call(target, route, B.make(I, [('raw', 2, 'pre', 0)] + out), 2)
        else:
            g = t.call(target, route, X.stream([('raw', 2, 'pre', 0)], out, X.SUF))
        if not g.ok:
            t.check('C08 C09', f'{route} succeeds', X.verdict_of(g), g.text())
            continue
        kin = [e[3] for e in lab.seen if e[0] == 'k']
        kout = [e[3] for e in lab.seen if e[0] == 'q']
        want = [I.getattr(i, 'a') for i in ins]
        got = [e.get('a', '(not set)') for e in kin]
        uniq = [g for k, g in enumerate(got) if k == 0 or got[k - 1] != g]
        if 'look-ahead union' not in label:
            t.check('C08 C09', f'{route}: decisions of nested objects see the nested values',
                    len(uniq) == len(want) and all(B.value_same(I, a, b) is True for a, b in zip(uniq, want)),
                    f'saw a = {got!r}, nested values are {want!r}')
            r = all('a' not in e and B.value_same(I, e.get('f0', '(not set)'), I.getattr(outer, 'f0')) is True
                    for e in kout)
            t.check('C08 C09', f'{route}: decisions of the outer object see the outer values', bool(kout) and r,
                    f'saw {kout!r}')
    lab.watch = ()


def order_ok(seen, want):
    out = []
    for x in seen:
        if not out or out[-1] is not x:
            out.append(x)
    return len(out) == len(want) and all(a is b for a, b in zip(out, want))


def register_nested():
    for kl, a, f in kinds():
        for shape, ann in (('field', 'Inner'), ('array', 'array[Header[uint8], Inner]'),
                           ('tuple', 'tuple[Inner, Inner]')):
            def run(bench, kl=kl, a=a, f=f, shape=shape, ann=ann):
                label = f'{kl} in nested objects ({shape})'
                src = (f"class Inner(Structured, byte_order=ByteOrder.LE):\n    a: uint8\n    b: {a}\n"
                       f"class Subj(Structured, byte_order=ByteOrder.LE):\n    f0: int16\n    f1: {ann}\n"
                       f"    f2: {a.replace(chr(39) + 'k' + chr(39), chr(39) + 'q' + chr(39))}\n")
                m = define(bench, label, src, 'C08 C09')
                if m is not None:
                    bench.explore(label, lambda t: nested_decisions(t, label, m, f, shape))
            case('C08 C09', name=f'nested decisions: {kl} ({shape})')(run)


register_nested()
