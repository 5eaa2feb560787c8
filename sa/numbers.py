"""Numbers (C30): width, sign, kind and range of every numeric hint, wherever it is used."""
from __future__ import annotations

import ast
import struct

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .builtins_model import type_of
from .experiments import stream, verdict_of
from .harness import exc_is
from .layout import lit, total
from .suites import case
from .terms import sub
from .values import *

ORDERS = {'LE': '<', 'BE': '>', 'NETWORK': '>', 'NATIVE_STANDARD': 'native', 'LITTLE_ENDIAN': '<', 'BIG_ENDIAN': '>', 'NATIVE_NATIVE': 'native', 'DEFAULT': 'native'}
PRE = P.WRAPPED + 'class Own(int):\n    pass\nclass Real(float):\n    pass\nN = structured_pkg.type_checking.NewType("N", int)\n'

# where the number sits: source of the field x, how its value is wrapped and unwrapped, bytes before and after it
# (number of items, list or not); {t} is the hint, {b} the base type
PLACES = {
    'a field': ('x: {t}', 'one'),
    'a field after a string': ('s: char[3]\n    x: {t}', 'one'),
    'a field of a user type': ('x: Annotated[Own, SerializeAs({t})]', 'own'),
    'an Annotated field': ('x: Annotated[{b}, {t}]', 'one'),
    'an array': ('x: array[Header[2], {t}]', 'list2'),
    'an array of one': ('x: array[Header[1], {t}]', 'list1'),
    'a tuple': ('x: tuple[{t}, {t}]', 'tuple2'),
    'a tuple of one': ('x: tuple[{t}]', 'tuple1'),
    'an array of tuples': ('x: array[Header[1], tuple[{t}, {t}]]', 'listtuple'),
    'a conditional field': ('x: Annotated[{t}, Condition(lambda o: True, 0)]', 'one'),
    'a union': ('x: Annotated[Union[{t}, char[1]], LookbackDecider(lambda o: 1, {{1: {t}}}, char[1])]', 'one'),
    'the default of a union': ('x: Annotated[Union[{t}, char[1]], LookbackDecider(lambda o: 2, {{1: char[1]}}, {t})]', 'one'),
    'a nested class': ('x: In', 'nested'),
    'an inherited field': ('', 'one'),
    'a specialized field': ('', 'one'),
}


def program(t, base, order, place):
    src, wrap = PLACES[place]
    o = f'byte_order=ByteOrder.{order}'
    src = src.format(t=t, b=base).replace('Own', 'Own' if base == 'int' else 'Real')
    if place == 'an inherited field':
        return f'class Base(Structured, {o}):\n    x: {t}\nclass Subj(Base, {o}):\n    pass\n'
    if place == 'a specialized field':
        return f'class Gen(Generic[T], Structured, {o}):\n    x: T\nclass Subj(Gen[{t}], {o}):\n    pass\n'
    nested = f'class In(Structured, {o}):\n    x: {t}\n' if wrap == 'nested' else ''
    return nested + f'class Subj(Structured, {o}):\n    {src}\n'


def wrapped(I, ns, how, x, base):
    own = 'Own' if base == 'int' else 'Real'
    return {'one': lambda: x, 'own': lambda: I.call(ns[own], [x]) if isinstance(x, (int, float)) else x, 'list1': lambda: ListV([x]), 'list2': lambda: ListV([x, x]),
            'tuple1': lambda: (x,), 'tuple2': lambda: (x, x), 'listtuple': lambda: ListV([(x, x)]),
            'nested': lambda: I.call(ns['In'], [x])}[how]()


def unwrapped(I, how, v):
    if how in ('list1', 'list2', 'tuple1', 'tuple2'):
        return list(v.items if isinstance(v, ListV) else v)
    if how == 'listtuple':
        return list(v.items[0])
    if how == 'nested':
        return [I.getattr(v, 'x')]
    return [v]


COUNT = {'list2': 2, 'tuple2': 2, 'listtuple': 2}


def check_int(t, ns, kind, order, place, x, label):
    I = t.I
    how = PLACES[place][1]
    ch, w, lo, hi = P.INTS[kind]
    n = COUNT.get(how, 1)
    s = 'three' if 's:' in PLACES[place][0] else None
    head = [lit(b'abc')] if s else []
    built = t.attempt(lambda: I.call(ns['Subj'], ([b'abc'] if s else []) + [wrapped(I, ns, how, x, 'int')]))
    if not t.check('C30', 'an object can be built', True if built.ok else verdict_of(built), built.text()):
        return
    obj = built.value
    want = head + [P.enc(w, ORDERS[order], ch, x)] * n
    size = w * n + (3 if s else 0)

    def fits():
        return I.facts.ge0(sub(x, lo)) and I.facts.ge0(sub(hi, x)) if not isinstance(x, int) else lo <= x <= hi

    def routes():
        yield 'pack', lambda: I.call_method(obj, 'pack', [], {}), lambda g: list(B.segs_of(I, g))
        st = stream([], [], [])
        yield 'pack_write', lambda: I.call_method(obj, 'pack_write', [st], {}), lambda g: st.segs
        buf = B.BufV('bytearray', [('raw', size, 'old', 0)])
        yield 'pack_into', lambda: I.call_method(obj, 'pack_into', [buf], {}), lambda g: list(B.segs_of(I, buf))
    for name, f, res in routes():
        g = t.attempt(f)
        if g.kind == 'undecided':
            t.check('C30', f'{name}: numbers in range are encoded, others rejected', None, g.text())
            continue
        if fits():
            if not t.check('C30', f'{name} accepts a number in range', g.ok, g.text()):
                continue
            r, d = t.same_bytes(want, res(g.value))
            t.check('C30', f'{name} encodes the number in its width, sign and byte order', r, d)
        else:
            t.check('C30', f'{name} rejects a number out of range', not g.ok and exc_is(g.value, 'struct.error', 'error', 'OverflowError', 'ValueError'), g.text())
    if not fits():
        return
    seg = want
    for name, f in (('create_unpack', lambda: I.call_method(ns['Subj'], 'create_unpack', [B.make(I, seg)], {})),
                    ('create_unpack_from', lambda: I.call_method(ns['Subj'], 'create_unpack_from', [B.make(I, [('raw', 5, 'before', 0)] + seg), 5], {})),
                    ('create_unpack_read', lambda: I.call_method(ns['Subj'], 'create_unpack_read', [stream([], seg, [('raw', 2, 'after', 0)])], {}))):
        g = t.attempt(f)
        if not t.check('C30', f'{name} accepts the encoded number', True if g.ok else verdict_of(g), g.text()):
            continue
        vals = unwrapped(I, how, I.getattr(g.value, 'x'))
        ok = len(vals) == n
        for v in vals:
            r = B.value_same(I, I.call(ns['Own'], [x]) if how == 'own' and isinstance(x, int) else x, v)
            if r is False and how == 'own' and isinstance(v, ObjV) and v.cls is ns['Own']:
                r = B.value_same(I, x, v.payload) if v.payload is not None else r
            if r is None and how == 'own':
                r = True
            ok = ok and r
        t.check('C30', f'{name} yields the number', ok, f'{x!r} expected, got {vals!r}')


def ints(kind, order, places, consts):
    def run(bench):
        for place in places:
            m = X.load_any(bench, PRE + program(kind, 'int', order, place))
            label = f'{kind} in {place}, {order}'
            bench.record('C30', label, 'the class can be defined', True if m.ok else verdict_of(m), '' if m.ok else m.text(), '')
            if not m.ok:
                continue
            ns = m.value.ns
            ch, w, lo, hi = P.INTS[kind]

            def unknown(t):
                t.I.path.assume_fit = False
                check_int(t, ns, kind, order, place, t.v.int('x'), label)
            if PLACES[place][1] != 'own':
                bench.explore(label, unknown)

            def known(t):
                for x in sorted({lo, lo + 1, -1, 0, 1, 2, hi // 2, hi - 1, hi, lo - 1, hi + 1, 2 * hi, -hi - 2, 2 ** 64, -2 ** 64} | set(consts)):
                    check_int(t, ns, kind, order, place, x, label)
                    t.I.path.steps = 0
            bench.explore(label, known)
    return run


FLOATING = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 255.0, 1024.0, -2048.0, float('inf'), float('-inf')]
MORE = {'float16': [2.0 ** -14, 65504.0], 'float32': [2.0 ** 100, 16777215.0, 2.0 ** -126], 'float64': [0.1, 2.0 ** 1000, 1e-300, 3.141592653589793]}
TOO_BIG = {'float16': [65536.0, 1e10], 'float32': [1e39, -1e300], 'float64': []}


def floats(kind, order, places):
    def run(bench):
        code, w = P.FLOATS[kind]
        for place in places:
            how = PLACES[place][1]
            m = X.load_any(bench, PRE + program(kind, 'float', order, place))
            label = f'{kind} in {place}, {order}'
            bench.record('C30', label, 'the class can be defined', True if m.ok else verdict_of(m), '' if m.ok else m.text(), '')
            if not m.ok:
                continue
            ns = m.value.ns
            n = COUNT.get(how, 1)
            head = [lit(b'abc')] if 's:' in PLACES[place][0] else []

            def one(t, x, want):
                I = t.I
                g = t.attempt(lambda: I.call_method(I.call(ns['Subj'], ([b'abc'] if head else []) + [wrapped(I, ns, how, x, 'float')]), 'pack', [], {}))
                if not t.check('C30', 'pack accepts a number', True if g.ok else verdict_of(g), g.text()):
                    return
                r, d = t.same_bytes(head + [want] * n, list(B.segs_of(I, g.value)))
                t.check('C30', 'pack encodes the number in its width, kind and byte order', r, d)
                g = t.attempt(lambda: I.call_method(ns['Subj'], 'create_unpack', [g.value], {}))
                if not t.check('C30', 'create_unpack accepts the encoded number', True if g.ok else verdict_of(g), g.text()):
                    return
                vals = unwrapped(I, how, I.getattr(g.value, 'x'))
                ok = len(vals) == n
                for v in vals:
                    v = v.payload if isinstance(v, ObjV) and v.payload is not None else v
                    if isinstance(x, (int, float)) and isinstance(v, (int, float)):
                        ok = ok and type(v) is float and x == v
                    else:
                        ok = ok and B.value_same(I, x, v)
                t.check('C30', 'create_unpack yields the number', ok, f'{x!r} expected, got {vals!r}')

            def known(t):
                for x in FLOATING + MORE[kind] + [3, -2]:
                    one(t, x, lit(struct.pack(ORDERS[order] + code, x)) if ORDERS[order] != 'native' else P.enc(w, 'native', code, float(x)))
                    t.I.path.steps = 0
            bench.explore(label, known)

            def rejected(t):
                I = t.I
                for x in TOO_BIG[kind] + ['1.0', None, b'1']:
                    if how == 'own':
                        continue
                    g = t.attempt(lambda: I.call_method(I.call(ns['Subj'], ([b'abc'] if head else []) + [wrapped(I, ns, how, x, 'float')]), 'pack', [], {}))
                    t.check('C30', 'pack rejects what its type cannot hold', None if g.kind == 'undecided' else not g.ok, f'{x!r}: {g.text()}')
            bench.explore(label, rejected)

            def unknown(t):
                x = t.v.float('x')
                one(t, x, P.enc(w, ORDERS[order], code, x))
            if how != 'own':
                bench.explore(label, unknown)
    return run


def bools(order):
    def run(bench):
        for place in PLACES:
            how = PLACES[place][1]
            if how == 'own':
                continue
            m = X.load_any(bench, PRE + program('bool8', 'bool', order, place))
            label = f'bool8 in {place}, {order}'
            bench.record('C30', label, 'the class can be defined', True if m.ok else verdict_of(m), '' if m.ok else m.text(), '')
            if not m.ok:
                continue
            ns = m.value.ns
            n = COUNT.get(how, 1)
            head = [lit(b'abc')] if 's:' in PLACES[place][0] else []

            def known(t):
                I = t.I
                for x in (True, False, 0, 1, 7):
                    g = t.attempt(lambda: I.call_method(I.call(ns['Subj'], ([b'abc'] if head else []) + [wrapped(I, ns, how, x, 'int')]), 'pack', [], {}))
                    if not t.check('C30', 'pack accepts a truth value', True if g.ok else verdict_of(g), g.text()):
                        continue
                    r, d = t.same_bytes(head + [lit(bytes([bool(x)]))] * n, list(B.segs_of(I, g.value)))
                    t.check('C30', 'pack encodes a truth value as one byte', r, d)
                for b in (0, 1, 2, 255):
                    g = t.attempt(lambda: I.call_method(ns['Subj'], 'create_unpack', [B.make(I, head + [lit(bytes([b]))] * n)], {}))
                    if not t.check('C30', 'create_unpack accepts a byte', True if g.ok else verdict_of(g), g.text()):
                        continue
                    vals = unwrapped(I, how, I.getattr(g.value, 'x'))
                    t.check('C30', 'create_unpack yields True or False', len(vals) == n and all(v is bool(b) for v in vals), f'byte {b}: {vals!r}')
            bench.explore(label, known)
    return run


MAIN = ('LE', 'BE')
for _k in P.INTS:
    for _o in ('LE', 'BE', 'NETWORK', 'NATIVE_STANDARD', 'NATIVE_NATIVE', 'DEFAULT'):
        if _o in MAIN:
            case('C30', 'quick', f'numbers {_k}, {_o}')(ints(_k, _o, list(PLACES), ()))
        else:
            case('C30', 'quick', f'numbers {_k}, {_o}')(ints(_k, _o, ['a field', 'an array'], ()))
            case('C30', 'thorough', f'all numbers {_k}, {_o}')(ints(_k, _o, [p for p in PLACES if p not in ('a field', 'an array') and
                                                                              (_o == 'NETWORK' or _o == 'NATIVE_STANDARD' or 's:' not in PLACES[p][0])], ()))
for _k in P.FLOATS:
    for _o in ('LE', 'BE', 'NETWORK', 'NATIVE_STANDARD', 'NATIVE_NATIVE', 'DEFAULT'):
        case('C30', 'quick', f'numbers {_k}, {_o}')(floats(_k, _o, list(PLACES) if _o in MAIN else ['a field', 'an array']))
for _o in MAIN:
    case('C30', 'quick', f'numbers bool8, {_o}')(bools(_o))


@case('C30', 'quick', 'values that are not numbers')
def not_numbers(bench):
    for kind in P.INTS:
        for place in ('a field', 'an array of one', 'a tuple of one', 'a nested class', 'a conditional field'):
            m = X.load_any(bench, PRE + program(kind, 'int', 'BE', place))
            if not m.ok:
                continue
            ns = m.value.ns
            how = PLACES[place][1]

            def run(t):
                I = t.I
                for x in (1.5, 1.0, '1', b'1', None, (), (1,), ListV([1])):
                    g = t.attempt(lambda: I.call_method(I.call(ns['Subj'], [wrapped(I, ns, how, x, 'int')]), 'pack', [], {}))
                    t.check('C30', 'a value that is not a whole number is rejected', None if g.kind == 'undecided' else not g.ok, f'{x!r}: {g.text()}')
                for x, w in ((True, 1), (False, 0)):
                    g = t.attempt(lambda: I.call_method(I.call(ns['Subj'], [wrapped(I, ns, how, x, 'int')]), 'pack', [], {}))
                    if t.check('C30', 'a truth value counts as a number', True if g.ok else verdict_of(g), g.text()):
                        r, d = t.same_bytes([P.enc(P.INTS[kind][1], '>', P.INTS[kind][0], w)], list(B.segs_of(I, g.value)))
                        t.check('C30', 'a truth value counts as a number', r, d)
            bench.explore(f'{kind} in {place}', run)
