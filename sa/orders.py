"""Byte orders of subclasses (C20) and of single objects."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import suites
from .builtins_model import is_
from .classdefs import raw
from .experiments import attrs_of, values_equal, verdict_of
from .finals import outcome
from .suites import case
from .values import *

ORDERS = ['DEFAULT', 'LE', 'BE', 'NATIVE_STANDARD', 'NATIVE_NATIVE', 'NETWORK']
MODES = {'': False, 'STRICT': False, 'OVERRIDE': True}
FIELDS = '    a: int8\n    b: uint16\n    c: char[uint16]\n'
BODIES = {'no fields': '    pass\n', 'a field': '    d: int32\n', 'an overridden field': '    b: uint32\n',
          'a removed field': '    b: None\n'}


def head(name, base, order, mode=''):
    kw = '' if order is None else f', byte_order=ByteOrder.{order}'
    kw += f', byte_order_mode=ByteOrderMode.{mode}' if mode else ''
    return f'class {name}({base}{kw}):\n'


def order_of(bench, m, name, label, want, rule):
    I = bench.lab.I
    g = I.getattr(m.ns[name], 'byte_order')
    bench.record('C20', label, rule, bool(is_(I, g, I.getattr(m.ns['ByteOrder'], want))), f'{g!r}, stated {want}', '')


def register():
    for bo in [None] + ORDERS:
        def run(bench, bo=bo):
            base = bo or 'DEFAULT'
            for so in [None] + ORDERS:
                sub = so or 'DEFAULT'
                for mode, over in MODES.items():
                    for bname, body in BODIES.items():
                        if bname != 'a field' and mode == 'STRICT':
                            continue
                        label = f'{bo or "no order"} base, {so or "no order"} subclass with {bname}' + (f', {mode}' if mode else '')
                        accept = over or sub == base
                        g = outcome(bench, label, head('Base', 'Structured', bo) + FIELDS + head('Subj', 'Base', so, mode) + body,
                                    'C20', accept, 'a subclass stating the order of its base, or overriding it, is accepted'
                                    if accept else 'a subclass with another byte order than its base is refused', ('ValueError',))
                        if g.ok and accept:
                            order_of(bench, g.value, 'Subj', label, sub, 'the subclass has the order it states')
                            order_of(bench, g.value, 'Base', label, base, 'the base keeps its order')
        case('C20', 'quick', f'byte orders below {bo or "no order"}')(run)

        def deep(bench, bo=bo):
            base = bo or 'DEFAULT'
            for mo in ORDERS:
                for so in ORDERS:
                    for mm in ('', 'OVERRIDE'):
                        for sm in ('', 'OVERRIDE'):
                            if (mo == base) == bool(mm):
                                continue
                            label = f'{base} base, {mo} class between, {so} subclass' + (f', {sm}' if sm else '')
                            accept = bool(sm) or so == mo
                            g = outcome(bench, label, head('Base', 'Structured', bo) + FIELDS + head('Mid', 'Base', mo, mm) + '    d: int32\n' +
                                        head('Subj', 'Mid', so, sm) + '    e: int16\n', 'C20', accept,
                                        'only the direct base decides which order must be stated', ('ValueError',))
                            if g.ok and accept:
                                for n, w in (('Base', base), ('Mid', mo), ('Subj', so)):
                                    order_of(bench, g.value, n, label, w, 'every class has the order it states')
        case('C20', 'quick', f'byte orders two levels below {bo or "no order"}')(deep)

    @case('C20', 'quick', 'several bases')
    def bases(bench):
        two = 'class A(Structured):\n    a: int8\nclass B(Structured):\n    b: int8\n'
        no = lambda label, src, kinds=('TypeError',): outcome(bench, label, src, 'C20', False, 'deriving from two serialized bases is refused', kinds)
        yes = lambda label, src: outcome(bench, label, src, 'C20', True, 'deriving from one serialized base and others is accepted')
        no('two bases', two + 'class Subj(A, B):\n    pass\n')
        no('two bases and a field', two + 'class Subj(A, B):\n    c: int8\n')
        no('two bases, overriding', two + 'class Subj(A, B, byte_order=ByteOrder.BE, byte_order_mode=ByteOrderMode.OVERRIDE):\n    c: int8\n')
        no('two bases among others', two + 'class M:\n    pass\nclass Subj(A, M, B):\n    c: int8\n')
        no('empty bases', 'class A(Structured):\n    pass\nclass B(Structured):\n    pass\nclass Subj(A, B):\n    pass\n')
        no('two subclasses of one base', 'class R(Structured):\n    a: int8\nclass A(R):\n    pass\nclass B(R):\n    pass\nclass Subj(A, B):\n    pass\n')
        no('two specialized bases', 'class A(Generic[T], Structured):\n    a: T\nclass B(Generic[T], Structured):\n    b: T\n'
           'class Subj(A[int8], B[int8]):\n    pass\n')
        for o in ('LE', 'BE'):
            no(f'two bases of order {o}', two.replace('Structured', f'Structured, byte_order=ByteOrder.{o}') +
               f'class Subj(A, B, byte_order=ByteOrder.{o}):\n    pass\n')
        yes('a mixin', two + 'class M:\n    pass\nclass Subj(A, M):\n    pass\n')
        yes('a mixin first', two + 'class M:\n    x = 1\nclass Subj(M, A):\n    c: int8\n')
        yes('Structured again', two + 'class Subj(A, Structured):\n    c: int8\n')
        yes('a generic base', 'class A(Generic[T], Structured):\n    a: T\nclass Subj(A[int8]):\n    c: int8\n')
        yes('still generic', 'class A(Generic[T], Structured):\n    a: T\nclass Subj(A[T], Generic[T]):\n    c: int8\n')
        for o in ('LE', 'BE'):
            outcome(bench, f'a mixin hides nothing, {o}', f'class A(Structured, byte_order=ByteOrder.{o}):\n    a: int8\nclass M:\n    byte_order = ByteOrder.DEFAULT\n'
                    'class Subj(M, A):\n    c: int16\n', 'C20', False, 'a mixin does not lift the requirement to state the order', ('ValueError',))
            outcome(bench, f'a generic base with an order, {o}', f'class A(Generic[T], Structured, byte_order=ByteOrder.{o}):\n    a: T\nclass Subj(A[int8]):\n    c: int16\n',
                    'C20', False, 'a specialized base has to be matched too', ('ValueError',))


register()


def overriding(tier):
    """Subclasses that change the byte order: every field uses the new one."""
    out = []
    pairs = [('LE', 'BE'), ('BE', 'LE')]
    if tier == 'thorough':
        pairs += [('DEFAULT', 'BE'), ('LE', 'NETWORK'), ('NATIVE_STANDARD', 'BE'), ('NATIVE_NATIVE', 'LE'), ('BE', 'NETWORK'), ('NETWORK', 'LE')]
    FIELD = {
        'numbers': ('a: int16', 'a:int16'), 'a string': ('a: char[uint16]', 'a:dyn16'),
        'text': ('a: unicode[uint16]', 'a:uni16'), 'an array': ('a: array[Header[uint16], int8]', 'a:arr16i8'),
        'an array of custom items': ("a: array[Header[uint16, uint32], Annotated[int, Opaque('op')]]", 'a:arr16x32op'),
        'a custom serializer': ("a: Annotated[int, Opaque('op')]", 'a:op'), 'a tuple': ('a: tuple[uint8, int32]', 'a:tup'),
        'a user type': ('a: Annotated[Wrapped, SerializeAs(int32)]', 'a:custom'),
        'padding': ('_: pad[2]', '_:pad2'), 'a float': ('a: float32', 'a:float32'),
        'a terminated string': ('a: null_char', 'a:term'),
    }
    OV = 'byte_order_mode=ByteOrderMode.OVERRIDE'
    for b, s in pairs:
        for fname, (ann, slot) in FIELD.items():
            base = f'class Base(Structured, byte_order=ByteOrder.{b}):\n    x: uint16\n    {ann}\n    y: int32\n'
            S = f'x:uint16 {slot} y:int32'
            r = lambda label, src, slots, order: out.append(raw(f'{label}, {fname}, {b} to {s}', src, slots, order, 'C20'))
            sub = f'class Sub(Base, byte_order=ByteOrder.{s}, {OV}):\n    z: int16\n'
            r('an overridden order', base + sub.replace('Sub', 'Subj'), S + ' z:int16', s)
            r('the base of an overridden order', base.replace('Base', 'Subj') + sub.replace('Base', 'Subj'), S, b)
            if fname in ('numbers', 'a string', 'an array of custom items', 'a tuple') or tier == 'thorough':
                r('an overridden order with nothing new', base + f'class Subj(Base, byte_order=ByteOrder.{s}, {OV}):\n    pass\n', S, s)
                r('an overridden order, a removed field', base + f'class Subj(Base, byte_order=ByteOrder.{s}, {OV}):\n    y: None\n', f'x:uint16 {slot}', s)
                r('an order overridden twice', base + sub + f'class Subj(Sub, byte_order=ByteOrder.{b}, {OV}):\n    w: int64\n', S + ' z:int16 w:int64', b)
                r('below an overridden order', base + sub + f'class Subj(Sub, byte_order=ByteOrder.{s}):\n    w: int64\n', S + ' z:int16 w:int64', s)
                r('a second subclass keeps the order of the base', base + sub + f'class Subj(Base, byte_order=ByteOrder.{b}):\n    w: int64\n', S + ' w:int64', b)
                r('the class between', base + sub.replace('Sub(', 'Subj(') + f'class Low(Subj, byte_order=ByteOrder.{b}, {OV}):\n    w: int64\n', S + ' z:int16', s)
        g = f'class G(Generic[T], Structured, byte_order=ByteOrder.{b}):\n    x: uint16\n    a: T\n    c: array[Header[uint8], T]\n'
        out.append(raw(f'a specialization in another order, {b} to {s}', g + f'class Subj(G[int16], byte_order=ByteOrder.{s}, {OV}):\n    z: int16\n',
                       'x:uint16 a:int16 c:arr8i16 z:int16', s, 'C20 C21'))
        out.append(raw(f'another specialization keeps the order, {b} to {s}', g + f'class Other(G[int32], byte_order=ByteOrder.{s}, {OV}):\n    z: int16\n'
                       f'class Subj(G[int16], byte_order=ByteOrder.{b}):\n    z: int16\n', 'x:uint16 a:int16 c:arr8i16 z:int16', b, 'C20 C21'))
    for s in out:
        s.own = True
    return out


suites.SPECIAL.append(overriding)


def object_order(t, s, m):
    """Structured.with_byte_order: an object of another order, the first unchanged."""
    I, v = t.I, t.v
    cls = m.ns[s.name]
    vals = s.values(v, 'x', m.ns)
    p0 = t.call(I.call(cls, list(vals)), 'pack')
    if not p0.ok:
        t.check('C07', 'packing succeeds', verdict_of(p0), p0.text())
        return
    for o in ('LE', 'BE', 'NETWORK') if s.order != 'BE' else ('LE', 'NETWORK', 'BE'):
        bo = I.getattr(m.ns['ByteOrder'], o)
        obj = I.call(cls, list(vals))
        g = t.call(obj, 'with_byte_order', bo)
        if not t.check('C07', 'an object can be given another byte order', True if g.ok else verdict_of(g), g.text()):
            continue
        n = g.value
        a = attrs_of(t, n, s.names)
        if not a.ok:
            t.check('C07', 'the object of another order has the same values', verdict_of(a), a.text())
            continue
        r, d = values_equal(t, s.names, vals, a.value)
        t.check('C07', 'the object of another order has the same values', r, d)
        t.check('C07', 'the object of another order is of the same class', type(n) is ObjV and n.cls is cls, repr(n))
        for route in ('pack', 'pack_write', 'pack_into'):
            want = s.wire(I, vals, m.ns, X.SYM[o])
            if route == 'pack':
                q = t.call(n, 'pack')
                segs = list(B.segs_of(I, q.value)) if q.ok else None
            elif route == 'pack_write':
                st = X.stream([], [], [])
                q = t.call(n, 'pack_write', st)
                segs = st.segs
            else:
                buf = B.BufV('bytearray', [('raw', X.total(want), 'old', 0)]) if hasattr(B, 'BufV') else None
                q = t.call(n, 'pack_into', buf)
                segs = buf.segs
            if not t.check('C07', f'{route} of the object of another order succeeds', True if q.ok else verdict_of(q), q.text()):
                continue
            r, d = t.same_bytes(want, segs)
            t.check('C07', f'{route} of the object of another order uses that order throughout', r, d)
        f = t.call(n, 'unpack', B.make(I, s.wire(I, vals, m.ns, X.SYM[o])))
        if t.check('C07', 'unpack of the object of another order succeeds', True if f.ok else verdict_of(f), f.text()):
            a = attrs_of(t, n, s.names)
            if a.ok:
                r, d = values_equal(t, s.names, s.expect(I, vals, m.ns), a.value)
                t.check('C07', 'unpack of the object of another order reads that order', r, d)
        p1 = t.call(obj, 'pack') if o != s.order else p0
        if p1.ok:
            r, d = t.same_bytes(list(B.segs_of(I, p0.value)), list(B.segs_of(I, p1.value)))
            t.check('C07 C23', 'the first object keeps its order', r, d)
        else:
            t.check('C07 C23', 'the first object keeps its order', verdict_of(p1), p1.text())
        p1 = t.call(I.call(cls, list(vals)), 'pack')
        if p1.ok:
            r, d = t.same_bytes(list(B.segs_of(I, p0.value)), list(B.segs_of(I, p1.value)))
            t.check('C07 C23', 'the class keeps its order', r, d)


suites.GENERIC['object order'] = (object_order, 'C07 C23')
