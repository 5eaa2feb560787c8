"""Custom types (C25): every unpacked value of one is built exactly once."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .experiments import PRE, SUF, stream, verdict_of
from .finals import outcome
from .layout import total
from .parts import Item, Part, enc
from .shapes import part_item, tagvalue
from .suites import case
from .terms import sub, add
from .values import *

SRC = '''
class Built:
    def __init__(self, value):
        seen(type(self).__name__, 'build', None, value)
        if isinstance(value, Built):
            raise TypeError('built twice')
        self.value = value
    def __eq__(self, other):
        return type(self) is type(other) and self.value == other.value
    __hash__ = None
class Wa(Built):
    def __index__(self):
        return self.value
class Wb(Built):
    def __index__(self):
        return self.value
class Wf(Built):
    def __float__(self):
        return self.value
class Wt(Built):
    def __bool__(self):
        return self.value
def make_a(value):
    seen('make_a', 'build', None, value)
    w = Wa.__new__(Wa)
    w.value = value
    return w
def make_b(value):
    seen('make_b', 'build', None, value)
    w = Wb.__new__(Wb)
    w.value = value
    return w
def keep(value):
    seen('keep', 'build', None, value)
    return value
class Maker:
    @classmethod
    def build(cls, value):
        seen('Maker', 'build', None, value)
        w = Wa.__new__(Wa)
        w.value = value
        return w
from structured.serializers import StructActionSerializer
S16 = SerializeAs(int16)
S16a = S16.with_factory(make_a)
S16b = S16a.with_factory(make_b)
'''


def cu(t, cls='Wa', how='ctor'):
    """A custom type over the basic type t."""
    ann = {'ctor': f'Annotated[{cls}, SerializeAs({t})]',
           'factory': f'Annotated[{cls}, SerializeAs({t}).with_factory({"make_a" if cls == "Wa" else "make_b"})]',
           'method': f'Annotated[{cls}, SerializeAs({t}).with_factory(Maker.build)]',
           'shared': f'Annotated[{cls}, S16]', 'shared factory': f'Annotated[{cls}, S16.with_factory({"make_a" if cls == "Wa" else "make_b"})]',
           'derived': f'Annotated[{cls}, S16{cls[1]}]', 'shared method': f'Annotated[{cls}, S16.with_factory(Maker.build)]',
           'keep': f'Annotated[object, SerializeAs({t}).with_factory(keep)]',
           'action': f'Annotated[{cls}, StructActionSerializer({P.INTS.get(t, ("",))[0]!r}, actions=({"make_a" if cls == "Wa" else "make_b"},))]'}[how]
    name = {'ctor': cls, 'factory': 'make_a' if cls == 'Wa' else 'make_b', 'method': 'Maker', 'keep': 'keep',
            'shared': cls, 'shared method': 'Maker'}.get(how, 'make_a' if cls == 'Wa' else 'make_b')
    if t in P.INTS:
        ch, w, lo, hi = P.INTS[t]
        val = lambda v, p: v.int(p, lo, hi)
    elif t in P.FLOATS:
        ch = P.FLOATS[t][0]
        val = lambda v, p: v.float(p)
    elif t == 'bool8':
        ch, val = '?', lambda v, p: v.bool(p)
    else:
        ch, val = None, lambda v, p: v.raw(p, int(t[5:-1]))
    if how == 'keep':
        inner = lambda I, x: x
        make = lambda v, p, ns: val(v, p)
    else:
        inner = lambda I, x: I.getattr(x, 'value')
        make = lambda v, p, ns: v.lab.I.call(ns[cls], [val(v, p)])
    width = P.INTS[t][1] if t in P.INTS else P.FLOATS[t][1] if t in P.FLOATS else 1

    def wire(I, o, x, ns):
        return [enc(width, o, ch, inner(I, x))] if ch else list(B.segs_of(I, inner(I, x)))
    it = Item(f'{cls} as {t} ({how})', ann, make, wire, pre=SRC)
    it.builds = lambda I, x, ns: [(name, inner(I, x))]
    return it


def builds(it, I, x, ns):
    f = getattr(it, 'builds', None)
    return f(I, x, ns) if f else []


def tup(*items):
    it = P.i_tuple(*items)
    it.builds = lambda I, x, ns: sum((builds(i, I, y, ns) for i, y in zip(items, x)), [])
    it.pre = SRC if SRC in it.pre else it.pre
    return it


def as_part(item):
    p = P.as_part(item)
    p.builds = lambda I, vals, ns: builds(item, I, vals[0], ns)
    return p


def arr(header, item):
    p = P.p_array(header, item)
    p.builds = lambda I, vals, ns: sum((builds(item, I, x, ns) for x in P.items_of(I, vals[0])[0]), [])
    return p


def struct(*items, order='LE', name='Inner'):
    parts = [as_part(i) if isinstance(i, Item) else i for i in items]
    it = P.i_struct(name, order, parts)

    def f(I, x, ns):
        out = []
        for i, q in enumerate(parts):
            vals = [I.getattr(x, f'{chr(97 + i)}{suf}') for suf, a in q.fields if suf != '_']
            out += pbuilds(q, I, vals, ns)
        return out
    it.builds = f
    return it


def pitem(p):
    it = part_item(p)
    it.builds = lambda I, x, ns: pbuilds(p, I, [x], ns)
    return it


def pbuilds(p, I, vals, ns):
    f = getattr(p, 'builds', None)
    return f(I, vals, ns) if f else []


def cond(item, default='7', dval=7):
    from .shapes import p_cond
    p = p_cond(item, default, dval)
    p.builds = lambda I, vals, ns: builds(item, I, vals[1], ns) if I.facts.ge0(sub(vals[0], 5)) else []
    return p


def union(cases, default=None):
    from .shapes import p_union, pick
    p = p_union(cases, default)

    def f(I, vals, ns):
        k = pick(I, vals[0], list(cases))
        return builds(cases[k] if k is not None else default, I, vals[1], ns)
    p.builds = f
    return p


def subjects(tier):
    i8, i16, u32 = P.p_int('int8'), P.p_int('int16'), P.p_int('uint32')
    ip = lambda n: P.i_int(n)
    a, b = (lambda *x: cu(*x)), (lambda t, how='ctor': cu(t, 'Wb', how))
    dyn = lambda: P.p_dynchar('uint16')
    c = lambda *items: [as_part(i) if isinstance(i, Item) else i for i in items]
    table = [
        ('alone', c(a('int32'))), ('two', c(a('int16'), b('int16'))), ('same type twice', c(a('int16'), a('int16'))),
        ('first', c(a('uint8'), i16)), ('last', c(i16, a('uint32'))), ('between', c(i8, a('int16'), u32)),
        ('around', c(a('int16'), i16, b('int16'))), ('same format around', c(i16, a('int16'), i16, b('int16'), i16)),
        ('every second', c(a('int8'), i8, a('int8'), i8, b('int8'), i8)),
        ('between padding', c(P.p_pad(2), a('int16'), P.p_pad(1), b('int16'), P.p_pad(3))),
        ('padding and numbers', c(i16, P.p_pad(2), a('int16'), i16, P.p_pad(1), b('int16'))),
        ('between strings', c(P.p_char(3), a('int16'), P.p_char(0), b('int16'), P.p_char(2))),
        ('zero-length strings first', c(P.p_char(0), a('int16'), i16)), ('pascal', c(P.p_pascal(3), a('int16'), i16)),
        ('between dynamic strings', c(dyn(), a('int16'), b('int32'), P.p_dynchar('uint8'), a('uint8'), i8)),
        ('between custom serializers', c(a('int16'), P.i_opaque(), b('int32'), P.i_opaque('oq', lazy=True), a('uint8'))),
        ('float', c(P.p_float('float32'), a('float32', 'Wf'), P.p_float('float32'))), ('double', c(a('float64', 'Wf'), i8)),
        ('bool', c(P.p_bool(), a('bool8', 'Wt'), P.p_bool())), ('string', c(a('char[3]', 'Wa', 'keep'), P.p_char(3))),
        ('one byte strings', c(P.p_char(1), a('char[1]', 'Wa', 'keep'), P.p_char(1))),
        ('zero byte string', c(a('char[0]', 'Wa', 'keep'), i8)),
        ('factories', c(a('int16', 'Wa', 'factory'), i16, b('int16', 'factory'), a('int16'))),
        ('two factories for one type', c(a('int16', 'Wa', 'factory'), a('int16', 'Wa', 'method'), a('int16', 'Wa', 'ctor'), a('int16', 'Wa', 'keep'))),
        ('factories in arrays', c(arr((2,), a('int16', 'Wa', 'factory')), arr((2,), b('int16', 'factory')))),
        ('one delegate for several types', c(a('int16', 'Wa', 'shared'), b('int16', 'shared factory'), b('int16', 'shared'), a('int16', 'Wa', 'shared method'),
                                             a('int16', 'Wa', 'shared'), i16)),
        ('one delegate, factories first', c(b('int16', 'shared factory'), a('int16', 'Wa', 'shared factory'), i16, b('int16', 'shared'))),
        ('factories derived from a factory', c(a('int16', 'Wa', 'derived'), b('int16', 'derived'), a('int16', 'Wa', 'shared'),
                                               a('int16', 'Wa', 'derived'))),
        ('arrays of one delegate', c(arr((2,), b('int16', 'shared factory')), arr((2,), b('int16', 'shared')), arr((2,), a('int16', 'Wa', 'shared')))),
        ('actions', c(a('int16', 'Wa', 'action'), b('int16', 'action'), i16)),
        ('arrays of actions', c(arr((2,), a('int16', 'Wa', 'action')), arr((2,), b('int16', 'action')), arr((2,), ip('int16')))),
        ('array', c(i16, arr((2,), a('int16')), i16)), ('counted array', c(arr(('uint8',), a('int16')), i16)),
        ('long counted array', c(arr(('uint32',), a('int16')), a('uint32'))), ('sized array', c(arr(('uint8', 'uint16'), a('int16')), b('int16'))),
        ('array with size', c(arr((2, 'uint16'), b('int32')), i8)), ('array of one', c(arr((1,), a('int16')), i8)),
        ('arrays around', c(arr((2,), a('int16')), b('int16'), arr((2,), b('int16')))),
        ('array of tuples', c(arr((2,), tup(a('int8'), ip('int8'), b('int8'))), i8)),
        ('counted array of tuples', c(arr(('uint8',), tup(ip('int8'), a('int8'))))),
        ('array of arrays', c(arr((2,), pitem(arr((2,), a('int16')))))),
        ('tuple', c(i8, as_part(tup(a('int8'), ip('int16'), b('int8'))), i16)), ('tuple of one', c(as_part(tup(a('int32'))), i16)),
        ('tuple with a string', c(as_part(tup(a('int8'), pitem(dyn()), b('int8'), ip('int8'))))),
        ('nested tuples', c(as_part(tup(ip('int8'), tup(a('int8'), ip('int8')), b('int8'))))),
        ('condition', c(i16, cond(a('int16')), b('int16'))), ('condition on a tuple', c(cond(tup(ip('int8'), a('int8')), '(1, 2)', (1, 2)), i8)),
        ('condition on an array', c(cond(pitem(arr((2,), a('int16'))), '0', 0), b('int8'))),
        ('union', c(i16, union({1: a('int16'), 2: ip('int16')}, b('int32')), i16)),
        ('union of tuples', c(union({1: tup(a('int16'), ip('int8')), 2: tup(ip('int16'), b('int8'))}))),
        ('union of arrays', c(union({1: pitem(arr((2,), a('int16'))), 2: pitem(arr((2,), ip('int16')))}, b('int8')))),
        ('nested class', c(a('int16'), struct(a('int16'), P.p_int('int16'), b('int16')), b('int16'))),
        ('nested class of one', c(struct(a('int16')), i16)), ('array of nested classes', c(arr((2,), struct(a('int8'), P.p_int('int8'))))),
        ('mixture', c(P.p_pad(1), a('int8'), i8, P.p_char(2), as_part(tup(b('int16'), ip('int16'))), i16, arr(('uint8',), a('int8')), P.p_pad(2), b('int8'), i8)),
    ]
    out = []
    for label, ps in table:
        for o in ('LE', 'BE') + (('DEFAULT', 'NETWORK') if tier == 'thorough' else ()):
            s = X.Subject(f'custom type {label}, {o}', ps, o)
            s.tags = 'C25'
            s.own = True
            s.only = 'roundtrip reuse reorder truncate overflow'
            s.counted = True
            out.append(s)
        s = X.Subject(f'custom type {label}, inherited in another order', ps, 'LE', extra='')
        s.src = s.src.replace('class Subj(Structured, byte_order=ByteOrder.LE)', 'class Base(Structured, byte_order=ByteOrder.BE)') + \
            'class Subj(Base, byte_order=ByteOrder.LE, byte_order_mode=ByteOrderMode.OVERRIDE):\n    pass\n'
        s.tags, s.own, s.only = 'C25', True, 'roundtrip'
        s.counted = True
        out.append(s)
    return out


suites.SPECIAL.append(subjects)


def counted(t, s, m):
    I, v, lab = t.I, t.v, t.lab
    cls = m.ns[s.name]
    vals = s.values(v, 'x', m.ns)
    obj = I.call(cls, list(vals))
    want = []
    for p, vs in s.split(vals):
        want += pbuilds(p, I, vs, m.ns)
    lab.seen.clear()
    g = t.call(obj, 'pack')
    t.check('C25', 'packing accepts the constructed objects', True if g.ok else verdict_of(g), g.text())
    if not g.ok:
        return
    built = sum(e[1] == 'build' for e in lab.seen)
    t.check('C25', 'packing builds nothing', not built, f'{built} built')
    segs = list(B.segs_of(I, g.value))
    pre = PRE(t)
    off, suf = total(pre), SUF
    full = pre + segs + suf

    def judge(route, f):
        lab.seen.clear()
        g = t.attempt(f)
        if not t.check('C25', f'{route} accepts the packed bytes', True if g.ok else verdict_of(g), g.text()):
            return
        got = [(e[0], e[3]) for e in lab.seen if e[1] == 'build']
        ok, d = len(got) == len(want), f'{len(got)} values built, {len(want)} expected'
        if ok:
            for (n, x), (wn, wx) in zip(got, want):
                r = n == wn and B.value_same(I, wx, x)
                if r is not True:
                    ok, d = r, f'{wn} given {wx!r} expected, {n} given {x!r} seen'
                    break
        t.check('C25', f'{route} builds every custom value once, in order, from the unpacked value', ok, '' if ok is True else d)

    call = I.call_method
    judge('create_unpack', lambda: call(cls, 'create_unpack', [B.make(I, segs)], {}))
    judge('create_unpack_from', lambda: call(cls, 'create_unpack_from', [B.make(I, full), off], {}))
    judge('create_unpack_read', lambda: call(cls, 'create_unpack_read', [stream(pre, segs, suf)], {}))
    judge('unpack', lambda: call(obj, 'unpack', [B.make(I, segs)], {}))
    judge('unpack_from', lambda: call(obj, 'unpack_from', [B.make(I, full), off], {}))
    judge('unpack_read', lambda: call(obj, 'unpack_read', [stream(pre, segs, suf)], {}))
    judge('create_unpack from a bytearray', lambda: call(cls, 'create_unpack', [B.BufV('bytearray', segs)], {}))
    judge('create_unpack once more', lambda: call(cls, 'create_unpack', [B.make(I, segs)], {}))


suites.GENERIC['counted'] = (counted, 'C25')


@case('C25', 'quick', 'custom types in class definitions')
def definitions(bench):
    bad = lambda label, ann, extra='': outcome(bench, label, P.WRAPPED + SRC + extra + f'class Subj(Structured):\n    a: int8\n    b: {ann}\n', 'C25', False,
                                               'a custom type over something else than one basic value is refused')
    for t in ('char[uint8]', 'null_char', 'unicode[5]', 'pad[1]', 'tuple[int8]', 'tuple[int8, int8]', 'array[Header[2], int8]', 'int', 'str'):
        bad(f'a custom type as {t}', f'Annotated[Wa, SerializeAs({t})]')
        bad(f'a factory for {t}', f'Annotated[Wa, SerializeAs({t}).with_factory(make_a)]')
    for ann, label in (('Annotated[Wa, SerializeAs(int8)]', 'a class'), ('Annotated[Wa, SerializeAs(int8), "note"]', 'a class with a note'),
                       ('Annotated[Wa, "note", SerializeAs(int8)]', 'a note and a class'), ('Annotated[Wa, SerializeAs(int8).with_factory(make_a)]', 'a factory'),
                       ('Annotated[Wa, SerializeAs(int8).with_factory(Maker.build)]', 'a class method'), ('Annotated[Wa, SerializeAs(int8).with_factory(lambda x: Wa(x))]', 'a function')):
        outcome(bench, label, SRC + f'class Subj(Structured):\n    a: int8\n    b: {ann}\n', 'C25', True, 'a custom type over a basic value is accepted')
