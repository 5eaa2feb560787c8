"""What a class definition yields (C19): attributes, initializer and layout."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import suites
from .classdefs import raw
from .experiments import attrs_of, values_equal, verdict_of
from .harness import exc_is
from .suites import case
from .builtins_model import is_
from .values import *


def IS(I, a, b):
    return is_(I, a, b)


def describe(t, s, m):
    I, v = t.I, t.v
    cls = m.ns[s.name]
    names = s.names
    a = t.attempt(I.getattr, cls, 'attrs')
    ok = verdict_of(a) if not a.ok else isinstance(a.value, tuple) and list(a.value) == list(names)
    t.check('C19', 'attrs lists the serialized attributes in order', ok,
            a.text() if ok is not True else '')
    vals = s.values(v, 'x', m.ns)

    def built(how, args, kw):
        g = t.attempt(I.call, cls, list(args), dict(kw))
        if not t.check('C19', f'the initializer accepts {how}', True if g.ok else verdict_of(g), g.text()):
            return None
        o = g.value
        got = attrs_of(t, o, names)
        if not got.ok:
            t.check('C19', f'the initializer given {how} sets every attribute', verdict_of(got), got.text())
            return None
        r, d = values_equal(t, names, vals, got.value)
        t.check('C19', f'the initializer given {how} sets every attribute to its argument', r, d)
        return o

    def refused(how, args, kw):
        g = t.attempt(I.call, cls, list(args), dict(kw))
        v_ = None if g.kind == 'undecided' else not g.ok and exc_is(g.value, 'TypeError')
        t.check('C19', f'the initializer refuses {how}', v_, g.text() if v_ is not True else '')

    o = built('one value per attribute', vals, {})
    if o is not None:
        extra = [n for n in o.d if n not in names]
        t.check('C19', 'the initializer sets no other attribute', not extra, repr(extra))
    pairs = list(zip(names, vals))
    built('keywords in another order', [], reversed(pairs))
    if len(names) > 1:
        built('a value and keywords', vals[:1], pairs[1:])
    if names:
        refused('too few values', vals[:-1], {})
        refused('one value twice', vals, pairs[-1:])
        refused('nothing', [], {})
        refused('keywords without the first', [], pairs[1:])
    refused('too many values', vals + [0], {})
    refused('an unknown keyword', vals, {'unheard_of': 0})
    for n, attr in (('byte order', 'byte_order'),):
        g = t.attempt(I.getattr, cls, attr)
        ok = verdict_of(g) if not g.ok else IS(I, g.value, I.getattr(m.ns['ByteOrder'], s.order))
        t.check('C19 C20', 'the class states its byte order', ok, g.text())


suites.GENERIC['describe'] = (describe, 'C19')


def post_init(t, s, m):
    """__post_init__ runs once, after the attributes are set, on every construction."""
    I = t.I
    cls = m.ns[s.name]
    vals = s.values(t.v, 'x', m.ns)
    g = t.attempt(I.call, cls, list(vals))

    def judge(how, g):
        if not t.check('C19', f'{how} succeeds', True if g.ok else verdict_of(g), g.text()):
            return None
        seen = t.attempt(I.getattr, g.value, 'calls')
        if not t.check('C19', f'{how} runs __post_init__', True if seen.ok else verdict_of(seen), seen.text()):
            return None
        n = list(seen.value.items)
        t.check('C19', f'{how} runs __post_init__ once', len(n) == 1, f'{len(n)} times')
        if n:
            r, d = values_equal(t, s.names, s.expect(I, vals, m.ns), list(n[0]))
            t.check('C19', f'{how} runs __post_init__ after setting the attributes', r, d)
        return g.value
    o = judge('the initializer', g)
    if o is None:
        return
    p = t.call(o, 'pack')
    if not p.ok:
        t.check('C19', 'packing succeeds', verdict_of(p), p.text())
        return
    segs = list(B.segs_of(I, p.value))
    judge('create_unpack', t.call(cls, 'create_unpack', B.make(I, segs)))
    judge('create_unpack_from', t.call(cls, 'create_unpack_from', B.make(I, segs), 0))
    judge('create_unpack_read', t.call(cls, 'create_unpack_read', X.stream([], segs, [])))
    n = len(o.d['calls'].items)
    t.call(o, 'unpack', B.make(I, segs))
    t.check('C19', 'refilling an object does not initialize it again', len(o.d['calls'].items) == n, '')


POST = ('    def __post_init__(self):\n        if not hasattr(self, "calls"):\n            self.calls = []\n'
        '        self.calls.append(tuple(getattr(self, n) for n in self.attrs))\n')


@case('C19', 'quick', 'initialization hook')
def hooks(bench):
    O = 'byte_order=ByteOrder.LE'
    for s in (
            raw('a hook', f'class Subj(Structured, {O}):\n    a: int8\n    b: char[uint8]\n' + POST, 'a:int8 b:dyn8'),
            raw('an inherited hook', f'class Base(Structured, {O}):\n    a: int8\n    b: char[uint8]\n' + POST +
                f'class Subj(Base, {O}):\n    c: int16\n    _: pad[1]\n', 'a:int8 b:dyn8 c:int16 _:pad1'),
            raw('a hook of a mixin', 'class Mix:\n' + POST + f'class Subj(Mix, Structured, {O}):\n    a: int8\n    b: char[uint8]\n',
                'a:int8 b:dyn8'),
            raw('a hook without fields', f'class Subj(Structured, {O}):\n    _: pad[1]\n' + POST, '_:pad1'),
            raw('a hook of a generic class', f'class G(Generic[T], Structured, {O}):\n    a: int8\n    b: T\n' + POST +
                f'class Subj(G[char[uint8]], {O}):\n    pass\n', 'a:int8 b:dyn8')):
        m = X.define(bench, s, 'C19')
        if m is not None:
            bench.explore(s.label, lambda t: post_init(t, s, m))


@case('C19', 'quick', 'same padding name under postponed annotations')
def pads_future(bench):
    for label, src, slots in (
            ('several paddings, postponed annotations', 'class Subj(Structured, byte_order=ByteOrder.LE):\n    _: pad[1]\n    a: int8\n    _: pad[2]\n',
             '_:pad1 a:int8 _:pad2'),):
        s = raw(label, src, slots, future=True)
        m = X.define(bench, s, 'C19')
        if m is None:
            continue

        def go(t):
            vals = s.values(t.v, 'x', m.ns)
            o = t.attempt(t.I.call, m.ns['Subj'], vals)
            g = t.call(o.value, 'pack') if o.ok else o
            if not g.ok:
                t.check('C19', 'every padding field counts', verdict_of(g), g.text())
                return
            r, d = t.same_bytes(s.wire(t.I, vals, m.ns), list(B.segs_of(t.I, g.value)))
            t.check('C19', 'every padding field counts', r, d)
        bench.explore(label, go)


@case('C19', 'quick', 'layout of a base class is not changed by subclasses')
def bases_kept(bench):
    src = ('class Base(Structured, byte_order=ByteOrder.LE):\n    a: int8\n    _: pad[2]\n    b: int16\n    c: char[uint8]\n'
           'before = (Base.serializer, Base.attrs, Base.byte_order, Base.__init__)\n'
           'class Sub(Base, byte_order=ByteOrder.BE, byte_order_mode=ByteOrderMode.OVERRIDE):\n    a: int64\n    b: None\n    d: int8\n    _: pad[1]\n'
           'class Same(Base, byte_order=ByteOrder.LE):\n    pass\n'
           'after = (Base.serializer, Base.attrs, Base.byte_order, Base.__init__)\n'
           'root = (Structured.attrs, Structured.byte_order, Structured.serializer.num_values, Structured.serializer.size)\n')
    m = X.load_any(bench, src)
    bench.record('C19', 'subclassing', 'the classes can be defined', True if m.ok else None if m.kind == 'undecided' else False, m.text(), '')
    if not m.ok:
        return
    ns = m.value.ns
    same = all(a is b or a == b for a, b in zip(ns['before'], ns['after']))
    bench.record('C19', 'subclassing', 'a subclass leaves the attributes, serializer and initializer of its base alone', same, '', '')
    I = bench.lab.I
    r = ns['root']
    bench.record('C19', 'subclassing', 'Structured itself stays without fields',
                 r[0] == () and IS(I, r[1], I.getattr(ns['ByteOrder'], 'DEFAULT')) and r[2] == 0 and r[3] == 0, repr(r), '')
