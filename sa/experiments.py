"""The obligations: abstract uses of the public interface, and what must hold."""
from __future__ import annotations

from . import bytes_model as B
from . import parts as P
from .harness import T, exc_is, exc_text
from .interp import PyExc
from .layout import BufV, lit, normalise, split_at, total
from .terms import Lin, Prune, Unsupported, add, sub
from .values import *

SYM = {'LE': '<', 'BE': '>', 'NETWORK': '!', 'DEFAULT': '', 'NATIVE_NATIVE': '@',
       'NATIVE_STANDARD': '='}


class Subject:
    """A client class assembled from parts."""

    def __init__(self, label, parts, order='LE', name='Subj', extra='', head='Structured', future=False,
                 body=''):
        self.label = label
        self.parts = parts
        self.order = order
        self.name = name
        src = P.pres(parts) + extra
        kw = f', byte_order=ByteOrder.{order}' if order != 'DEFAULT' else ''
        src += f'class {name}({head}{kw}):\n'
        self.names = []
        self.slots = []       # (part, [attribute names])
        for i, p in enumerate(parts):
            mine = []
            for suf, ann in p.fields:
                n = '_' if suf == '_' else f'f{i}{suf}'
                src += f'    {n}: {ann.replace("$", f"f{i}")}\n'
                if n != '_':
                    mine.append(n)
            self.slots.append((p, mine))
            self.names += mine
        self.src = src + body
        self.future = future
        self.skip = set()
        self.tags = ''       # properties that depend on this class behaving as declared
        self.only = None     # experiments to run (None: all)
        self.own = False     # quick tier: only for the tagged properties

    def values(self, v, tag, ns):
        out = []
        for i, p in enumerate(self.parts):
            out += p.make(v, f'{tag}{i}', ns)
        return out

    def split(self, vals):
        out, k = [], 0
        for p, names in self.slots:
            out.append((p, vals[k:k + len(names)]))
            k += len(names)
        return out

    def wire(self, I, vals, ns, order=None):
        segs = []
        o = SYM[self.order] if order is None else order
        for p, vs in self.split(vals):
            segs += p.wire(I, o, vs, ns)
        return segs

    def expect(self, I, vals, ns):
        out = []
        for p, vs in self.split(vals):
            out += p.expect(I, vs, ns)
        return out


class Raw(Subject):
    """A client class written out in full: `slots` lists its parts in layout order
    with the attributes they belong to."""

    def __init__(self, label, src, slots, order='LE', name='Subj', future=False, tags=''):
        self.label, self.order, self.name = label, order, name
        self.src = P.pres([p for p, _ in slots]) + src
        self.slots = [(p, a.split()) for p, a in slots]
        self.parts = [p for p, _ in slots]
        self.names = [n for _, a in self.slots for n in a]
        self.future = future
        self.skip = set()
        self.tags = tags
        self.only = None
        self.own = False


def stream(prefix, segs, suffix):
    return StreamV(list(prefix) + list(segs) + list(suffix), total(prefix))


PRE = lambda t: [('raw', t.v.int('pre.len', 0), 'bytes before', 0)]
SUF = [('raw', 3, 'bytes after', 0)]


def load(bench, subject):
    """Interpret the client module of a subject; reports definition failures."""
    try:
        return bench.lab.client(subject.src, future=subject.future)
    except PyExc as e:
        bench.setup_failed.append((subject.label, exc_text(e) + f' at {e.trace}'))
    except Unsupported as e:
        bench.incomplete.append((subject.label, f'class definition: {e}'))
    finally:
        del bench.lab.I.stack[:]
    return None


def define(bench, subject, prop):
    m = load_any(bench, subject.src, subject.future)
    for p in prop.split():
        bench.record(p, subject.label, 'the class can be defined', True if m.ok else False
                     if m.kind == 'exc' else None, '' if m.ok else m.text(), 'class definition')
    if m.ok:
        return m.value
    return None


def load_any(bench, src, future=False):
    t = T(bench, '')
    bench.lab.reset()
    I = bench.lab.I
    I.path.steps = 0
    r = t.attempt(bench.lab.client, src, None, None, future)
    return r


def values_equal(t, names, want, got):
    """(verdict, detail) for lists of values."""
    out = True
    for n, w, g in zip(names, want, got):
        r = B.value_same(t.I, w, g)
        if r is False:
            return False, f'{n}: expected {w!r}, got {g!r}'
        if r is None and out is True:
            out, d = None, f'{n}: cannot compare {w!r} and {g!r}'
    return out, ('' if out else d)


def attrs_of(t, obj, names):
    out = []
    for n in names:
        g = t.attempt(t.I.getattr, obj, n)
        if not g.ok:
            return g
        out.append(g.value)
    from .harness import Got
    return Got('ok', out)


def verdict_of(g):
    return None if g.kind == 'undecided' else False


def is_lazy(v):
    return isinstance(v, (IterV,)) or type(v).__name__ in ('GenV', 'GeneratorV')


def roundtrip(t: T, s: Subject, m, serializer_level=True, wire_prop='C05'):
    I, v = t.I, t.v
    cls = m.ns[s.name]
    vals = s.values(v, 'x', m.ns)
    obj = t.attempt(I.call, cls, list(vals))
    if not t.check('C19', 'an instance can be built from one value per attribute',
                   True if obj.ok else verdict_of(obj), obj.text()):
        return
    obj = obj.value
    got = t.call(obj, 'pack')
    if not t.check('C05', 'packing valid values succeeds', True if got.ok else verdict_of(got), got.text()):
        return
    segs = list(B.segs_of(I, got.value))
    t.check('C24', 'pack returns immutable bytes', B.kind_of(got.value) == 'bytes', f'{got.value!r}')
    w = total(segs)
    documented = ''      # the other routes produce what is documented, too
    if s.order not in ('DEFAULT', 'NATIVE_NATIVE') and all(p.wire for p in s.parts):
        want = t.attempt(s.wire, I, vals, m.ns)
        if want.ok:
            r, d = t.same_bytes(want.value, segs)
            t.check(wire_prop + ' C06 C07', 'packed bytes are the documented encoding of the values in order', r,
                    d and f'{d}; documented: {t.show(want.value)}; packed: {t.show(segs)}')
            documented = ' C06 C07' if r else ''
        else:
            t.check(wire_prop, 'packed bytes are the documented encoding of the values in order', None, want.text())

    # -- pack routes ----------------------------------------------------
    pre = PRE(t)
    st = stream(pre, [], [])
    g = t.call(obj, 'pack_write', st)
    if g.ok:
        r, d = t.same_bytes(pre + segs, st.segs)
        t.check('C02' + documented, 'pack_write appends exactly the bytes pack returns', r, d and f'{d}; stream: {t.show(st.segs)}; pack: {t.show(segs)}')
    else:
        t.check('C02' + documented, 'pack_write accepts what pack accepts', verdict_of(g), g.text())
    off = total(pre)
    tail = [('raw', v.int('tail.len', 0), 'old', add(off, w))]
    old = [('raw', off, 'old', 0), ('raw', w, 'old', off)] + tail
    buf = BufV('bytearray', normalise(old, I.facts))
    g = t.call(obj, 'pack_into', buf, off)
    if g.ok:
        want = [old[0]] + segs + tail
        r, d = t.same_bytes(want, buf.segs)
        t.check('C02' + documented, 'pack_into stores the bytes pack returns at the offset', r, d and f'{d}; buffer: {t.show(buf.segs)}; pack: {t.show(segs)}')
        outside(t, buf, old, off, w, 'pack_into')
    else:
        t.check('C02' + documented, 'pack_into accepts what pack accepts', verdict_of(g), g.text())
    buf = BufV('bytearray', normalise(old[1:], I.facts))
    g = t.call(obj, 'pack_into', buf)
    if g.ok:
        r, d = t.same_bytes(segs + tail, buf.segs)
        t.check('C02', 'pack_into defaults to offset 0', r, d)
    else:
        t.check('C02', 'pack_into without an offset starts at 0', verdict_of(g), g.text())

    # -- unpack routes -----------------------------------------------------
    want = s.expect(I, vals, m.ns)
    names = s.names
    suf = SUF if not any(p.final for p in s.parts) else []
    full = pre + segs + suf

    def judge(route, g, inst=None):
        if not g.ok:
            t.check('C05 C04', f'{route} accepts the bytes pack produced', verdict_of(g), g.text())
            return
        o = inst if inst is not None else g.value
        a = attrs_of(t, o, names)
        if not a.ok:
            t.check('C05 C04 C11', f'{route} sets every attribute', verdict_of(a), a.text())
            return
        lazy = [n for n, x in zip(names, a.value) if is_lazy(x)]
        t.check('C04', f'{route} leaves no value unevaluated', not lazy, f'{lazy} hold iterators')
        r, d = values_equal(t, names, want, a.value)
        t.check('C05 C04' + (documented and s.order == 'BE' and ' C07' or ''), f'{route} gives back the packed values', r, d)

    def fresh():
        return t.attempt(I.call, cls, list(s.values(v, 'y', m.ns)))

    judge('create_unpack', t.call(cls, 'create_unpack', B.make(I, segs)))
    judge('create_unpack_from', t.call(cls, 'create_unpack_from', B.make(I, full), off))
    judge('create_unpack_from at 0', t.call(cls, 'create_unpack_from', B.make(I, segs + suf)))
    st = stream(pre, segs, suf)
    g = t.call(cls, 'create_unpack_read', st)
    judge('create_unpack_read', g)
    t.check('C04', 'create_unpack_read leaves the stream right after the value',
            None if g.kind == 'undecided' else I.facts.same(st.pos, add(off, w)), f'stream at {I.facts.norm(st.pos)}, value ends at {I.facts.norm(add(off, w))}')
    for route in ('unpack', 'unpack_from', 'unpack_read'):
        f = fresh()
        if not f.ok:
            continue
        o = f.value
        if route == 'unpack':
            judge('unpack', t.call(o, 'unpack', B.make(I, segs)), o)
        elif route == 'unpack_from':
            judge('unpack_from', t.call(o, 'unpack_from', B.make(I, full), off), o)
        else:
            st = stream(pre, segs, suf)
            g = t.call(o, 'unpack_read', st)
            judge('unpack_read', g, o)
            t.check('C04', 'unpack_read leaves the stream right after the value',
                    None if g.kind == 'undecided' else I.facts.same(st.pos, add(off, w)), f'stream at {I.facts.norm(st.pos)}, value ends at {I.facts.norm(add(off, w))}')
    if serializer_level:
        sizes(t, s, m, cls, obj, vals, segs, pre, suf, want)
    # original object untouched
    a = attrs_of(t, obj, names)
    if a.ok:
        r, d = values_equal(t, names, vals, a.value)
        t.check('C24', 'packing leaves the packed object as it was', r, d)
    t.check('C24', 'no container passed in by the user is modified', not t.I.user_mutations,
            f'{t.I.user_mutations[:2]!r}')


def take(I, obj, names, values):
    """Consume unpacked values, storing each as the class does."""
    out = []
    for x in I.iterate(values):
        if len(out) < len(names):
            I.setattr(obj, names[len(out)], x)
        out.append(x)
    return tuple(out)


def outside(t, buf, old, off, w, route):
    I = t.I
    t.check('C03', f'{route} does not resize the buffer', I.facts.same(total(buf.segs), total(old)),
            f'length {I.facts.norm(total(buf.segs))}, was {I.facts.norm(total(old))}')
    try:
        head, rest = split_at(buf.segs, off, I.facts)
        _, tail = split_at(rest, w, I.facts)
        _, orest = split_at(old, off, I.facts)
        _, otail = split_at(orest, w, I.facts)
        ohead, _ = split_at(old, off, I.facts)
    except Unsupported as e:
        t.check('C03', f'{route} leaves the bytes outside its window alone', None, str(e))
        return
    r1, d1 = t.same_bytes(ohead, head)
    r2, d2 = t.same_bytes(otail, tail)
    r = False if r1 is False or r2 is False else True if r1 and r2 else None
    t.check('C03', f'{route} leaves the bytes outside its window alone', r, d1 or d2)


def sizes(t, s, m, cls, obj, vals, segs, pre, suf, want):
    I, v = t.I, t.v
    w, off = total(segs), total(pre)
    ser = t.attempt(I.getattr, cls, 'serializer')
    if not ser.ok:
        t.check('C19', 'the class has a serializer', verdict_of(ser), ser.text())
        return
    ser = ser.value

    def size_is(p, route):
        g = t.attempt(I.getattr, p, 'size')
        if not g.ok:
            t.check('C01', f'size is known after {route}', verdict_of(g), g.text())
            return
        t.check('C01', f'size is the number of bytes {route} moved', I.facts.same(g.value, w)
                if not isinstance(g.value, (UnkV, Sym)) else None,
                f'size {g.value!r}, moved {I.facts.norm(w)}')

    nv = t.attempt(I.getattr, ser, 'num_values')
    if nv.ok:
        t.check('C11 C19', 'the serializer takes one value per attribute', nv.value == len(vals), f'{nv.value} values, {len(vals)} attributes')
    for route in ('pack', 'pack_write', 'pack_into'):
        p = t.call(ser, 'prepack', obj)
        if not p.ok:
            t.check('C01', 'a serializer can be prepared for packing', verdict_of(p), p.text())
            return
        p = p.value
        if route == 'pack':
            g = t.call(p, 'pack', *vals)
            out = g.ok and list(B.segs_of(I, g.value))
        elif route == 'pack_write':
            st = stream(pre, [], [])
            g = t.call(p, 'pack_write', st, *vals)
            out = None
            if g.ok:
                try:
                    out = split_at(st.segs, off, I.facts)[1]
                except Unsupported:
                    pass
        else:
            old = [('raw', add(add(off, w), v.int('tail.len', 0)), 'old', 0)]
            buf = BufV('bytearray', old)
            g = t.call(p, 'pack_into', buf, off, *vals)
            out = None
            if g.ok:
                try:
                    out = split_at(split_at(buf.segs, off, I.facts)[1], w, I.facts)[0]
                except Unsupported:
                    pass
                outside(t, buf, old, off, w, 'serializer pack_into')
        if not g.ok:
            t.check('C02', f'serializer {route} accepts what the class packs', verdict_of(g), g.text())
            continue
        if out is not None and out is not False:
            r, d = t.same_bytes(segs, out)
            t.check('C02', f'serializer {route} produces the bytes the class packs', r, d)
        size_is(p, route)
    for route in ('unpack', 'unpack_from', 'unpack_read'):
        o = t.attempt(I.call, cls, list(s.values(v, 'z', m.ns)))
        if not o.ok:
            return
        p = t.call(ser, 'preunpack', o.value)
        if not p.ok:
            t.check('C01', 'a serializer can be prepared for unpacking', verdict_of(p), p.text())
            return
        p = p.value
        if route == 'unpack':
            g = t.call(p, 'unpack', B.make(I, segs))
        elif route == 'unpack_from':
            g = t.call(p, 'unpack_from', B.make(I, pre + segs + suf), off)
        else:
            g = t.call(p, 'unpack_read', stream(pre, segs, suf))
        if g.ok:
            g = t.attempt(take, I, o.value, s.names, g.value)
        if not g.ok:
            t.check('C04', f'serializer {route} accepts the bytes pack produced', verdict_of(g), g.text())
            continue
        size_is(p, route)
        t.check('C11', f'serializer {route} yields one value per attribute', len(g.value) == len(want),
                f'{len(g.value)} values, {len(want)} attributes')
        if len(g.value) == len(want):
            r, d = values_equal(t, s.names, want, g.value)
            t.check('C04', f'serializer {route} yields the packed values', r, d)


# ----------------------------------------------------------------- reuse
def reuse(t: T, s: Subject, m):
    """One serializer, many operations: each behaves as if it were the first."""
    I, v = t.I, t.v
    cls = m.ns[s.name]
    xs, ys = s.values(v, 'x', m.ns), s.values(v, 'y', m.ns)
    ox, oy = t.attempt(I.call, cls, list(xs)), t.attempt(I.call, cls, list(ys))
    if not (ox.ok and oy.ok):
        return
    ox, oy = ox.value, oy.value
    ser = I.getattr(cls, 'serializer')
    # a prepared serializer is not disturbed by preparing and using another one
    px, py = t.call(ser, 'prepack', ox), t.call(ser, 'prepack', oy)
    if not (px.ok and py.ok):
        return
    gy = t.call(py.value, 'pack', *ys)
    gx = t.call(px.value, 'pack', *xs)
    if not (gx.ok and gy.ok):
        t.check('C23', 'two prepared serializers can be used side by side',
                verdict_of(gx if not gx.ok else gy), (gx if not gx.ok else gy).text())
        return
    wx, wy = t.attempt(s.wire, I, xs, m.ns), t.attempt(s.wire, I, ys, m.ns)
    if not (wx.ok and wy.ok):
        return
    for g, w, n in ((gx, wx, 'first'), (gy, wy, 'second')):
        r, d = t.same_bytes(w.value, B.segs_of(I, g.value))
        t.check('C23', f'of two prepared serializers, the {n} packs its own values', r,
                d and f'{d}; expected: {t.show(w.value)}; packed: {t.show(B.segs_of(I, g.value))}')
    sx, sy = list(B.segs_of(I, gx.value)), list(B.segs_of(I, gy.value))
    for p, segs in ((px, sx), (py, sy)):
        z = t.attempt(I.getattr, p.value, 'size')
        if z.ok and px.value is not py.value:
            t.check('C01 C23', 'the size of a serializer is that of its own last operation',
                    I.facts.same(z.value, total(segs)) if not isinstance(z.value, (UnkV, Sym)) else None,
                    f'size {z.value!r}, moved {I.facts.norm(total(segs))}')

    def size_is(segs, what):
        z = t.attempt(I.getattr, ser, 'size')
        t.check('C01', f'the size reported after {what} is that of this operation, whatever was done before',
                (I.facts.same(z.value, total(segs)) if not isinstance(z.value, (UnkV, Sym)) else None) if z.ok else verdict_of(z),
                f'size {z.value!r}, moved {I.facts.norm(total(segs))}')
    # every pack route, right after another object was packed
    for o, other, w, n in ((ox, oy, sx, 'first'), (oy, ox, sy, 'second')):
        st, off = stream(PRE(t), [], []), total(PRE(t))
        t.call(other, 'pack')
        g = t.call(o, 'pack_write', st)
        if g.ok:
            r, d = t.same_bytes(PRE(t) + w, st.segs)
            t.check('C02 C23', 'pack_write appends exactly the bytes pack returns, whatever was packed before', r, d and f'{n} of two: {d}')
            size_is(w, 'pack_write')
        else:
            t.check('C02 C23', 'pack_write accepts what pack accepts, whatever was packed before', verdict_of(g), g.text())
        old = [('raw', off, 'old', 0), ('raw', total(w), 'old', off), ('raw', 3, 'old', add(off, total(w)))]
        buf = BufV('bytearray', normalise(old, I.facts))
        t.call(other, 'pack')
        g = t.call(o, 'pack_into', buf, off)
        if g.ok:
            r, d = t.same_bytes([old[0]] + w + [old[2]], buf.segs)
            t.check('C02 C03 C23', 'pack_into stores the bytes pack returns, whatever was packed before', r, d and f'{n} of two: {d}')
            size_is(w, 'pack_into')
        else:
            t.check('C02 C03 C23', 'pack_into accepts what pack accepts, whatever was packed before', verdict_of(g), g.text())
    # unpack both, interleaved with packing
    g1 = t.call(cls, 'create_unpack', B.make(I, sx))
    if g1.ok:
        size_is(sx, 'create_unpack')
    g2 = t.call(cls, 'create_unpack_read', stream(PRE(t), sy, []))
    if g2.ok:
        size_is(sy, 'create_unpack_read')
    g5 = t.call(cls, 'create_unpack_from', B.make(I, PRE(t) + sx), total(PRE(t)))
    if g5.ok:
        size_is(sx, 'create_unpack_from')
    g3 = t.call(ox, 'pack')
    for g, want, n in ((g1, xs, 'first'), (g2, ys, 'second'), (g5, xs, 'third')):
        if not g.ok:
            t.check('C23', f'the {n} of three unpack operations succeeds', verdict_of(g), g.text())
            continue
        a = attrs_of(t, g.value, s.names)
        if a.ok:
            r, d = values_equal(t, s.names, s.expect(I, want, m.ns), a.value)
            t.check('C23 C24', f'the {n} of three unpacked objects keeps its own values', r, d)
    if g3.ok:
        r, d = t.same_bytes(wx.value, B.segs_of(I, g3.value))
        t.check('C23', 'packing again after other operations gives the same bytes', r, d)
    else:
        t.check('C23', 'packing again after other operations succeeds', verdict_of(g3), g3.text())
    # a failed operation leaves no trace
    t.call(cls, 'create_unpack', B.make(I, []))
    t.call(cls, 'create_unpack_read', StreamV([], 0))
    g4 = t.call(oy, 'pack')
    if g4.ok:
        r, d = t.same_bytes(wy.value, B.segs_of(I, g4.value))
        t.check('C23', 'packing after a failed unpack gives the same bytes', r, d)
    else:
        t.check('C23', 'packing after a failed unpack succeeds', verdict_of(g4), g4.text())
    if all(x is not y for x, y in zip(xs, ys)) and g1.ok:
        shared = sharing(t, g1.value, g2.value if g2.ok else None)
        t.check('C24', 'two unpacked objects share no mutable value', not shared, f'{shared}')
        for g in (g1, g2):
            if g.ok and g5.ok:
                shared = sharing(t, g.value, g5.value)
                t.check('C24', 'two unpacked objects share no mutable value', not shared, f'{shared}')
        shared = sharing(t, g1.value, ox)
        t.check('C24', 'an unpacked object shares no mutable value with the packed one', not shared, f'{shared}')


def reach(v, out, seen, name):
    """Mutable values reachable from an object's attributes."""
    if id(v) in seen:
        return
    seen[id(v)] = v
    if isinstance(v, ListV):
        out[id(v)] = name
        for i, x in enumerate(v.items):
            reach(x, out, seen, f'{name}[{i}]')
    elif isinstance(v, DictV):
        out[id(v)] = name
    elif isinstance(v, BufV) and v.kind == 'bytearray':
        out[id(v)] = name
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            reach(x, out, seen, f'{name}[{i}]')
    elif isinstance(v, ObjV) and not v.cls.native:
        out[id(v)] = name
        for k, x in v.d.items():
            reach(x, out, seen, f'{name}.{k}')


def sharing(t, a, b):
    if a is None or b is None:
        return []
    ra, rb = {}, {}
    sa, sb = {}, {}
    for k, x in a.d.items():
        reach(x, ra, sa, k)
    for k, x in b.d.items():
        reach(x, rb, sb, k)
    return [f'{ra[i]} is {rb[i]}' for i in ra if i in rb]


# ------------------------------------------------------------- byte order
def reorder(t: T, s: Subject, m):
    """A serializer switched to another byte order encodes every part in it."""
    I, v = t.I, t.v
    cls = m.ns[s.name]
    xs = s.values(v, 'x', m.ns)
    ox = t.attempt(I.call, cls, list(xs))
    if not ox.ok:
        return
    ox = ox.value
    ser = I.getattr(cls, 'serializer')
    for name in ('BIG_ENDIAN', 'LITTLE_ENDIAN', 'NETWORK'):
        o = {'BIG_ENDIAN': '>', 'LITTLE_ENDIAN': '<', 'NETWORK': '!'}[name]
        bo = I.getattr(m.ns['ByteOrder'], name)
        other = t.call(ser, 'with_byte_order', bo)
        if not other.ok:
            t.check('C07', 'a serializer can be switched to another byte order', verdict_of(other), other.text())
            return
        p = t.call(other.value, 'prepack', ox)
        if not p.ok:
            t.check('C07', 'a serializer switched to another byte order can be prepared', verdict_of(p), p.text())
            return
        g = t.call(p.value, 'pack', *xs)
        want = t.attempt(s.wire, I, xs, m.ns, o)
        if not want.ok:
            return
        if not g.ok:
            t.check('C07', f'a serializer switched to {name} can pack', verdict_of(g), g.text())
            continue
        segs = list(B.segs_of(I, g.value))
        r, d = t.same_bytes(want.value, segs)
        t.check('C07', f'a serializer switched to {name} packs every part in that order', r,
                d and f'{d}; expected: {t.show(want.value)}; packed: {t.show(segs)}')
        z = t.attempt(I.getattr, p.value, 'size')
        if z.ok:
            t.check('C01', 'size is right after a switch of byte order', I.facts.same(z.value, total(segs))
                    if not isinstance(z.value, (UnkV, Sym)) else None, f'size {z.value!r}, moved {total(segs)!r}')
        fresh = t.attempt(I.call, cls, list(s.values(v, 'y', m.ns)))
        if not fresh.ok:
            return
        for route in ('unpack', 'unpack_from', 'unpack_read'):
            u = t.call(other.value, 'preunpack', fresh.value)
            if not u.ok:
                t.check('C07', 'a serializer switched to another byte order can be prepared', verdict_of(u), u.text())
                continue
            pre = PRE(t)
            if route == 'unpack':
                q = t.call(u.value, 'unpack', B.make(I, want.value))
            elif route == 'unpack_from':
                q = t.call(u.value, 'unpack_from', B.make(I, pre + want.value), total(pre))
            else:
                q = t.call(u.value, 'unpack_read', stream(pre, want.value, []))
            if q.ok:
                q = t.attempt(take, I, fresh.value, s.names, q.value)
            if not q.ok:
                t.check('C07', f'a serializer switched to {name} can {route}', verdict_of(q), q.text())
                continue
            if len(q.value) == len(xs):
                r, d = values_equal(t, s.names, s.expect(I, xs, m.ns), q.value)
                t.check('C07', f'a serializer switched to {name} reads every part in that order', r, d)
    g = t.call(ox, 'pack')
    want = t.attempt(s.wire, I, xs, m.ns)
    if g.ok and want.ok:
        r, d = t.same_bytes(want.value, B.segs_of(I, g.value))
        t.check('C23 C07', 'deriving a serializer with another byte order leaves the original as it was', r, d)
    elif not g.ok:
        t.check('C23', 'deriving a serializer with another byte order leaves the original usable', verdict_of(g), g.text())


# -------------------------------------------------------------- truncation
def truncate(t: T, s: Subject, m):
    """Every strict prefix of the encoding is rejected on every route."""
    I, v = t.I, t.v
    cls = m.ns[s.name]
    xs = s.values(v, 'x', m.ns)
    ox = t.attempt(I.call, cls, list(xs))
    if not ox.ok:
        return
    g = t.call(ox.value, 'pack')
    if not g.ok:
        return
    segs = normalise(B.segs_of(I, g.value), I.facts)
    pre = PRE(t)
    for cut, what in cut_points(I, segs):
        try:
            part, _ = split_at(segs, cut, I.facts)
        except Unsupported as e:
            t.check('C13', 'truncated input is rejected', None, str(e))
            continue
        for route in ('create_unpack', 'create_unpack_from', 'create_unpack_read'):
            if route == 'create_unpack':
                g = t.call(cls, route, B.make(I, part))
            elif route == 'create_unpack_from':
                g = t.call(cls, route, B.make(I, pre + list(part)), total(pre))
            else:
                g = t.call(cls, route, stream(pre, part, []))
            t.check('C13', f'{route} rejects truncated input',
                    True if g.kind == 'exc' else None if g.kind == 'undecided' else False,
                    g.text() if g.kind == 'undecided' else
                    f'input cut {what}: {t.show(part)} accepted, giving '
                    + (', '.join(f'{n}={I.getattr(g.value, n)!r}' for n in s.names) if g.ok and
                       all(n in g.value.d for n in s.names) else ''))


# ---------------------------------------------------------------- overflow
def cut_points(I, segs):
    """Positions strictly inside an encoding: field boundaries, one byte after
    each and one byte before each."""
    cuts, at = [], 0
    for sg in segs:
        if not B.ge0(I, sub(sg[1], 1)):
            continue
        cuts.append((at, f'before {B.seg_show(sg)}'))
        if I.facts.known_ge0(sub(sg[1], 2)) is True or (
                I.facts.known_ge0(I.facts.reps_subst(sub(sg[1], 2))) is True):
            cuts.append((add(at, 1), f'1 byte into {B.seg_show(sg)}'))
            if I.facts.same(sg[1], 2) is not True:
                cuts.append((sub(add(at, sg[1]), 1), f'1 byte before the end of {B.seg_show(sg)}'))
        at = add(at, sg[1])
    return cuts


def overflow(t: T, s: Subject, m):
    """A buffer with too little room is refused, whatever room there is."""
    I, v = t.I, t.v
    cls = m.ns[s.name]
    xs = s.values(v, 'x', m.ns)
    ox = t.attempt(I.call, cls, list(xs))
    if not ox.ok:
        return
    g = t.call(ox.value, 'pack')
    if not g.ok:
        return
    segs = normalise(B.segs_of(I, g.value), I.facts)
    off = v.int('pre.len', 0)
    for cut, what in cut_points(I, segs):
        for where in ('at an offset', 'at the start'):
            o = off if where == 'at an offset' else 0
            old = [('raw', o, 'old', 0), ('raw', cut, 'old', o)]
            buf = BufV('bytearray', normalise(old, I.facts))
            g = t.call(ox.value, 'pack_into', buf, *([o] if where == 'at an offset' else []))
            t.check('C03', f'pack_into {where} refuses a buffer that is too small',
                    True if g.kind == 'exc' else None if g.kind == 'undecided' else False,
                    g.text() if g.kind == 'undecided' else
                    f'room ends {what}; buffer: {t.show(buf.segs)}; needed: {t.show(segs)}')
            if g.kind == 'undecided':
                continue
            t.check('C03', 'a failed pack_into does not resize the buffer',
                    I.facts.same(total(buf.segs), add(o, cut)),
                    f'length {I.facts.norm(total(buf.segs))}, was {I.facts.norm(add(o, cut))}')
            try:
                head, _ = split_at(buf.segs, o, I.facts)
            except Unsupported as e:
                t.check('C03', 'a failed pack_into leaves the bytes before its window alone', None, str(e))
                continue
            r, d = t.same_bytes([('raw', o, 'old', 0)], head)
            t.check('C03', 'a failed pack_into leaves the bytes before its window alone', r, d)
