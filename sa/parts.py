"""Field declarations for client classes, each with unknown values and the byte
layout its documentation promises (the oracle)."""
from __future__ import annotations

from . import bytes_model as B
from .layout import lit, total
from .terms import BitV, Lin, Unsupported, atom, from_bits, sub, to_bits
from .values import *

INTS = {
    'int8': ('b', 1, -2**7, 2**7 - 1), 'uint8': ('B', 1, 0, 2**8 - 1),
    'int16': ('h', 2, -2**15, 2**15 - 1), 'uint16': ('H', 2, 0, 2**16 - 1),
    'int32': ('i', 4, -2**31, 2**31 - 1), 'uint32': ('I', 4, 0, 2**32 - 1),
    'int64': ('q', 8, -2**63, 2**63 - 1), 'uint64': ('Q', 8, 0, 2**64 - 1),
}
FLOATS = {'float16': ('e', 2), 'float32': ('f', 4), 'float64': ('d', 8)}


def enc(w, order, ch, v):
    return ('enc', w, '-' if w == 1 else {'!': '>', '=': '<'}.get(order, order), ch, v)


def int_enc(t, order, v):
    ch, w, _, _ = INTS[t]
    return enc(w, order, ch, v)


class Part:
    """One or more attributes declared together.

    fields: [(name suffix, annotation)];  make(v, pfx, ns) -> values;
    wire(I, order, values, ns) -> segments;  pre: client source needed."""

    def __init__(self, label, fields, make, wire, pre='', expect=None, final=False, weight=1,
                 pads=0, same=None):
        self.label, self.fields, self.make, self.wire = label, fields, make, wire
        self.pre = pre
        self.expect = expect or (lambda I, vals, ns: vals)
        self.final = final
        self.weight = weight
        self.same = same

    def __repr__(self):
        return self.label


def one(label, ann, make, wire, **kw):
    return Part(label, [('', ann)], lambda v, p, ns: [make(v, p)],
                (lambda I, o, vals, ns: wire(I, o, vals[0])) if wire else None, **kw)


def p_int(t):
    ch, w, lo, hi = INTS[t]
    return one(t, t, lambda v, p: v.int(p, lo, hi), lambda I, o, x: [int_enc(t, o, x)])


def p_float(t):
    ch, w = FLOATS[t]
    return one(t, t, lambda v, p: v.float(p), lambda I, o, x: [enc(w, o, ch, x)])


def p_bool():
    return one('bool8', 'bool8', lambda v, p: v.bool(p), lambda I, o, x: [enc(1, o, '?', x)])


def p_char(n):
    if n == 0:
        return one('char[0]', 'char[0]', lambda v, p: b'', lambda I, o, x: [])
    return one(f'char[{n}]', f'char[{n}]', lambda v, p: v.raw(p, n), lambda I, o, x: B.segs_of(I, x))


def p_pad(n):
    return Part(f'pad[{n}]', [('_', f'pad[{n}]')], lambda v, p, ns: [],
                lambda I, o, vals, ns: [('zero', n)])


def p_pascal(n):
    def wire(I, o, x):
        w = B.width(I, x)
        return [enc(1, o, 'B', w)] + list(B.segs_of(I, x)) + [('zero', sub(n - 1, w))]
    return one(f'pascal[{n}]', f'pascal[{n}]', lambda v, p: v.bytes(p, 0, n - 1), wire, weight=4)


def p_dynchar(t):
    hi = INTS[t][3]
    return one(f'char[{t}]', f'char[{t}]', lambda v, p: v.bytes(p, 0, hi),
               lambda I, o, x: [int_enc(t, o, B.width(I, x))] + list(B.segs_of(I, x)), weight=4)


def net_len(I, n):
    """The 1-2 byte .NET length prefix: low seven bits first; the high bit of the
    first byte says that a second byte holds the remaining bits."""
    if B.ge0(I, sub(0x7f, n)):
        return [enc(1, '-', 'B', n)]
    bits = to_bits(n, I.facts)
    if bits is None:
        raise Unsupported('length bits')
    bits = (bits + [0] * 15)[:15]
    return [enc(1, '-', 'B', from_bits(bits[:7] + [1], I.facts)),
            enc(1, '-', 'B', from_bits(bits[7:], I.facts))]


def p_netchar():
    return one('char[NET]', 'char[NET]', lambda v, p: v.bytes(p, 0, 0x7fff),
               lambda I, o, x: net_len(I, B.width(I, x)) + list(B.segs_of(I, x)), weight=8,
               pre='from structured.hint_types.strings import NET\n')


def p_term(t=b'\0'):
    return one(f'char[{t!r}]', f'char[{t!r}]', lambda v, p: v.bytes(p, 0, None, excl=t),
               lambda I, o, x: list(B.segs_of(I, x)) + [lit(t)], weight=4)


def p_rest():
    return one('char[inf]', 'char[math.inf]', lambda v, p: v.bytes(p),
               lambda I, o, x: list(B.segs_of(I, x)), final=True, pre='import math\n', weight=4)


def text_segs(I, x, codec='utf-8'):
    return list(B.segs_of(I, B.encode(I, x, codec)))


def p_unidyn(t, codec=None):
    a = f'unicode[{t}]' if codec is None else f'unicode[{t}, {codec!r}]'

    def wire(I, o, x):
        s = text_segs(I, x, codec or 'utf-8')
        return [int_enc(t, o, total(s))] + s
    return one(a, a, lambda v, p: utext(v, p, hi=INTS[t][3], codec=codec or 'utf-8'), wire, weight=4)


def utext(v, p, excl=(), hi=None, codec='utf-8'):
    """An unknown text whose encoding avoids some bytes, or is not too long."""
    s = v.text(p)
    I = v.lab.I
    if excl:
        I.path.excluded[('encode', s.key, codec)] = set(excl)
    if hi is not None:
        I.facts.assume_ge0(sub(hi, atom(('len', 'encode', s.key, codec), 0)))
    return s


def p_uniterm():
    return one('null_unicode', 'null_unicode', lambda v, p: utext(v, p, b'\0'),
               lambda I, o, x: text_segs(I, x) + [lit(b'\0')], weight=4)


def p_unirest():
    return one('unicode[inf]', 'unicode[math.inf]', lambda v, p: v.text(p),
               lambda I, o, x: text_segs(I, x), final=True, pre='import math\n', weight=4)


def p_uninet():
    def wire(I, o, x):
        s = text_segs(I, x)
        return net_len(I, total(s)) + s
    return one('unicode[NET]', 'unicode[NET]', lambda v, p: utext(v, p, hi=0x7fff), wire, weight=8,
               pre='from structured.hint_types.strings import NET\n')


# --------------------------------------------------------------- item kinds
class Item:
    """The type of an array item, tuple member, union case..."""

    def __init__(self, label, ann, make, wire, pre='', expect=None):
        self.label, self.ann, self.make, self.wire, self.pre = label, ann, make, wire, pre
        self.expect = expect or (lambda I, x, ns: x)

    def __repr__(self):
        return self.label


def i_int(t):
    ch, w, lo, hi = INTS[t]
    return Item(t, t, lambda v, p, ns: v.int(p, lo, hi), lambda I, o, x, ns: [int_enc(t, o, x)])


def i_float(t):
    ch, w = FLOATS[t]
    return Item(t, t, lambda v, p, ns: v.float(p), lambda I, o, x, ns: [enc(w, o, ch, x)])


def i_bool():
    return Item('bool8', 'bool8', lambda v, p, ns: v.bool(p), lambda I, o, x, ns: [enc(1, o, '?', x)])


def i_char(n):
    return Item(f'char[{n}]', f'char[{n}]', lambda v, p, ns: v.raw(p, n),
                lambda I, o, x, ns: list(B.segs_of(I, x)))


def i_opaque(name='op', lazy=False, leaf=False, num=1, tname='str'):
    """A user-written serializer attached by SerializeAs."""
    opts = ''.join(f', {k}=True' for k, b in (('lazy', lazy), ('leaf', leaf)) if b)
    return Item(f'custom serializer{" (generator)" if lazy else ""}',
                f'Annotated[int, Opaque({name!r}{opts})]',
                lambda v, p, ns: v.any(p),
                lambda I, o, x, ns: [LABSEG(I, name, o, (x,))])


LABSEG = None        # set by install()


def install(lab):
    global LABSEG
    LABSEG = lambda I, name, o, vals: lab.ser_seg(name, o, tuple(vals))


def i_custom(t='int32'):
    """A user type serialized as a basic type, built by its constructor."""
    ch, w, lo, hi = INTS[t]

    def make(v, p, ns):
        return v.lab.I.call(ns['Wrapped'], [v.int(p, lo, hi)])
    return Item('user type as int32', f'Annotated[Wrapped, SerializeAs({t})]', make,
                lambda I, o, x, ns: [int_enc(t, o, I.getattr(x, 'value'))], pre=WRAPPED)


WRAPPED = '''
class Wrapped:
    def __init__(self, value):
        if isinstance(value, Wrapped):
            raise TypeError('wrapped twice')
        self.value = value
    def __index__(self):
        return self.value
    def __eq__(self, other):
        return isinstance(other, Wrapped) and self.value == other.value
    __hash__ = None
'''


def i_tuple(*items):
    def make(v, p, ns):
        return tuple(x.make(v, f'{p}.{i}', ns) for i, x in enumerate(items))

    def wire(I, o, x, ns):
        out = []
        for it, y in zip(items, x):
            out += it.wire(I, o, y, ns)
        return out
    return Item('tuple[' + ', '.join(i.label for i in items) + ']',
                'tuple[' + ', '.join(i.ann for i in items) + ']', make, wire,
                pre=pres(items), expect=lambda I, x, ns: tuple(
                    it.expect(I, y, ns) for it, y in zip(items, x)))


def pres(xs):
    seen = []
    for x in xs:
        if x.pre and x.pre not in seen:
            seen.append(x.pre)
    return ''.join(seen)


def i_struct(name='Inner', order='LE', parts=None):
    """A nested Structured class; order None means the outer byte order (only
    used when it has no byte order of its own to keep)."""
    parts = parts or [p_int('uint8'), p_int('int16')]
    kw = f', byte_order=ByteOrder.{order}' if order else ''
    src = pres(parts) + f'class {name}(Structured{kw}):\n'
    fields = []
    for i, p in enumerate(parts):
        for suf, ann in p.fields:
            n = '_' if suf == '_' else f'{chr(97 + i)}{suf}'
            src += f'    {n}: {ann}\n'
            if n != '_':
                fields.append((p, n))

    def make(v, p, ns):
        vals = []
        for i, q in enumerate(parts):
            vals += q.make(v, f'{p}.{chr(97 + i)}', ns)
        return v.lab.I.call(ns[name], vals)

    def wire(I, o, x, ns):
        o = {'LE': '<', 'BE': '>', 'NETWORK': '!'}[order] if order else o
        out = []
        for i, q in enumerate(parts):
            vals = [I.getattr(x, f'{chr(97 + i)}{suf}') for suf, ann in q.fields if suf != '_']
            out += q.wire(I, o, vals, ns)
        return out
    return Item(f'{name}{"(" + order + ")" if order else ""}', name, make, wire, pre=src)


def as_part(item, label=None):
    return Part(label or item.label, [('', item.ann)],
                lambda v, p, ns: [item.make(v, p, ns)],
                lambda I, o, vals, ns: item.wire(I, o, vals[0], ns), pre=item.pre,
                expect=lambda I, vals, ns: [item.expect(I, vals[0], ns)])


# --------------------------------------------------------------- arrays
def items_of(I, seq):
    if isinstance(seq, SeqV):
        n = I.facts.concrete(seq.length)
        return [seq.elem(i) for i in range(n)], seq.length
    return list(seq.items), len(seq.items)


def p_array(header, item, fixed=None, max_len=None):
    """header: tuple of Header arguments."""
    def make(v, p, ns):
        f = lambda i: item.make(v, f'{p}[{i}]', ns)
        if isinstance(header[0], int):
            return [ListV([f(i) for i in range(header[0])])]
        hi = INTS[header[0]][3]
        return [v.seq(p, f, 0, hi)]

    def wire(I, o, vals, ns):
        xs, n = items_of(I, vals[0])
        body = []
        for x in xs:
            body += item.wire(I, o, x, ns)
        out = []
        if not isinstance(header[0], int):
            out.append(int_enc(header[0], o, n))
        if len(header) > 1:
            out.append(int_enc(header[1], o, total(body)))
        return out + body
    h = ', '.join(map(str, header))
    return Part(f'array[Header[{h}], {item.label}]', [('', f'array[Header[{h}], {item.ann}]')], make, wire,
                pre=item.pre, weight=4,
                expect=lambda I, vals, ns: [expect_list(I, vals[0], item, ns)])


def expect_list(I, seq, item, ns):
    xs, n = items_of(I, seq)
    return ListV([item.expect(I, x, ns) for x in xs])


