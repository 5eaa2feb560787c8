"""Parts whose layout depends on other values (conditions, unions, recursion) and
hand-written classes (inheritance, generics, byte orders) for the generic
obligations."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .layout import BufV, lit, total
from .parts import Item, Part, enc, int_enc
from .terms import Prune, Unsupported, sub
from .values import *


def ann(x):
    return x.ann if isinstance(x, Item) else x.fields[0][1]


def part_item(p):
    """A single-attribute part as an item."""
    return Item(p.label, p.fields[0][1], lambda v, n, ns: p.make(v, n, ns)[0],
                lambda I, o, x, ns: p.wire(I, o, [x], ns), pre=p.pre,
                expect=lambda I, x, ns: p.expect(I, [x], ns)[0])


def tagvalue(v, p, default, name='t'):
    """An unknown tag; objects that only serve as a backdrop (y...: other object,
    z...: object to be filled) have a fixed one to keep the partitions few."""
    if p[0] in 'yz':
        return default[p[0] == 'z']
    return v.int(p + name, 0, 255)


# ----------------------------------------------------------------- conditions
def p_cond(item, default, dval, test='o.$c > 4', hint='{}'):
    """A flag byte and a field present when the flag is above 4."""
    a = f'Annotated[{item.ann}, Condition(lambda o: {test}, {default})]'

    def make(v, p, ns):
        c = tagvalue(v, p, (9, 1), 'c')
        if v.lab.I.facts.ge0(sub(c, 5)):
            return [c, item.make(v, p, ns)]
        if '.' in p or '[' in p:      # in a nested object: as it will be unpacked
            return [c, dval() if callable(dval) else dval]
        return [c, item.make(v, p + '(unused)', ns)]

    def wire(I, o, vals, ns):
        c, x = vals
        out = [enc(1, '-', 'B', c)]
        if I.facts.ge0(sub(c, 5)):
            out += item.wire(I, o, x, ns)
        return out

    def expect(I, vals, ns):
        c, x = vals
        return [c, item.expect(I, x, ns) if I.facts.ge0(sub(c, 5)) else dval() if callable(dval) else dval]
    return Part(f'conditional {item.label}', [('c', 'uint8'), ('', hint.format(a))], make, wire,
                pre=item.pre, expect=expect, weight=4)


# --------------------------------------------------------------------- unions
def pick(I, t, keys):
    """Which key the tag equals, or None: one trace partition each."""
    for k in keys:
        if I.facts.eq0(sub(t, k)):
            return k
    return None


def p_union(cases, default=None, fn='lambda o: o.$t', hint='{}'):
    items = list(cases.values()) + ([default] if default else [])
    u = ', '.join(i.ann for i in items)
    cs = ', '.join(f'{k}: {i.ann}' for k, i in cases.items())
    a = f'Annotated[Union[{u}], LookbackDecider({fn}, {{{cs}}}, {default.ann if default else None})]'
    keys = list(cases)

    def which(I, t):
        k = pick(I, t, keys)
        return cases[k] if k is not None else default

    def make(v, p, ns):
        t = tagvalue(v, p, (keys[0], keys[1] if default is None else 200))
        it = which(v.lab.I, t)
        if it is None:
            raise Prune
        return [t, it.make(v, p, ns)]
    return Part('union of ' + ', '.join(i.label for i in items), [('t', 'uint8'), ('', hint.format(a))], make,
                lambda I, o, vals, ns: [enc(1, '-', 'B', vals[0])] + which(I, vals[0]).wire(I, o, vals[1], ns),
                pre=P.pres(items),
                expect=lambda I, vals, ns: [vals[0], which(I, vals[0]).expect(I, vals[1], ns)], weight=4)


def i_const(item, val):
    """An item holding one particular value."""
    return Item(f'{item.label}={val!r}', item.ann, lambda v, p, ns: val, item.wire, pre=item.pre)


def p_ahead(read, keys, cases, default=None, others=None, ro=None):
    """Look-ahead union of tuples that start with the value read ahead.

    read: item read ahead; keys: concrete first values; cases: list of items (the
    rest of the tuple) per key; default likewise with `others` as its first value."""
    tup = [P.i_tuple(i_const(read, k), *rest) for k, rest in zip(keys, cases)]
    d = P.i_tuple(i_const(read, others), *default) if default is not None else None
    allt = tup + ([d] if d else [])
    a = (f'Annotated[Union[{", ".join(t.ann for t in allt)}], LookaheadDecider({read.ann}, lambda o: o.$[0], '
         f'{{{", ".join(f"{k!r}: {t.ann}" for k, t in zip(keys, tup))}}}, {d.ann if d else None})]')

    def make(v, p, ns):
        n = v.int(p + '.case', 0, len(allt) - 1) if p[0] not in 'yz' else min(1, len(allt) - 1)
        i = pick(v.lab.I, n, range(len(allt)))
        return [allt[i].make(v, p, ns)]

    def which(I, x):
        for k, t in zip(keys, tup):
            if x[0] is k or (type(x[0]) is type(k) and x[0] == k):
                return t
        return d
    return Part(f'union reading {read.label} ahead', [('', a)], make,
                lambda I, o, vals, ns: which(I, vals[0]).wire(I, o, vals[0], ns), pre=P.pres(allt),
                expect=lambda I, vals, ns: [which(I, vals[0]).expect(I, vals[0], ns)], weight=3)


# ------------------------------------------------------------------ recursion
def p_self(parts, wrap='list', depth=1, count='uint8', name='Subj', order='LE'):
    """A field of the class itself; `parts` is the list of all parts of the class
    (this one included, filled in later)."""
    def values(v, p, ns, d):
        out = []
        for i, q in enumerate(parts):
            out += q.deep(v, f'{p}.{i}', ns, d) if hasattr(q, 'deep') else q.make(v, f'{p}.{i}', ns)
        return out

    def obj(v, p, ns, d):
        return v.lab.I.call(ns[name], values(v, p, ns, d))

    def wire_obj(I, o, x, ns):
        out, o = [], X.SYM[order]      # a nested object keeps the order of its class
        for i, q in enumerate(parts):
            out += q.wire(I, o, [I.getattr(x, n) for n in attr_names(q, i)], ns)
        return out

    if wrap == 'list':
        a = f'array[Header[{count}], Self]'

        def deep(v, p, ns, d):
            if not d:
                return [ListV([])]
            return [v.seq(p, lambda i: obj(v, f'{p}[{i}]', ns, d - 1), 0, P.INTS[count][3])]

        def wire(I, o, vals, ns):
            xs, n = P.items_of(I, vals[0])
            out = [int_enc(count, o, n)]
            for x in xs:
                out += wire_obj(I, o, x, ns)
            return out

        def expect(I, vals, ns):
            xs, n = P.items_of(I, vals[0])
            return [ListV(xs)]
        fields = [('', a)]
    elif wrap == 'cond':
        fields = [('c', 'uint8'), ('', 'Annotated[Self, Condition(lambda o: o.$c > 4, None)]')]

        def deep(v, p, ns, d):
            c = tagvalue(v, p, (1, 1) if not d else (9, 1), 'c')
            if not d:
                v.lab.I.facts.assume_ge0(sub(4, c))
                return [c, None]
            if v.lab.I.facts.ge0(sub(c, 5)):
                return [c, obj(v, p, ns, d - 1)]
            return [c, None]

        def wire(I, o, vals, ns):
            out = [enc(1, '-', 'B', vals[0])]
            if vals[1] is not None:
                out += wire_obj(I, o, vals[1], ns)
            return out

        def expect(I, vals, ns):
            return vals
    elif wrap == 'tuple':
        fields = [('c', 'uint8'), ('', 'Annotated[tuple[int16, Self], Condition(lambda o: o.$c > 4, None)]')]

        def deep(v, p, ns, d):
            c = tagvalue(v, p, (1, 1) if not d else (9, 1), 'c')
            if not d:
                v.lab.I.facts.assume_ge0(sub(4, c))
                return [c, None]
            if v.lab.I.facts.ge0(sub(c, 5)):
                return [c, (v.int(p + 'n', -2**15, 2**15 - 1), obj(v, p, ns, d - 1))]
            return [c, None]

        def wire(I, o, vals, ns):
            out = [enc(1, '-', 'B', vals[0])]
            if vals[1] is not None:
                out += [int_enc('int16', o, vals[1][0])] + wire_obj(I, o, vals[1][1], ns)
            return out

        def expect(I, vals, ns):
            return vals
    elif wrap == 'union':
        fields = [('t', 'uint8'),
                  ('', 'Annotated[Union[int16, Self], LookbackDecider(lambda o: o.$t, {1: Self, 2: int16}, None)]')]

        def deep(v, p, ns, d):
            if d and v.lab.I.facts.eq0(sub(tagvalue(v, p, (1, 2)), 1)):
                return [1, obj(v, p, ns, d - 1)]
            return [2, v.int(p, -2**15, 2**15 - 1)]

        def wire(I, o, vals, ns):
            out = [enc(1, '-', 'B', vals[0])]
            if I.facts.eq0(sub(vals[0], 1)):
                return out + wire_obj(I, o, vals[1], ns)
            return out + [int_enc('int16', o, vals[1])]

        def expect(I, vals, ns):
            return vals
    part = Part(f'self in {wrap}', fields, lambda v, p, ns: deep(v, p, ns, depth), wire, expect=expect)
    part.deep = deep
    return part


def attr_names(part, i):
    return [f'f{i}{suf}' for suf, _ in part.fields if suf != '_']


def self_subject(label, before, wrap, after, order, depth=1, tags='C09'):
    parts = []
    parts += before
    parts.append(p_self(parts, wrap, depth, order=order))
    parts += after
    s = X.Subject(label, parts, order)
    s.tags = tags
    return s


# -------------------------------------------------------------------- subjects
def conditions(tier):
    out = []
    I = suites.ITEMS
    table = [
        ('int', P.i_int('int16'), '7', 7), ('float', P.i_float('float32'), '1.5', 1.5),
        ('char', P.i_char(3), "b'abc'", lambda: lit_bytes(b'abc')),
        ('dynchar', part_item(P.p_dynchar('uint16')), "b'xy'", lambda: lit_bytes(b'xy')),
        ('unicode', part_item(P.p_unidyn('uint8')), "'none'", 'none'),
        ('terminated', part_item(P.p_term()), "b''", lambda: lit_bytes(b'')),
        ('array', part_item(P.p_array(('uint8',), P.i_int('int16'))), '[1, 2]', lambda: ListV([1, 2])),
        ('array of opaque', part_item(P.p_array(('uint16', 'uint32'), P.i_opaque())), '[]', lambda: ListV([])),
        ('opaque', P.i_opaque(), 'None', None), ('lazy', P.i_opaque(lazy=True), '(3,)', (3,)),
        ('tuple', P.i_tuple(P.i_int('uint8'), P.i_int('int32')), '(0, 0)', (0, 0)),
        ('struct', P.i_struct(order='BE'), 'None', None),
        ('custom', P.i_custom(), 'None', None),
        ('tuple of opaque', P.i_tuple(P.i_opaque(), P.i_int('int16')), '()', ()),
    ]
    for label, item, d, dv in table:
        for o in ('LE', 'BE') if tier == 'thorough' or label in ('int', 'opaque', 'dynchar', 'tuple') else ('BE',):
            p = p_cond(item, d, dv)
            s = X.Subject(f'condition on {label}, {o}', [P.p_int('int16'), p, P.p_int('uint32')], o)
            s.tags = 'C18 C08'
            out.append(s)
    s = X.Subject('condition alone', [p_cond(P.i_int('int32'), '0', 0)], 'LE')
    s.tags = 'C18'
    out.append(s)
    s = X.Subject('two conditions', [p_cond(P.i_int('int32'), '1', 1), p_cond(P.i_opaque(), '2', 2)], 'BE')
    s.tags = 'C18 C08'
    out.append(s)
    # a condition on a union, a union of conditional cases
    u = P.i_int('int32')
    for o in ('LE', 'BE'):
        inner = Item('union', 'Annotated[Union[int16, int32], LookbackDecider(lambda o: o.f0, {1: int16}, int32)]',
                     lambda v, p, ns: None, None)
        s = X.Subject(f'condition on a union, {o}',
                      [P.p_int('uint8'), cond_union()], o)
        s.tags = 'C17 C18 C08'
        out.append(s)
    rest = part_item(P.p_rest())
    s = X.Subject('condition on the rest', [p_cond(rest, "b'd'", lambda: lit_bytes(b'd'))], 'LE')
    s.parts[0].final = True
    s.tags = 'C18 C10'
    out.append(s)
    return out


def lit_bytes(b):
    return b


def cond_union():
    """A union under a condition, both deciding on earlier fields (f0)."""
    a = ('Annotated[Union[int16, int32], LookbackDecider(lambda o: o.$t, {1: int16}, int32), '
         'Condition(lambda o: o.$c > 4, -1)]')

    def make(v, p, ns):
        c, t = tagvalue(v, p, (9, 1), 'c'), tagvalue(v, p, (1, 2))
        I = v.lab.I
        if I.facts.ge0(sub(c, 5)):
            if I.facts.eq0(sub(t, 1)):
                return [c, t, v.int(p, -2**15, 2**15 - 1)]
            return [c, t, v.int(p, -2**31, 2**31 - 1)]
        return [c, t, None]

    def wire(I, o, vals, ns):
        c, t, x = vals
        out = [enc(1, '-', 'B', c), enc(1, '-', 'B', t)]
        if I.facts.ge0(sub(c, 5)):
            out.append(int_enc('int16' if I.facts.eq0(sub(t, 1)) else 'int32', o, x))
        return out

    def expect(I, vals, ns):
        return vals if I.facts.ge0(sub(vals[0], 5)) else [vals[0], vals[1], -1]
    return Part('conditional union', [('c', 'uint8'), ('t', 'uint8'), ('', a)], make, wire, expect=expect)


def unions(tier):
    out = []
    dyn = part_item(P.p_dynchar('uint16'))
    cases = [
        ('numbers', {1: P.i_int('int16'), 2: P.i_float('float64')}, None),
        ('numbers with default', {0: P.i_int('uint8'), 7: P.i_int('int64')}, P.i_int('int32')),
        ('strings', {1: dyn, 2: part_item(P.p_term())}, part_item(P.p_unidyn('uint8'))),
        ('opaque', {1: P.i_opaque('oa'), 2: P.i_opaque('ob', lazy=True)}, P.i_opaque('oc', lazy=True)),
        ('containers', {1: P.i_tuple(P.i_int('int16'), P.i_opaque()),
                        2: part_item(P.p_array(('uint8', 'uint16'), P.i_opaque()))}, P.i_struct(order='BE')),
        ('arrays', {3: part_item(P.p_array(('uint16',), P.i_int('int32'))),
                    4: part_item(P.p_array((2,), P.i_int('int16')))}, None),
    ]
    for label, cs, d in cases:
        for o in ('LE', 'BE'):
            s = X.Subject(f'union of {label}, {o}', [P.p_int('int16'), p_union(cs, d), P.p_int('uint32')], o)
            s.tags = 'C17 C08'
            out.append(s)
    s = X.Subject('union alone, BE', [p_union(cases[2][1], cases[2][2])], 'BE')
    s.tags = 'C17'
    out.append(s)
    two = [p_union(cases[0][1]), p_union(cases[3][1], cases[3][2])]
    s = X.Subject('two unions, LE', two, 'LE')
    s.tags = 'C17 C08'
    out.append(s)
    i16 = P.i_int('int16')
    ahead = [
        ('uint8', P.i_int('uint8'), [1, 2], [[P.i_int('int32')], [dyn]], [P.i_bool()], 9),
        ('uint16', P.i_int('uint16'), [258, 772], [[P.i_int('int32')], []], None, None),
        ('char', P.i_char(2), [b'AB', b'CD'], [[i16], [P.i_opaque()]], [P.i_opaque(lazy=True)], b'XX'),
        ('dynchar', dyn, [b'', b'abc'], [[i16], [P.i_opaque()]], [P.i_int('int8')], b'zz'),
        ('opaque', P.i_opaque('ra'), [1, 2], [[i16], [P.i_opaque('rb')]], [], 3),
        ('lazy', P.i_opaque('ra', lazy=True), [1, 2], [[i16], [P.i_opaque('rb')]], None, None),
        ('terminated', part_item(P.p_term()), [b'', b'abc'], [[i16], [P.i_opaque()]], [P.i_int('int8')], b'zz'),
    ]
    for label, read, keys, cs, d, oth in ahead:
        for o in ('LE', 'BE'):
            s = X.Subject(f'union reading {label} ahead, {o}',
                          [P.p_int('int16'), p_ahead(read, keys, cs, d, oth), P.p_int('uint32')], o)
            s.tags = 'C17'
            out.append(s)
        if tier == 'thorough':
            s = X.Subject(f'union reading {label} ahead, alone', [p_ahead(read, keys, cs, d, oth)], 'BE')
            s.tags = 'C17'
            out.append(s)
    s = X.Subject('union with an unbounded case', [p_union({1: P.i_int('int16')}, part_item(P.p_rest()))], 'LE')
    s.parts[0].final = True
    s.tags = 'C17 C10'
    out.append(s)
    return out


def recursion(tier):
    out = []
    for o in ('LE', 'BE'):
        out.append(self_subject(f'self in an array, {o}', [P.p_int('uint8')], 'list', [P.p_int('int16')], o))
        out.append(self_subject(f'self under a condition, {o}', [P.p_int('int16')], 'cond', [P.p_int('uint8')], o, 2))
        out.append(self_subject(f'self in a tuple, {o}', [P.p_opaque() if hasattr(P, 'p_opaque') else P.as_part(P.i_opaque())],
                                'tuple', [P.p_int('int16')], o))
        out.append(self_subject(f'self in a union, {o}', [P.p_int('int16')], 'union', [P.as_part(P.i_opaque())], o, 2 if tier == 'thorough' else 1))
    out.append(self_subject('self in an array, last', [p_union({1: P.i_int('int16'), 2: P.i_opaque()})], 'list', [], 'LE'))
    out.append(self_subject('self under a condition, with a conditional after', [P.p_int('uint8')], 'cond',
                            [p_cond(P.i_int('int32'), '0', 0)], 'BE', 2))
    out.append(self_subject('self in an array, conditional after', [P.p_int('uint8')], 'list',
                            [p_cond(P.i_opaque(), '0', 0)], 'BE', 1))
    return out


suites.SPECIAL += [conditions, unions, recursion]
