"""C16: combining serializers and their formats."""
from __future__ import annotations

import re

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from .layout import BufV, total
from .shapes import part_item
from .suites import case
from .terms import add
from .values import *

HEAD = P.WRAPPED + '''
from structured.serializers import *
from structured.serializers import Serializer, StructSerializer as S, StructActionSerializer as A, NullSerializer, CompoundSerializer
from structured.serializers.structs import fold_overlaps
from structured.type_checking import annotated
def tr(hint):
    return annotated.transform(hint)
class Blank:
    pass
def add(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = out + x
    return out
'''


def custom(t):
    return P.as_part(P.i_custom(t))


# label -> (expression, parts)
KINDS = {
    'h': ("S('h')", [P.p_int('int16')]),
    'B': ("S('B')", [P.p_int('uint8')]),
    '2h': ("S('2h')", [P.p_int('int16'), P.p_int('int16')]),
    'hBh': ("S('hBh')", [P.p_int('int16'), P.p_int('uint8'), P.p_int('int16')]),
    '?': ("S('?')", [P.p_bool()]),
    'd': ("S('d')", [P.p_float('float64')]),
    's': ("S('s')", [P.p_char(1)]),
    '3s': ("S('3s')", [P.p_char(3)]),
    '0s': ("S('0s')", [P.p_char(0)]),
    '2s3s': ("S('2s3s')", [P.p_char(2), P.p_char(3)]),
    '5p': ("S('5p')", [P.p_pascal(5)]),
    'x': ("S('x')", [P.p_pad(1)]),
    'hx': ("S('hx')", [P.p_int('int16'), P.p_pad(1)]),
    '2x': ("S('2x')", [P.p_pad(2)]),
    'xh': ("S('xh')", [P.p_pad(1), P.p_int('int16')]),
    'action h': ("A('h', actions=(Wrapped,))", [custom('int16')]),
    'action 2h': ("A('2h', actions=(Wrapped, Wrapped))", [custom('int16'), custom('int16')]),
    'action on first': ("A('hh', actions=(Wrapped,))", [custom('int16'), P.p_int('int16')]),
    'action xh': ("A('xh', actions=(Wrapped,))", [P.p_pad(1), custom('int16')]),
    'action hx': ("A('hx', actions=(Wrapped,))", [custom('int16'), P.p_pad(1)]),
    'SerializeAs': ('tr(Annotated[Wrapped, SerializeAs(int16)])', [custom('int16')]),
    'dynamic': ('tr(char[uint16])', [P.p_dynchar('uint16')]),
    'terminated': ("tr(char[b'|'])", [P.p_term(b'|')]),
    'opaque': ("Opaque('q')", [P.as_part(P.i_opaque('q'))]),
    'lazy opaque': ("Opaque('r', lazy=True)", [P.as_part(P.i_opaque('r', lazy=True))]),
    'tuple': ('tr(tuple[uint8, int16])', [P.as_part(P.i_tuple(P.i_int('uint8'), P.i_int('int16')))]),
    'array': ('tr(array[Header[uint8], int16])', [P.p_array(('uint8',), P.i_int('int16'))]),
    'condition': ('tr(Annotated[int16, Condition(lambda o: True, 0)])', [P.p_int('int16')]),
    'compound': ("(S('h') + Opaque('q') + S('h'))", [P.p_int('int16'), P.as_part(P.i_opaque('q')), P.p_int('int16')]),
    'compound of action': ("(Opaque('q') + A('h', actions=(Wrapped,)))", [P.as_part(P.i_opaque('q')), custom('int16')]),
    'null': ('NullSerializer()', []),
    '': ("S('')", []),
}
STRUCTY = [k for k, (e, _) in KINDS.items() if e[:2] in ('S(', 'A(') or k in ('SerializeAs', 'null')]


class Sum:
    """A sum of serializers, as a subject."""

    def __init__(self, kinds, expr, order):
        self.kinds, self.expr, self.order = kinds, expr, order
        self.parts = [p for k in kinds for p in KINDS[k][1]]
        self.names = []

    def values(self, v, tag, ns):
        out, self.slots = [], []
        for i, p in enumerate(self.parts):
            vs = p.make(v, f'{tag}{i}', ns)
            self.slots.append((p, len(vs)))
            out += vs
        return out

    def split(self, vals):
        k = 0
        for p, n in self.slots:
            yield p, vals[k:k + n]
            k += n

    def wire(self, I, vals, ns):
        out = []
        for p, vs in self.split(vals):
            out += p.wire(I, X.SYM[self.order], vs, ns)
        return out

    def expect(self, I, vals, ns):
        out = []
        for p, vs in self.split(vals):
            out += p.expect(I, vs, ns)
        return out


def use(t, s, ser, m, vals, tag, prop='C16'):
    """A serializer behaves as its items, one after the other."""
    I, v = t.I, t.v
    want = s.wire(I, vals, m.ns)
    w = total(want)
    blank = I.call(m.ns['Blank'], [])
    n = t.attempt(I.getattr, ser, 'num_values')
    if n.ok:
        t.check(prop + ' C11', f'{tag} takes the values of all its items', n.value == len(vals), f'{n.value}, not {len(vals)}')
    off = v.int('pre.len', 0)
    for route in ('pack', 'pack_write', 'pack_into'):
        p = t.call(ser, 'prepack', blank)
        if not t.check(prop, f'{tag} can be prepared', True if p.ok else X.verdict_of(p), p.text()):
            return
        if route == 'pack':
            g = t.call(p.value, 'pack', *vals)
            got = g.ok and B.segs_of(I, g.value)
        elif route == 'pack_write':
            st = X.stream([('raw', off, 'pre', 0)], [], [])
            g = t.call(p.value, 'pack_write', st, *vals)
            got = st.segs
        else:
            buf = BufV('bytearray', [('raw', off, 'pre', 0), ('raw', w, 'old', 0)])
            g = t.call(p.value, 'pack_into', buf, off, *vals)
            got = buf.segs
        if not t.check(prop, f'{tag} packs the values of its items by {route}', True if g.ok else X.verdict_of(g), g.text()):
            continue
        exp = want if route == 'pack' else [('raw', off, 'pre', 0)] + want
        r, d = t.same_bytes(exp, got)
        t.check(prop, f'{route} of {tag} gives the bytes of the items in order', r,
                d and f'{d}; expected: {t.show(exp)}; got: {t.show(got)}')
        z = t.attempt(I.getattr, p.value, 'size')
        if z.ok:
            t.check(prop + ' C01', f'the size of {tag} after {route} is that of all items',
                    I.facts.same(z.value, w) if not isinstance(z.value, (Sym, UnkV)) else None, f'{z.value!r}, not {I.facts.norm(w)}')
    exp = s.expect(I, vals, m.ns)
    for route in ('unpack', 'unpack_from', 'unpack_read'):
        p = t.call(ser, 'preunpack', blank)
        if not p.ok:
            continue
        suf = [('raw', 3, 'post', 0)]
        pre = [('raw', off, 'pre', 0)]
        if route == 'unpack':
            g = t.call(p.value, 'unpack', B.make(I, want + suf))
        elif route == 'unpack_from':
            g = t.call(p.value, 'unpack_from', B.make(I, pre + want + suf), off)
        else:
            g = t.call(p.value, 'unpack_read', X.stream(pre, want, suf))
        if g.ok:
            g = t.attempt(lambda it: tuple(I.iterate(it)), g.value)
        if not t.check(prop, f'{tag} unpacks its items by {route}', True if g.ok else X.verdict_of(g), g.text()):
            continue
        t.check(prop + ' C11', f'{route} of {tag} gives one value per item', len(g.value) == len(exp),
                f'{len(g.value)} values, not {len(exp)}')
        if len(g.value) == len(exp):
            r, d = X.values_equal(t, [f'value {i}' for i in range(len(exp))], exp, g.value)
            t.check(prop, f'{route} of {tag} gives the values of the items in order', r, d)


def combination(t, m, kinds, i):
    """All ways of adding up some serializers."""
    I, v = t.I, t.v
    ns = m.ns
    for order in ('LE', 'BE'):
        bo = I.getattr(ns['ByteOrder'], order)
        s = Sum(kinds, '', order)
        vals = s.values(v, 'x', ns)
        ways = {'the sum': ns[f'whole{i}_{order}']}
        w = t.attempt(I.call_method, ns[f'sum{i}'], 'with_byte_order', [bo], {})
        if w.ok:
            ways['the sum, then switched'] = w.value
        else:
            t.check('C16 C07', 'a sum can be switched to a byte order', X.verdict_of(w), w.text())
        if len(kinds) > 2:
            ways['the sum grouped to the right'] = ns[f'right{i}_{order}']
        for tag, ser in ways.items():
            use(t, s, ser, m, vals, tag)
    # the serializers added up are as before
    for j, k in enumerate(kinds):
        s1 = Sum([k], '', 'BE')
        vals = s1.values(v, f'z{j}.', ns)
        use(t, s1, ns[f'part{i}_{j}'], m, vals, f'item {j + 1} after it was added', 'C16 C23')


def module(combos):
    src = HEAD
    for i, kinds in enumerate(combos):
        for o in ('LE', 'BE'):
            ps = [f'{KINDS[k][0]}.with_byte_order(ByteOrder.{o})' for k in kinds]
            src += f'whole{i}_{o} = add({", ".join(ps)})\n'
            if len(ps) > 2:
                src += f'right{i}_{o} = {ps[0]} + ({" + ".join(ps[1:])})\n'
        src += f'sum{i} = add({", ".join(KINDS[k][0] for k in kinds)})\n'
        for j, k in enumerate(kinds):
            src += f'part{i}_{j} = {KINDS[k][0]}.with_byte_order(ByteOrder.BE)\n'
        src += f'add({", ".join(f"part{i}_{j}" for j in range(len(kinds)))})\n'
    return src


def run_combos(bench, combos):
    for kinds in combos:
        label = ' + '.join(kinds)
        g = X.load_any(bench, module([kinds]))
        bench.record('C16', label, 'serializers can be added', True if g.ok else None if g.kind == 'undecided' else False,
                     '' if g.ok else g.text(), 'definition')
        if g.ok:
            bench.explore(label, lambda t: combination(t, g.value, kinds, 0), limit=120)


TRIPLES = [
    ('3s', '3s', '3s'), ('h', 'h', 'h'), ('h', 'action h', 'h'), ('action h', 'h', 'action h'), ('h', 's', 's'),
    ('x', 'x', 'x'), ('h', '2x', 'h'), ('h', 'opaque', 'h'), ('opaque', 'h', 'opaque'), ('h', 'null', 'h'),
    ('opaque', 'opaque', 'lazy opaque'), ('compound', 'h', 'compound'), ('compound', 'compound', 'compound'),
    ('action h', 'opaque', 'action h'), ('compound of action', 'h', 'h'), ('dynamic', 'dynamic', 'h'),
    ('2h', 'action on first', '2h'), ('5p', '5p', 's'), ('tuple', 'h', 'tuple'), ('x', 'action xh', 'action hx'),
    ('condition', 'condition', 'h'), ('null', 'null', 'h'), ('0s', '0s', '0s'), ('action h', 'action h', 'action 2h'),
    ('h', 'action on first', 'action xh'), ('hBh', 'hBh', 'action h'), ('d', '?', '?'),
    ('h', 'SerializeAs', 'SerializeAs'), ('s', 'terminated', 's'), ('array', '2h', 'array'),
    ('lazy opaque', 'compound of action', 'action 2h'), ('2s3s', '3s', '2s3s'),
]


def register():
    keys = list(KINDS)
    for a in keys:
        quick = [b for b in keys if b in STRUCTY and a in STRUCTY or (a in ('opaque', 'compound', 'action h', 'null', 'h', 'condition')
                 and b in ('opaque', 'lazy opaque', 'compound', 'compound of action', 'h', 'action h', 'null', 'dynamic', 'tuple'))]
        rest = [b for b in keys if b not in quick]
        half = (len(quick) + 1) // 2
        for part in (quick[:half], quick[half:]):
            if not part:
                continue
            case('C16', 'quick', f'sum {a} + ({part[0]}..)')(
                lambda bench, a=a, part=part: run_combos(bench, [(a, b) for b in part]))
        case('C16', 'thorough', f'sum {a} + all others')(
            lambda bench, a=a, rest=rest: run_combos(bench, [(a, b) for b in rest]))
    for i in range(0, len(TRIPLES), 4):
        case('C16', 'quick', f'sum of three, {i}')(lambda bench, c=TRIPLES[i:i + 4]: run_combos(bench, c))


register()


# ------------------------------------------------------------ formats
def expand(fmt):
    """The items of a format string."""
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        k = int(n) if n else 1
        out += [(c, k)] if c in 'sp' else [(c, 1)] * k
    return out


FORMATS = ['', 'h', '2h', '9h', '10h', '99h', 'H', 'b', 'B', '3B', '?', '2?', 'q', 'e', 'd', 'x', '2x', '9x', 's', '3s', '0s', '9s',
           'p', '5p', 'hB', 'Bh', '2h3s', '3s2h', 'h2x', '2xh', 'hx', 's3s', '3s5p', '5ps', 'hhB', 'xsx', 'f', 'd2d', 'c', '2c',
           'i', 'I', 'l', 'L', 'Q', 'n', 'N', 'P', '0h', '0x', 'h0s', '10s', '255s', '100B']


@case('C16', 'quick', 'formats combined')
def formats(bench):
    g = X.load_any(bench, HEAD)
    if not g.ok:
        bench.record('C16', 'formats', 'formats can be combined', X.verdict_of(g), g.text(), '')
        return
    ns = g.value.ns

    def go(t):
        for a in FORMATS:
            for b in FORMATS:
                r = t.attempt(t.I.call, ns['fold_overlaps'], [a, b])
                ok = r.ok and isinstance(r.value, str) and expand(r.value) == expand(a) + expand(b)
                t.check('C16', f'combining {a!r} keeps all items', True if ok else X.verdict_of(r) if not r.ok else False,
                        f'{a!r} and {b!r} give {r.text()}')
    bench.explore('formats', go)


@case('C16', 'quick', 'multiples of serializers')
def multiples(bench):
    rows = []
    for a in ('h', '2h', 'hB', 's', '3s', '5p', 'x', '2x', 'hx', 'xh', '3sh', 'Bh2x', 'sxs'):
        for k in (1, 2, 3, 4, 7, 10, 11):
            rows.append((f"S('{a}') * {k}", expand(a) * k))
            rows.append((f"S('{a}', ByteOrder.BE) * {k}", expand(a) * k))
    for k in (0, 1, 2, 9, 10, 255):
        rows.append((f"S('s') @ {k}", [('s', k)]))
        rows.append((f"S('x') @ {k}", [('x', 1)] * k))
        if k:
            rows.append((f"S('p') @ {k}", [('p', k)]))
    for e, want in rows:
        g = X.load_any(bench, HEAD + f'r = {e}\nfmt = r.format\nn = r.num_values\nbo = r.byte_order\nsize = r.size\n')
        rule = 'a multiple of a serializer has as many copies of its items'
        if not g.ok:
            bench.record('C16', e, rule, X.verdict_of(g), g.text(), '')
            continue
        ns = g.value.ns
        fmt = ns['fmt']
        ok = isinstance(fmt, str) and expand(fmt.lstrip('@=<>!')) == want
        bench.record('C16', e, rule, ok if isinstance(fmt, str) else None, f'format {fmt!r}', '')
        nv = sum(1 for c, _ in want if c != 'x')
        bench.record('C11', e, 'a multiple takes as many values as it has items', ns['n'] == nv, f'{ns["n"]} values', '')
        o = '>' if 'BE' in e else ''
        bench.record('C16', e, 'a multiple keeps the byte order', fmt[:1] == o if o else fmt[:1] not in '@=<>!' or fmt == '', f'{fmt!r}', '')
    for e in ("S('h') * -1", "S('s') @ -1", "S('p') @ 0"):
        g = X.load_any(bench, HEAD + f'r = {e}\n')
        bench.record('C16', e, 'a meaningless multiple is refused', None if g.kind == 'undecided' else not g.ok, g.text(), '')
    for e, acts in (("A('h', actions=(Wrapped,)) * 3", 'WWW'), ("A('hh', actions=(Wrapped,)) * 2", 'W-W-'),
                    ("A('xh', actions=(Wrapped,)) * 2", 'WW'), ("S('h') + A('h', actions=(Wrapped,)) * 2", '-WW'),
                    ("A('h', actions=(Wrapped,)) * 2 + S('h')", 'WW-'), ("A('h', actions=(Wrapped,)) * 1 + S('h') * 2", 'W--'),
                    ("(A('h', actions=(Wrapped,)) * 2).with_byte_order(ByteOrder.BE)", 'WW')):
        src = HEAD + f'r = {e}\nvals = tuple(r.unpack(bytes(r.size)))\nkinds = "".join("W" if isinstance(v, Wrapped) else "-" for v in vals)\n'
        g = X.load_any(bench, src)
        bench.record('C16', e, 'conversions stay with their items in a multiple', True if g.ok and g.value.ns['kinds'] == acts else
                     X.verdict_of(g) if not g.ok else False, g.text() if not g.ok else g.value.ns['kinds'], '')


ORDERS = ('DEFAULT', 'LE', 'BE', 'NETWORK', 'NATIVE_NATIVE', 'NATIVE_STANDARD')


@case('C16', 'quick', 'sums of different byte orders')
def orders(bench):
    forms = {
        'numbers': ("S('h', ByteOrder.{0})", "S('h', ByteOrder.{1})"),
        'different numbers': ("S('h', ByteOrder.{0})", "S('B', ByteOrder.{1})"),
        'number and action': ("S('h', ByteOrder.{0})", "A('h', ByteOrder.{1}, (Wrapped,))"),
        'action and number': ("A('h', ByteOrder.{0}, (Wrapped,))", "S('d', ByteOrder.{1})"),
        'actions': ("A('h', ByteOrder.{0}, (Wrapped,))", "A('h', ByteOrder.{1}, (Wrapped,))"),
        'strings': ("S('3s', ByteOrder.{0})", "S('3s', ByteOrder.{1})"),
        'compound and number': ("(Opaque('q') + S('h', ByteOrder.{0}))", "S('h', ByteOrder.{1})"),
        'number and compound': ("S('h', ByteOrder.{0})", "(S('h', ByteOrder.{1}) + Opaque('q'))"),
        'compounds': ("(Opaque('q') + S('h', ByteOrder.{0}))", "(S('h', ByteOrder.{1}) + Opaque('q'))"),
    }
    for f, (l, r) in forms.items():
        for i, a in enumerate(ORDERS):
            for b in ORDERS:
                e = f'{l.format(a, b)} + {r.format(a, b)}'
                g = X.load_any(bench, HEAD + f'r = {e}\n')
                if a == b:
                    bench.record('C16', f, 'serializers of the same byte order can be added',
                                 True if g.ok else X.verdict_of(g), g.text() if not g.ok else '', e)
                else:
                    bench.record('C16', f, 'adding serializers of different byte orders is refused',
                                 None if g.kind == 'undecided' else not g.ok, f'{e} accepted', e)


@case('C16', 'quick', 'sums with items no byte order matters for')
def orderless(bench):
    """Whether such sums are accepted is open; where they are, the other items keep their order."""
    for e in ('', 'x', '0s', '3s', 'B', 'null'):
        for r in ('h', 'action h', 'd', 'compound'):
            for a, b in (('LE', 'BE'), ('BE', 'LE'), ('DEFAULT', 'BE'), ('BE', 'BE')):
                for kinds in ((e, r), (r, e)):
                    ex = [f'{KINDS[k][0]}.with_byte_order(ByteOrder.{a if k == e else b})' for k in kinds]
                    src = ' + '.join(ex)
                    g = X.load_any(bench, HEAD + f'r = {src}\n')
                    if not g.ok:
                        ok = None if g.kind == 'undecided' else a != b
                        bench.record('C16', src, 'such a sum is built, or refused where byte orders differ', ok, g.text(), '')
                        continue
                    s = Sum(kinds, '', b)
                    bench.explore(src, lambda t: use(t, s, g.value.ns['r'], g.value, s.values(t.v, 'x', g.value.ns), src), limit=60)
