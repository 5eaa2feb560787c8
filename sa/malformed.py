"""C12-C15: malformed arrays, unterminated and .NET strings, stream chunking."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import parts as P
from . import suites
from .layout import BufV, lit, normalise, total
from .parts import enc, int_enc
from .shapes import part_item
from .suites import case
from .terms import add, sub
from .values import *

PACKS = ('pack', 'pack_write', 'pack_into')
UNPACKS = ('create_unpack', 'create_unpack_from', 'create_unpack_read', 'unpack', 'unpack_from', 'unpack_read')


def do_pack(t, obj, route, room=None):
    """Result of one packing route, as (Got, segments)."""
    I = t.I
    if route == 'pack':
        g = t.call(obj, 'pack')
        return g, (list(B.segs_of(I, g.value)) if g.ok else None)
    if route == 'pack_write':
        st = X.stream([], [], [])
        g = t.call(obj, 'pack_write', st)
        return g, (list(st.segs) if g.ok else None)
    buf = BufV('bytearray', [('raw', t.v.int('room', 100000) if room is None else room, 'old', 0)])
    buf.big = True
    g = t.call(obj, 'pack_into', buf, 0)
    if not g.ok:
        return g, None
    segs = list(normalise(buf.segs, I.facts))
    if segs and segs[-1][:1] == ('raw',) and segs[-1][2] == 'old' and I.facts.same(segs[-1][3], total(segs[:-1])) is True:
        segs.pop()      # what pack_into has not touched
    return g, segs


def do_unpack(t, target, route, segs, pre=None, suf=()):
    I = t.I
    pre = pre if pre is not None else [('raw', t.v.int('pre.len', 0), 'bytes before', 0)]
    n = route.replace('create_', '')
    if n == 'unpack':
        return t.call(target, route, B.make(I, list(segs) + list(suf)))
    if n == 'unpack_from':
        return t.call(target, route, B.make(I, pre + list(segs) + list(suf)), total(pre))
    return t.call(target, route, X.stream(pre, segs, suf))


def refused(t, prop, rule, g, what='', names=()):
    return t.check(prop, rule, True if g.kind == 'exc' else None if g.kind == 'undecided' else False,
                   g.text() if g.kind == 'undecided' else what)


def fresh(t, s, m, tag='y'):
    return t.attempt(t.I.call, m.ns[s.name], list(s.values(t.v, tag, m.ns)))


# ------------------------------------------------------------ array lengths
def wrong_length(t, s, m, k, item, n):
    """A list of another length in a fixed-length array."""
    I, v = t.I, t.v
    cls = m.ns['Subj']
    one = item.make(v, 'x[0]', m.ns)
    mk = lambda i: one
    lists = [('', [])] if n else []
    lists += [('one less', [mk(i) for i in range(n - 1)])] if n > 1 else []
    lists += [('one more', [mk(i) for i in range(n + 1)]), ('twice as many', [mk(i) for i in range(2 * n + 2)])]
    for label, xs in lists:
        for kind in ('list', 'tuple'):
            val = ListV(xs) if kind == 'list' else tuple(xs)
            vals = s.values(v, 'x', m.ns)
            vals[k] = val
            o = t.attempt(I.call, cls, vals)
            if not o.ok:
                continue
            for route in PACKS:
                g, segs = do_pack(t, o.value, route)
                refused(t, 'C12', f'{route} refuses a list whose length is not the fixed array length', g,
                        f'a {kind} of {len(xs)} items was packed into an array of {n}'
                        + (f': {t.show(segs)}' if segs else ''))


def register_lengths():
    for iname, mk in suites.ITEMS.items():
        for h in ((2,), (3,), (2, 'uint16'), (1,), (0,)):
            for ctx in (True, False):
                def run(bench, iname=iname, mk=mk, h=h, ctx=ctx):
                    item = mk()
                    arr = P.p_array(h, item)
                    parts = [P.p_int('uint8'), arr, P.p_int('uint16')] if ctx else [arr]
                    s = X.Subject(f'array {h} of {iname}' + ('' if ctx else ', alone'), parts, 'BE')
                    m = X.define(bench, s, 'C12')
                    if m is not None:
                        bench.explore(s.label, lambda t: wrong_length(t, s, m, 1 if ctx else 0, item, h[0]))
                tier = 'quick' if h in ((2,), (2, 'uint16')) and (ctx or iname in ('opaque', 'int')) else 'thorough'
                case('C12', tier, f'fixed length {h} of {iname} ctx={ctx}')(run)


register_lengths()


# --------------------------------------------------------------- data sizes
def wrong_size(t, s, m, h, item, k):
    """Stored data sizes that differ from what the items occupy."""
    I, v = t.I, t.v
    cls = m.ns['Subj']
    vals = s.values(v, 'x', m.ns)
    hi = P.INTS[h[1]][3]
    o = X.SYM[s.order]
    pieces = s.split(vals)
    xs, n = P.items_of(I, vals[k])
    body = []
    for x in xs:
        body += item.wire(I, o, x, m.ns)
    size = total(body)
    delta = v.int('delta', 1)
    for label, stored in (('larger', add(size, delta)), ('smaller', sub(size, delta)), ('zero', 0), ('one more', add(size, 1))):
        if label == 'zero':
            if not I.facts.known_ge0(sub(size, 1)):
                continue
        if label == 'smaller':
            if I.facts.known_ge0(sub(size, 1)) is not True:
                continue
            I.facts.assume_ge0(sub(size, delta))
        I.facts.assume_ge0(sub(hi, stored))
        segs, post = [], []
        for j, (p, vs) in enumerate(pieces):
            if p.fields and 'array[' in p.fields[0][1]:
                if not isinstance(h[0], int):
                    segs.append(int_enc(h[0], o, n))
                segs.append(int_enc(h[1], o, stored))
                segs += body
            else:
                segs += p.wire(I, o, vs, m.ns)
        follow = [('raw', v.int('more', 0), 'bytes after', 0)] if s.names[-1:] and k == len(s.names) - 1 else []
        for route in UNPACKS:
            target = cls
            if not route.startswith('create'):
                f = fresh(t, s, m)
                if not f.ok:
                    continue
                target = f.value
            g = do_unpack(t, target, route, segs)
            refused(t, 'C12', f'{route} refuses an array whose stored data size is wrong ({label})', g,
                    f'stored size {stored!r}, items occupy {I.facts.norm(size)} bytes ({n!r} items)')


def register_sizes():
    for iname, mk in suites.ITEMS.items():
        for h in (('uint16', 'uint32'), (2, 'uint16'), ('uint8', 'uint8'), ('uint32', 'uint64'), (1, 'uint8')):
            for ctx in (True, False):
                for order in ('LE', 'BE'):
                    def run(bench, iname=iname, mk=mk, h=h, ctx=ctx, order=order):
                        item = mk()
                        arr = P.p_array(h, item)
                        parts = [P.p_int('uint8'), arr, P.p_int('uint16')] if ctx else [arr]
                        s = X.Subject(f'array {h} of {iname}, {order}' + ('' if ctx else ', alone'), parts, order)
                        m = X.define(bench, s, 'C12')
                        if m is not None:
                            bench.explore(s.label, lambda t: wrong_size(t, s, m, h, item, 1 if ctx else 0))
                    quick = h in (('uint16', 'uint32'), (2, 'uint16')) and order == 'BE' and ctx
                    case('C12', 'quick' if quick else 'thorough', f'data size {h} of {iname} ctx={ctx} {order}')(run)


register_sizes()


# ------------------------------------------------------------ terminated strings
def constants(t):
    """Integer constants of the package's string code: the places where chunked
    reading could change behaviour."""
    import ast
    import os
    out = set()
    try:
        tree = ast.parse(open(os.path.join(t.lab.root, 'structured', 'serializers', 'strings.py')).read())
    except (OSError, SyntaxError):
        return [256]
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and type(n.value) is int and 1 < n.value <= 4096:
            out.add(n.value)
    return sorted(out)


def lengths(t, tier):
    out = {0, 1, 2, 3}
    cs = constants(t)
    big = [c for c in cs if c >= 16] or [256]
    for c in big if tier == 'thorough' else big[:4]:
        out |= {c - 1, c, c + 1, 2 * c - 1, 2 * c, 3 * c}
    return sorted(x for x in out if x <= 9000)


def p_long(pick, term=b'\0'):
    """A terminated string whose length is around a constant of the package's code."""
    def make(v, p):
        class at:
            lab = v.lab
        cs = [c for c in constants(at) if c >= 16] or [256]
        return v.raw(p, pick(cs), excl=term)
    return P.one(f'char[{term!r}] (long)', f'char[{term!r}]', make,
                 lambda I, o, x: list(B.segs_of(I, x)) + [lit(term)], weight=4)


def long_subjects(tier):
    """Long terminated strings, everywhere a string of a few bytes is."""
    over = lambda cs: cs[-1] + 1
    out = [
        X.Subject('long terminated string', [P.p_int('uint8'), p_long(over), P.p_int('uint16')], 'LE'),
        X.Subject('long terminated strings in a row', [p_long(lambda cs: cs[-1]), p_long(lambda cs: cs[-1] - 1, b'|'),
                                                       p_long(lambda cs: 2 * cs[-1] + 3), P.p_int('int8')], 'BE'),
        X.Subject('long terminated string in a tuple',
                  [P.as_part(P.i_tuple(part_item(p_long(over)), P.i_int('int16')))], 'BE'),
    ]
    for s in out:
        s.tags = 'C14'
        s.only = 'roundtrip reuse truncate'
    return out


suites.SPECIAL.append(long_subjects)

TERMS = [b'\0', b'|', b'\n', b'\xff']
TERM_SHAPES = ('alone', 'with neighbours', 'in a tuple', 'in an array')


def term_subject(term, shape, order='LE'):
    p = P.p_term(term)
    if shape == 'alone':
        parts = [p]
    elif shape == 'with neighbours':
        # one-byte neighbours: only the string itself copes with a source of small pieces
        parts = [P.p_int('uint8'), p, P.p_int('uint8')]
    elif shape == 'in a tuple':
        parts = [P.p_int('uint8'), P.as_part(P.i_tuple(part_item(p), P.i_int('int8')))]
    else:
        parts = [P.p_array(('uint8',), part_item(p)), P.p_int('uint8')]
    return X.Subject(f'terminated by {term!r}, {shape}', parts, order)


def term_at(t, s, m, term, shape, n, chunks):
    """One string of a particular length: every route, any chunking."""
    I, v = t.I, t.v
    cls = m.ns['Subj']
    body = v.raw('txt', n, excl=term)
    other = v.raw('oth', 1, excl=term)

    def values(b):
        if shape == 'alone':
            return [b]
        if shape == 'with neighbours':
            return [v.int('a', 0, 255), b, v.int('z', 0, 255)]
        if shape == 'in a tuple':
            return [v.int('a', 0, 255), (b, v.int('y', -128, 127))]
        return [ListV([b, other]), v.int('y', 0, 255)]
    plain = B.segs_of(I, body)
    for kind in ('plain', 'terminated'):
        b = body if kind == 'plain' else B.make(I, list(plain) + [lit(term)])
        vals = values(b)
        o = t.attempt(I.call, cls, list(vals))
        if not o.ok:
            return
        want = s.wire(I, values(body), m.ns)
        for route in PACKS:
            g, segs = do_pack(t, o.value, route, total(want))
            if not t.check('C14', f'{route} accepts a value{"" if kind == "plain" else " that already ends in the terminator"}',
                           True if g.ok else X.verdict_of(g), g.text()):
                continue
            if segs is not None:
                r, d = t.same_bytes(want, segs)
                t.check('C14', f'{route} writes the {kind} value with one terminator', r, d)
    want = s.wire(I, values(body), m.ns)
    exp = s.expect(I, values(body), m.ns)
    for route in UNPACKS:
        for ch in chunks if route.endswith('read') else [None]:
            target = cls
            if not route.startswith('create'):
                f = t.attempt(I.call, cls, list(values(other)))
                if not f.ok:
                    continue
                target = f.value
            pre = [('raw', 3, 'pre', 0)]
            suf = [('raw', 2, 'post', 0), lit(term), ('raw', 700, 'post2', 0)] if not route.endswith('unpack') else []
            if route.endswith('read'):
                st = X.stream(pre, want, suf)
                st.short = ch or False
                g = t.call(target, route, st)
            else:
                g = do_unpack(t, target, route, want, pre, suf)
            how = route + ('' if not ch else ' from a source delivering small pieces')
            if not t.check('C14', f'{how} accepts a terminated string', True if g.ok else X.verdict_of(g), g.text()):
                continue
            inst = g.value if route.startswith('create') else target
            a = X.attrs_of(t, inst, s.names)
            if not a.ok:
                continue
            r, d = X.values_equal(t, s.names, exp, a.value)
            t.check('C14', f'{how} gives the bytes before the first terminator', r, d)
            if route.endswith('read'):
                t.check('C14', f'{how} stops right after the terminator',
                        I.facts.same(st.pos, add(total(pre), total(want))),
                        f'stream at {I.facts.norm(st.pos)}, value ends at {I.facts.norm(add(total(pre), total(want)))}')


def term_embedded(t, s, m, term):
    """A value with a terminator inside."""
    I, v = t.I, t.v
    cls = m.ns['Subj']
    x, y = v.raw('x', v.int('x.len', 0), excl=term), v.raw('y', v.int('y.len', 1), excl=term)
    val = B.make(I, list(B.segs_of(I, x)) + [lit(term)] + list(B.segs_of(I, y)))
    o = t.attempt(I.call, cls, [val])
    if not o.ok:
        return
    want = list(B.segs_of(I, val)) + [lit(term)]
    for route in PACKS:
        g, segs = do_pack(t, o.value, route, total(want))
        if t.check('C14', f'{route} accepts a value with a terminator inside', True if g.ok else X.verdict_of(g), g.text()) \
                and segs is not None:
            r, d = t.same_bytes(want, segs)
            t.check('C14', f'{route} adds one terminator to a value with one inside', r, d)
    for route in UNPACKS:
        target = cls
        if not route.startswith('create'):
            target = t.attempt(I.call, cls, [b'old']).value
        pre = [('raw', v.int('pre.len', 0), 'pre', 0)]
        if route.endswith('read'):
            st = X.stream(pre, want, [])
            g = t.call(target, route, st)
        else:
            g = do_unpack(t, target, route, want, pre)
        if not t.check('C14', f'{route} accepts data after the terminator', True if g.ok else X.verdict_of(g), g.text()):
            continue
        inst = g.value if route.startswith('create') else target
        r, d = X.values_equal(t, ['f0'], [x], [I.getattr(inst, 'f0')])
        t.check('C14', f'{route} stops at the first terminator', r, d)
        if route.endswith('read'):
            end = add(add(total(pre), total(B.segs_of(I, x))), 1)
            t.check('C14', f'{route} stops right after the first terminator', I.facts.same(st.pos, end),
                    f'stream at {I.facts.norm(st.pos)}, first terminator ends at {I.facts.norm(end)}')
    ser = I.getattr(cls, 'serializer')
    p = t.call(ser, 'preunpack', o.value)
    for route in ('unpack', 'unpack_from', 'unpack_read') if p.ok else ():
        if route == 'unpack_read':
            g = t.call(p.value, route, X.stream([('raw', 3, 'pre', 0)], want, []))
        elif route == 'unpack_from':
            g = t.call(p.value, route, B.make(I, [('raw', 3, 'pre', 0)] + want), 3)
        else:
            g = t.call(p.value, route, B.make(I, want))
        if g.ok:
            g = t.attempt(lambda it: tuple(I.iterate(it)), g.value)
        if g.ok:
            z = t.attempt(I.getattr, p.value, 'size')
            end = add(total(B.segs_of(I, x)), 1)
            if z.ok:
                t.check('C14 C01', f'after {route} the size covers the string up to its first terminator',
                        I.facts.same(z.value, end), f'size {z.value!r}, string ends at {I.facts.norm(end)}')


def unterminated(t, s, m, term, shape):
    """No terminator anywhere: refused on every route."""
    I, v = t.I, t.v
    cls = m.ns['Subj']
    for n in (v.int('len', 0), 0, 1) + tuple(lengths(t, 'quick')[-6:]):
        data = [('raw', n, f'data{n}', 0)]
        I.path.excluded[f'data{n}'] = set(term)
        head = []
        if shape in ('with neighbours', 'in a tuple'):
            head = [enc(1, '-', 'B', v.int('a', 0, 255))]
        elif shape == 'in an array':
            head = [enc(1, '-', 'B', v.int('n', 1, 255))]
        for route in UNPACKS:
            target = cls
            if not route.startswith('create'):
                target = fresh_plain(t, s, m, shape)
            g = do_unpack(t, target, route, head + data)
            refused(t, 'C13 C14', f'{route} refuses a string without terminator', g,
                    f'{n} bytes without {term!r} accepted')


def fresh_plain(t, s, m, shape):
    vals = {'alone': [b'o'], 'with neighbours': [1, b'o', 2], 'in a tuple': [1, (b'o', 1)],
            'in an array': [ListV([]), 1]}[shape]
    return t.I.call(m.ns['Subj'], vals)


def register_terminated():
    for term in TERMS:
        for shape in TERM_SHAPES:
            def run(bench, term=term, shape=shape, tier='quick'):
                s = term_subject(term, shape)
                m = X.define(bench, s, 'C14')
                if m is None:
                    return
                from .harness import T
                for n in lengths(T(bench, ''), tier):
                    ch = [None, (1,), (7, 1, 100)] if n <= 40 or tier == 'thorough' else [None, (255, 1), (100,)]
                    bench.explore(f'{s.label}, {n} bytes', lambda t: term_at(t, s, m, term, shape, n, ch))
            quick = term == b'\0' or (term == b'|' and shape == 'alone')
            case('C14', 'quick' if quick else 'thorough', f'terminated by {term!r} {shape}')(run)

            def unt(bench, term=term, shape=shape):
                s = term_subject(term, shape)
                m = X.define(bench, s, 'C14')
                if m is not None:
                    bench.explore(f'{s.label}, unterminated', lambda t: unterminated(t, s, m, term, shape))
            case('C13 C14', 'quick' if term in (b'\0', b'|') else 'thorough', f'unterminated {term!r} {shape}')(unt)

        def emb(bench, term=term):
            s = term_subject(term, 'alone')
            m = X.define(bench, s, 'C14')
            if m is not None:
                bench.explore(f'{s.label}, terminator inside', lambda t: term_embedded(t, s, m, term))
        case('C14 C01', 'quick', f'embedded terminator {term!r}')(emb)


register_terminated()
