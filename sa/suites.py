"""Which obligations are generated for which property."""
from __future__ import annotations

from . import experiments as X
from . import parts as P


class Case:
    def __init__(self, name, props, run, tier='quick'):
        self.name, self.props, self.run, self.tier = name, set(props.split()), run, tier


CASES = []


def case(props, tier='quick', name=None):
    def deco(f):
        CASES.append(Case(name or f.__name__, props, f, tier))
        return f
    return deco


ITEMS = {
    'int': lambda: P.i_int('int16'), 'char': lambda: P.i_char(3), 'bool': P.i_bool,
    'opaque': P.i_opaque, 'lazy': lambda: P.i_opaque(lazy=True), 'custom': P.i_custom,
    'tuple': lambda: P.i_tuple(P.i_int('uint8'), P.i_int('int32')),
    'struct': lambda: P.i_struct(order='BE'), 'float': lambda: P.i_float('float32'),
    'otuple': lambda: P.i_tuple(P.i_opaque(), P.i_int('int16'), P.i_opaque('oq', lazy=True)),
    'dstruct': lambda: P.i_struct('Dyn', 'LE', [P.p_dynchar('uint16')]),
}


def basic_parts():
    """Every kind of field: (label, parts)."""
    out = [
        ('numbers', [P.p_int('int32'), P.p_float('float64'), P.p_bool()]),
        ('integers', [P.p_int(n) for n in P.INTS]),
        ('floats', [P.p_float(n) for n in P.FLOATS]),
        ('chars', [P.p_char(3), P.p_char(0), P.p_pad(2)]),
        ('pads', [P.p_pad(1), P.p_int('int16'), P.p_pad(2), P.p_pad(3)]),
        ('pascal', [P.p_pascal(5)]),
        ('char[1]', [P.p_char(1), P.p_char(1)]),
        ('dynchar8', [P.p_dynchar('uint8')]),
        ('dynchar16', [P.p_dynchar('uint16')]),
        ('dynchar32', [P.p_dynchar('uint32')]),
        ('dynchar64', [P.p_dynchar('uint64')]),
        ('net', [P.p_netchar()]),
        ('uninet', [P.p_uninet()]),
        ('terminated', [P.p_term()]),
        ('terminated by other', [P.p_term(b'|')]),
        ('null_unicode', [P.p_uniterm()]),
        ('rest', [P.p_rest()]),
        ('unirest', [P.p_unirest()]),
        ('unicode16', [P.p_unidyn('uint16')]),
        ('unicode latin', [P.p_unidyn('uint8', 'latin-1')]),
        ('unicode utf16', [P.p_unidyn('uint8', 'utf-16-le')]),
    ]
    return out


HEADERS = {'fixed': (2,), 'count8': ('uint8',), 'count16': ('uint16',), 'count16+size32': ('uint16', 'uint32'),
           'fixed+size': (2, 'uint16'), 'count32': ('uint32',), 'fixed1': (1,),
           'count8+size8': ('uint8', 'uint8')}


TAGS = {'net': 'C15', 'uninet': 'C15 C26', 'terminated': 'C14', 'terminated by other': 'C14',
        'null_unicode': 'C14 C26', 'unirest': 'C26', 'unicode16': 'C26', 'unicode latin': 'C26',
        'unicode utf16': 'C26', 'pads': 'C19', 'chars': 'C19', 'custom': 'C25'}


def class_subjects(tier):
    """The client classes over which the generic obligations are generated."""
    orders = ('LE', 'BE')
    out = []

    def add(label, parts, order, lone=False, future=False, tags=''):
        ps = parts if lone else [P.p_int('uint8')] + parts + (
            [] if any(p.final for p in parts) else [P.p_int('uint16')])
        out.append(X.Subject(f'{label}, {order}' + (', alone' if lone else '') +
                             (', postponed annotations' if future else ''), ps, order, future=future))
        out[-1].tags = tags

    for label, parts in basic_parts():
        for o in orders:
            add(label, parts, o, tags=TAGS.get(label, ''))
        add(label, parts, 'LE', lone=True, tags=TAGS.get(label, ''))
        if tier == 'thorough':
            for o in ('DEFAULT', 'NATIVE_NATIVE', 'NATIVE_STANDARD', 'NETWORK'):
                add(label, parts, o)
            if label not in ('pads',):
                add(label, parts, 'BE', future=True)
    for iname, mk in ITEMS.items():
        for hname, h in HEADERS.items():
            if tier != 'thorough' and hname in ('count32', 'fixed1', 'count8+size8') and iname != 'opaque':
                continue
            for o in orders if tier == 'thorough' or iname in ('opaque', 'int') else ('BE',):
                add(f'array {hname} of {iname}', [P.p_array(h, mk())], o,
                    tags='C12 ' + TAGS.get(iname, ''))
            if tier == 'thorough':
                add(f'array {hname} of {iname}', [P.p_array(h, mk())], 'LE', lone=True)
                add(f'array {hname} of {iname}', [P.p_array(h, mk())], 'DEFAULT')
        for o in orders:
            add(f'field {iname}', [P.as_part(mk())], o, tags=TAGS.get(iname, ''))
        if tier == 'thorough':
            add(f'field {iname}', [P.as_part(mk())], 'DEFAULT', lone=True)
            add(f'field {iname}', [P.as_part(mk())], 'BE', future=True)
    return out


SPECIAL = []       # callables tier -> [Subject]


def subjects(tier):
    out = class_subjects(tier)
    for f in SPECIAL:
        out += f(tier)
    return out


GENERIC = {
    'roundtrip': (X.roundtrip, 'C01 C02 C03 C04 C05 C06 C07 C11 C19 C24'),
    'reuse': (X.reuse, 'C01 C02 C03 C23 C24'),
    'reorder': (X.reorder, 'C07 C23 C01'),
    'truncate': (X.truncate, 'C13'),
    'overflow': (X.overflow, 'C03'),
}


TAGGED = {'roundtrip', 'reuse'}     # experiments run for the properties of tagged subjects


def load():
    from . import shapes, deciding, malformed, netstr, finals, adding, classdefs, describing, orders, hints, customs, texts, equals, versions, numbers, choices, skipping, nesting, pairing, ownership, oddvalues, backwards, recursion, busy


def plan(prop, tier):
    """[(label, callable(bench))] for one property."""
    load()
    out = []
    for name, (fn, props) in GENERIC.items():
        for s in subjects(tier):
            if prop not in props.split() and not (prop in s.tags.split() and name in TAGGED):
                continue
            if name in ('counted', 'coded') and not getattr(s, name, False):
                continue
            if s.only and name not in ('counted', 'coded') and name not in s.only.split():
                continue
            if name == 'truncate' and any(p.final for p in s.parts):
                continue
            if name in ('backwards', 'object order', 'reorder', 'truncate', 'reuse', 'overflow') and s.order not in ('LE', 'BE'):
                continue
            if s.own and tier == 'quick' and prop not in s.tags.split():
                continue
            if prop in s.skip:
                continue
            out.append((f'{name}: {s.label}', subject_runner(s, fn)))
    if prop == 'C28':
        from . import versions
        out += versions.registered(tier)
    for c in CASES:
        if prop in c.props and (c.tier == 'quick' or tier == 'thorough'):
            out.append((c.name, c.run))
    return out


def subject_runner(s, fn):
    def run(bench):
        m = X.define(bench, s, 'C19 C05 ' + s.tags)
        if m is not None:
            def go(t):
                t.tags = s.tags
                fn(t, s, m)
            bench.explore(s.label, go)
    return run
