"""Text fields (C26): encoded once when packing, decoded once when unpacking."""
from __future__ import annotations

import codecs

from . import bytes_model as B
from .builtins_model import MEMORYVIEW
from . import experiments as X
from . import parts as P
from . import suites
from .customs import as_part
from .experiments import PRE, SUF, stream, verdict_of
from .layout import lit, total
from .parts import Item, Part, int_enc, net_len, text_segs
from .shapes import part_item
from .suites import case
from .terms import atom, sub
from .values import *

SRC = '''
import math
from structured.hint_types.strings import NET, EncoderDecoder
class Enc(EncoderDecoder):
    @classmethod
    def encode(cls, strng):
        seen('Enc', 'encode', None, strng)
        return strng.encode('latin-1')
    @classmethod
    def decode(cls, byts):
        seen('Enc', 'decode', None, byts)
        return byts.decode('latin-1')
class Own(EncoderDecoder):
    def __init__(self, codec):
        self.codec = codec
    def encode(self, strng):
        seen(self.codec, 'encode', None, strng)
        return strng.encode(self.codec)
    def decode(self, byts):
        seen(self.codec, 'decode', None, byts)
        return byts.decode(self.codec)
class Sub(Enc):
    @staticmethod
    def encode(strng):
        seen('Sub', 'encode', None, strng)
        return strng.encode('cp1252')
    @staticmethod
    def decode(byts):
        seen('Sub', 'decode', None, byts)
        return byts.decode('cp1252')
own = Own('ascii')
own2 = Own('utf-16-be')
'''
CODECS = {      # annotation -> (codec, name under which calls are recorded)
    None: ('utf-8', None), "'utf8'": ('utf-8', None), "'ascii'": ('ascii', None), "'latin-1'": ('latin-1', None),
    "'utf-16-le'": ('utf-16-le', None), "'cp1252'": ('cp1252', None),
    'Enc': ('latin-1', 'Enc'), 'Sub': ('cp1252', 'Sub'), 'own': ('ascii', 'ascii'), 'own2': ('utf-16-be', 'utf-16-be'),
    "Own('latin-1')": ('latin-1', 'latin-1'),
}

CODECS = {k: (codecs.lookup(c).name, n) for k, (c, n) in CODECS.items()}


def text(kind, encoding=None):
    codec, name = CODECS[encoding]
    ann = f'unicode[{kind}]' if encoding is None else f'unicode[{kind}, {encoding}]'
    enc_len = lambda s: atom(('len', 'encode', s.key, codec), 0)
    final = False
    if kind in P.INTS:
        make = lambda v, p: P.utext(v, p, hi=P.INTS[kind][3], codec=codec)

        def wire(I, o, x):
            s = text_segs(I, x, codec)
            return [int_enc(kind, o, total(s))] + s
    elif kind == 'NET':
        make = lambda v, p: P.utext(v, p, hi=0x7fff, codec=codec)

        def wire(I, o, x):
            s = text_segs(I, x, codec)
            return net_len(I, total(s)) + s
    elif kind.startswith('b'):
        t = eval(kind)
        make = lambda v, p: P.utext(v, p, t, codec=codec)
        wire = lambda I, o, x: text_segs(I, x, codec) + [lit(t)]
    elif kind == 'math.inf':
        final = True
        make = lambda v, p: v.text(p)
        wire = lambda I, o, x: text_segs(I, x, codec)
    else:
        n = int(kind)
        make = lambda v, p: P.utext(v, p, hi=n, codec=codec)

        def wire(I, o, x):
            s = text_segs(I, x, codec)
            return s + [('zero', sub(n, total(s)))]
    it = Item(ann, ann, lambda v, p, ns: make(v, p), lambda I, o, x, ns: wire(I, o, x), pre=SRC)
    it.builds = lambda I, x, ns: [(name, codec, x)]
    p = as_part(it)
    p.final = final
    return it, p


def subjects(tier):
    from .customs import arr, struct, tup, cond, union
    out = []
    KINDS = ['6', 'uint8', 'uint16', 'uint32', 'uint64', 'NET', "b'\\0'", "b'|'", 'math.inf']
    main = [None, "'latin-1'", 'Enc', 'own']

    def add(label, ps, orders=('LE', 'BE')):
        for o in orders:
            s = X.Subject(f'text {label}, {o}', ps, o)
            s.tags, s.own, s.coded = 'C26', True, True
            s.only = 'roundtrip reuse reorder truncate overflow describe'
            out.append(s)
    for k in KINDS:
        for e in CODECS:
            if 'utf-16' in CODECS[e][0] and k[0] == 'b':
                continue
            if e not in main and k not in ('6', 'uint8', 'math.inf') and tier != 'thorough':
                continue
            it, p = text(k, e)
            add(f'{it.ann}', [P.p_int('int8'), p] + ([] if p.final else [P.p_int('int16')]), ('LE', 'BE') if e in main[:2] or tier == 'thorough' else ('BE',))
    i = lambda k, e=None: text(k, e)[0]
    p = lambda k, e=None: text(k, e)[1]
    add('different encodings', [p('6', 'Enc'), p('6'), p('6', "'latin-1'"), p('6', 'own')])
    add('two encoder objects', [p('6', 'own'), p('6', 'own2'), p('6', 'own')], ('LE',))
    add('different kinds', [p('uint8', 'Enc'), p('6', 'Enc'), p("b'|'", 'Enc')], ('LE',))
    add('text and bytes', [p('6', 'Enc'), P.p_char(6), P.p_char(6), p('6')])
    add('text and bytes of one length type', [P.p_dynchar('uint8'), p('uint8', 'Enc')], ('BE',))
    add('array', [arr((2,), i('6', 'Enc')), P.p_int('int16')])
    add('counted array', [arr(('uint8', 'uint16'), i('6', 'Enc')), P.p_int('int16')], ('BE',))
    add('array of dynamic text', [arr((1,), i('uint16', 'Enc')), p('6')])
    add('array of terminated text', [arr((2,), i("b'|'", 'own')), P.p_int('int8')], ('LE',))
    add('tuple', [as_part(tup(P.i_int('int16'), i('6', 'Enc'), i('6'), P.i_char(6))), P.p_int('int8')])
    add('condition', [cond(i('uint16', 'Enc'), "'none'", 'none'), P.p_int('int8')], ('LE',))
    add('union', [union({1: i('6', 'Enc'), 2: i('uint16', 'own')}, i("b'|'"))], ('BE',))
    add('nested class', [P.p_int('int8'), as_part(struct(p('6', 'Enc'), p('6'))), p('6', 'own')])
    return out


suites.SPECIAL.append(subjects)


def coded(t, s, m):
    """Custom encoders are called once per text, with the text and its bytes."""
    from .customs import pbuilds
    I, v, lab = t.I, t.v, t.lab
    cls = m.ns[s.name]
    vals = s.values(v, 'x', m.ns)
    texts = []
    for p, vs in s.split(vals):
        texts += pbuilds(p, I, vs, m.ns)
    obj = I.call(cls, list(vals))
    enc = [(n, x) for n, c, x in texts if n]
    dec = [(n, B.encode(I, x, c)) for n, c, x in texts if n]
    static = '[6' in s.src        # padded values are decoded with their padding

    def judge(route, how, want, f):
        lab.seen.clear()
        g = t.attempt(f)
        if not t.check('C26', f'{route} succeeds', True if g.ok else verdict_of(g), g.text()):
            return None
        got = [(e[0], e[3]) for e in lab.seen if e[1] == how]
        other = [e[0] for e in lab.seen if e[1] != how]
        ok, d = len(got) == len(want) and not other, f'{len(got)} calls to {how}, {len(want)} texts; {len(other)} other calls'
        if ok:
            for (n, x), (wn, wx) in zip(got, want):
                r = n == wn
                if r and (how == 'encode' or not static):
                    r = B.value_same(I, wx, x)
                if r and how == 'decode' and B.kind_of(x) != 'bytes':
                    r = False
                if r is not True:
                    ok, d = r, f'{wn} given {wx!r} expected, {n} given {x!r} seen'
                    break
        t.check('C26', f'{route} calls the {how[:-1]}er of each text once, in order', ok, '' if ok is True else d)
        return g.value
    call = I.call_method
    data = judge('pack', 'encode', enc, lambda: call(obj, 'pack', [], {}))
    if data is None:
        return
    segs = list(B.segs_of(I, data))
    judge('pack_write', 'encode', enc, lambda: call(obj, 'pack_write', [stream([], [], [])], {}))
    judge('pack_into', 'encode', enc, lambda: call(obj, 'pack_into', [B.BufV('bytearray', [('raw', total(segs), 'old', 0)])], {}))
    final = any(p.final for p in s.parts)
    pre, suf = PRE(t), [] if final else SUF
    full, off = pre + segs + suf, total(pre)
    judge('create_unpack', 'decode', dec, lambda: call(cls, 'create_unpack', [B.make(I, segs)], {}))
    judge('create_unpack_from', 'decode', dec, lambda: call(cls, 'create_unpack_from', [B.make(I, full), off], {}))
    judge('create_unpack_read', 'decode', dec, lambda: call(cls, 'create_unpack_read', [stream(pre, segs, suf)], {}))
    judge('unpack', 'decode', dec, lambda: call(obj, 'unpack', [B.make(I, segs)], {}))
    judge('unpack_from', 'decode', dec, lambda: call(obj, 'unpack_from', [B.make(I, full), off], {}))
    judge('unpack_read', 'decode', dec, lambda: call(obj, 'unpack_read', [stream(pre, segs, suf)], {}))
    for kind in ('bytearray', 'memoryview'):
        b = B.BufV('bytearray', list(segs))
        if kind == 'memoryview':
            b = I.call(MEMORYVIEW, [B.make(I, segs)])
        judge(f'create_unpack from a {kind}', 'decode', dec, lambda: call(cls, 'create_unpack', [b], {}))


suites.GENERIC['coded'] = (coded, 'C26')
