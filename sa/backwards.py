"""C03 C04 C13: offsets counted from the end of the buffer."""
from __future__ import annotations

from . import bytes_model as B
from . import experiments as X
from . import suites
from .layout import BufV, normalise, split_at, total
from .terms import add, sub
from .values import *


def backwards(t, s, m):
    I, v = t.I, t.v
    cls = m.ns[s.name]
    vals = s.values(v, 'x', m.ns)
    ox = t.attempt(I.call, cls, list(vals))
    if not ox.ok:
        return
    ox = ox.value
    g = t.call(ox, 'pack')
    if not g.ok:
        return
    segs = list(normalise(B.segs_of(I, g.value), I.facts))
    w = total(segs)
    if not B.ge0(I, sub(w, 1)):       # an offset of 0 is not counted from the end
        return
    final = any(p.final for p in s.parts)
    pre, n = X.PRE(t), 0 if final else 3
    head = total(pre)
    back = sub(0, add(w, n))
    # the window fits
    old = [('raw', head, 'old', 0), ('raw', w, 'old', head)] + ([('raw', n, 'old', add(head, w))] if n else [])
    buf = BufV('bytearray', normalise(old, I.facts))
    g = t.call(ox, 'pack_into', buf, back)
    if t.check('C03', 'pack_into accepts an offset counted from the end', True if g.ok else X.verdict_of(g), g.text()):
        r, d = t.same_bytes(old[:1] + segs + old[2:], buf.segs)
        t.check('C03', 'pack_into at an offset counted from the end only changes its window', r, d and f'{d}; buffer: {t.show(buf.segs)}')
    want = s.expect(I, vals, m.ns)
    data = B.make(I, pre + segs + ([('raw', n, 'bytes after', 0)] if n else []))
    for route in ('create_unpack_from', 'unpack_from'):
        target = cls if route[0] == 'c' else t.attempt(I.call, cls, list(s.values(v, 'y', m.ns))).value
        g = t.call(target, route, data, back)
        if not t.check('C04', f'{route} accepts an offset counted from the end', True if g.ok else X.verdict_of(g), g.text()):
            continue
        a = X.attrs_of(t, g.value if route[0] == 'c' else target, s.names)
        if a.ok:
            r, d = X.values_equal(t, s.names, want, a.value)
            t.check('C04', f'{route} at an offset counted from the end gives back the packed values', r, d)
    # it does not
    def short(cut, what):
        size = add(add(head, w), 8)              # plenty of room at the start
        old = [('raw', size, 'old', 0), ('raw', cut, 'old', size)]
        buf = BufV('bytearray', normalise(old, I.facts))
        g = t.call(ox, 'pack_into', buf, sub(0, cut))
        t.check('C03', 'pack_into refuses an offset too close to the end', True if g.kind == 'exc' else None if g.kind == 'undecided' else False,
                g.text() if g.kind == 'undecided' else f'room ends {what}; buffer: {t.show(buf.segs)}')
        if g.kind != 'undecided':
            try:
                r, d = t.same_bytes(old[:1], split_at(buf.segs, size, I.facts)[0])
            except Unsupported as e:
                r, d = None, str(e)
            t.check('C03', 'a failed pack_into near the end leaves the bytes before its window alone', r, d)
        if final:
            return
        try:
            part = list(split_at(segs, cut, I.facts)[0])
        except Unsupported as e:
            return
        for route in ('create_unpack_from', 'unpack_from'):
            target = cls if route[0] == 'c' else t.attempt(I.call, cls, list(s.values(v, 'y', m.ns))).value
            g = t.call(target, route, B.make(I, [('raw', size, 'bytes before', 0)] + part), sub(0, cut))
            t.check('C13', f'{route} rejects truncated input at an offset counted from the end',
                    True if g.kind == 'exc' else None if g.kind == 'undecided' else False,
                    g.text() if g.kind == 'undecided' else f'input cut {what}: {t.show(part)} accepted')
    for cut, what in X.cut_points(I, segs):
        if not B.ge0(I, sub(cut, 1)):
            continue
        short(cut, what)
    # outside of the buffer altogether
    buf = BufV('bytearray', normalise([('raw', w, 'old', 0)], I.facts))
    for o, what in ((sub(0, add(w, 1)), 'before the start of'), (add(w, 1), 'after the end of')):
        g = t.call(ox, 'pack_into', buf, o)
        t.check('C03', f'pack_into refuses an offset {what} the buffer', True if g.kind == 'exc' else None if g.kind == 'undecided' else False,
                g.text())
        r, d = t.same_bytes([('raw', w, 'old', 0)], buf.segs)
        t.check('C03', f'pack_into at an offset {what} the buffer changes nothing', r, d)
        if final:
            continue
        g = t.call(cls, 'create_unpack_from', B.make(I, segs), o)
        t.check('C13', f'create_unpack_from rejects an offset {what} the buffer', True if g.kind == 'exc' else None if g.kind == 'undecided' else False, g.text())


suites.GENERIC['backwards'] = (backwards, 'C03 C04 C13')
