"""bytes / bytearray / memoryview, binary streams and the struct module, over
segment sequences."""
from __future__ import annotations

import struct

from .builtins_model import *
from .builtins_model import MISSING
from .layout import (BufV, NATIVE, enc_const, fields, int_range, lit, normalise,
                     seg_split, split_at, total)
from .ops import host_slice, index_, iterate, type_name
from .terms import Atom, show


# ---------------------------------------------------------------- helpers
def segs_of(I, v):
    if isinstance(v, bytes):
        return (lit(v),) if v else ()
    if isinstance(v, BufV):
        if v.target is not None:
            start, length = v.base
            _, r = split_at(segs_of(I, v.target), start, I.facts)
            m, _ = split_at(r, length, I.facts)
            return tuple(m)
        return v.segs
    raise Unsupported(f'bytes of {v!r}')


def is_buf(v):
    return isinstance(v, (bytes, BufV))


def make(I, segs, kind='bytes'):
    segs = normalise(segs, I.facts)
    if kind == 'bytes':
        if not segs:
            return b''
        if len(segs) == 1 and segs[0][0] == 'lit':
            return segs[0][2]
    return BufV(kind, segs)


def width(I, v):
    return I.facts.norm(total(segs_of(I, v)))


def kind_of(v):
    return 'bytes' if isinstance(v, bytes) else v.kind


def ge0(I, d):
    """d >= 0, preferring what the representatives already settle."""
    f = I.facts
    k = f.known_ge0(d)
    if k is None:
        r = f.reps_subst(d)
        k = f.known_ge0(r)
        if k is None:
            return f.ge0(d)
    return k


def eq0(I, d):
    f = I.facts
    k = f.same(d, 0)
    if k is None:
        return f.eq0(d)
    return k


def take(I, segs, start, n):
    _, r = split_at(segs, start, I.facts)
    m, _ = split_at(r, n, I.facts)
    return m


# ---------------------------------------------------------------- bits of bytes
def byte_bits(I, segs, n):
    """Bit provenance of n bytes: list of n lists of 8 bits, or None."""
    out = []
    for s in segs:
        w = s[1]
        if not isinstance(w, int):
            return None
        b = seg_bits(I, s)
        if b is None:
            return None
        out.extend(b)
    return out if len(out) == n else None


def seg_bits(I, s):
    k = s[0]
    if k == 'lit':
        return [[(c >> i) & 1 for i in range(8)] for c in s[2]]
    if k == 'zero':
        return [[0] * 8 for _ in range(s[1])]
    if k == 'part':
        b = seg_bits(I, s[2])
        if b is None or not isinstance(s[3], int):
            return None
        return b[s[3]:s[3] + s[1]]
    if k == 'enc':
        _, w, order, ch, v = s
        if ch not in 'bBhHiIlLqQnN':
            return None
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int) and v < 0:
            v += 1 << (8 * w)
        if isinstance(v, Sym):
            return None
        bits = to_bits(v, I.facts)
        if bits is None or len(bits) > 8 * w:
            return None
        bits = bits + [0] * (8 * w - len(bits))
        bs = [bits[8 * i:8 * i + 8] for i in range(w)]
        if w > 1:
            if order == 'native':
                return None
            if order == '>':
                bs.reverse()
        return bs
    return None


def byte_at(I, segs, off):
    """The integer value of the byte at offset off."""
    r = split_at(segs, off, I.facts)[1]
    r = [s for s in r if I.facts.same(s[1], 0) is not True]
    if not r:
        raise Unsupported('byte past the end')
    s = r[0]
    one = I.facts.same(s[1], 1)
    if one is not True:
        s = seg_split(s, 1)[0]
    b = byte_bits(I, [s], 1)
    if b is not None:
        return from_bits(b[0], I.facts)
    return int_atom(I, ('byte', byte_key(I, s)), 0, 255, s)


def byte_key(I, s):
    if s[0] == 'raw':
        return (s[2], I.facts.norm(s[3]))
    return seg_key(s)


def int_atom(I, key, lo, hi, seg=None):
    a = atom(key, lo, hi)
    if seg is not None and seg[0] == 'raw':
        for c in I.path.excluded.get(seg[2], ()):
            I.facts.assume_ne0(sub(a, c))
        if I.path.excluded.get(seg[2]):
            I.path.excl_atoms.add(a.t[0][0])
    return a


def byte_values(I, v):
    n = I.facts.concrete(width(I, v))
    s = segs_of(I, v)
    for i in range(n):
        yield byte_at(I, s, i)


# ---------------------------------------------------------------- equality
def seg_same(I, a, b):
    """Two segments of equal width: True / False / None."""
    if a == b:
        return True
    f = I.facts
    ka, kb = a[0], b[0]
    if {ka, kb} <= {'lit', 'zero', 'enc', 'part'}:
        def lits(s):
            if s[0] == 'lit':
                return s[2]
            if s[0] == 'zero' and isinstance(s[1], int):
                return bytes(s[1])
            if s[0] == 'enc' and isinstance(s[4], (int, float, bool)):
                if s[2] != 'native':
                    return enc_const('<' if s[2] == '-' else s[2], s[3], s[4], s[1])
                c1 = enc_const('<', s[3], s[4], s[1])
                c2 = enc_const('>', s[3], s[4], s[1])
                return c1 if c1 == c2 else None
            return None
        x, y = lits(a), lits(b)
        if x is not None and y is not None:
            return x == y
    if ka == kb == 'enc':
        if a[1] != b[1]:
            return None
        va, vb = a[4], b[4]
        same_val = value_same(I, va, vb)
        if a[2] == b[2] and a[3] == b[3]:
            return same_val
        if a[2] != b[2] and a[1] > 1:
            if 'native' in (a[2], b[2]):
                return False if same_val else None
            return False if same_val else None
        return None
    if ka == kb == 'raw' and a[2] == b[2]:
        r = f.same(a[3], b[3])
        if r is False and raw_free(I, a):
            return False
        return True if r is True else None
    if ka == kb == 'ser':
        if a[2] != b[2] or len(a[3]) != len(b[3]):
            return False
        out = True
        for x, y in zip(a[3], b[3]):
            r = value_same(I, x, y)
            if r is False:
                return False
            if r is None:
                out = None
        return out
    if ka == kb == 'part':
        if seg_same(I, a[2], b[2]) is True and f.same(a[3], b[3]) is True:
            return True
        return None
    x, y = None, None
    if isinstance(a[1], int):
        x, y = byte_bits(I, [a], a[1]), byte_bits(I, [b], a[1])
    if x is not None and y is not None:
        if x == y:
            return True
        if any({p, q} == {0, 1} for r, s in zip(x, y) for p, q in zip(r, s)):
            return False
        return None
    nonempty = f.known_ge0(sub(a[1], 1)) is True
    if nonempty and 'part' not in (ka, kb):
        if ka == kb == 'raw':
            if mentions_name(a[2], 'encode') or mentions_name(b[2], 'encode'):
                ea, eb = I.path.encoded.get(a[2]), I.path.encoded.get(b[2])
                if ea is not None and eb is not None and ea.key == eb.key:
                    return None
            return False if raw_free(I, a) and raw_free(I, b) else None
        if ka == 'raw':
            return False if raw_free(I, a) else None
        if kb == 'raw':
            return False if raw_free(I, b) else None
        if 'ser' in (ka, kb):
            return False
    return None


def mentions(key, a):
    """Does an unknown's name mention another unknown?"""
    stack = [key]
    while stack:
        k = stack.pop()
        if k is a:
            return True
        if isinstance(k, tuple):
            if k == a.key:
                return True
            stack.extend(k)
        elif isinstance(k, Lin):
            stack.extend(x for x, _ in k.t)
        elif isinstance(k, Atom):
            if k is a:
                return True
            stack.append(k.key)
        elif isinstance(k, BitV):
            stack.extend(b[0] for b in k.bits if isinstance(b, tuple))
    return False


def ints_differ(I, d):
    """d is an abstract integer: is it certain that some inputs of this trace
    partition make it nonzero?  True when it depends on an input unknown
    that nothing else depends on or constrains."""
    f = I.facts
    d = f.reps_subst(d)
    if not isinstance(d, Lin):
        return d != 0
    for a, k in d.t:
        if not (a.key and a.key[0] == 'free'):
            continue
        lo, hi = f.range_of(a)
        if lo is not None and lo == hi:
            continue
        if any(b is not a and mentions(b.key, a) for b, _ in d.t):
            continue
        if any(b is a for g in f.ge for b, _ in g.t) or any(b is a for g in f.ne for b, _ in g.t):
            continue
        if any(b is a for g in f.subst.values() if isinstance(g, Lin) for b, _ in g.t):
            continue
        return True
    return False


def text_is(I, s, lit):
    """Can the unknown text s differ from the literal?  False: certainly can."""
    out = None
    for key, user in I.path.encoded.items():
        if user.key == s.key:
            n = I.facts.same(atom(('len',) + key, 0), 0)
            if n is True:
                return lit == ''
            if n is False:
                return False        # an unknown text of one character or more
    return out


def raw_free(I, seg):
    """Unknown bytes nothing on this trace partition has constrained."""
    if any(k[0] == 'bytes==' and r for k, r in I.path.keyed.items()):
        return False
    f = I.facts
    name = seg[2]
    for a in list(f.bounds) + list(f.subst) + list(f.excl):
        if a.key and a.key[0] != 'len' and mentions_name(a.key, name):
            if a not in I.path.excl_atoms:
                return False
    for g in list(f.ge) + list(f.ne):
        if any(b.key[0] != 'len' and mentions_name(b.key, name) for b, _ in g.t):
            return False
    return True


def mentions_name(key, name):
    stack = [key]
    while stack:
        k = stack.pop()
        if k == name:
            return True
        if isinstance(k, tuple):
            stack.extend(k)
    return False


def value_same(I, a, b):
    """Equality of abstract values without splitting: True / False / None."""
    if a is b:
        return True
    num = (int, bool, Lin)
    if isinstance(a, num) and isinstance(b, num):
        r = I.facts.same(a, b)
        if r is None and ints_differ(I, sub(a, b)):
            return False
        return r
    if isinstance(a, BitV) or isinstance(b, BitV):
        if isinstance(a, (num, BitV)) and isinstance(b, (num, BitV)):
            x, y = to_bits(a, I.facts), to_bits(b, I.facts)
            if x is None or y is None:
                return None
            n = max(len(x), len(y))
            x += [0] * (n - len(x))
            y += [0] * (n - len(y))
            if x == y:
                return True
            if any({p, q} == {0, 1} for p, q in zip(x, y)):
                return False
            return None
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    if isinstance(a, (bool, int)) and isinstance(b, float):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.key == b.key:
            return True
        if I.distinct(a.key) and I.distinct(b.key):
            return False
        if ('padded', a.key) == b.key or ('padded', b.key) == a.key:
            return False
        return None
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is None or b is None:
        if isinstance(a, Sym) and not I.distinct(a.key) or isinstance(b, Sym) and not I.distinct(b.key):
            return None
        return a is b
    if is_buf(a) and is_buf(b):
        return bufs_same(I, segs_of(I, a), segs_of(I, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return all_same(I, a, b)
    if isinstance(a, (ListV, SeqV)) and isinstance(b, (ListV, SeqV)):
        if isinstance(a, SeqV) and isinstance(b, SeqV) and a.name == b.name:
            return True
        la = a.length if isinstance(a, SeqV) else len(a.items)
        lb = b.length if isinstance(b, SeqV) else len(b.items)
        r = I.facts.same(la, lb)
        if r is not True:
            return r
        n = la if isinstance(la, int) else lb if isinstance(lb, int) else I.facts.reps_subst(la)
        if not isinstance(n, int):
            return None
        xa = [a.elem(i) for i in range(n)] if isinstance(a, SeqV) else a.items
        xb = [b.elem(i) for i in range(n)] if isinstance(b, SeqV) else b.items
        return all_same(I, xa, xb)
    if isinstance(a, DictV) and isinstance(b, DictV):
        if len(a.d) != len(b.d):
            return False
        if list(a.d) == list(b.d):
            return all_same(I, [x for _, x in a.d.values()], [x for _, x in b.d.values()])
        return None
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        if a.cls is not b.cls:
            return False
        if I.obj_values is not None:
            r = I.obj_values(I, a, b)
            if r is not NotImplemented:
                return r
        return None
    if isinstance(a, Sym) or isinstance(b, Sym):
        s, o = (a, b) if isinstance(a, Sym) else (b, a)
        if s.ty == 'str' and isinstance(o, str):
            return text_is(I, s, o)
        if s.ty == 'str' and (is_buf(o) or isinstance(o, (int, Lin, BitV, tuple, ListV, SeqV))):
            return False
        if I.distinct(s.key):
            return False
        return None
    if isinstance(a, UnkV) or isinstance(b, UnkV):
        return None
    if type(a) is not type(b):
        return False
    return None


def all_same(I, a, b):
    if len(a) != len(b):
        return False
    out = True
    for x, y in zip(a, b):
        r = value_same(I, x, y)
        if r is False:
            return False
        if r is None:
            out = None
    return out


def bufs_same(I, A, B, mismatch=None):
    """Equality of two segment sequences: True / False / None.  A mismatch is
    reported through the list."""
    f = I.facts
    A, B = list(normalise(A, f)), list(normalise(B, f))
    r = f.same(total(A), total(B))
    if r is False:
        if mismatch is not None:
            mismatch.append(f'lengths {f.norm(total(A))} and {f.norm(total(B))}')
        return False
    unknown = r is None
    at = 0
    while A and B:
        a, b = A[0], B[0]
        if f.same(a[1], 0) is True:
            A.pop(0)
            continue
        if f.same(b[1], 0) is True:
            B.pop(0)
            continue
        w = f.same(a[1], b[1])
        if w is True:
            pass
        elif w is None:
            return None
        else:
            d = f.known_ge0(f.reps_subst(sub(a[1], b[1])))
            if d is None:
                return None
            if d:
                a, rest = seg_split(a, b[1])
                A[0] = a
                A.insert(1, rest)
            else:
                b, rest = seg_split(b, a[1])
                B[0] = b
                B.insert(1, rest)
        r = seg_same(I, a, b)
        if r is False:
            if mismatch is not None:
                mismatch.append(f'at {f.norm(at)}: {seg_show(a)} and {seg_show(b)}')
            return False
        if r is None:
            unknown = True
        at = add(at, a[1])
        A.pop(0)
        B.pop(0)
    return None if unknown else True


def seg_show(s):
    k = s[0]
    if k == 'lit':
        return repr(s[2])
    if k == 'zero':
        return f'{s[1]} zero bytes'
    if k == 'enc':
        return f'{s[3]!r} field ({s[2]} order) holding {s[4]!r}'
    if k == 'raw':
        return f'{s[1]} bytes of {show(s[2])} from {s[3]}'
    if k == 'ser':
        return f'{show(s[2])} packing {list(s[3])!r}'
    if k == 'part':
        return f'{s[1]} bytes from {s[3]} of ({seg_show(s[2])})'
    return repr(s)


def buf_eq(I, a, b):
    A, B = segs_of(I, a), segs_of(I, b)
    if not eq0(I, sub(total(A), total(B))):
        return False
    r = bufs_same(I, A, B)
    if r is not None:
        return r
    # single bytes decide through their integer value
    if I.facts.same(total(A), 1) is True:
        return I.facts.eq0(sub(num(byte_at(I, A, 0)), num(byte_at(I, B, 0))))
    k1 = tuple(seg_key(s) for s in normalise(A, I.facts))
    k2 = tuple(seg_key(s) for s in normalise(B, I.facts))
    if repr(k1) > repr(k2):
        k1, k2 = k2, k1
    return I.path.cond(('bytes==', k1, k2))


def num(v):
    if isinstance(v, BitV):
        raise Unsupported('comparison of masked byte')
    return v


def contains(I, c, v):
    if isinstance(v, bytes) and isinstance(c, bytes):
        return v in c
    if isinstance(v, int) and isinstance(c, bytes):
        return v in c
    if is_buf(v):
        return order(I, '>=', find(I, c, v, 0), 0)
    if isinstance(v, (int, Lin)):
        for b in byte_values(I, c):
            if eq(I, b, v):
                return True
        return False
    raise Unsupported('membership in unknown bytes')


# ---------------------------------------------------------------- indexing
def bounds(I, k, n):
    """(start, length) of a unit-step slice of n bytes, clamped."""
    if k.step not in (None, 1):
        raise Unsupported('extended slice of unknown bytes')

    def fix(x, default):
        if x is None:
            return default
        x = index_(I, x)
        if isinstance(x, BitV):
            raise Unsupported('slice by masked integer')
        if not ge0(I, x):
            x = I.facts.norm(add(x, n))
            if not ge0(I, x):
                return 0
            return x
        if ge0(I, sub(n, x)):
            return x
        return n
    a = fix(k.start, 0)
    b = fix(k.stop, n)
    if not ge0(I, sub(b, a)):
        return a, 0
    return a, I.facts.norm(sub(b, a))


def buf_getitem(I, o, k):
    segs = segs_of(I, o)
    n = total(segs)
    if type(k) is SliceV:
        if k.step == -1 and k.start is None and k.stop is None:
            raise Unsupported('reversed bytes')
        if o.big:
            # offsets inside the described window never exceed the buffer
            for x in (k.start, k.stop):
                if isinstance(x, Lin):
                    I.facts.assume_ge0(sub(n, x)) if I.facts.known_ge0(sub(n, x)) is None else None
        a, ln = bounds(I, k, n)
        if o.kind == 'memoryview':
            v = BufV('memoryview', ())
            v.target = o.target if o.target is not None else o
            v.base = (add(o.base[0], a) if o.target is not None else a, ln)
            return v
        if o.big:
            _, r = split_at(segs, a, I.facts, True)
            m, _ = split_at(r, ln, I.facts, True)
        else:
            m = take(I, segs, a, ln)
        return make(I, m, o.kind)
    k = index_(I, k)
    if isinstance(k, BitV):
        raise Unsupported('index by masked integer')
    if not ge0(I, k):
        k = add(k, n)
        if not ge0(I, k):
            I.raise_('IndexError', 'index out of range')
    if not ge0(I, sub(sub(n, k), 1)):
        I.raise_('IndexError', 'index out of range')
    return byte_at(I, segs, k)


def set_region(I, o, a, ln, new, resizable):
    """Replace [a, a+ln) of a writable buffer."""
    segs = segs_of(I, o)
    big = o.big
    if o.target is not None:
        big = o.target.big
    left, r = split_at(segs, a, I.facts, big)
    old, right = split_at(r, ln, I.facts, big)
    same = I.facts.same(total(new), ln)
    if same is None:
        same = I.facts.eq0(sub(total(new), ln))
    if not same:
        if not resizable:
            I.raise_('ValueError', 'memoryview assignment: lvalue and rvalue have '
                     'different structures')
        I.jattr(o, 'events', o.events + [
            f'resized by {I.facts.norm(sub(total(new), ln))} at {I.where(1)}'])
    if o.target is not None:
        write_at(I, o.target, add(o.base[0], a), new)
        return
    I.jattr(o, 'segs', tuple(normalise(list(left) + list(new) + list(right), I.facts)))


def write_at(I, o, off, new):
    """Overwrite bytes from off on; the caller checked that they are in range."""
    if o.target is not None:
        write_at(I, o.target, add(o.base[0], off), new)
        return
    left, r = split_at(o.segs, off, I.facts, o.big)
    _, right = split_at(r, total(new), I.facts, o.big)
    I.jattr(o, 'segs', tuple(normalise(list(left) + list(new) + list(right), I.facts)))


def writable(I, o):
    if not isinstance(o, BufV):
        return False
    if o.kind == 'bytearray':
        return True
    if o.kind == 'memoryview':
        t = o.target if o.target is not None else o
        return isinstance(t, BufV) and t.kind == 'bytearray' and o.target is not None
    return False


def buf_setitem(I, o, k, v):
    if not writable(I, o):
        I.raise_('TypeError', f'{o.kind!r} object does not support item assignment')
    n = total(segs_of(I, o))
    if type(k) is SliceV:
        if isinstance(v, (ListV, tuple, IterV)):
            v = from_ints(I, list(iterate(I, v)), 'bytes')
        if not is_buf(v):
            I.raise_('TypeError', "can assign only bytes, buffers, or iterables of ints")
        if o.big:
            for x in (k.start, k.stop):
                if isinstance(x, (Lin, int)) and I.facts.known_ge0(sub(n, x)) is None:
                    I.facts.assume_ge0(sub(n, x))
        a, ln = bounds(I, k, n)
        set_region(I, o, a, ln, segs_of(I, v), o.kind == 'bytearray')
        return
    k = index_(I, k)
    if not ge0(I, k):
        k = add(k, n)
    if not ge0(I, k) or not ge0(I, sub(sub(n, k), 1)):
        I.raise_('IndexError', 'bytearray index out of range')
    write_at(I, o, k, [('enc', 1, '-', 'B', v)])


def buf_delitem(I, o, k):
    if o.kind != 'bytearray' or type(k) is not SliceV:
        raise Unsupported('deletion from bytes')
    a, ln = bounds(I, k, total(o.segs))
    set_region(I, o, a, ln, (), True)


def extend(I, a, b):
    if not is_buf(b):
        b = from_ints(I, list(iterate(I, b)), 'bytes')
    I.jattr(a, 'events', a.events + [f'extended at {I.where(1)}'])
    I.jattr(a, 'segs', tuple(normalise(list(a.segs) + list(segs_of(I, b)), I.facts)))


def concat(I, a, b):
    ka = kind_of(a)
    if ka == 'memoryview' or (isinstance(b, BufV) and ka == 'memoryview'):
        I.raise_('TypeError', "unsupported operand type(s) for +: 'memoryview'")
    return make(I, list(segs_of(I, a)) + list(segs_of(I, b)), ka)


def repeat(I, x, n):
    if kind_of(x) == 'memoryview':
        I.raise_('TypeError', "unsupported operand type(s) for *: 'memoryview' and 'int'")
    segs = segs_of(I, x)
    if len(segs) == 1 and isinstance(segs[0][1], int) and (
            segs[0][0] == 'zero' or segs[0][0] == 'lit' and not any(segs[0][2])):
        return make(I, [('zero', I.facts.norm(scale(n, segs[0][1])))], kind_of(x))
    n = I.facts.concrete(n)
    return make(I, list(segs) * n, kind_of(x))


def from_ints(I, items, kind):
    out = []
    for v in items:
        if isinstance(v, bool) or isinstance(v, int):
            if not 0 <= v <= 255:
                I.raise_('ValueError', 'bytes must be in range(0, 256)')
            out.append(lit(bytes([v])))
        elif isinstance(v, (Lin, BitV)):
            back = as_byte(I, v)
            out.append(back)
        else:
            I.raise_('TypeError', f'{type_name(v)!r} object cannot be interpreted as an integer')
    return make(I, out, kind)


def as_byte(I, v):
    """The byte segment of an integer; bytes read from raw data map back."""
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        k = v.t[0][0].key
        if k[0] == 'byte' and len(k[1]) == 2 and k[1][0] != 'raw':
            key, pos = k[1]
            return ('raw', 1, key, pos)
    return ('enc', 1, '-', 'B', v)


# ---------------------------------------------------------------- searching
def find(I, hay, needle, start=0, stop=None):
    if isinstance(hay, bytes) and isinstance(needle, (bytes, int)) and isinstance(start, int) and (
            stop is None or isinstance(stop, int)):
        return hay.find(needle, start, *(() if stop is None else (stop,)))
    if isinstance(needle, int):
        needle = bytes([needle])
    if not isinstance(needle, bytes) or len(needle) != 1:
        raise Unsupported('search for an unknown or multi-byte string')
    c = needle[0]
    segs = segs_of(I, hay)
    if stop is not None:
        segs = split_at(segs, stop, I.facts)[0]
    if start != 0:
        if not ge0(I, sub(total(segs), start)):
            return -1
        segs = split_at(segs, start, I.facts)[1]
    at = start
    for s in segs:
        if s[0] == 'lit':
            i = s[2].find(needle)
            if i >= 0:
                return I.facts.norm(add(at, i))
        elif s[0] == 'zero':
            if c == 0 and ge0(I, sub(s[1], 1)):
                return I.facts.norm(at)
        elif s[0] == 'raw' and c in I.path.excluded.get(s[2], ()):
            pass
        elif s[0] == 'raw':
            key = ('find', s[2], I.facts.norm(s[3]), I.facts.norm(s[1]), c)
            if ge0(I, sub(s[1], 1)) and I.path.cond(('found',) + key):
                p = atom(key, 0)
                I.facts.assume_ge0(sub(sub(s[1], p), 1))
                return I.facts.norm(add(at, p))
        elif isinstance(s[1], int):
            b = byte_bits(I, [s], s[1])
            for i in range(s[1]):
                v = from_bits(b[i], I.facts) if b is not None else int_atom(
                    I, ('byte', byte_key(I, seg_split_byte(s, i))), 0, 255)
                if eq(I, v, c):
                    return I.facts.norm(add(at, i))
        else:
            raise Unsupported('search in unknown bytes')
        at = add(at, s[1])
    return -1


def seg_split_byte(s, i):
    if i:
        s = seg_split(s, i)[1]
    return seg_split(s, 1)[0] if s[1] != 1 else s


# ---------------------------------------------------------------- text codecs
def norm_codec(name):
    import codecs
    try:
        return codecs.lookup(name).name
    except LookupError:
        return None


def encode(I, s, enc='utf-8', errors='strict'):
    if not isinstance(enc, str):
        raise Unsupported('encoding name')
    name = norm_codec(enc)
    if name is None:
        I.raise_('LookupError', f'unknown encoding: {enc}')
    if isinstance(s, str):
        try:
            return s.encode(name, errors)
        except UnicodeError:
            I.raise_('UnicodeEncodeError', name)
    if isinstance(s, Sym):
        if s.key[0] == 'decode' and s.key[1] == name and s.attrs is not None:
            return s.attrs['buf']
        key = ('encode', s.key, name)
        w = atom(('len',) + key, 0)
        I.path.encoded[key] = s
        return make(I, [('raw', w, key, 0)])
    raise Unsupported(f'encode of {s!r}')


def decode(I, b, enc='utf-8', errors='strict'):
    if not isinstance(enc, str):
        raise Unsupported('encoding name')
    name = norm_codec(enc)
    if name is None:
        I.raise_('LookupError', f'unknown encoding: {enc}')
    if isinstance(b, bytes):
        try:
            return b.decode(name, errors)
        except UnicodeError:
            I.raise_('UnicodeDecodeError', name)
    segs = normalise(segs_of(I, b), I.facts)
    if all(x[0] == 'lit' or x[0] == 'zero' and isinstance(x[1], int) for x in segs):
        return decode(I, b''.join(x[2] if x[0] == 'lit' else bytes(x[1]) for x in segs), enc, errors)
    if segs and segs[0][0] == 'raw' and segs[0][2][0] == 'encode' and segs[0][2][2] == name:
        s = segs[0]
        user = I.path.encoded.get(s[2])
        if user is not None and I.facts.same(s[3], 0) is True and (
                I.facts.same(s[1], atom(('len',) + s[2], 0)) is True):
            if len(segs) == 1:
                return user
            if len(segs) == 2 and segs[1][0] == 'zero':
                if not ge0(I, sub(segs[1][1], 1)):
                    return user
                return Sym(('padded', user.key), 'str', {'text': user})
    key = ('decode', name) + tuple(seg_key(x) for x in segs)
    return Sym(key, 'str', {'buf': make(I, segs)})


def strip_end(I, segs, chars, end):
    """Remove bytes of `chars` from one end of a run of segments, in place."""
    while segs:
        x = segs[end]
        if x[0] == 'zero':
            if 0 not in chars:
                return
            segs.pop(end)
        elif x[0] == 'lit':
            t = x[2].rstrip(chars) if end else x[2].lstrip(chars)
            if t:
                segs[end] = lit(t)
                return
            segs.pop(end)
        elif x[0] == 'raw':
            if set(chars) <= set(I.path.excluded.get(x[2], ())) or not ge0(I, sub(x[1], 1)):
                return
            # the run keeps its outermost byte, or loses some
            if I.path.cond(('outer bytes', chars, x[2], key_of(x[3]), key_of(x[1]), end)):
                k = atom(('stripped', chars, x[2], key_of(x[3]), key_of(x[1]), end), 1)
                I.facts.assume_ge0(sub(x[1], k))
                rest = sub(x[1], k)
                segs[end] = ('raw', I.facts.norm(rest), x[2], x[3] if end else I.facts.norm(add(x[3], k)))
            return
        else:
            raise Unsupported('strip of unknown bytes')


# ---------------------------------------------------------------- struct
def struct_format(I, v):
    """A concrete format string."""
    if isinstance(v, str):
        return v
    if isinstance(v, bytes):
        return v.decode('ascii')
    if isinstance(v, ObjV) and isinstance(v.payload, str):
        return v.payload
    if isinstance(v, Sym) and v.ty == 'str':
        t = text_concrete(I, v.key)
        if t is not None:
            return t
    if isinstance(v, BufV):
        raise Unsupported('unknown struct format')
    if isinstance(v, (Sym, UnkV)):
        raise Unsupported(f'unknown struct format {v!r}')
    I.raise_('TypeError', 'Struct() argument 1 must be a str or bytes object')


def text_concrete(I, key):
    """A text with embedded unknown integers, at their representatives."""
    if key[0] == 'c':
        return str(key[2])
    if key[0] == 'n':
        return str(I.facts.concrete(key[1])) if not isinstance(key[1], BitV) else None
    if key[0] in ('fstr', 'cat'):
        parts = [text_concrete(I, k) for k in key[1:]]
        return None if any(p is None for p in parts) else ''.join(parts)
    return None


def fmt_fields(I, fmt):
    try:
        return fields(fmt)
    except struct.error as e:
        I.raise_('struct.error', str(e))
    except (IndexError, ValueError, UnicodeError):
        I.raise_('struct.error', 'bad char in struct format')


def order_of(order, w):
    return '-' if w == 1 else NATIVE[order]


def num_fields(fl):
    return sum(1 for ch, _, _ in fl if ch != 'x')


def enc_field(I, ch, order, w, v):
    f = I.facts
    if ch in 'sp' and isinstance(v, ObjV) and is_buf(v.payload):
        v = v.payload
    if ch == 's':
        if not is_buf(v) or kind_of(v) == 'memoryview':
            if isinstance(v, (Sym, UnkV)) and getattr(v, 'ty', 'any') in ('any',):
                raise Unsupported(f'packing unknown value {v!r} as bytes')
            I.raise_('struct.error', "argument for 's' must be a bytes object")
        segs = segs_of(I, v)
        n = total(segs)
        if f.same(n, w) is True:
            return list(segs)
        if ge0(I, sub(n, w)):
            return list(split_at(segs, w, f)[0])
        return list(segs) + [('zero', f.norm(sub(w, n)))]
    if ch == 'p':
        if not is_buf(v) or kind_of(v) == 'memoryview':
            if isinstance(v, (Sym, UnkV)):
                raise Unsupported(f'packing unknown value {v!r} as bytes')
            I.raise_('struct.error', "argument for 'p' must be a bytes object")
        if w == 0:
            return []
        segs = segs_of(I, v)
        n = total(segs)
        cap = min(w - 1, 255)
        if not ge0(I, sub(cap, n)):
            segs, n = split_at(segs, cap, f)[0], cap
        pad_ = f.norm(sub(w - 1, n))
        return [('enc', 1, '-', 'B', f.norm(n))] + list(segs) + [('zero', pad_)]
    if ch == 'c':
        if not is_buf(v) or f.same(width(I, v), 1) is not True:
            I.raise_('struct.error', 'char format requires a bytes object of length 1')
        return list(segs_of(I, v))
    o = order_of(order, w)
    if ch == '?':
        if isinstance(v, Sym) and v.ty == 'bool':
            return [('enc', w, o, ch, v)]
        if isinstance(v, ObjV):
            c, m = v.cls.find('__bool__')
            if isinstance(m, FuncV):
                r = I.call(bind(I, m, v, v.cls), [], {})
                return [('enc', w, o, ch, r if isinstance(r, (bool, Sym)) else truth(I, r))]
        return [('enc', w, o, ch, truth(I, v))]
    if ch in 'efd':
        if isinstance(v, bool):
            v = float(v)
        if isinstance(v, int):
            v = float(v)
        if isinstance(v, float):
            try:
                struct.pack('<' + ch, v)
            except OverflowError as e:
                I.raise_('OverflowError', str(e))
        if isinstance(v, float) or (isinstance(v, Sym) and v.ty in ('float', 'any', 'int')) or isinstance(v, Lin):
            return [('enc', w, o, ch, v)]
        if isinstance(v, ObjV):
            if isinstance(v.payload, (int, float)):
                return [('enc', w, o, ch, float(v.payload))]
            c, m = v.cls.find('__float__')
            if c is not None:
                return enc_field(I, ch, order, w, I.call(bind(I, m, v, v.cls), [], {}))
            c, m = v.cls.find('__index__')
            if c is not None:
                return enc_field(I, ch, order, w, I.call(bind(I, m, v, v.cls), [], {}))
        if isinstance(v, UnkV):
            raise Unsupported(f'packing {v!r}')
        I.raise_('struct.error', 'required argument is not a float')
    # integers
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, ObjV):
        if isinstance(v.payload, int):
            v = int(v.payload)
        else:
            c, m = v.cls.find('__index__')
            if c is None:
                I.raise_('struct.error', 'required argument is not an integer')
            v = I.call(bind(I, m, v, v.cls), [], {})
    lo, hi = int_range(ch, w)
    if isinstance(v, int):
        if not lo <= v <= hi:
            I.raise_('struct.error', f'{ch!r} format requires {lo} <= number <= {hi}')
    elif isinstance(v, Lin):
        v = f.norm(v)
        if isinstance(v, int):
            return enc_field(I, ch, order, w, v)
        for d in (sub(v, lo), sub(hi, v)):
            if f.known_ge0(d) is None and I.path.assume_fit:
                f.assume_ge0(d)
            elif not f.ge0(d):
                I.raise_('struct.error', f'{ch!r} format requires {lo} <= number <= {hi}')
    elif isinstance(v, BitV):
        l, h = bits_range(v)
        if h > hi:
            if l > hi:
                I.raise_('struct.error', f'{ch!r} format requires {lo} <= number <= {hi}')
            high = [b for b in v.bits[hi.bit_length():] if b != 0]
            if high:
                if I.path.cond(('overflow', v, ch)):
                    I.raise_('struct.error', f'{ch!r} format requires {lo} <= number <= {hi}')
    elif isinstance(v, Sym):
        if v.ty in ('str', 'bytes', 'float'):
            I.raise_('struct.error', 'required argument is not an integer')
    elif isinstance(v, UnkV):
        raise Unsupported(f'packing {v!r}')
    else:
        I.raise_('struct.error', 'required argument is not an integer')
    return [('enc', w, o, ch, v)]


def struct_pack(I, fmt, values):
    order, size, fl = fmt_fields(I, fmt)
    n = num_fields(fl)
    if len(values) != n:
        I.raise_('struct.error', f'pack expected {n} items for packing (got {len(values)})')
    out = []
    at = 0
    i = 0
    for ch, off, w in fl:
        if off > at:
            out.append(('zero', off - at))
        if ch == 'x':
            out.append(('zero', w))
        else:
            v = values[i]
            i += 1
            out.extend(enc_field(I, ch, order, w, v))
        at = off + w
    if at < size:
        out.append(('zero', size - at))
    return normalise(out, I.facts)


def dec_field(I, ch, order, w, segs):
    f = I.facts
    segs = normalise(segs, f)
    if ch == 's':
        return make(I, segs)
    if ch == 'p':
        if w == 0:
            return b''
        n = byte_at(I, segs, 0)
        if isinstance(n, BitV):
            raise Unsupported('pascal length')
        cap = w - 1
        if not ge0(I, sub(cap, n)):
            n = cap
        return make(I, take(I, segs, 1, n))
    if ch == 'c':
        return make(I, segs)
    o = order_of(order, w)
    if len(segs) == 1:
        s = segs[0]
        if s[0] == 'enc' and s[1] == w and s[2] == o and (s[3] == ch):
            return s[4]
        if s[0] == 'zero' or s[0] == 'lit' and not any(s[2]):
            return False if ch == '?' else 0.0 if ch in 'efd' else 0
        if s[0] == 'lit' and (o != 'native'):
            fm = ('<' if o == '-' else o) + ch
            if struct.calcsize(fm) == w:
                return struct.unpack(fm, s[2])[0]
        if s[0] == 'enc' and s[1] == w and s[2] == o and s[3] in 'bBhHiIlLqQnN' and (
                ch in 'bBhHiIlLqQnN'):
            lo, hi = int_range(ch, w)
            v = s[4]
            if isinstance(v, int) and not isinstance(v, bool):
                if v > hi:
                    v -= 1 << (8 * w)
                elif v < lo:
                    v += 1 << (8 * w)
                return v
            if isinstance(v, Lin) and f.known_ge0(sub(v, lo)) and f.known_ge0(sub(hi, v)):
                return v
    if ch in 'bBhHiIlLqQnN':
        bs = byte_bits(I, segs, w)
        if bs is not None and (o != 'native'):
            if o == '>':
                bs = bs[::-1]
            bits = [b for x in bs for b in x]
            if ch.isupper() or bits[-1] == 0:
                return from_bits(bits, f)
        lo, hi = int_range(ch, w)
        if w == 1 and len(segs) == 1 and ch == 'B':
            return byte_at(I, segs, 0)
        return atom(('dec', ch, o) + tuple(seg_key(s) for s in segs), lo, hi)
    if ch == '?':
        return Sym(('dec', ch, o) + tuple(seg_key(s) for s in segs), 'bool')
    if ch in 'efd':
        return Sym(('dec', ch, o) + tuple(seg_key(s) for s in segs), 'float')
    if ch == 'P':
        return atom(('dec', ch, o) + tuple(seg_key(s) for s in segs), 0)
    raise Unsupported(f'struct character {ch!r}')


def struct_unpack_segs(I, fmt, segs):
    order, size, fl = fmt_fields(I, fmt)
    out = []
    rest = list(segs)
    at = 0
    for ch, off, w in fl:
        if off > at:
            _, rest = split_at(rest, off - at, I.facts)
        mine, rest = split_at(rest, w, I.facts)
        at = off + w
        if ch != 'x':
            out.append(dec_field(I, ch, order, w, mine))
    return tuple(out)


def struct_unpack(I, fmt, buf):
    if not is_buf(buf):
        if isinstance(buf, (UnkV, Sym)):
            raise Unsupported('unpacking an unknown value')
        I.raise_('TypeError', f'a bytes-like object is required, not {type_name(buf)!r}')
    order, size, fl = fmt_fields(I, fmt)
    segs = segs_of(I, buf)
    if not eq0(I, sub(total(segs), size)):
        I.raise_('struct.error', f'unpack requires a buffer of {size} bytes')
    return struct_unpack_segs(I, fmt, segs)


def int_arg(I, v):
    v = index_(I, v)
    if isinstance(v, BitV):
        raise Unsupported('offset from masked integer')
    return v


def struct_unpack_from(I, fmt, buf, offset=0):
    if not is_buf(buf):
        if isinstance(buf, (UnkV, Sym)):
            raise Unsupported('unpacking an unknown value')
        I.raise_('TypeError', f'a bytes-like object is required, not {type_name(buf)!r}')
    order, size, fl = fmt_fields(I, fmt)
    segs = segs_of(I, buf)
    n = total(segs)
    offset = int_arg(I, offset)
    if not ge0(I, offset):
        offset = add(offset, n)
        if not ge0(I, offset):
            I.raise_('struct.error', 'offset out of range')
    if not ge0(I, sub(sub(n, offset), size)):
        I.raise_('struct.error', f'unpack_from requires a buffer of at least {size} bytes')
    _, r = split_at(segs, offset, I.facts)
    m, _ = split_at(r, size, I.facts)
    return struct_unpack_segs(I, fmt, m)


def struct_pack_into(I, fmt, buf, offset, values):
    if not writable(I, buf):
        if isinstance(buf, (UnkV, Sym)):
            raise Unsupported('packing into an unknown value')
        I.raise_('TypeError', 'argument must be read-write bytes-like object')
    order, size, fl = fmt_fields(I, fmt)
    n = num_fields(fl)
    if len(values) != n:
        I.raise_('struct.error', f'pack_into expected {n} items for packing (got {len(values)})')
    total_ = total(segs_of(I, buf))
    offset = int_arg(I, offset)
    if not ge0(I, offset):
        offset = add(offset, total_)
        if not ge0(I, offset):
            I.raise_('struct.error', 'offset out of range')
    d = sub(sub(total_, offset), size)
    big = buf.big or (buf.target is not None and buf.target.big)
    if big and I.facts.known_ge0(d) is None:
        I.facts.assume_ge0(d)
    elif not ge0(I, d):
        I.raise_('struct.error', f'pack_into requires a buffer of at least {size} bytes')
    segs = struct_pack(I, fmt, values)
    I.buf_writes.append((buf, offset, size))
    write_at(I, buf, offset, segs)


# ---------------------------------------------------------------- streams
def check_open(I, s):
    if s.closed:
        I.raise_('ValueError', 'I/O operation on closed file.')


def stream_read(I, s, n=None):
    check_open(I, s)
    if 'r' not in s.mode:
        I.raise_('io.UnsupportedOperation', 'read')
    f = I.facts
    t = total(s.segs)
    avail = f.norm(sub(t, s.pos))
    if n is not None:
        n = index_(I, n)
    if isinstance(n, BitV):
        raise Unsupported('read of masked size')
    if not ge0(I, avail):
        avail = 0
    if n is None or not ge0(I, n):
        k = avail
    elif f.same(n, avail) is True:
        k = n if isinstance(n, int) else avail
    else:
        k = n if ge0(I, sub(avail, n)) else avail
        if isinstance(s.short, tuple) and n is not None:
            # a source that delivers its data in pieces of these sizes
            c = s.short[s.nread % len(s.short)]
            I.jattr(s, 'nread', s.nread + 1)
            if ge0(I, sub(k, c)):
                k = c
        elif s.short and n is not None and f.same(k, 0) is not True:
            # a short read may return fewer bytes, but at least one
            if f.same(k, 1) is not True and ge0(I, sub(k, 1)):
                I.jattr(s, 'nread', s.nread + 1)
                r = atom(('short', s.name, s.nread), 1)
                f.assume_ge0(sub(k, r))
                k = r
    if f.same(k, 0) is True:
        return b''
    m = take(I, s.segs, s.pos, k)
    I.jattr(s, 'pos', f.norm(add(s.pos, k)))
    return make(I, m)


def stream_write(I, s, data):
    check_open(I, s)
    if 'w' not in s.mode:
        I.raise_('io.UnsupportedOperation', 'write')
    if not is_buf(data):
        if isinstance(data, (UnkV, Sym)):
            raise Unsupported('writing an unknown value')
        I.raise_('TypeError', f'a bytes-like object is required, not {type_name(data)!r}')
    f = I.facts
    new = list(segs_of(I, data))
    n = total(new)
    t = total(s.segs)
    d = f.norm(sub(t, s.pos))
    if f.same(d, 0) is True:
        segs = list(s.segs) + new
    elif ge0(I, d):
        left, r = split_at(s.segs, s.pos, f)
        if ge0(I, sub(d, n)):
            _, right = split_at(r, n, f)
        else:
            right = []
        segs = list(left) + new + list(right)
    else:
        segs = list(s.segs) + [('zero', f.norm(scale(d, -1)))] + new
    I.jattr(s, 'segs', tuple(normalise(segs, f)))
    I.jattr(s, 'pos', f.norm(add(s.pos, n)))
    I.jattr(s, 'writes', s.writes + 1)
    return f.norm(n)


def stream_seek(I, s, off, whence=0):
    check_open(I, s)
    off = int_arg(I, off)
    if whence == 0:
        p = off
    elif whence == 1:
        p = add(s.pos, off)
    elif whence == 2:
        p = add(total(s.segs), off)
    else:
        I.raise_('ValueError', 'invalid whence')
    p = I.facts.norm(p)
    if not ge0(I, p):
        I.raise_('ValueError', 'negative seek value')
    I.jattr(s, 'pos', p)
    return p


def stream_method(I, s, name):
    def m(f):
        return NativeFunc(name, f, False)
    if name == 'read' or name == 'read1':
        return m(lambda I, a, k: stream_read(I, s, *a, **k))
    if name == 'write':
        return m(lambda I, a, k: stream_write(I, s, *a))
    if name == 'seek':
        return m(lambda I, a, k: stream_seek(I, s, *a))
    if name == 'tell':
        def tell(I, a, k):
            check_open(I, s)
            return s.pos
        return m(tell)
    if name == 'getvalue':
        def gv(I, a, k):
            check_open(I, s)
            return make(I, s.segs)
        return m(gv)
    if name == 'getbuffer':
        raise Unsupported('getbuffer')
    if name == '__enter__':
        def enter(I, a, k):
            check_open(I, s)
            return s
        return m(enter)
    if name == '__exit__' or name == 'close':
        def close(I, a, k):
            I.jattr(s, 'closed', True)
            return None
        return m(close)
    if name == 'flush':
        return m(lambda I, a, k: None)
    if name in ('readable',):
        return m(lambda I, a, k: 'r' in s.mode)
    if name in ('writable',):
        return m(lambda I, a, k: 'w' in s.mode)
    if name == 'seekable':
        return m(lambda I, a, k: True)
    if name == 'closed':
        return s.closed
    if name == 'readinto':
        def ri(I, a, k):
            b = a[0]
            d = stream_read(I, s, width(I, b))
            write_at(I, b, 0, segs_of(I, d))
            return width(I, d)
        return m(ri)
    if name == 'truncate':
        def tr(I, a, k):
            n = a[0] if a and a[0] is not None else s.pos
            if ge0(I, sub(total(s.segs), n)):
                I.jattr(s, 'segs', tuple(split_at(s.segs, n, I.facts)[0]))
            return n
        return m(tr)
    if name == 'writelines':
        def wl(I, a, k):
            for x in iterate(I, a[0]):
                stream_write(I, s, x)
        return m(wl)
    return None


# ---------------------------------------------------------------- methods
def buf_method(I, b, name):
    def m(f):
        return NativeFunc(name, f, False)
    kind = kind_of(b)
    if not hasattr({'memoryview': memoryview, 'bytearray': bytearray}.get(kind, bytes), name):
        return None
    if name == 'join':
        def join(I, a, k):
            out = []
            sep = segs_of(I, b)
            for i, x in enumerate(iterate(I, a[0])):
                if not is_buf(x):
                    if isinstance(x, (Sym, UnkV)):
                        raise Unsupported('joining unknown values')
                    I.raise_('TypeError', f'sequence item {i}: expected a bytes-like object, {type_name(x)} found')
                if i:
                    out.extend(sep)
                out.extend(segs_of(I, x))
            return make(I, out, kind)
        return m(join)
    if name in ('find', 'index'):
        def fnd(I, a, k):
            r = find(I, b, *a)
            if name == 'index' and r == -1:
                I.raise_('ValueError', 'subsection not found')
            return r
        return m(fnd)
    if name == 'decode':
        return m(lambda I, a, k: decode(I, b, *a, **{
            {'encoding': 'enc', 'errors': 'errors'}[x]: y for x, y in k.items()}))
    if name == 'tobytes':
        return m(lambda I, a, k: make(I, segs_of(I, b)))
    if name in ('startswith', 'endswith'):
        def sw(I, a, k):
            opts = a[0] if isinstance(a[0], tuple) else (a[0],)
            for o in opts:
                n, w = width(I, b), width(I, o)
                if not ge0(I, sub(n, w)):
                    continue
                st = 0 if name == 'startswith' else sub(n, w)
                if buf_eq(I, make(I, take(I, segs_of(I, b), st, w)), o):
                    return True
            return False
        return m(sw)
    if name in ('ljust', 'rjust'):
        def lj(I, a, k):
            w = width(I, b)
            d = sub(a[0], w)
            if not ge0(I, d):
                return make(I, segs_of(I, b), kind)
            p = segs_of(I, repeat(I, a[1] if len(a) > 1 else b' ', I.facts.norm(d)))
            s = list(segs_of(I, b))
            return make(I, s + list(p) if name == 'ljust' else list(p) + s, kind)
        return m(lj)
    if name in ('rstrip', 'strip', 'lstrip'):
        def rs(I, a, k):
            if isinstance(b, bytes):
                return getattr(b, name)(*a)
            segs = list(normalise(segs_of(I, b), I.facts))
            chars = a[0] if a else b' \t\n\r\x0b\f'
            if isinstance(chars, bytes) and chars:
                for end in ((-1,) if name == 'rstrip' else (0,) if name == 'lstrip' else (-1, 0)):
                    strip_end(I, segs, chars, end)
                return make(I, segs, kind)
            raise Unsupported('strip of unknown bytes')
        return m(rs)
    if name == '__len__':
        return m(lambda I, a, k: width(I, b))
    if name == '__getitem__':
        return m(lambda I, a, k: I.getitem(b, a[0]))
    if name == '__class_getitem__':
        return None
    if name in ('partition', 'rpartition', 'split'):
        def part(I, a, k):
            if isinstance(b, bytes) and all(isinstance(x, (bytes, int)) for x in a):
                r = getattr(b, name)(*a)
                return r if isinstance(r, tuple) else ListV(r)
            if name == 'rpartition':
                raise Unsupported('rpartition of unknown bytes')
            if name == 'split' and (len(a) < 2 or a[1] != 1):
                raise Unsupported('split of unknown bytes')
            p = find(I, b, a[0])
            segs = segs_of(I, b)
            w = total(segs)
            if p == -1:
                r = (make(I, segs, kind), b'', b'')
                return r if name == 'partition' else ListV(r[:1])
            n = width(I, a[0])
            r = (make(I, take(I, segs, 0, p), kind), a[0],
                 make(I, split_at(segs, add(p, n), I.facts)[1], kind))
            return r if name == 'partition' else ListV((r[0], r[2]))
        return m(part)
    if kind == 'memoryview':
        if name == 'nbytes':
            return width(I, b)
        if name == 'readonly':
            return not writable(I, b)
        if name in ('release', '__exit__'):
            return m(lambda I, a, k: None)
        if name == '__enter__':
            return m(lambda I, a, k: b)
        if name in ('itemsize', 'ndim'):
            return 1
        if name == 'format':
            return 'B'
        if name == 'cast':
            return m(lambda I, a, k: b)
        if name == 'toreadonly':
            return m(lambda I, a, k: b)
        if name == 'obj':
            return b.target
    if kind == 'bytearray':
        if name == 'extend':
            return m(lambda I, a, k: extend(I, b, a[0]))
        if name == 'append':
            return m(lambda I, a, k: extend(I, b, ListV([a[0]])))
        if name == 'copy':
            return m(lambda I, a, k: BufV('bytearray', b.segs))
        if name in ('clear', 'pop', 'insert', 'remove', 'reverse'):
            raise Unsupported(f'bytearray.{name}')
    if isinstance(b, bytes) and hasattr(b, name):
        def host(I, a, k):
            if not all(isinstance(x, (bytes, int, str, tuple)) for x in a):
                raise Unsupported(f'bytes.{name} with unknown arguments')
            try:
                r = getattr(b, name)(*a, **k)
            except (ValueError, TypeError) as e:
                I.raise_(type(e).__name__, str(e))
            return ListV(r) if isinstance(r, list) else r
        return m(host)
    if name == 'tolist':
        return m(lambda I, a, k: ListV(iterate(I, b)))
    if (kind == 'memoryview' or hasattr(b'', name)) and not name.startswith('__'):
        raise Unsupported(f'{kind}.{name} of unknown bytes')
    return None


def ctor(I, kind, args, kw):
    if kind == 'memoryview':
        src = args[0]
        if isinstance(src, ObjV) and is_buf(src.payload):
            src = src.payload
        if isinstance(src, (UnkV, Sym)) and getattr(src, 'ty', 'any') == 'any':
            raise Unsupported(f'memoryview of {src!r}')
        if not is_buf(src):
            I.raise_('TypeError', 'memoryview: a bytes-like object is required')
        v = BufV('memoryview', ())
        if isinstance(src, bytes):
            src = BufV('bytes', segs_of(I, src))
        if src.target is not None:
            v.target, v.base = src.target, src.base
        else:
            v.target, v.base = src, (0, total(src.segs))
        return v
    if not args:
        return make(I, (), kind)
    x = args[0]
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Lin)):
        if not ge0(I, x):
            I.raise_('ValueError', 'negative count')
        return make(I, [('zero', x)], kind)
    if is_buf(x):
        return make(I, segs_of(I, x), kind)
    if isinstance(x, str) or isinstance(x, Sym) and x.ty == 'str':
        if len(args) < 2 and 'encoding' not in kw:
            I.raise_('TypeError', 'string argument without an encoding')
        b = encode(I, x, args[1] if len(args) > 1 else kw['encoding'])
        return make(I, segs_of(I, b), kind)
    if isinstance(x, ObjV):
        c, mth = x.cls.find('__bytes__')
        if c is not None:
            return I.call(bind(I, mth, x, x.cls), [], {})
        if is_buf(x.payload):
            return make(I, segs_of(I, x.payload), kind)
    if isinstance(x, (UnkV, Sym, BitV)):
        raise Unsupported(f'bytes of {x!r}')
    return from_ints(I, list(iterate(I, x)), kind)
