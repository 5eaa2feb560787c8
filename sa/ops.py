"""Operators, iteration, indexing and formatting over abstract values."""
from __future__ import annotations

from .builtins_model import *
from .builtins_model import MISSING
from .layout import total, split_at, normalise, lit
from .terms import is_intlike, mk, show

NUM = (int, float, Lin, BitV)


# ---------------------------------------------------------------- iteration
def iterate(I, o):
    """Host iterator over an abstract iterable."""
    t = type(o)
    if t is tuple or t is str or t is bytes:
        return iter(o)
    if t is ListV:
        return _list_iter(o)
    if t is IterV:
        return o.it if hasattr(o.it, '__next__') else iter(o.it)
    if t is DictV:
        return iter([k for k, _ in o.d.values()])
    if t is SetV:
        return iter([k for k, _ in o.dict.d.values()])
    if t is RangeV:
        return _range_iter(I, o)
    if t is SeqV:
        return _seq_iter(I, o)
    if t is BufV:
        return iter(I.bufm.byte_values(I, o))
    if t is ObjDict:
        return iter(list(o.obj.d))
    if t is ClassDict:
        return iter(list(o.cls.ns))
    if t is ModuleDict:
        return iter(list(o.ns))
    if t is ClassV:
        m = I.enum_members(o)
        if m is not None:
            return iter(m)
        mc, f = (o.meta or TYPE).find('__iter__')
        if mc is not None:
            return iterate(I, I.call(f, [o], {}))
    if t is ObjV:
        c, m = o.cls.find('__iter__')
        if c is not None:
            r = I.call(bind(I, m, o, o.cls), [], {})
            if r is o or (isinstance(r, ObjV) and r.cls.find('__next__')[0] is not None):
                return _next_iter(I, r)
            return iterate(I, r)
        if isinstance(o.payload, (DictV, ListV, SetV, tuple, str, BufV, bytes)):
            return iterate(I, o.payload)
        c, m = o.cls.find('__getitem__')
        if c is not None:
            raise Unsupported('sequence protocol iteration')
    if t is UnkV:
        raise Unsupported(f'iteration over {o!r}')
    if t is Sym and o.ty in ('any', 'callable'):
        raise Unsupported(f'iteration over unknown value {o!r}')
    if t is StreamV:
        raise Unsupported('line iteration of a stream')
    I.raise_('TypeError', f'{type_name(o)!r} object is not iterable')


def _list_iter(o):
    i = 0
    while i < len(o.items):
        yield o.items[i]
        i += 1


def _range_iter(I, o):
    st, sp, step = o.start, o.stop, o.step
    if not isinstance(step, int):
        raise Unsupported('range step')
    if isinstance(st, Lin) or isinstance(sp, Lin):
        n = sub(sp, st) if step > 0 else sub(st, sp)
        if not I.facts.ge0(sub(n, 1)):
            return
        if abs(step) != 1:
            raise Unsupported('stepped symbolic range')
        n = I.facts.concrete(n)
        for i in range(n):
            yield add(st, i * step)
        return
    if isinstance(st, BitV) or isinstance(sp, BitV):
        raise Unsupported('range over masked integer')
    yield from range(st, sp, step)


def _seq_iter(I, o):
    n = I.facts.concrete(o.length)
    for i in range(n):
        yield o.elem(i)


def _next_iter(I, o):
    c, m = o.cls.find('__next__')
    while True:
        try:
            v = I.call(bind(I, m, o, o.cls), [], {})
        except PyExc as e:
            if EXC['StopIteration'] in e.obj.cls.mro:
                return
            raise
        yield v


def type_name(o):
    try:
        return type_of(o).name
    except Unsupported:
        return '?'


def len_(I, o):
    t = type(o)
    if t in (tuple, str, bytes):
        return len(o)
    if t is ListV:
        return len(o.items)
    if t is SeqV:
        return o.length
    if t is DictV:
        return len(o.d)
    if t is SetV:
        return len(o.dict.d)
    if t is BufV:
        return I.facts.norm(total(o.segs) if o.target is None else o.base[1])
    if t is RangeV:
        n = sub(o.stop, o.start)
        if o.step != 1:
            if isinstance(n, int):
                return len(range(o.start, o.stop, o.step))
            raise Unsupported('len of a stepped range')
        return n if order(I, '>=', n, 0) else 0
    if t is ObjV:
        c, m = o.cls.find('__len__')
        if c is not None:
            return I.call(bind(I, m, o, o.cls), [], {})
        if isinstance(o.payload, (DictV, ListV, SetV, tuple, str, BufV, bytes)):
            return len_(I, o.payload)
    if t is Sym and o.ty in ('str', 'bytes'):
        return atom(('len', o.key), 0)
    if t in (UnkV, Sym):
        raise Unsupported(f'len of {o!r}')
    if t is ClassV:
        m = I.enum_members(o)
        if m is not None:
            return len(m)
    I.raise_('TypeError', f'object of type {type_name(o)!r} has no len()')


# ---------------------------------------------------------------- indexing
def index_(I, k):
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, (int, Lin, BitV)) or k is None:
        return k
    if isinstance(k, ObjV):
        if isinstance(k.payload, int):
            return k.payload
        c, m = k.cls.find('__index__')
        if c is not None:
            return I.call(bind(I, m, k, k.cls), [], {})
    if isinstance(k, (UnkV, Sym)):
        raise Unsupported(f'index {k!r}')
    I.raise_('TypeError', f'indices must be integers or slices, not {type_name(k)}')


def host_slice(I, s, n):
    """Concrete slice of a host sequence of length n."""
    vals = []
    for x in (s.start, s.stop, s.step):
        x = index_(I, x)
        if isinstance(x, Lin):
            # clamping makes any value beyond the sequence equivalent
            lo, _ = I.facts.interval(x)
            if lo is not None and lo >= n:
                x = n
            else:
                x = I.facts.concrete(x)
        elif isinstance(x, BitV):
            raise Unsupported('slice by masked integer')
        vals.append(x)
    return slice(*vals)


def getitem(I, o, k):
    t = type(o)
    if t is ListV or t is tuple or t is str or t is bytes:
        seq = o.items if t is ListV else o
        if type(k) is SliceV:
            r = seq[host_slice(I, k, len(seq))]
            return ListV(r) if t is ListV else r
        if isinstance(k, ObjV) and isinstance(k.payload, int):
            k = k.payload
        if isinstance(k, Lin):
            k = I.facts.concrete(k)
        if not isinstance(k, int):
            k = index_(I, k)
        if not -len(seq) <= k < len(seq):
            I.raise_('IndexError', f'{type_name(o)} index out of range')
        return seq[k]
    if t is DictV:
        e = dict_find(I, o, k)
        if e is None:
            I.raise_('KeyError', k)
        return e[1]
    if t is SeqV:
        if type(k) is SliceV:
            items = [o.elem(i) for i in range(I.facts.concrete(o.length))]
            r = items[host_slice(I, k, len(items))]
            return ListV(r) if o.kind == 'list' else tuple(r)
        k = index_(I, k)
        n = I.facts.concrete(o.length)
        k = I.facts.concrete(k)
        if not -n <= k < n:
            I.raise_('IndexError', 'index out of range')
        return o.elem(k if k >= 0 else k + n)
    if t is BufV:
        return I.bufm.buf_getitem(I, o, k)
    if t is ObjV:
        c, m = o.cls.find('__getitem__')
        if c is not None:
            return I.call(bind(I, m, o, o.cls), [k], {})
        if isinstance(o.payload, DictV):
            e = dict_find(I, o.payload, k)
            if e is None:
                mc, miss = o.cls.find('__missing__')
                if mc is not None:
                    return I.call(bind(I, miss, o, o.cls), [k], {})
                I.raise_('KeyError', k)
            return e[1]
        if isinstance(o.payload, (ListV, tuple, str, bytes, BufV)):
            return getitem(I, o.payload, k)
        h = I.class_getitem_native(o, k)
        if h is not MISSING:
            return h
    if t is ClassV:
        meta = o.meta or TYPE
        mc, m = meta.find('__getitem__')
        if mc is not None:
            return I.call(bind(I, m, o, meta), [k], {})
        mem = I.enum_members(o)
        if mem is not None:
            if k in o.ns:
                return o.ns[k]
            I.raise_('KeyError', k)
        c, m = o.find('__class_getitem__')
        if c is not None:
            f = m
            if isinstance(f, ClassMethodV):
                f = f.func
            elif isinstance(f, StaticMethodV):
                return I.call(f.func, [k], {})
            return I.call(f, [o, k], {})
        return I.class_subscript(o, k)
    if t is ObjDict:
        if k in o.obj.d:
            return o.obj.d[k]
        I.raise_('KeyError', k)
    if t is ClassDict:
        if k in o.cls.ns:
            return o.cls.ns[k]
        I.raise_('KeyError', k)
    if t is ModuleDict:
        if k in o.ns:
            return o.ns[k]
        I.raise_('KeyError', k)
    if t is Special or t is AliasV:
        return I.special_subscript(o, k)
    if t is RangeV:
        if type(k) is SliceV:
            r = tuple(_range_iter(I, o))[host_slice(I, k, len(tuple(_range_iter(I, o))))]
            if not all(isinstance(x, int) for x in r) or any(q - p != o.step for p, q in zip(r, r[1:])):
                raise Unsupported('range slice')
            return RangeV(r[0], r[-1] + o.step, o.step) if r else RangeV(0, 0, 1)
        items = list(_range_iter(I, o))
        return getitem(I, tuple(items), k)
    if t is UnkV:
        return UnkV(f'{o.why}[]')
    if t is Sym and o.ty in ('any', 'str', 'bytes', 'callable'):
        raise Unsupported(f'subscript of unknown value {o!r}')
    if t in (FuncV, NativeFunc):
        return I.special_subscript(o, k)
    I.raise_('TypeError', f'{type_name(o)!r} object is not subscriptable')


def setitem(I, o, k, v):
    t = type(o)
    if t is DictV:
        dict_set(I, o, k, v)
        return
    if t is ListV:
        if type(k) is SliceV:
            I.jlist(o.items)
            o.items[host_slice(I, k, len(o.items))] = list(iterate(I, v))
            return
        k = index_(I, k)
        if isinstance(k, Lin):
            k = I.facts.concrete(k)
        if not -len(o.items) <= k < len(o.items):
            I.raise_('IndexError', 'list assignment index out of range')
        I.jlist(o.items)
        o.items[k] = v
        return
    if t is BufV:
        I.bufm.buf_setitem(I, o, k, v)
        return
    if t is ObjV:
        c, m = o.cls.find('__setitem__')
        if c is not None:
            I.call(bind(I, m, o, o.cls), [k, v], {})
            return
        if isinstance(o.payload, (DictV, ListV, BufV)):
            setitem(I, o.payload, k, v)
            return
    if t is ModuleDict:
        I.jset(o.ns, k, v)
        return
    if t is ObjDict:
        obj_set(I, o.obj, k, v)
        return
    if t is UnkV:
        return
    if t is SeqV:
        raise Unsupported('assignment into unknown list')
    I.raise_('TypeError', f'{type_name(o)!r} object does not support item assignment')


def delitem(I, o, k):
    t = type(o)
    if t is DictV:
        dict_del(I, o, k)
        return
    if t is ListV:
        I.jlist(o.items)
        if type(k) is SliceV:
            del o.items[host_slice(I, k, len(o.items))]
        else:
            try:
                del o.items[I.facts.concrete(index_(I, k))]
            except IndexError:
                I.raise_('IndexError', 'list assignment index out of range')
        return
    if t is BufV:
        I.bufm.buf_delitem(I, o, k)
        return
    if t is ObjV:
        c, m = o.cls.find('__delitem__')
        if c is not None:
            I.call(bind(I, m, o, o.cls), [k], {})
            return
        if isinstance(o.payload, (DictV, ListV)):
            delitem(I, o.payload, k)
            return
    if t is ObjDict:
        if k not in o.obj.d:
            I.raise_('KeyError', k)
        I.jdel(o.obj.d, k)
        return
    I.raise_('TypeError', f'{type_name(o)!r} object does not support item deletion')


# ---------------------------------------------------------------- arithmetic
def unary(I, op, v):
    if isinstance(v, bool):
        v = int(v)
    if op == 'USub':
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, Lin):
            return scale(v, -1)
    elif op == 'UAdd':
        if isinstance(v, NUM):
            return v
    elif op == 'Invert':
        if isinstance(v, int):
            return ~v
        if isinstance(v, Lin):
            return sub(-1, v)
    if isinstance(v, ObjV):
        n = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
        c, m = v.cls.find(n)
        if c is not None:
            return I.call(bind(I, m, v, v.cls), [], {})
        if isinstance(v.payload, (int, float)):
            return unary(I, op, v.payload)
    if isinstance(v, (UnkV, Sym, BitV)):
        raise Unsupported(f'unary operator on {v!r}')
    I.raise_('TypeError', f'bad operand type for unary operator: {type_name(v)!r}')


def num_binop(I, op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    abstract = isinstance(a, (Lin, BitV)) or isinstance(b, (Lin, BitV))
    if not abstract:
        try:
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return a / b
            if op == '//':
                return a // b
            if op == '%':
                return a % b
            if op == '**':
                return a ** b
            if op == '<<':
                return a << b
            if op == '>>':
                return a >> b
            if op == '|':
                return a | b
            if op == '&':
                return a & b
            if op == '^':
                return a ^ b
        except ZeroDivisionError as e:
            I.raise_('ZeroDivisionError', str(e))
        except (ValueError, OverflowError) as e:
            I.raise_(type(e).__name__, str(e))
        except TypeError as e:
            I.raise_('TypeError', str(e))
        raise Unsupported(op)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('float arithmetic on an unknown integer')
    f = I.facts
    if isinstance(a, Lin):
        a = f.norm(a)
    if isinstance(b, Lin):
        b = f.norm(b)
    if not isinstance(a, (Lin, BitV)) and not isinstance(b, (Lin, BitV)):
        return num_binop(I, op, a, b)
    bits = isinstance(a, BitV) or isinstance(b, BitV)
    if op in '+-' and not bits:
        return f.norm(add(a, b) if op == '+' else sub(a, b))
    if op == '+' and bits:
        x, y = to_bits(a, f), to_bits(b, f)
        if x is not None and y is not None:
            n = max(len(x), len(y))
            x += [0] * (n - len(x))
            y += [0] * (n - len(y))
            if all(p == 0 or q == 0 for p, q in zip(x, y)):
                return from_bits([q if p == 0 else p for p, q in zip(x, y)], f)
        raise Unsupported('sum of masked integers')
    if op == '-' and bits:
        x, y = to_bits(a, f), to_bits(b, f)
        if x is not None and y is not None and len(y) <= len(x):
            y += [0] * (len(x) - len(y))
            if all(q == 0 or p == q for p, q in zip(x, y)):
                return from_bits([0 if q != 0 else p for p, q in zip(x, y)], f)
        raise Unsupported('difference of masked integers')
    if op == '*' and not bits:
        if isinstance(a, int):
            return scale(b, a)
        if isinstance(b, int):
            return scale(a, b)
        return scale(a, f.concrete(b))
    if op == '*' and bits:
        a, b = (a, b) if isinstance(b, int) else (b, a)
        if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            return num_binop(I, '<<', a, b.bit_length() - 1)
        raise Unsupported('product of masked integer')
    if op in ('<<', '>>'):
        if not isinstance(b, int):
            b = f.concrete(b) if isinstance(b, Lin) else None
            if b is None:
                raise Unsupported('shift by masked integer')
        if b < 0:
            I.raise_('ValueError', 'negative shift count')
        if op == '<<' and isinstance(a, Lin):
            return scale(a, 1 << b)
        x = to_bits(a, f)
        if x is None:
            raise Unsupported('shift of an unbounded integer')
        return from_bits([0] * b + x if op == '<<' else x[b:], f)
    if op in ('//', '%') and isinstance(b, int):
        if b == 0:
            I.raise_('ZeroDivisionError', 'integer division or modulo by zero')
        if b > 0 and b & (b - 1) == 0:
            x = to_bits(a, f)
            if x is not None:
                k = b.bit_length() - 1
                return from_bits(x[k:] if op == '//' else x[:k], f)
        if not bits and b > 0:
            if a.c % b == 0 and all(k % b == 0 for _, k in a.t):
                return 0 if op == '%' else mk(a.c // b, {x: k // b for x, k in a.t})
            lo, hi = f.interval(a)
            if lo is not None and hi is not None and lo // b == hi // b:
                return sub(a, lo // b * b) if op == '%' else lo // b
            q = atom(('div', a, b), None if lo is None else lo // b,
                     None if hi is None else hi // b)
            r = sub(a, scale(q, b))
            f.assume_ge0(r)
            f.assume_ge0(sub(b - 1, r))
            return q if op == '//' else r
    if op in '&|^':
        if op == '&' and not bits:
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int) and q == 0:
                    return 0
        x, y = to_bits(a, f), to_bits(b, f)
        if x is None or y is None:
            raise Unsupported('mask of an unbounded integer')
        n = max(len(x), len(y))
        x += [0] * (n - len(x))
        y += [0] * (n - len(y))
        out = []
        for p, q in zip(x, y):
            if p == q:
                out.append(0 if op == '^' else p)
            elif op == '&' and 0 in (p, q):
                out.append(0)
            elif op == '&' and 1 in (p, q):
                out.append(q if p == 1 else p)
            elif op == '|' and 1 in (p, q):
                out.append(1)
            elif op in '|^' and 0 in (p, q):
                out.append(q if p == 0 else p)
            else:
                raise Unsupported('combination of unknown bits')
        return from_bits(out, f)
    raise Unsupported(f'{op} on unknown integers')


SEQ = (ListV, SeqV)


def repeat_count(I, n):
    if isinstance(n, Lin):
        return n if I.facts.ge0(n) else 0
    if isinstance(n, BitV):
        raise Unsupported('repetition by masked integer')
    return max(0, int(n))


def native_binop(I, op, a, b):
    """Operators of builtin values; NotImplemented when not applicable."""
    ta, tb = type(a), type(b)
    if isinstance(a, NUM) and isinstance(b, NUM):
        return num_binop(I, op, a, b)
    if op == '+':
        if ta is str and tb is str:
            return a + b
        if ta is tuple and tb is tuple:
            return a + b
        if isinstance(a, SEQ) and isinstance(b, SEQ):
            return ListV(list(iterate(I, a)) + list(iterate(I, b)))
        if isinstance(a, (bytes, BufV)) and isinstance(b, (bytes, BufV)):
            return I.bufm.concat(I, a, b)
        if isinstance(a, (str, Sym)) and isinstance(b, (str, Sym)):
            if all(isinstance(x, str) or x.ty == 'str' for x in (a, b)):
                return Sym(('cat', key_of(a), key_of(b)), 'str')
    elif op == '*':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, (int, Lin)) and isinstance(x, (str, tuple, ListV, bytes, BufV)):
                n = repeat_count(I, y)
                if isinstance(x, (bytes, BufV)):
                    return I.bufm.repeat(I, x, n)
                n = I.facts.concrete(n)
                if isinstance(x, ListV):
                    return ListV(x.items * n)
                return x * n
    elif op == '%':
        if ta is str:
            try:
                args = b if tb is tuple else (b,)
                if all(isinstance(x, (str, int, float)) for x in args):
                    return a % args
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
            return Sym(('fmt', a) + tuple(key_of(x) for x in args), 'str')
    elif op == '|':
        if ta is DictV and tb is DictV:
            d = DictV()
            for e in list(a.d.values()) + list(b.d.values()):
                dict_set(I, d, e[0], e[1])
            return d
        if ta is SetV and tb is SetV:
            s = SetV(a.frozen)
            for e in list(a.dict.d.values()) + list(b.dict.d.values()):
                dict_set(I, s.dict, e[0], e[1])
            return s
        if any(isinstance(x, (ClassV, AliasV, Special)) or 'newtype' in (getattr(x, 'attrs', None) or ()) for x in (a, b)):
            r = I.type_union(a, b)
            if r is not NotImplemented:
                return r
    elif op in ('&', '-', '^') and ta is SetV and tb is SetV:
        s = SetV(a.frozen)
        for k, _ in a.dict.d.values():
            inb = dict_find(I, b.dict, k) is not None
            if inb == (op == '&'):
                dict_set(I, s.dict, k, k)
        if op == '^':
            for k, _ in b.dict.d.values():
                if dict_find(I, a.dict, k) is None:
                    dict_set(I, s.dict, k, k)
        return s
    return NotImplemented


def binop(I, op, a, b, names=None):
    from .interp import OPINFO
    ta, tb = type(a), type(b)
    if ta is UnkV or tb is UnkV:
        return UnkV(f'{a!r} {op} {b!r}')
    if ta is ObjV or tb is ObjV or (ta is ClassV and a.meta is not None and not a.meta.native):
        _, fn, rn, _ = OPINFO[op]
        r = NotImplemented
        def via(x, y, n):
            if not isinstance(x, ObjV):
                if isinstance(x, ClassV):
                    c, m = (x.meta or TYPE).find(n)
                    if c is not None:
                        return I.call(bind(I, m, x, x.meta), [y], {})
                return NotImplemented
            c, m = x.cls.find(n)
            if c is None or m is None:
                return NotImplemented
            return I.call(bind(I, m, x, x.cls), [y], {})
        tya, tyb = type_of(a), type_of(b)
        bfirst = (tyb is not tya and tya in tyb.mro
                  and tyb.find(rn)[1] is not None
                  and tyb.find(rn)[1] is not tya.find(rn)[1])
        if bfirst:
            r = via(b, a, rn)
        if r is NotImplemented:
            r = via(a, b, fn)
        if r is NotImplemented and not bfirst and tya is not tyb:
            r = via(b, a, rn)
        if r is not NotImplemented:
            return r
        pa = a.payload if ta is ObjV and isinstance(a.payload, (str, int, bytes, float, DictV, ListV, tuple)) else a
        pb = b.payload if tb is ObjV and isinstance(b.payload, (str, int, bytes, float, DictV, ListV, tuple)) else b
        if pa is not a or pb is not b:
            if not isinstance(pa, ObjV) and not isinstance(pb, ObjV):
                return binop(I, op, pa, pb)
    r = native_binop(I, op, a, b)
    if r is not NotImplemented:
        return r
    if ta is Sym or tb is Sym:
        raise Unsupported(f'{op} on unknown value {a!r} {b!r}')
    I.raise_('TypeError', f'unsupported operand type(s) for {op}: {type_name(a)!r} '
             f'and {type_name(b)!r}')


def inplace(I, op, a, b):
    from .interp import OPINFO
    t = type(a)
    if t is ListV and op == '+':
        new = list(iterate(I, b))
        I.jlist(a.items)
        a.items.extend(new)
        return a
    if t is ListV and op == '*':
        I.jlist(a.items)
        a.items[:] = a.items * I.facts.concrete(repeat_count(I, b))
        return a
    if t is BufV and a.kind == 'bytearray' and op == '+':
        I.bufm.extend(I, a, b)
        return a
    if t is DictV and op == '|':
        I.dict_update(a, b)
        return a
    if t is SetV and not a.frozen and op == '|':
        for k in iterate(I, b):
            dict_set(I, a.dict, k, k)
        return a
    if t is ObjV:
        c, m = a.cls.find(OPINFO[op][3])
        if c is not None:
            r = I.call(bind(I, m, a, a.cls), [b], {})
            if r is not NotImplemented:
                return r
        if isinstance(a.payload, (DictV, ListV)):
            inplace(I, op, a.payload, b)
            return a
    return binop(I, op, a, b)


# ---------------------------------------------------------------- text
def concrete_text(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes)) or v in (Ellipsis,)


def str_(I, v):
    t = type(v)
    if t is str:
        return v
    if t is ObjV:
        for n in ('__str__', '__repr__'):
            c, m = v.cls.find(n)
            if c is not None:
                return I.call(bind(I, m, v, v.cls), [], {})
        if EXC['BaseException'] in v.cls.mro:
            a = v.d.get('args', ())
            return str_(I, a[0]) if len(a) == 1 else repr_(I, a) if a else ''
        if isinstance(v.payload, str) and I.enum_members(v.cls) is None:
            return v.payload
    if t is Sym and v.ty == 'str':
        return v
    if t is bytes:
        return repr(v)
    return repr_(I, v)


def repr_(I, v):
    t = type(v)
    if v is None or t in (bool, int, float, str, bytes):
        return repr(v)
    if t is ObjV:
        c, m = v.cls.find('__repr__')
        if c is not None:
            return I.call(bind(I, m, v, v.cls), [], {})
    if t is ClassV:
        return f"<class '{v.module}.{v.qualname}'>"
    if t is ListV or t is tuple:
        parts = [repr_(I, x) for x in (v.items if t is ListV else v)]
        if all(isinstance(p, str) for p in parts):
            if t is ListV:
                return '[' + ', '.join(parts) + ']'
            return '(' + ', '.join(parts) + (',)' if len(parts) == 1 else ')')
    return Sym(('repr', key_of(v)), 'str')


def format_(I, v, spec):
    if isinstance(v, ObjV):
        c, m = v.cls.find('__format__')
        if c is not None:
            return I.call(bind(I, m, v, v.cls), [spec], {})
        if isinstance(v.payload, str) and I.enum_members(v.cls) is not None:
            # mixed-in str enums: 3.12 formats as str(member), older as the value
            if v.cls.find('__str__')[0] is None:
                if I.version >= (3, 12):
                    return f'{v.cls.name}.{v.d.get("_name_")}'
                return v.payload
        if isinstance(v.payload, (int, float)) and I.enum_members(v.cls) is None:
            v = v.payload
    if spec == '' or spec is None:
        if isinstance(v, (Lin, BitV)):
            return v        # kept: an unknown number inside a text
        return str_(I, v)
    if isinstance(v, (int, float, str)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError as e:
            I.raise_('ValueError', str(e))
    return Sym(('format', key_of(v), key_of(spec)), 'str')
