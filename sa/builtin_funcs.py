"""builtin functions and the methods of builtin types."""
from __future__ import annotations

from .builtins_model import *
from .builtins_model import MISSING
from .ops import *
from .ops import num_binop
from .classes import *
from . import bytes_model as B


def arg(args, kw, i, name, default=MISSING):
    if i < len(args):
        return args[i]
    if name in kw:
        return kw[name]
    return default


FUNCS = {}


def fn(name):
    def deco(f):
        FUNCS[name] = NativeFunc(name, f, False)
        return f
    return deco


@fn('len')
def _len(I, a, k):
    return len_(I, a[0])


@fn('isinstance')
def _isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


@fn('issubclass')
def _issubclass(I, a, k):
    return issubclass_(I, a[0], a[1])


@fn('getattr')
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        if isinstance(a[1], ObjV) and isinstance(a[1].payload, str):
            a[1] = a[1].payload
        else:
            raise Unsupported('getattr with an unknown name')
    if len(a) > 2:
        try:
            v = lookup(I, a[0], a[1])
        except PyExc as e:
            if EXC['AttributeError'] in e.obj.cls.mro:
                return a[2]
            raise
        return a[2] if v is MISSING else v
    return getattr_(I, a[0], a[1])


@fn('hasattr')
def _hasattr(I, a, k):
    try:
        return lookup(I, a[0], a[1]) is not MISSING
    except PyExc as e:
        if EXC['AttributeError'] in e.obj.cls.mro:
            return False
        raise


@fn('setattr')
def _setattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('setattr with an unknown name')
    setattr_(I, *a)


@fn('delattr')
def _delattr(I, a, k):
    delattr_(I, *a)


@fn('callable')
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (FuncV, NativeFunc, BoundMethod, ClassV, PartialV, CacheV)):
        return True
    if isinstance(v, ObjV):
        return v.cls.find('__call__')[0] is not None
    if isinstance(v, Sym):
        return v.ty == 'callable'
    if isinstance(v, AliasV):
        return True
    return False


@fn('repr')
def _repr(I, a, k):
    return repr_(I, a[0])


@fn('hash')
def _hash(I, a, k):
    v = a[0]
    if isinstance(v, ObjV):
        c, m = v.cls.find('__hash__')
        if c is not None:
            if m is None:
                I.raise_('TypeError', f'unhashable type: {v.cls.name!r}')
            return I.call(bind(I, m, v, v.cls), [], {})
    hash_key(I, v)      # raises for unhashable values
    return Sym(('hash', key_norm(I, v)), 'int')


def key_norm(I, v):
    """Keys under which equal values coincide."""
    if isinstance(v, tuple):
        return ('t',) + tuple(key_norm(I, x) for x in v)
    if isinstance(v, ObjV) and isinstance(v.payload, (str, int, bytes)):
        return key_of(v.payload)
    if isinstance(v, bool):
        return key_of(int(v))
    if isinstance(v, ObjV):
        c, m = v.cls.find('__hash__')
        if c is not None and m is not None:
            h = I.call(bind(I, m, v, v.cls), [], {})
            return key_of(h)
    if isinstance(v, Lin):
        return key_of(I.facts.norm(v))
    return key_of(v)


@fn('id')
def _id(I, a, k):
    return Sym(('id', id(a[0])), 'int')


@fn('iter')
def _iter(I, a, k):
    if len(a) == 2:
        def two():
            while True:
                v = I.call(a[0], [], {})
                if eq(I, v, a[1]):
                    return
                yield v
        return IterV(two())
    o = a[0]
    if isinstance(o, IterV):
        return o
    if isinstance(o, ObjV):
        c, m = o.cls.find('__iter__')
        if c is not None:
            return I.call(bind(I, m, o, o.cls), [], {})
    return IterV(iterate(I, o))


def next_(I, it, default=MISSING):
    if isinstance(it, ObjV):
        c, m = it.cls.find('__next__')
        if c is None:
            I.raise_('TypeError', f'{it.cls.name!r} object is not an iterator')
        try:
            return I.call(bind(I, m, it, it.cls), [], {})
        except PyExc as e:
            if default is not MISSING and EXC['StopIteration'] in e.obj.cls.mro:
                return default
            raise
    if not isinstance(it, IterV):
        if isinstance(it, (UnkV, Sym)):
            raise Unsupported('next of an unknown value')
        I.raise_('TypeError', f'{type_name(it)!r} object is not an iterator')
    if not hasattr(it.it, '__next__'):
        it.it = iter(it.it)
    try:
        return next(it.it)
    except StopIteration:
        if default is not MISSING:
            return default
        I.raise_('StopIteration')


@fn('next')
def _next(I, a, k):
    return next_(I, *a)


@fn('map')
def _map(I, a, k):
    its = [iterate(I, x) for x in a[1:]]

    def gen():
        while True:
            vals = []
            for i in its:
                try:
                    vals.append(next(i))
                except StopIteration:
                    return
            yield I.call(a[0], vals, {})
    return IterV(gen(), 'map')


@fn('filter')
def _filter(I, a, k):
    def gen():
        for v in iterate(I, a[1]):
            if truth(I, v if a[0] is None else I.call(a[0], [v], {})):
                yield v
    return IterV(gen(), 'filter')


@fn('zip')
def _zip(I, a, k):
    strict = k.get('strict', False)
    if 'strict' in k and I.version < (3, 10):
        I.raise_('TypeError', 'zip() takes no keyword arguments')
    for kk in k:
        if kk != 'strict':
            I.raise_('TypeError', f'zip() got an unexpected keyword argument {kk!r}')
    strict = truth(I, strict)
    its = [iterate(I, x) for x in a]

    def gen():
        if not its:
            return
        while True:
            vals = []
            for i, it in enumerate(its):
                try:
                    vals.append(next(it))
                except StopIteration:
                    if not strict:
                        return
                    if i:
                        I.raise_('ValueError', f'zip() argument {i + 1} is shorter than argument 1')
                    for j, it2 in enumerate(its[1:]):
                        try:
                            next(it2)
                        except StopIteration:
                            continue
                        I.raise_('ValueError', f'zip() argument {j + 2} is longer than argument 1')
                    return
            yield tuple(vals)
    return IterV(gen(), 'zip')


@fn('enumerate')
def _enumerate(I, a, k):
    st = arg(a, k, 1, 'start', 0)

    def gen():
        i = st
        for v in iterate(I, a[0]):
            yield (i, v)
            i = add(i, 1)
    return IterV(gen(), 'enumerate')


@fn('reversed')
def _reversed(I, a, k):
    o = a[0]
    if isinstance(o, ObjV) and o.cls.find('__reversed__')[0] is not None:
        return I.call(getattr_(I, o, '__reversed__'), [], {})
    if isinstance(o, IterV):
        I.raise_('TypeError', "'generator' object is not reversible")
    return IterV(iter(list(iterate(I, o))[::-1]), 'reversed')


@fn('sorted')
def _sorted(I, a, k):
    import functools
    items = list(iterate(I, a[0]))
    key = k.get('key')
    keys = [(I.call(key, [x], {}) if key is not None else x, x) for x in items]
    keys.sort(key=functools.cmp_to_key(
        lambda p, q: -1 if order(I, '<', p[0], q[0]) else 1 if order(I, '<', q[0], p[0]) else 0))
    out = [x for _, x in keys]
    if truth(I, k.get('reverse', False)):
        out.reverse()
    return ListV(out)


@fn('sum')
def _sum(I, a, k):
    acc = arg(a, k, 1, 'start', 0)
    for v in iterate(I, a[0]):
        acc = binop(I, '+', acc, v)
    return acc


@fn('any')
def _any(I, a, k):
    for v in iterate(I, a[0]):
        if truth(I, v):
            return True
    return False


@fn('all')
def _all(I, a, k):
    for v in iterate(I, a[0]):
        if not truth(I, v):
            return False
    return True


def _minmax(op):
    def f(I, a, k):
        items = list(iterate(I, a[0])) if len(a) == 1 else list(a)
        key = k.get('key')
        if not items:
            if 'default' in k:
                return k['default']
            I.raise_('ValueError', 'empty sequence')
        best = items[0]
        bk = I.call(key, [best], {}) if key else best
        for x in items[1:]:
            xk = I.call(key, [x], {}) if key else x
            if order(I, op, xk, bk):
                best, bk = x, xk
        return best
    return f


fn('min')(_minmax('<'))
fn('max')(_minmax('>'))


@fn('abs')
def _abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Lin):
        return v if I.facts.ge0(v) else scale(v, -1)
    raise Unsupported('abs')


@fn('divmod')
def _divmod(I, a, k):
    return (binop(I, '//', a[0], a[1]), binop(I, '%', a[0], a[1]))


@fn('pow')
def _pow(I, a, k):
    return binop(I, '**', a[0], a[1])


@fn('round')
def _round(I, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    raise Unsupported('round')


@fn('ord')
def _ord(I, a, k):
    v = a[0]
    if isinstance(v, (str, bytes)):
        if len(v) != 1:
            I.raise_('TypeError', 'ord() expected a character')
        return ord(v)
    if isinstance(v, BufV):
        if I.facts.same(B.width(I, v), 1) is not True:
            raise Unsupported('ord of unknown bytes')
        return B.byte_at(I, B.segs_of(I, v), 0)
    if isinstance(v, (Sym, UnkV)):
        raise Unsupported('ord')
    I.raise_('TypeError', 'ord() expected string of length 1')


@fn('chr')
def _chr(I, a, k):
    if isinstance(a[0], int):
        return chr(a[0])
    raise Unsupported('chr')


@fn('print')
def _print(I, a, k):
    return None


@fn('vars')
def _vars(I, a, k):
    return getattr_(I, a[0], '__dict__')


@fn('locals')
def _locals(I, a, k):
    raise Unsupported('locals')


@fn('globals')
def _globals(I, a, k):
    raise Unsupported('globals')


@fn('dir')
def _dir(I, a, k):
    raise Unsupported('dir')


@fn('format')
def _format(I, a, k):
    return format_(I, a[0], a[1] if len(a) > 1 else '')


@fn('bin')
def _bin(I, a, k):
    if isinstance(a[0], int):
        return bin(a[0])
    return Sym(('bin', key_of(a[0])), 'str')


@fn('hex')
def _hex(I, a, k):
    if isinstance(a[0], int):
        return hex(a[0])
    return Sym(('hex', key_of(a[0])), 'str')


@fn('exec')
def _exec(I, a, k):
    src = a[0]
    if not isinstance(src, str):
        raise Unsupported('exec of unknown text')
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        I.raise_('SyntaxError', str(e))
    g = arg(a, k, 1, 'globals', None)
    l = arg(a, k, 2, 'locals', None)
    mod = ModuleV('<exec>')
    if isinstance(g, ModuleDict):
        mod.ns = g.ns
    elif isinstance(g, DictV):
        mod.ns = {kk: v for kk, v in g.d.values()}
    elif g is None:
        mod.ns = {}
    mod.path = '<generated>'
    mod.future = False
    from .interp import Frame
    if l is None and isinstance(g, ModuleDict):
        env = Env('module', None, mod)
        env.vars = mod.ns
    else:
        env = Env('class', None, mod, None, '')
        env.ns = l if l is not None else DictV()
    fv = FuncV(None, env, mod, '<exec>', '<exec>', (), {}, None)
    I.stack.append(Frame(fv))
    I.exec_block(tree.body, env)
    I.stack.pop()
    return None


@fn('eval')
def _eval(I, a, k):
    src = a[0]
    if not isinstance(src, str):
        raise Unsupported('eval of unknown text')
    g = arg(a, k, 1, 'globals', None)
    l = arg(a, k, 2, 'locals', None)
    return I.eval_text(src, g, l)


@fn('compile')
def _compile(I, a, k):
    if isinstance(a[0], str):
        return a[0]
    raise Unsupported('compile')


@fn('super')
def _super(I, a, k):
    if len(a) == 2:
        return make_super(I, a[0], a[1])
    raise Unsupported('super')


@fn('__import__')
def _imp(I, a, k):
    return I.import_module(a[0])


@fn('__build_class__')
def _bc(I, a, k):
    raise Unsupported('__build_class__')


# ---------------------------------------------------------------- constructors
def to_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Lin, BitV)) and len(a) == 1:
        return v
    if isinstance(v, (str, float, bytes)) and all(isinstance(x, int) for x in a[1:]):
        try:
            return int(v, *a[1:])
        except (ValueError, OverflowError) as e:
            I.raise_(type(e).__name__, str(e))
    if isinstance(v, ObjV):
        if isinstance(v.payload, int):
            return int(v.payload)
        for n in ('__int__', '__index__'):
            c, m = v.cls.find(n)
            if c is not None:
                return I.call(bind(I, m, v, v.cls), [], {})
        if isinstance(v.payload, str):
            return to_int(I, [v.payload] + list(a[1:]), k)
    if isinstance(v, Sym):
        if v.ty == 'int':
            return v
        raise Unsupported('int of an unknown value')
    if isinstance(v, UnkV):
        raise Unsupported(f'int of {v!r}')
    I.raise_('TypeError', f'int() argument must be a string, a bytes-like object or a real number, not {type_name(v)!r}')


def to_str(I, a, k):
    if not a:
        return ''
    if len(a) > 1 or 'encoding' in k:
        return B.decode(I, a[0], arg(a, k, 1, 'encoding'))
    return str_(I, a[0])


def to_float(I, a, k):
    if not a:
        return 0.0
    if isinstance(a[0], (int, float, str)):
        try:
            return float(a[0])
        except ValueError as e:
            I.raise_('ValueError', str(e))
    if isinstance(a[0], Sym) and a[0].ty in ('float', 'any', 'int'):
        return a[0] if a[0].ty == 'float' else Sym(('float', a[0].key), 'float')
    if isinstance(a[0], ObjV) and isinstance(a[0].payload, (int, float)):
        return float(a[0].payload)
    if isinstance(a[0], (UnkV, Lin, BitV)):
        raise Unsupported('float of unknown')
    I.raise_('TypeError', 'float() argument')


def to_bool(I, a, k):
    return truth(I, a[0]) if a else False


def to_tuple(I, a, k):
    if k:
        I.raise_('TypeError', 'tuple() takes no keyword arguments')
    if len(a) > 1:
        I.raise_('TypeError', f'tuple expected at most 1 argument, got {len(a)}')
    if a and isinstance(a[0], tuple):
        return a[0]
    return tuple(iterate(I, a[0])) if a else ()


def to_list(I, a, k):
    if len(a) > 1:
        I.raise_('TypeError', f'list expected at most 1 argument, got {len(a)}')
    return ListV(list(iterate(I, a[0]))) if a else ListV()


def to_dict(I, a, k):
    d = DictV()
    dict_update(I, d, a, k)
    return d


def dict_update(I, d, a, k):
    if a:
        src = a[0]
        if isinstance(src, ObjV) and isinstance(src.payload, DictV):
            src = src.payload
        if isinstance(src, DictV):
            for kk, v in list(src.d.values()):
                dict_set(I, d, kk, v)
        elif isinstance(src, (ModuleDict, ObjDict, ClassDict)):
            m = src.ns if isinstance(src, ModuleDict) else (
                src.obj.d if isinstance(src, ObjDict) else src.cls.ns)
            for kk, v in list(m.items()):
                dict_set(I, d, kk, v)
        elif isinstance(src, ObjV) and src.cls.find('keys')[0] is not None:
            for kk in iterate(I, I.call_method(src, 'keys', [])):
                dict_set(I, d, kk, getitem(I, src, kk))
        else:
            for p in iterate(I, src):
                x = list(iterate(I, p))
                if len(x) != 2:
                    I.raise_('ValueError', 'dictionary update sequence element')
                dict_set(I, d, x[0], x[1])
    for kk, v in k.items():
        dict_set(I, d, kk, v)


def to_set(frozen):
    def f(I, a, k):
        s = SetV(frozen)
        if a:
            for v in iterate(I, a[0]):
                dict_set(I, s.dict, v, v)
        return s
    return f


def to_range(I, a, k):
    a = [index_(I, x) for x in a]
    for x in a:
        if isinstance(x, BitV):
            raise Unsupported('range over masked integer')
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


def to_type(I, a, k):
    if len(a) == 1:
        return type_of(a[0])
    name, bases, ns = a[:3]
    d = ns.payload if isinstance(ns, ObjV) else ns
    c = DictV()
    for kk, v in d.d.values():
        dict_set(I, c, kk, v)
    real = mro_entries(I, bases)
    meta = metaclass_of(real)
    mod = None
    for f in reversed(I.stack):
        if f.func is not None:
            mod = f.func.glob.ns.get('__name__')
            break
    return make_class(I, meta, name, tuple(real), c, dict(k), mod or '?', name)


def to_property(I, a, k):
    return PropertyV(*(list(a) + [k.get('fget')] * 0), **{x: y for x, y in k.items() if x in ('fget', 'fset', 'fdel')})


def to_object(I, a, k):
    return ObjV(OBJECT)


# ---------------------------------------------------------------- methods
def m(f):
    return NativeFunc('method', f, False)


def str_method(I, s, name):
    if name == 'encode':
        return m(lambda I, a, k: B.encode(I, s, *a, **{
            {'encoding': 'enc', 'errors': 'errors'}[x]: y for x, y in k.items()}))
    if isinstance(s, str):
        if name == 'join':
            def join(I, a, k):
                parts = list(iterate(I, a[0]))
                for x in parts:
                    if not (isinstance(x, str) or isinstance(x, Sym) and x.ty == 'str'
                            or isinstance(x, ObjV) and isinstance(x.payload, str)):
                        if isinstance(x, (UnkV, Sym)):
                            raise Unsupported('join of unknown values')
                        I.raise_('TypeError', 'sequence item: expected str instance')
                parts = [x.payload if isinstance(x, ObjV) else x for x in parts]
                if all(isinstance(x, str) for x in parts):
                    return s.join(parts)
                return Sym(('join', s) + tuple(key_of(x) for x in parts), 'str')
            return m(join)
        if name == 'format':
            def fmt(I, a, k):
                if all(isinstance(x, (str, int, float)) for x in list(a) + list(k.values())):
                    try:
                        return s.format(*a, **k)
                    except (KeyError, IndexError, ValueError) as e:
                        I.raise_(type(e).__name__, str(e))
                return Sym(('format', s) + tuple(key_of(x) for x in a)
                           + tuple(key_of(x) for x in k.values()), 'str')
            return m(fmt)
        if hasattr(s, name):
            def host(I, a, k):
                a = [x.payload if isinstance(x, ObjV) and isinstance(x.payload, (str, int)) else x for x in a]
                if not all(x is None or isinstance(x, (str, int, tuple)) for x in a):
                    if any(isinstance(x, (UnkV, Sym, Lin)) for x in a):
                        raise Unsupported(f'str.{name} with unknown arguments')
                    I.raise_('TypeError', f'str.{name} argument')
                try:
                    r = getattr(s, name)(*a, **k)
                except (ValueError, TypeError) as e:
                    I.raise_(type(e).__name__, str(e))
                return ListV(r) if isinstance(r, list) else r
            return m(host)
        return None
    # unknown text
    if name in ('rstrip', 'strip', 'lstrip'):
        def strip(I, a, k):
            if a and a[0] == '\0':
                core = s.attrs['text'] if s.key[0] == 'padded' else s
                free = any(k[:2] == ('encode', core.key) and 0 in x for k, x in I.path.excluded.items())
                if core is not s and (name == 'rstrip' or free and name == 'strip'):
                    return core
                # only the end of a text is known not to be NUL
                if free or core is s and name == 'rstrip' and s.key in I.path.no_nul:
                    return s
                if core.key[0] == 'txt' and (core is s or name == 'strip'):
                    # the text is itself, or one that has lost something
                    if not I.path.cond(('outer nul', name, core.key)):
                        return core
                    t = Sym(('txt', name, core.key), 'str')
                    if name != 'lstrip' or s.key in I.path.no_nul:
                        I.path.no_nul.add(t.key)
                    return t
            return Sym((name, s.key) + tuple(key_of(x) for x in a), 'str',
                       s.attrs if False else None)
        return m(strip)
    if name == 'endswith':
        def endswith(I, a, k):
            if a == ['\0'] or a == ('\0',):
                if s.key in I.path.no_nul or any(k[:2] == ('encode', s.key) and 0 in x for k, x in I.path.excluded.items()):
                    return False
                if s.key[0] == 'txt':
                    return I.path.cond(('outer nul', 'rstrip', s.key))
            raise Unsupported('str.endswith of unknown text')
        return m(endswith)
    if hasattr('', name) and not name.startswith('__'):
        def unk(I, a, k):
            raise Unsupported(f'str.{name} of unknown text')
        return m(unk)
    return None


def list_method(I, o, name):
    it = o.items

    def mut(f):
        def g(I, a, k):
            I.jlist(it)
            return f(I, a, k)
        return m(g)
    if name == 'append':
        return mut(lambda I, a, k: it.append(a[0]))
    if name == 'extend':
        def ext(I, a, k):
            for x in iterate(I, a[0]):
                I.jlist(it)
                it.append(x)
        return m(ext)
    if name == 'insert':
        return mut(lambda I, a, k: it.insert(I.facts.concrete(a[0]), a[1]))
    if name == 'pop':
        def pop(I, a, k):
            if not it:
                I.raise_('IndexError', 'pop from empty list')
            try:
                return it.pop(*[I.facts.concrete(x) for x in a])
            except IndexError:
                I.raise_('IndexError', 'pop index out of range')
        return mut(pop)
    if name == 'clear':
        return mut(lambda I, a, k: it.clear())
    if name == 'reverse':
        return mut(lambda I, a, k: it.reverse())
    if name == 'remove':
        def rem(I, a, k):
            for i, x in enumerate(it):
                if eq(I, x, a[0]):
                    I.jlist(it)
                    del it[i]
                    return
            I.raise_('ValueError', 'list.remove(x): x not in list')
        return m(rem)
    if name == 'copy':
        return m(lambda I, a, k: ListV(it))
    if name == 'sort':
        def sort(I, a, k):
            r = FUNCS['sorted'].fn(I, [o], k)
            I.jlist(it)
            it[:] = r.items
        return m(sort)
    return seq_method(I, o, name)


def seq_method(I, o, name):
    if name == 'index':
        def index(I, a, k):
            for i, x in enumerate(iterate(I, o)):
                if eq(I, x, a[0]):
                    return i
            I.raise_('ValueError', 'value is not in list')
        return m(index)
    if name == 'count':
        return m(lambda I, a, k: sum(1 for x in iterate(I, o) if eq(I, x, a[0])))
    if name == '__len__':
        return m(lambda I, a, k: len_(I, o))
    if name == '__getitem__':
        return m(lambda I, a, k: getitem(I, o, a[0]))
    if name == '__contains__':
        return m(lambda I, a, k: contains(I, o, a[0]))
    if name == '__eq__':
        return m(lambda I, a, k: eq(I, o, a[0]))
    if name == '__add__':
        return m(lambda I, a, k: binop(I, '+', o, a[0]))
    return None


def dict_method(I, d, name, owner=None):
    if name == 'get':
        def get(I, a, k):
            e = dict_find(I, d, a[0])
            return e[1] if e is not None else (a[1] if len(a) > 1 else k.get('default'))
        return m(get)
    if name == 'keys':
        return m(lambda I, a, k: ListV([x for x, _ in d.d.values()]))
    if name == 'values':
        return m(lambda I, a, k: ListV([v for _, v in d.d.values()]))
    if name == 'items':
        return m(lambda I, a, k: ListV([(x, v) for x, v in d.d.values()]))
    if name == 'update':
        return m(lambda I, a, k: dict_update(I, d, a, k))
    if name == 'setdefault':
        def sd(I, a, k):
            e = dict_find(I, d, a[0])
            if e is not None:
                return e[1]
            v = a[1] if len(a) > 1 else None
            dict_set(I, d, a[0], v)
            return v
        return m(sd)
    if name == 'pop':
        def pop(I, a, k):
            e = dict_find(I, d, a[0])
            if e is None:
                if len(a) > 1:
                    return a[1]
                I.raise_('KeyError', a[0])
            dict_del(I, d, a[0])
            return e[1]
        return m(pop)
    if name == 'popitem':
        def popitem(I, a, k):
            if not d.d:
                I.raise_('KeyError', 'dictionary is empty')
            k_, v_ = list(d.d.values())[-1]
            dict_del(I, d, k_)
            return (k_, v_)
        return m(popitem)
    if name == 'clear':
        def clear(I, a, k):
            for kk in list(d.d):
                I.jdel(d.d, kk)
        return m(clear)
    if name == 'copy':
        def copy(I, a, k):
            r = DictV()
            for kk, v in d.d.values():
                dict_set(I, r, kk, v)
            return r
        return m(copy)
    if name == '__setitem__':
        return m(lambda I, a, k: dict_set(I, d, a[0], a[1]))
    if name == '__getitem__':
        return m(lambda I, a, k: getitem(I, d, a[0]))
    if name == '__delitem__':
        return m(lambda I, a, k: dict_del(I, d, a[0]))
    if name == '__contains__':
        return m(lambda I, a, k: dict_find(I, d, a[0]) is not None)
    if name == '__len__':
        return m(lambda I, a, k: len(d.d))
    if name == '__iter__':
        return m(lambda I, a, k: IterV(iterate(I, d)))
    if name == '__init__':
        return m(lambda I, a, k: dict_update(I, d, a, k))
    return None


def map_method(I, ns, setter, name):
    """Methods of __dict__ views over a host dict."""
    if name == 'get':
        return m(lambda I, a, k: ns.get(a[0], a[1] if len(a) > 1 else None))
    if name == 'keys':
        return m(lambda I, a, k: ListV(list(ns)))
    if name == 'values':
        return m(lambda I, a, k: ListV(list(ns.values())))
    if name == 'items':
        return m(lambda I, a, k: ListV([(x, v) for x, v in ns.items()]))
    if name == 'copy':
        def copy(I, a, k):
            r = DictV()
            for kk, v in ns.items():
                dict_set(I, r, kk, v)
            return r
        return m(copy)
    if name == 'update' and setter is not None:
        def upd(I, a, k):
            d = DictV()
            dict_update(I, d, a, k)
            for kk, v in d.d.values():
                setter(kk, v)
        return m(upd)
    if name == 'setdefault' and setter is not None:
        def sd(I, a, k):
            if a[0] not in ns:
                setter(a[0], a[1])
            return ns[a[0]]
        return m(sd)
    if name == 'pop' and setter is not None:
        def pop(I, a, k):
            if a[0] in ns:
                v = ns[a[0]]
                I.jdel(ns, a[0])
                return v
            if len(a) > 1:
                return a[1]
            I.raise_('KeyError', a[0])
        return m(pop)
    return None


def set_method(I, s, name):
    if name == 'add':
        return m(lambda I, a, k: dict_set(I, s.dict, a[0], a[0]))
    if name in ('update',):
        def upd(I, a, k):
            for x in a:
                for v in iterate(I, x):
                    dict_set(I, s.dict, v, v)
        return m(upd)
    if name in ('discard', 'remove'):
        def dis(I, a, k):
            if dict_find(I, s.dict, a[0]) is not None:
                dict_del(I, s.dict, a[0])
            elif name == 'remove':
                I.raise_('KeyError', a[0])
        return m(dis)
    if name == 'copy':
        return m(lambda I, a, k: to_set(s.frozen)(I, [s], {}))
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint'):
        def op(I, a, k):
            o = to_set(False)(I, [a[0]], {})
            if name == 'issubset':
                return order(I, '<=', s, o)
            if name == 'issuperset':
                return order(I, '>=', s, o)
            if name == 'isdisjoint':
                return not native_binop(I, '&', s, o).dict.d
            return native_binop(I, {'union': '|', 'intersection': '&', 'difference': '-'}[name], s, o)
        return m(op)
    return None


def int_method(I, v, name):
    if name == 'bit_length':
        def bl(I, a, k):
            if isinstance(v, int):
                return v.bit_length()
            raise Unsupported('bit_length')
        return m(bl)
    if name == 'to_bytes':
        def tb(I, a, k):
            n = arg(a, k, 0, 'length', 1)
            o = arg(a, k, 1, 'byteorder', 'big')
            signed = truth(I, k.get('signed', False))
            ch = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}.get(n)
            if isinstance(v, (int, bool)):
                try:
                    return int(v).to_bytes(n, o, signed=signed)
                except OverflowError as e:
                    I.raise_('OverflowError', str(e))
            if ch is None:
                raise Unsupported('to_bytes')
            ch = ch.lower() if signed else ch
            lo, hi = B.int_range(ch, n)
            x = v
            if isinstance(x, Lin):
                if not (I.facts.ge0(sub(x, lo)) and I.facts.ge0(sub(hi, x))):
                    I.raise_('OverflowError', 'int too big to convert')
            return B.make(I, B.enc_field(I, ch, '<' if o == 'little' else '>', n, x))
        return m(tb)
    if name in ('numerator', 'real'):
        return v
    if name == '__index__' or name == '__int__':
        return m(lambda I, a, k: v)
    if name in ('__add__', '__radd__', '__sub__', '__mul__', '__and__', '__or__'):
        op = {'__add__': '+', '__radd__': '+', '__sub__': '-', '__mul__': '*', '__and__': '&', '__or__': '|'}[name]
        return m(lambda I, a, k: binop(I, op, v, a[0]))
    return None


def gen_method(I, g, name):
    if name == '__next__':
        return m(lambda I, a, k: next_(I, g))
    if name == '__iter__':
        return m(lambda I, a, k: g)
    if name == 'close':
        def close(I, a, k):
            if hasattr(g.it, 'close'):
                g.it.close()
        return m(close)
    if name == 'send':
        def send(I, a, k):
            if not hasattr(g.it, 'send'):
                raise Unsupported('send')
            try:
                return g.it.send(a[0])
            except StopIteration:
                I.raise_('StopIteration')
        return m(send)
    if name == 'throw':
        raise Unsupported('generator.throw')
    return None


def native_method(I, o, name):
    t = type(o)
    if t is str or t is Sym and o.ty == 'str':
        return str_method(I, o, name)
    if t is bytes or t is BufV:
        return B.buf_method(I, o, name)
    if t is StreamV:
        return B.stream_method(I, o, name)
    if t is ListV:
        return list_method(I, o, name)
    if t in (tuple, SeqV, RangeV):
        if t is SeqV and o.kind == 'list' and name in ('append', 'extend', 'insert', 'pop', 'clear',
                                                       'sort', 'reverse', 'remove'):
            def mutate(I, a, k):
                I.user_mutations.append(f'{name} on a caller supplied list at {I.where(1)}')
            return m(mutate)
        if t is SeqV and name == 'copy':
            return m(lambda I, a, k: SeqV(o.name, o.length, o.elem, o.kind))
        return seq_method(I, o, name)
    if t is DictV:
        return dict_method(I, o, name)
    if t is SetV:
        return set_method(I, o, name)
    if t in (int, bool, Lin, BitV) or t is Sym and o.ty == 'int':
        return int_method(I, o, name)
    if t is float:
        if name == 'is_integer':
            return m(lambda I, a, k: o.is_integer())
        return None
    if t is IterV:
        return gen_method(I, o, name)
    if t is ObjDict:
        return map_method(I, o.obj.d, lambda k, v: obj_set(I, o.obj, k, v), name)
    if t is ClassDict:
        return map_method(I, o.cls.ns, None, name)
    if t is ModuleDict:
        return map_method(I, o.ns, lambda k, v: I.jset(o.ns, k, v), name)
    if t is SliceV and name == 'indices':
        return m(lambda I, a, k: slice(o.start, o.stop, o.step).indices(a[0]))
    return None


NATIVE_ATTRS = {
    STR: ('encode rstrip strip lstrip join format split startswith endswith upper lower '
          'find replace'),
    BYTES: 'decode find join startswith endswith split rstrip strip hex partition',
    LIST: 'append extend insert pop index count copy sort reverse remove clear',
    TUPLE: 'index count',
    DICT: ('get keys values items update setdefault pop clear copy __setitem__ '
           '__getitem__ __delitem__ __contains__ __len__ __iter__'),
    SET: 'add update discard remove copy union intersection difference',
    INT: 'bit_length to_bytes __add__',
    BYTEARRAY: 'decode find join extend append',
}


def class_native_method(I, c, name):
    """Unbound methods of builtin types: str.encode, dict.__setitem__, ..."""
    h = I.class_hooks.get(name)
    for k in c.mro:
        f = I.native_class_attrs.get((k, name))
        if f is not None:
            return f
        if k in NATIVE_ATTRS and name in NATIVE_ATTRS[k].split():
            def unbound(I, a, kw, k=k):
                o = a[0]
                if isinstance(o, ObjV) and o.payload is not None:
                    o = o.payload
                if k not in type_of(o).mro:
                    I.raise_('TypeError', f'descriptor {name!r} for {k.name!r} objects '
                             f"doesn't apply to a {type_name(o)!r} object")
                f = native_method(I, o, name)
                return I.call(f, a[1:], kw)
            return NativeFunc(f'{k.name}.{name}', unbound)
    if INT in c.mro and name == 'from_bytes':
        def fb(I, a, k):
            b = a[0]
            o = arg(a, k, 1, 'byteorder', 'big')
            w = I.facts.concrete(B.width(I, b))
            if not w:
                return 0
            signed = truth(I, k.get('signed', False))
            ch = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}.get(w)
            if ch is None:
                bs = B.byte_bits(I, B.segs_of(I, b), w)
                if bs is None or signed:
                    raise Unsupported('from_bytes')
                if o == 'big':
                    bs = bs[::-1]
                return from_bits([x for y in bs for x in y], I.facts)
            return B.dec_field(I, ch.lower() if signed else ch, '<' if o == 'little' else '>', w, B.segs_of(I, b))
        return NativeFunc('from_bytes', fb, False)
    if DICT in c.mro and name == 'fromkeys':
        def fk(I, a, k):
            d = DictV()
            for x in iterate(I, a[0]):
                dict_set(I, d, x, a[1] if len(a) > 1 else None)
            return d
        return NativeFunc('fromkeys', fk, False)
    if BYTES in c.mro and name == 'fromhex':
        return NativeFunc('fromhex', lambda I, a, k: bytes.fromhex(a[0]), False)
    return None


def payload_attr(I, o, name):
    p = o.payload
    if isinstance(p, (DictV, ListV, SetV, str, bytes, int, tuple, BufV)):
        f = native_method(I, p, name)
        return MISSING if f is None else f
    h = I.payload_hooks.get(type(p))
    if h is not None:
        return h(I, o, name)
    return MISSING


def super_native(I, c, s, name):
    """super() attribute provided by the builtin class c."""
    f = I.native_class_attrs.get((c, name))
    if f is not None:
        return BoundMethod(f, s.obj)
    if name == '__new__':
        if c is TYPE:
            def tn(I, a, k):
                if len(a) == 2:
                    return type_of(a[1])
                meta, nm, bases, ns = a[:4]
                d = ns.payload if isinstance(ns, ObjV) else ns
                mod = d.d.get(('c', '__module__'), (None, '?'))[1]
                return make_class(I, meta, nm, tuple(bases), d, dict(k), mod)
            return NativeFunc('type.__new__', tn, False)
        if c is OBJECT:
            return None
        return NativeFunc('__new__', lambda I, a, k: I.bm.native_new(I, a[0], a[1:], k), False)
    if c is TYPE:
        if name == '__init__':
            return NativeFunc('type.__init__', lambda I, a, k: None, False)
        if name == '__call__':
            return NativeFunc('type.__call__', lambda I, a, k: type_call(I, s.obj, a, k), False)
        if name == '__prepare__':
            return NativeFunc('type.__prepare__', lambda I, a, k: DictV(), False)
        return None
    if c is OBJECT:
        return None
    o = s.obj
    if name == '__init__':
        if EXC['BaseException'] in c.mro:
            def ei(I, a, k):
                I.jset(o.d, 'args', tuple(a))
            return NativeFunc('__init__', ei, False)

        def ni(I, a, k):
            I.native_init(o, c, a, k)
        return NativeFunc('__init__', ni, False)
    if name == '__init_subclass__':
        return None
    if isinstance(o, ObjV) and o.payload is not None and c in (DICT, LIST, SET, STR, BYTES, TUPLE, INT):
        if name == '__setitem__':
            return m(lambda I, a, k: setitem(I, o.payload, a[0], a[1]))
        if name == '__getitem__':
            return m(lambda I, a, k: getitem(I, o.payload, a[0]))
        if name == '__eq__':
            return m(lambda I, a, k: eq(I, o.payload, a[0].payload if isinstance(a[0], ObjV) else a[0]))
        if name == '__class_getitem__':
            return None
        f = native_method(I, o.payload, name)
        return f
    if name == '__class_getitem__':
        return m(lambda I, a, k: I.class_subscript(s.obj, a[0]))
    return None


def native_init(I, o, nb, args, kw):
    if nb is DICT:
        dict_update(I, o.payload, args, kw)
        return True
    if nb is LIST:
        if args:
            I.jlist(o.payload.items)
            o.payload.items[:] = list(iterate(I, args[0]))
        return True
    if nb is SET:
        if args:
            for v in iterate(I, args[0]):
                dict_set(I, o.payload.dict, v, v)
        return True
    if nb in (STR, INT, BYTES, TUPLE, FLOAT):
        return True
    h = I.init_hooks.get(nb)
    if h is not None:
        h(I, o, args, kw)
        return True
    return False
