"""Model of the parts of the standard library the analysed code may use.

Names that exist in the standard library of the analysed Python version but are
not modelled evaluate to UnkV (an unmodelled value: obligations that come to
depend on it stay undecided).  Names that do not exist in that version raise
ImportError / AttributeError, as they would."""
from __future__ import annotations

import ast
import copy as host_copy
import importlib
import math
import re
import sys as host_sys

from .builtins_model import *
from .builtins_model import MISSING
from . import bytes_model as B
from . import classes as C
from .classes import (ABC, ENUM, FORWARDREF, GENERIC, NAMEDTUPLE, PARAMSPEC, PROTOCOL,
                      TYPEVAR, TYPEVARTUPLE, alloc, make_union, make_class)
from .ops import getitem, iterate, len_, setitem, binop, unary, str_
from .builtin_funcs import (FUNCS, arg, next_, to_int, to_str, to_float, to_bool, to_tuple,
                            to_list, to_dict, to_set, to_range, to_type, to_property,
                            to_object, dict_update)
from .layout import fields

# name -> first version providing it
SINCE = {
    'typing': {
        **dict.fromkeys(('ParamSpec', 'ParamSpecArgs', 'ParamSpecKwargs', 'TypeAlias',
                         'TypeGuard', 'Concatenate', 'is_typeddict'), (3, 10)),
        **dict.fromkeys(('Self', 'LiteralString', 'Never', 'NotRequired', 'Required',
                         'TypeVarTuple', 'Unpack', 'assert_never', 'assert_type',
                         'reveal_type', 'dataclass_transform', 'get_overloads',
                         'clear_overloads'), (3, 11)),
        **dict.fromkeys(('override', 'TypeAliasType'), (3, 12)),
        **dict.fromkeys(('TypeIs', 'ReadOnly', 'NoDefault', 'get_protocol_members',
                         'is_protocol'), (3, 13)),
    },
    'types': {**dict.fromkeys(('UnionType', 'NoneType', 'EllipsisType', 'NotImplementedType'),
                              (3, 10)), 'get_original_bases': (3, 12)},
    'itertools': {'pairwise': (3, 10), 'batched': (3, 12)},
    'enum': dict.fromkeys(('StrEnum', 'member', 'nonmember', 'verify', 'property', 'ReprEnum',
                           'EnumType', 'global_enum', 'KEEP', 'EJECT', 'STRICT', 'CONFORM'),
                          (3, 11)),
    'operator': {'call': (3, 11)},
    'math': {'cbrt': (3, 11), 'exp2': (3, 11), 'sumprod': (3, 12)},
    'contextlib': {'aclosing': (3, 10), 'chdir': (3, 11)},
    'sys': {'exception': (3, 11), 'orig_argv': (3, 10), 'stdlib_module_names': (3, 10)},
    'inspect': {'get_annotations': (3, 10)},
    'dataclasses': {'KW_ONLY': (3, 10)},
    'io': {'text_encoding': (3, 10)},
    'functools': {},
    'struct': {},
    'copy': {'replace': (3, 13)},
    'warnings': {'deprecated': (3, 13)},
}
SINCE_MODULES = {'tomllib': (3, 11), 'wsgiref.types': (3, 11)}
SINCE_BUILTINS = {'aiter': (3, 10), 'anext': (3, 10), 'ExceptionGroup': (3, 11),
                  'BaseExceptionGroup': (3, 11), 'EncodingWarning': (3, 10)}


def nf(f, name='native', binds=False):
    return NativeFunc(name, f, binds)


def native(name):
    def deco(f):
        return NativeFunc(name, f, False)
    return deco


# ---------------------------------------------------------------- struct
class StructP:
    __slots__ = ('format', 'size')

    def __init__(self, fmt, size):
        self.format, self.size = fmt, size

    def __repr__(self):
        return repr(self.format)


STRUCT = mkcls('Struct', (OBJECT,), 'struct')
STRUCT.meta = TYPE


def struct_init(I, o, fmt):
    f = B.struct_format(I, fmt)
    _, size, _ = B.fmt_fields(I, f)
    I.jattr(o, 'payload', StructP(f, size))


def _sp(I, o):
    if not isinstance(o, ObjV) or STRUCT not in o.cls.mro:
        I.raise_('TypeError', "descriptor for 'Struct' objects doesn't apply to a "
                 f'{type_of(o).name!r} object')
    if o.payload is None:
        I.raise_('RuntimeError', 'Struct object is not initialized')
    return o.payload


def _install_struct():
    def init(I, a, k):
        fmt = arg(a, k, 1, 'format')
        if fmt is MISSING or len(a) > 2:
            I.raise_('TypeError', 'Struct() takes exactly one argument')
        struct_init(I, a[0], fmt)

    def pack(I, a, k):
        return B.make(I, B.struct_pack(I, _sp(I, a[0]).format, a[1:]))

    def unpack(I, a, k):
        return B.struct_unpack(I, _sp(I, a[0]).format, arg(a, k, 1, 'buffer'))

    def unpack_from(I, a, k):
        return B.struct_unpack_from(I, _sp(I, a[0]).format, arg(a, k, 1, 'buffer'),
                                    arg(a, k, 2, 'offset', 0))

    def pack_into(I, a, k):
        if len(a) < 3:
            I.raise_('struct.error', 'pack_into expected buffer argument')
        return B.struct_pack_into(I, _sp(I, a[0]).format, a[1], a[2], a[3:])

    def iter_unpack(I, a, k):
        raise Unsupported('iter_unpack')

    for n, f in (('__init__', init), ('pack', pack), ('unpack', unpack),
                 ('unpack_from', unpack_from), ('pack_into', pack_into),
                 ('iter_unpack', iter_unpack)):
        STRUCT.ns[n] = NativeFunc(f'Struct.{n}', f, True)
    for n in ('format', 'size'):
        STRUCT.ns[n] = PropertyV(NativeFunc(n, lambda I, a, k, n=n: getattr(_sp(I, a[0]), n)))


_install_struct()


# ---------------------------------------------------------------- enum
ENUM.ns['value'] = PropertyV(NativeFunc('value', lambda I, a, k: a[0].d['_value_']))
ENUM.ns['name'] = PropertyV(NativeFunc('name', lambda I, a, k: a[0].d['_name_']))
INTENUM = mkcls('IntEnum', (INT, ENUM), 'enum')
STRENUM = mkcls('StrEnum', (STR, ENUM), 'enum')


# ---------------------------------------------------------------- typing
def parameters(I, args):
    out = []

    def walk(a):
        if isinstance(a, ObjV) and a.cls in (TYPEVAR, PARAMSPEC, TYPEVARTUPLE):
            if not any(a is x for x in out):
                out.append(a)
        elif isinstance(a, AliasV):
            for x in (a.args[:1] if a.flavour == 'annotated' else a.args):
                walk(x)
        elif isinstance(a, (tuple, ListV)):
            for x in (a.items if isinstance(a, ListV) else a):
                walk(x)
    for a in args:
        walk(a)
    return tuple(out)


def subst(I, t, m):
    """Replace type variables of t by the mapping m (list of pairs)."""
    if isinstance(t, ObjV) and t.cls in (TYPEVAR, PARAMSPEC, TYPEVARTUPLE):
        for k, v in m:
            if k is t:
                return v
        return t
    if isinstance(t, AliasV):
        if t.flavour == 'annotated':
            return annotated_alias(I, (subst(I, t.args[0], m),) + t.args[1:])
        if isinstance(t.origin, Special) and t.origin.name == 'Literal':
            return t
        new = []
        for a in t.args:
            if isinstance(a, AliasV) and isinstance(a.origin, Special) and a.origin.name == 'Unpack':
                r = subst(I, a.args[0], m)
                if isinstance(r, tuple):
                    new.extend(r)
                    continue
                new.append(a)
                continue
            new.append(subst(I, a, m))
        if all(x is y for x, y in zip(new, t.args)) and len(new) == len(t.args):
            return t
        if t.flavour in ('union', 'uniontype'):
            return make_union(I, new, t.flavour)
        return AliasV(t.origin, new, t.flavour)
    return t


def annotated_alias(I, args):
    base = args[0]
    meta = tuple(args[1:])
    if isinstance(base, AliasV) and base.flavour == 'annotated':
        meta = base.args[1:] + meta
        base = base.args[0]
    return AliasV(I.specials['Annotated'], (base,) + meta, 'annotated')


def tup(k):
    return k if type(k) is tuple else (k,)


def special_subscript(I, o, k):
    if isinstance(o, AliasV):
        ps = parameters(I, o.args[:1] if o.flavour == 'annotated' else o.args)
        if not ps:
            I.raise_('TypeError', f'{o!r} is not a generic class')
        return subst(I, o, bind_params(I, ps, tup(k), repr(o)))
    if not isinstance(o, Special):
        I.raise_('TypeError', f'{type_of(o).name!r} object is not subscriptable')
    n = o.name
    args = tup(k)
    if n == 'Annotated':
        if len(args) < 2:
            I.raise_('TypeError', 'Annotated[...] should be used with at least two arguments')
        return annotated_alias(I, args)
    if n == 'Union':
        if not args:
            I.raise_('TypeError', 'Cannot take a Union of no types.')
        return make_union(I, args)
    if n == 'Optional':
        if len(args) != 1:
            I.raise_('TypeError', 'Optional[t] requires a single type.')
        return make_union(I, [args[0], None])
    if n in TYPING_ALIASES:
        return AliasV(TYPING_ALIASES[n], [NONETYPE if a is None else a for a in args], 'typing')
    if n in NOT_SUBSCRIPTABLE:
        I.raise_('TypeError', f'typing.{n} is not subscriptable')
    return AliasV(o, [NONETYPE if a is None and n != 'Literal' else a for a in args])


NOT_SUBSCRIPTABLE = ('Any', 'NoReturn', 'Never', 'Self', 'LiteralString', 'TypeAlias')
TYPING_ALIASES = {'Tuple': TUPLE, 'List': LIST, 'Dict': DICT, 'Set': SET,
                  'FrozenSet': FROZENSET, 'Type': TYPE}


def bind_params(I, ps, args, what):
    if any(p.cls is not TYPEVAR for p in ps):
        i = next(i for i, p in enumerate(ps) if p.cls is not TYPEVAR)
        if ps[i].cls is PARAMSPEC:
            return list(zip(ps, args))
        after = len(ps) - i - 1
        if len(args) < len(ps) - 1:
            I.raise_('TypeError', f'Too few arguments for {what}')
        return (list(zip(ps[:i], args[:i])) + [(ps[i], tuple(args[i:len(args) - after]))]
                + list(zip(ps[i + 1:], args[len(args) - after:])))
    if len(ps) != len(args):
        I.raise_('TypeError', f'Too {"many" if len(args) > len(ps) else "few"} arguments for {what}')
    return list(zip(ps, args))


SUBSCRIPTABLE = (LIST, DICT, TUPLE, SET, FROZENSET, TYPE)


def class_subscript(I, c, k):
    args = tup(k)
    if c.native:
        if c in SUBSCRIPTABLE or c.name in ('deque', 'OrderedDict', 'defaultdict', 'partial',
                                            'cached_property', 'Pattern', 'Match'):
            return AliasV(c, args)
    g, f = c.find('__class_getitem__')
    if g is GENERIC or (g is None and GENERIC in c.mro):
        return generic_getitem(I, c, args)
    if g is not None:
        f = f.func if isinstance(f, (ClassMethodV, StaticMethodV)) else f
        return I.call(f, [c, k], {})
    I.raise_('TypeError', f'type {c.name!r} is not subscriptable')


def generic_getitem(I, c, args):
    args = tuple(NONETYPE if a is None else a for a in args)
    if c is GENERIC or c is PROTOCOL:
        if not args:
            I.raise_('TypeError', f'Parameter list to {c.name}[...] cannot be empty')
        return AliasV(c, args)
    ps = class_parameters(I, c)
    if not ps:
        I.raise_('TypeError', f'{c.name} is not a generic class')
    bind_params(I, ps, args, c.name)
    return AliasV(c, args)


def class_parameters(I, c):
    k, v = c.find('__parameters__')
    return v if k is not None else ()


def _generic_init_subclass(I, a, k):
    cls = a[0]
    if k:
        I.raise_('TypeError', '__init_subclass__() takes no keyword arguments')
    orig = cls.ns.get('__orig_bases__')
    if orig is None:
        I.jset(cls.ns, '__parameters__', ())
        return
    for b in orig:
        if isinstance(b, AliasV) and b.origin is GENERIC:
            ps = b.args
            out = parameters(I, ps)
            break
    else:
        out = parameters(I, orig)
    I.jset(cls.ns, '__parameters__', tuple(out))


def _isub(I, a, k):
    cls = a[0]
    mro = cls.mro
    for c in mro[mro.index(GENERIC) + 1:]:        # cooperative
        if '__init_subclass__' in c.ns:
            f = c.ns['__init_subclass__']
            f = f.func if isinstance(f, (ClassMethodV, StaticMethodV)) else f
            I.call(f, [cls], dict(k))
            k = {}
            break
    _generic_init_subclass(I, a, k)


GENERIC.ns['__init_subclass__'] = ClassMethodV(NativeFunc('Generic.__init_subclass__', _isub, True))
GENERIC.ns['__class_getitem__'] = ClassMethodV(NativeFunc(
    'Generic.__class_getitem__', lambda I, a, k: generic_getitem(I, a[0], tup(a[1])), True))


def get_origin(I, t):
    if isinstance(t, AliasV):
        if t.flavour == 'annotated':
            return I.specials['Annotated']
        if t.flavour == 'union':
            return I.specials['Union']
        if t.flavour == 'uniontype':
            return UNIONTYPE
        return t.origin
    if isinstance(t, Special) and t.name in TYPING_ALIASES:
        return TYPING_ALIASES[t.name]
    if t is GENERIC:
        return GENERIC
    if isinstance(t, UnkV):
        return UnkV('get_origin')
    return None


def get_args(I, t):
    if isinstance(t, AliasV):
        if isinstance(t.origin, Special) and t.origin.name == 'Callable':
            if t.args and isinstance(t.args[0], (ListV, tuple)):
                return (ListV(iterate(I, t.args[0])),) + t.args[1:]
        return t.args
    if isinstance(t, UnkV):
        return UnkV('get_args')
    return ()


def eval_text(I, src, g, l):
    try:
        tree = ast.parse(src.strip() if isinstance(src, str) else src, mode='eval')
    except SyntaxError as e:
        I.raise_('SyntaxError', f'{src!r}: {e}')
    mod = ModuleV('<eval>')
    mod.path = '<eval>'
    mod.future = False
    for x in (g,):
        if isinstance(x, ModuleDict):
            mod.ns = x.ns
        elif isinstance(x, DictV):
            mod.ns = {k: v for k, v in x.d.values()}
        elif isinstance(x, dict):
            mod.ns = x
    env = Env('module', None, mod)
    env.vars = mod.ns
    loc = None
    if isinstance(l, DictV):
        loc = {k: v for k, v in l.d.values()}
    elif isinstance(l, ClassDict):
        loc = dict(l.cls.ns)
    elif isinstance(l, dict):
        loc = l
    if loc is not None:
        env = Env('func', env, mod, set())
        env.vars = loc
    from .interp import Frame
    I.stack.append(Frame(FuncV(None, env, mod, '<eval>', '<eval>', (), {}, None)))
    v = I.ev(tree.body, env)
    I.stack.pop()
    return v


def fwd(I, v, g, l):
    """Resolve string annotations, recursively."""
    if isinstance(v, str):
        return fwd(I, eval_text(I, v, g, l), g, l)
    if isinstance(v, ObjV) and v.cls is FORWARDREF:
        return fwd(I, eval_text(I, v.d['__forward_arg__'], g, l), g, l)
    if isinstance(v, AliasV):
        if isinstance(v.origin, Special) and v.origin.name == 'Literal':
            return v
        if v.flavour == 'annotated':
            b = fwd(I, v.args[0], g, l)
            return v if b is v.args[0] else annotated_alias(I, (b,) + v.args[1:])
        new = [fwd(I, a, g, l) for a in v.args]
        if all(x is y for x, y in zip(new, v.args)):
            return v
        if v.flavour in ('union', 'uniontype'):
            return make_union(I, new, v.flavour)
        return AliasV(v.origin, new, v.flavour)
    return v


def strip_annotations(I, t):
    if isinstance(t, AliasV):
        if t.flavour == 'annotated':
            return strip_annotations(I, t.args[0])
        if isinstance(t.origin, Special) and t.origin.name in ('Required', 'NotRequired', 'ReadOnly'):
            return strip_annotations(I, t.args[0])
        if isinstance(t.origin, Special) and t.origin.name == 'Literal':
            return t
        new = [strip_annotations(I, a) for a in t.args]
        if all(x is y for x, y in zip(new, t.args)):
            return t
        if t.flavour in ('union', 'uniontype'):
            return make_union(I, new, t.flavour)
        return AliasV(t.origin, new, t.flavour)
    return t


def ann_items(I, d):
    if isinstance(d, ObjV):
        d = d.payload
    if isinstance(d, DictV):
        return [e for e in d.d.values()]
    raise Unsupported('annotations mapping')


def get_type_hints(I, a, k):
    obj = a[0]
    extras = truth(I, k.get('include_extras', a[3] if len(a) > 3 else False))
    g = k.get('globalns', a[1] if len(a) > 1 else None)
    l = k.get('localns', a[2] if len(a) > 2 else None)
    out = DictV()
    if isinstance(obj, ClassV):
        for base in reversed(obj.mro):
            ann = base.ns.get('__annotations__')
            if ann is None:
                continue
            bg, bl = g, l
            if bg is None:
                m = I.modules.get(base.ns.get('__module__', base.module))
                bg = m.ns if m is not None else {}
            if bl is None:
                bl = dict(base.ns)
            for key, v in ann_items(I, ann):
                if v is None:
                    v = NONETYPE
                v = fwd(I, v, bg, bl)
                if v is None:
                    v = NONETYPE
                dict_set(I, out, key, v if extras else strip_annotations(I, v))
        return out
    if isinstance(obj, ModuleV):
        ann = obj.ns.get('__annotations__')
        for key, v in (ann_items(I, ann) if ann is not None else ()):
            v = fwd(I, v, obj.ns, None)
            dict_set(I, out, key, v if extras else strip_annotations(I, v))
        return out
    return UnkV('type hints of a function')


def typevar(cls):
    def ctor(I, a, k):
        o = ObjV(cls)
        o.d['__name__'] = arg(a, k, 0, 'name')
        o.d['__bound__'] = k.get('bound')
        o.d['__constraints__'] = tuple(a[1:])
        if cls is PARAMSPEC:
            o.d['args'] = Special('ParamSpecArgs')
            o.d['kwargs'] = Special('ParamSpecKwargs')
        return o
    return ctor


def newtype(I, a, k):
    f = NativeFunc(a[0], lambda I, aa, kk: aa[0], False)
    f.attrs.update(__name__=a[0], __qualname__=a[0], __supertype__=a[1], newtype=True)
    return f


def identity_deco(I, a, k):
    return NativeFunc('decorator', lambda I, aa, kk: aa[0], False)


def typing_ns(I, ext):
    S = I.specials
    ns = {}
    for n in ('Annotated Union Optional ClassVar Final Any Literal Callable Tuple List Dict Set '
              'FrozenSet Type NoReturn Never Self LiteralString TypeAlias TypeGuard TypeIs Unpack '
              'Concatenate Required NotRequired Iterable Iterator Container Sequence Mapping '
              'MutableMapping MutableSequence Collection Sized Hashable Reversible Generator '
              'Coroutine Awaitable BinaryIO TextIO IO AnyStr ByteString SupportsInt SupportsIndex '
              'SupportsFloat SupportsBytes Text Pattern Match KeysView ValuesView ItemsView '
              'AbstractSet MutableSet ContextManager DefaultDict OrderedDict Counter Deque '
              'ChainMap').split():
        if n not in S:
            S[n] = Special(n)
        ns[n] = S[n]
    ns.update(
        Generic=GENERIC, Protocol=PROTOCOL, TypeVar=TYPEVAR, ParamSpec=PARAMSPEC,
        TypeVarTuple=TYPEVARTUPLE, ForwardRef=FORWARDREF, NamedTuple=NAMEDTUPLE,
        TYPE_CHECKING=False,
        cast=nf(lambda I, a, k: a[1], 'cast'),
        assert_type=nf(lambda I, a, k: a[0], 'assert_type'),
        overload=nf(lambda I, a, k: nf(lambda I, aa, kk: I.raise_(
            'NotImplementedError', 'an overloaded function must not be called'), 'overload'), 'overload'),
        final=nf(lambda I, a, k: a[0]), override=nf(lambda I, a, k: a[0]),
        runtime_checkable=nf(lambda I, a, k: a[0]), no_type_check=nf(lambda I, a, k: a[0]),
        dataclass_transform=nf(identity_deco),
        NewType=nf(newtype, 'NewType'),
        get_type_hints=nf(get_type_hints, 'get_type_hints'),
        get_origin=nf(lambda I, a, k: get_origin(I, a[0]), 'get_origin'),
        get_args=nf(lambda I, a, k: get_args(I, a[0]), 'get_args'),
        get_original_bases=nf(lambda I, a, k: a[0].ns.get('__orig_bases__', a[0].bases)),
    )
    if not ext:
        for n, v in SINCE['typing'].items():
            if I.version < v:
                ns.pop(n, None)
    return ns


def std_isinstance(I, v, c):
    if isinstance(c, Special):
        n = c.name
        if n in ('Callable',):
            return truth(I, I.call(FUNCS['callable'], [v], {}))
        if n in ('Iterable', 'Collection', 'Container', 'Sized'):
            if isinstance(v, (tuple, str, bytes, ListV, DictV, SetV, SeqV, BufV, RangeV)):
                return True
            if isinstance(v, IterV):
                return n == 'Iterable'
            if isinstance(v, ObjV):
                if v.payload is not None and isinstance(v.payload, (DictV, ListV, SetV, str, tuple, BufV)):
                    return True
                return v.cls.find({'Iterable': '__iter__', 'Container': '__contains__',
                                   'Sized': '__len__', 'Collection': '__len__'}[n])[0] is not None
            return False if not isinstance(v, (Sym, UnkV)) else None
        if n == 'Iterator':
            return isinstance(v, IterV) or isinstance(v, ObjV) and v.cls.find('__next__')[0] is not None
        if n in ('Sequence', 'MutableSequence'):
            if isinstance(v, (tuple, str, bytes, RangeV)):
                return n == 'Sequence'
            if isinstance(v, BufV):
                return n == 'Sequence' or v.kind == 'bytearray'
            if isinstance(v, SeqV):
                return n == 'Sequence' or v.kind == 'list'
            return isinstance(v, ListV) or isinstance(v, ObjV) and isinstance(v.payload, ListV)
        if n in ('Mapping', 'MutableMapping'):
            return isinstance(v, DictV) or isinstance(v, ObjV) and isinstance(v.payload, DictV)
        if n == 'Hashable':
            return not isinstance(v, (ListV, DictV, SetV, SeqV))
        if n in TYPING_ALIASES:
            return isinstance_(I, v, TYPING_ALIASES[n])
        if n == 'Any' and I.version >= (3, 11):
            I.raise_('TypeError', 'typing.Any cannot be used with isinstance()')
    return None


# ---------------------------------------------------------------- functools
def wraps(I, a, k):
    src = a[0]

    def deco(I, aa, kk):
        f = aa[0]
        if isinstance(f, (FuncV, NativeFunc, CacheV)):
            for n in ('__name__', '__qualname__', '__doc__', '__module__'):
                v = lookup(I, src, n)
                if v is not MISSING:
                    I.jset(f.attrs, n, v)
            if isinstance(src, (FuncV, NativeFunc, CacheV)):
                for n, v in src.attrs.items():
                    if n not in ('__name__', '__qualname__', '__doc__', '__module__'):
                        I.jset(f.attrs, n, v)
            I.jset(f.attrs, '__wrapped__', src)
        return f
    return nf(deco, 'wraps')


def lru_cache(I, a, k):
    typed = truth(I, k.get('typed', a[1] if len(a) > 1 else False))
    if a and isinstance(a[0], (FuncV, NativeFunc, ClassV, PartialV, BoundMethod)):
        return CacheV(a[0])
    return nf(lambda I, aa, kk: CacheV(aa[0], typed), 'lru_cache')


def long_fold(I, f, x, n):
    """reduce(f, repeat(x, n)) for a string x: the intermediate results of a
    function that neither branches on unknowns nor changes anything are kept, so
    that folds of many lengths cost one evaluation of the longest.  None when the
    function turns out to do more than compute a string."""
    fn = f.func if isinstance(f, PartialV) else f
    kw = f.kwargs if isinstance(f, PartialV) else {}
    if not isinstance(fn, FuncV) or fn.isgen or isinstance(f, PartialV) and f.args or I.log is None \
            or any(type(v) not in (str, int, bool) for v in kw.values()):
        return None
    key = (id(fn.node), id(fn), tuple(sorted(kw.items())), x)
    got = I.folds.setdefault(key, (fn, [x]))[1]
    steps = I.path.steps
    while len(got) < n:
        log, taken = len(I.log), len(I.path.taken)
        r = I.call(f, [got[-1], x], {})
        if len(I.log) != log or len(I.path.taken) != taken or type(r) is not str:
            return None
        got.append(r)
        if len(got) > 150_000:
            raise Unsupported('step budget (long fold)')
        I.path.steps = steps
    return got[n - 1]


def reduce_(I, a, k):
    if len(a) == 2 and isinstance(a[1], IterV) and a[1].same and type(a[1].same[0]) is str and a[1].same[1] > 64:
        r = long_fold(I, a[0], *a[1].same)
        if r is not None:
            return r
    it = iter(iterate(I, a[1]))
    if len(a) > 2:
        acc = a[2]
    else:
        for acc in it:
            break
        else:
            I.raise_('TypeError', 'reduce() of empty iterable with no initial value')
    for x in it:
        acc = I.call(a[0], [acc, x], {})
    return acc


def make_partial(I, a, k):
    f = a[0]
    if isinstance(f, PartialV):
        kw = dict(f.kwargs)
        kw.update(k)
        return PartialV(f.func, list(f.args) + list(a[1:]), kw)
    return PartialV(f, list(a[1:]), dict(k))


# ---------------------------------------------------------------- itertools
class CountIt:
    """itertools.count with its state restored between partitions."""
    __slots__ = ('n', 'step', 'I')

    def __init__(self, I, n, step):
        self.I, self.n, self.step = I, n, step

    def __iter__(self):
        return self

    def __next__(self):
        v = self.n
        self.I.jattr(self, 'n', binop(self.I, '+', v, self.step))
        return v


def host_bound(I, v):
    return None if v is None else I.facts.concrete(v) if isinstance(v, (Lin, BitV)) else v


def repeat_(I, a, k):
    x = a[0]
    n = arg(a, k, 1, 'times', None)
    if n is None:
        def forever():
            c = 0
            while True:
                c += 1
                if c > 100000:
                    raise Unsupported('endless repeat')
                yield x
        return IterV(forever(), 'repeat')
    if isinstance(n, ObjV) and isinstance(n.payload, int):
        n = n.payload
    if not isinstance(n, (int, Lin, BitV)):
        if isinstance(n, (Sym, UnkV)):
            raise Unsupported('repeat of an unknown count')
        I.raise_('TypeError', f'{type_of(n).name!r} object cannot be interpreted as an integer')

    def gen():
        out.same = None
        for _ in range(host_bound(I, n)):
            yield x
    out = IterV(gen(), 'repeat')
    if type(n) is int:
        out.same = (x, n)
    return out


def chain_(I, its):
    def gen():
        for it in its:
            yield from iterate(I, it)
    return IterV(gen(), 'chain')


def chain_from(I, a, k):
    src = a[0]

    def gen():
        for it in iterate(I, src):
            yield from iterate(I, it)
    return IterV(gen(), 'chain')


def islice(I, a, k):
    it = a[0]
    b = [host_bound(I, x) for x in a[1:]]
    start, stop, step = (0, b[0], 1) if len(b) == 1 else (b[0] or 0, b[1], (b[2] if len(b) > 2 else 1) or 1)

    def gen():
        i = 0
        if stop is not None and stop <= start and start == 0:
            return
        nxt = start
        src = iter(iterate(I, it))
        while stop is None or i < stop:
            if stop is not None and nxt >= stop and i >= stop:
                return
            try:
                v = next(src)
            except StopIteration:
                return
            if i == nxt:
                yield v
                nxt += step
            i += 1
    return IterV(gen(), 'islice')


def zip_longest(I, a, k):
    fill = k.get('fillvalue')
    its = [iter(iterate(I, x)) for x in a]

    def gen():
        live = [True] * len(its)
        while True:
            row = []
            for i, it in enumerate(its):
                if live[i]:
                    try:
                        row.append(next(it))
                        continue
                    except StopIteration:
                        live[i] = False
                row.append(fill)
            if not any(live):
                return
            yield tuple(row)
    return IterV(gen(), 'zip_longest')


def accumulate(I, a, k):
    f = arg(a, k, 1, 'func', None)
    init = k.get('initial')

    def gen():
        acc = init
        first = init is None
        if not first:
            yield acc
        for x in iterate(I, a[0]):
            if first:
                acc, first = x, False
            else:
                acc = binop(I, '+', acc, x) if f is None else I.call(f, [acc, x], {})
            yield acc
    return IterV(gen(), 'accumulate')


def starmap(I, a, k):
    return IterV((I.call(a[0], list(iterate(I, x)), {}) for x in iterate(I, a[1])), 'starmap')


def takewhile(I, a, k):
    def gen():
        for x in iterate(I, a[1]):
            if not truth(I, I.call(a[0], [x], {})):
                return
            yield x
    return IterV(gen(), 'takewhile')


def dropwhile(I, a, k):
    def gen():
        drop = True
        for x in iterate(I, a[1]):
            if drop and truth(I, I.call(a[0], [x], {})):
                continue
            drop = False
            yield x
    return IterV(gen(), 'dropwhile')


def tee(I, a, k):
    items = list(iterate(I, a[0]))
    return tuple(IterV(iter(items), 'tee') for _ in range(a[1] if len(a) > 1 else 2))


def pairwise(I, a, k):
    items = list(iterate(I, a[0]))
    return IterV(iter(list(zip(items, items[1:]))), 'pairwise')


# ---------------------------------------------------------------- operator
def dotted(I, o, name):
    for p in name.split('.'):
        o = I.getattr(o, p)
    return o


def attrgetter(I, a, k):
    names = list(a)
    if not names:
        I.raise_('TypeError', 'attrgetter expected 1 argument, got 0')
    for n in names:
        if not isinstance(n, str):
            I.raise_('TypeError', 'attribute name must be a string')
    if len(names) == 1:
        return nf(lambda I, aa, kk: dotted(I, aa[0], names[0]), 'attrgetter')
    return nf(lambda I, aa, kk: tuple(dotted(I, aa[0], n) for n in names), 'attrgetter')


def itemgetter(I, a, k):
    if len(a) == 1:
        return nf(lambda I, aa, kk: I.getitem(aa[0], a[0]), 'itemgetter')
    return nf(lambda I, aa, kk: tuple(I.getitem(aa[0], x) for x in a), 'itemgetter')


def methodcaller(I, a, k):
    return nf(lambda I, aa, kk: I.call_method(aa[0], a[0], list(a[1:]), k), 'methodcaller')


def operator_ns(I):
    ns = dict(attrgetter=nf(attrgetter), itemgetter=nf(itemgetter), methodcaller=nf(methodcaller))
    ops = {'add': '+', 'sub': '-', 'mul': '*', 'matmul': '@', 'floordiv': '//', 'mod': '%',
           'truediv': '/', 'or_': '|', 'and_': '&', 'xor': '^', 'lshift': '<<', 'rshift': '>>',
           'pow': '**', 'concat': '+'}
    for n, op in ops.items():
        ns[n] = nf(lambda I, a, k, op=op: I.binop(op, a[0], a[1]), n)
    for n, op in {'iadd': '+', 'ior': '|', 'imul': '*', 'iconcat': '+'}.items():
        ns[n] = nf(lambda I, a, k, op=op: I.inplace(op, a[0], a[1]), n)
    for n, op in {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt,
                  'ge': ast.GtE, 'is_': ast.Is, 'is_not': ast.IsNot}.items():
        ns[n] = nf(lambda I, a, k, op=op: I.compare(op(), a[0], a[1]), n)
    ns['not_'] = nf(lambda I, a, k: not I.truth(a[0]))
    ns['truth'] = nf(lambda I, a, k: I.truth(a[0]))
    ns['getitem'] = nf(lambda I, a, k: I.getitem(a[0], a[1]))
    ns['setitem'] = nf(lambda I, a, k: I.setitem(*a))
    ns['contains'] = nf(lambda I, a, k: contains(I, a[0], a[1]))
    ns['index'] = nf(lambda I, a, k: I.bm.index_(I, a[0]))
    ns['neg'] = nf(lambda I, a, k: unary(I, 'USub', a[0]))
    return ns


# ---------------------------------------------------------------- re
PATTERN = mkcls('Pattern', (OBJECT,), 're')
MATCH = mkcls('Match', (OBJECT,), 're')
for _c in (PATTERN, MATCH, INTENUM, STRENUM):
    _c.meta = TYPE


def re_text(I, v):
    if isinstance(v, str):
        return v
    if isinstance(v, ObjV) and isinstance(v.payload, str):
        return v.payload
    if isinstance(v, Sym) and v.ty == 'str':
        t = B.text_concrete(I, v.key)
        if t is not None:
            return t
    if isinstance(v, (Sym, UnkV, BufV)):
        raise Unsupported('regular expression over an unknown text')
    if isinstance(v, bytes):
        return v
    I.raise_('TypeError', 'expected string or bytes-like object')


def re_match(mo):
    if mo is None:
        return None
    o = ObjV(MATCH)
    o.payload = mo
    return o


def pattern_method(p, name):
    if name in ('match', 'fullmatch', 'search'):
        return nf(lambda I, a, k: re_match(getattr(p, name)(re_text(I, a[0]), *a[1:])), name)
    if name == 'split':
        return nf(lambda I, a, k: ListV(p.split(re_text(I, a[0]), *a[1:])), name)
    if name == 'findall':
        return nf(lambda I, a, k: ListV(p.findall(re_text(I, a[0]))), name)
    if name == 'finditer':
        return nf(lambda I, a, k: IterV(iter([re_match(x) for x in p.finditer(re_text(I, a[0]))])), name)
    if name in ('sub', 'subn'):
        def sub_(I, a, k):
            rep = a[0]
            if not isinstance(rep, str):
                fn = rep
                rep = lambda mo: re_text(I, I.call(fn, [re_match(mo)], {}))
            return getattr(p, name)(rep, re_text(I, a[1]), *a[2:])
        return nf(sub_, name)
    if name in ('pattern', 'flags', 'groups'):
        return getattr(p, name)
    if name == 'groupindex':
        raise Unsupported('groupindex')
    return MISSING


def match_method(mo, name):
    if name in ('group', 'start', 'end', 'span', 'groups', 'expand'):
        return nf(lambda I, a, k: getattr(mo, name)(*a, **k), name)
    if name == 'groupdict':
        def gd(I, a, k):
            d = DictV()
            for x, y in mo.groupdict(*a).items():
                dict_set(I, d, x, y)
            return d
        return nf(gd, name)
    if name == '__getitem__':
        return nf(lambda I, a, k: mo[a[0]], name)
    if name in ('string', 'lastindex', 'lastgroup', 'pos', 'endpos'):
        return getattr(mo, name)
    return MISSING


def re_compile(I, pat, flags=0):
    if isinstance(pat, ObjV) and pat.cls is PATTERN:
        return pat
    o = ObjV(PATTERN)
    try:
        o.payload = re.compile(re_text(I, pat), flags)
    except re.error as e:
        raise Unsupported(f're.error {e}')
    return o


def re_ns(I):
    ns = {'compile': nf(lambda I, a, k: re_compile(I, a[0], arg(a, k, 1, 'flags', 0))),
          'escape': nf(lambda I, a, k: re.escape(re_text(I, a[0]))),
          'Pattern': PATTERN, 'Match': MATCH}
    for n in ('match', 'fullmatch', 'search', 'split', 'findall', 'finditer', 'sub', 'subn'):
        ns[n] = nf(lambda I, a, k, n=n: I.call(
            pattern_method(re_compile(I, a[0]).payload, n), a[1:], k), n)
    for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'L'):
        ns[n] = int(getattr(re, n))
    return ns


# ---------------------------------------------------------------- copy
def copy_(I, o):
    if isinstance(o, ListV):
        return ListV(o.items)
    if isinstance(o, DictV):
        d = DictV()
        d.d.update(o.d)
        d.odd = o.odd
        return d
    if isinstance(o, SetV):
        s = SetV(o.frozen)
        s.dict.d.update(o.dict.d)
        return s
    if isinstance(o, BufV):
        return B.make(I, B.segs_of(I, o), o.kind)
    if isinstance(o, StreamV):
        raise Unsupported('copy of a stream')
    if isinstance(o, SeqV):
        return SeqV(o.name, o.length, o.elem, o.kind)
    if isinstance(o, ObjV):
        c, m = o.cls.find('__copy__')
        if c is not None:
            return I.call(bind(I, m, o, o.cls), [], {})
        if C.enum_members(I, o.cls) is not None or o.cls in (TYPEVAR, PARAMSPEC, TYPEVARTUPLE):
            return o
        if STRUCT in o.cls.mro:
            I.raise_('TypeError', "cannot pickle '_struct.Struct' object")
        if o.cls.find('__reduce__')[0] or o.cls.find('__reduce_ex__')[0]:
            raise Unsupported('copy through __reduce__')
        c, gs = o.cls.find('__getstate__')
        if c is not None:
            raise Unsupported('copy through __getstate__')
        n = ObjV(o.cls)
        n.d.update(o.d)
        n.payload = copy_(I, o.payload) if isinstance(o.payload, (ListV, DictV, SetV)) else o.payload
        return n
    if isinstance(o, UnkV):
        return o
    return o


def deepcopy(I, o, memo):
    if id(o) in memo:
        return memo[id(o)][1]
    if isinstance(o, tuple):
        r = tuple(deepcopy(I, x, memo) for x in o)
        return o if all(x is y for x, y in zip(r, o)) else r
    if isinstance(o, ListV):
        r = ListV()
        memo[id(o)] = (o, r)
        r.items.extend(deepcopy(I, x, memo) for x in o.items)
        return r
    if isinstance(o, DictV):
        r = DictV()
        memo[id(o)] = (o, r)
        for k, v in o.d.values():
            dict_set(I, r, deepcopy(I, k, memo), deepcopy(I, v, memo))
        return r
    if isinstance(o, SetV):
        r = SetV(o.frozen)
        memo[id(o)] = (o, r)
        for k, _ in o.dict.d.values():
            k = deepcopy(I, k, memo)
            dict_set(I, r.dict, k, k)
        return r
    if isinstance(o, ObjV):
        c, m = o.cls.find('__deepcopy__')
        if c is not None:
            return I.call(bind(I, m, o, o.cls), [DictV()], {})
        if C.enum_members(I, o.cls) is not None or o.cls in (TYPEVAR, PARAMSPEC, TYPEVARTUPLE):
            return o
        if o.cls is OBJECT and not o.d:
            return ObjV(OBJECT)
        if STRUCT in o.cls.mro:
            I.raise_('TypeError', "cannot pickle '_struct.Struct' object")
        n = ObjV(o.cls)
        memo[id(o)] = (o, n)
        for k, v in o.d.items():
            n.d[k] = deepcopy(I, v, memo)
        n.payload = deepcopy(I, o.payload, memo) if isinstance(o.payload, (ListV, DictV, SetV)) else o.payload
        return n
    if isinstance(o, BufV):
        return B.make(I, B.segs_of(I, o), o.kind) if o.kind != 'bytes' else o
    if isinstance(o, (StreamV, IterV)):
        raise Unsupported(f'deepcopy of {o!r}')
    return o


# ---------------------------------------------------------------- contextlib, misc
def suppress(I, a, k):
    o = ObjV(mk_cm(I))
    excs = tuple(a)
    o.d['__enter__'] = nf(lambda I, aa, kk: None)

    def leave(I, aa, kk):
        t = aa[0]
        return t is not None and any(c in t.mro for c in excs)
    o.d['__exit__'] = nf(leave)
    return o


def mk_cm(I):
    return CONTEXT


CONTEXT = mkcls('AbstractContextManager', (OBJECT,), 'contextlib')
CONTEXT.meta = TYPE


def nullcontext(I, a, k):
    o = ObjV(CONTEXT)
    o.d['__enter__'] = nf(lambda I, aa, kk: a[0] if a else None)
    o.d['__exit__'] = nf(lambda I, aa, kk: None)
    return o


def closing(I, a, k):
    o = ObjV(CONTEXT)
    o.d['__enter__'] = nf(lambda I, aa, kk: a[0])
    o.d['__exit__'] = nf(lambda I, aa, kk: I.call_method(a[0], 'close', []) and None)
    return o


def contextmanager(I, a, k):
    f = a[0]

    def make(I, aa, kk):
        g = I.call(f, aa, kk)
        o = ObjV(CONTEXT)
        o.d['__enter__'] = nf(lambda I, x, y: next_(I, g))

        def leave(I, x, y):
            if x[0] is None:
                try:
                    next(g.it)
                except StopIteration:
                    return False
                I.raise_('RuntimeError', "generator didn't stop")
            try:
                g.it.throw(PyExc(x[1]))
            except StopIteration:
                return True
            except PyExc as e:
                if e.obj is x[1]:
                    return False
                raise
            I.raise_('RuntimeError', "generator didn't stop after throw()")
        o.d['__exit__'] = nf(leave)
        return o
    return NativeFunc(lookup(I, f, '__name__'), make, True)


DEFAULTDICT = mkcls('defaultdict', (DICT,), 'collections')
ORDEREDDICT = mkcls('OrderedDict', (DICT,), 'collections')
VERSIONINFO = mkcls('version_info', (TUPLE,), 'sys')
BYTESIO = mkcls('BytesIO', (STREAM,), 'io')
DATACLASSES_MISSING = Special('MISSING')
for _c in (DEFAULTDICT, ORDEREDDICT, VERSIONINFO, BYTESIO):
    _c.meta = TYPE


def _dd_missing(I, a, k):
    o, key = a
    f = o.d.get('default_factory')
    if f is None:
        I.raise_('KeyError', key)
    v = I.call(f, [], {})
    dict_set(I, o.payload, key, v)
    return v


DEFAULTDICT.ns['__missing__'] = NativeFunc('__missing__', _dd_missing, True)


def mk_defaultdict(I, a, k):
    o = ObjV(DEFAULTDICT, DictV())
    o.d['default_factory'] = a[0] if a else None
    dict_update(I, o.payload, a[1:], k)
    return o


def to_bytesio(I, a, k):
    init = arg(a, k, 0, 'initial_bytes', b'')
    s = StreamV(B.segs_of(I, init) if init is not None else (), 0, 'rw', False, 'BytesIO')
    return s


def simple_namespace(I, a, k):
    o = ObjV(SIMPLENS)
    o.d.update(k)
    return o


SIMPLENS = mkcls('SimpleNamespace', (OBJECT,), 'types')
SIMPLENS.meta = TYPE


def namedtuple(I, a, k):
    name, fields_ = a[0], a[1]
    if isinstance(fields_, str):
        fields_ = fields_.replace(',', ' ').split()
    else:
        fields_ = list(iterate(I, fields_))
    return make_namedtuple(I, name, fields_, {})


def make_namedtuple(I, name, names, defaults):
    ns = DictV()
    cls = make_class(I, TYPE, name, (TUPLE,), ns, {}, '?')

    def new(I, a, k):
        vals = list(a[1:])
        for n in names[len(vals):]:
            if n in k:
                vals.append(k[n])
            elif n in defaults:
                vals.append(defaults[n])
            else:
                I.raise_('TypeError', f'missing {n}')
        if len(vals) != len(names):
            I.raise_('TypeError', 'wrong number of arguments')
        o = ObjV(a[0], tuple(vals))
        return o
    cls.ns['__new__'] = StaticMethodV(NativeFunc('__new__', new, False))
    cls.ns['__init__'] = NativeFunc('__init__', lambda I, a, k: None, True)
    cls.ns['_fields'] = tuple(names)
    for i, n in enumerate(names):
        cls.ns[n] = PropertyV(NativeFunc(n, lambda I, a, k, i=i: a[0].payload[i]))
    return cls


def host_math(name):
    f = getattr(math, name)

    def call(I, a, k):
        if all(isinstance(x, (int, float)) for x in a):
            try:
                return f(*a)
            except (ValueError, OverflowError) as e:
                I.raise_(type(e).__name__, str(e))
        if name == 'isinf' or name == 'isnan':
            if isinstance(a[0], (Lin, BitV)) or isinstance(a[0], Sym) and a[0].ty == 'int':
                return False
        if name in ('ceil', 'floor', 'trunc') and isinstance(a[0], (Lin, BitV)):
            return a[0]
        if isinstance(a[0], (Sym, UnkV, Lin, BitV)):
            return UnkV(f'math.{name}')
        I.raise_('TypeError', 'must be real number')
    return nf(call, name)


# ---------------------------------------------------------------- modules
def std_ns(I, name):
    if name == 'typing':
        return typing_ns(I, False)
    if name == 'typing_extensions':
        return typing_ns(I, True)
    if name == 'collections.abc':
        t = typing_ns(I, True)
        return {n: t[n] for n in ('Callable', 'Iterable', 'Iterator', 'Container', 'Sequence',
                                  'Mapping', 'MutableMapping', 'MutableSequence', 'Collection',
                                  'Sized', 'Hashable', 'Generator', 'Reversible', 'ByteString')}
    if name == 'types':
        return {'UnionType': UNIONTYPE, 'GenericAlias': ALIAS, 'NoneType': NONETYPE,
                'FunctionType': FUNCTION, 'LambdaType': FUNCTION, 'MethodType': METHOD,
                'ModuleType': MODULE, 'SimpleNamespace': SIMPLENS, 'EllipsisType': ELLIPSISTYPE,
                'GeneratorType': ITERATOR,
                'NotImplementedType': NOTIMPLTYPE}
    if name == 'functools':
        return {'cache': nf(lambda I, a, k: CacheV(a[0]), 'cache'), 'lru_cache': nf(lru_cache),
                'partial': PARTIAL, 'reduce': nf(reduce_), 'wraps': nf(wraps),
                'update_wrapper': nf(lambda I, a, k: I.call(wraps(I, [a[1]], {}), [a[0]], {})),
                'cached_property': CACHEDPROP}
    if name == 'itertools':
        chain = NativeFunc('chain', lambda I, a, k: chain_(I, a), False)
        chain.attrs['from_iterable'] = nf(chain_from)
        return {'chain': chain, 'repeat': nf(repeat_), 'islice': nf(islice),
                'count': nf(lambda I, a, k: IterV(CountIt(
                    I, arg(a, k, 0, 'start', 0), arg(a, k, 1, 'step', 1)), 'count')),
                'zip_longest': nf(zip_longest), 'accumulate': nf(accumulate),
                'starmap': nf(starmap), 'takewhile': nf(takewhile), 'dropwhile': nf(dropwhile),
                'tee': nf(tee), 'pairwise': nf(pairwise)}
    if name == 'operator':
        return operator_ns(I)
    if name == 're':
        return re_ns(I)
    if name == 'copy':
        return {'copy': nf(lambda I, a, k: copy_(I, a[0]), 'copy'),
                'deepcopy': nf(lambda I, a, k: deepcopy(I, a[0], {}), 'deepcopy')}
    if name == 'math':
        ns = {n: host_math(n) for n in ('isinf', 'isnan', 'ceil', 'floor', 'log2', 'log', 'sqrt',
                                        'gcd', 'trunc', 'pow', 'prod', 'fabs', 'isfinite')}
        ns.update(inf=math.inf, nan=math.nan, pi=math.pi)
        return ns
    if name == 'sys':
        v = tuple(I.version) + (0, 'final', 0)
        vi = ObjV(VERSIONINFO, v)
        vi.d.update(major=v[0], minor=v[1], micro=0)
        return {'version_info': vi, 'modules': ModuleDict(I.modules), 'byteorder': 'little',
                'maxsize': 2 ** 63 - 1, 'platform': 'linux', 'version': '3',
                'hexversion': (v[0] << 24) | (v[1] << 16), 'intern': nf(lambda I, a, k: a[0]),
                'getsizeof': nf(lambda I, a, k: UnkV('getsizeof'))}
    if name == 'io':
        return {'BytesIO': BYTESIO, 'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2,
                'IOBase': STREAM, 'RawIOBase': STREAM, 'BufferedIOBase': STREAM,
                'UnsupportedOperation': EXC['io.UnsupportedOperation']}
    if name == 'os':
        return {'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2, 'linesep': '\n', 'name': 'posix'}
    if name == 'warnings':
        return {'warn': nf(lambda I, a, k: None), 'warn_explicit': nf(lambda I, a, k: None),
                'simplefilter': nf(lambda I, a, k: None),
                'filterwarnings': nf(lambda I, a, k: None)}
    if name == 'struct':
        return {
            'Struct': STRUCT, 'error': EXC['struct.error'],
            'calcsize': nf(lambda I, a, k: B.fmt_fields(I, B.struct_format(I, a[0]))[1]),
            'pack': nf(lambda I, a, k: B.make(I, B.struct_pack(I, B.struct_format(I, a[0]), a[1:]))),
            'unpack': nf(lambda I, a, k: B.struct_unpack(I, B.struct_format(I, a[0]), a[1])),
            'unpack_from': nf(lambda I, a, k: B.struct_unpack_from(
                I, B.struct_format(I, a[0]), arg(a, k, 1, 'buffer'), arg(a, k, 2, 'offset', 0))),
            'pack_into': nf(lambda I, a, k: B.struct_pack_into(
                I, B.struct_format(I, a[0]), a[1], a[2], a[3:])),
        }
    if name == 'enum':
        return {'Enum': ENUM, 'IntEnum': INTENUM, 'StrEnum': STRENUM,
                'unique': nf(lambda I, a, k: a[0])}
    if name == 'abc':
        return {'ABC': ABC, 'ABCMeta': ABCMETA, 'abstractmethod': nf(lambda I, a, k: a[0])}
    if name == 'contextlib':
        return {'suppress': nf(suppress), 'nullcontext': nf(nullcontext),
                'contextmanager': nf(contextmanager), 'closing': nf(closing),
                'AbstractContextManager': CONTEXT}
    if name == 'collections':
        return {'namedtuple': nf(namedtuple), 'OrderedDict': ORDEREDDICT,
                'defaultdict': DEFAULTDICT}
    if name == 'builtins':
        return dict(BUILTINS)
    return None


ABCMETA = mkcls('ABCMeta', (TYPE,), 'abc')
ABCMETA.meta = TYPE
STRICT = ('typing', 'typing_extensions', 'types', 'functools', 'itertools', 'operator', 're',
          'copy', 'math', 'sys', 'io', 'os', 'warnings', 'struct', 'enum', 'abc', 'contextlib',
          'collections', 'collections.abc', 'builtins')
_HOST_NAMES: dict = {}


def std_module(I, name):
    ns = std_ns(I, name)
    since = SINCE_MODULES.get(name)
    if since and I.version < since:
        I.raise_('ModuleNotFoundError', f'No module named {name!r}')
    if ns is None:
        top = name.split('.')[0]
        if top not in host_sys.stdlib_module_names:
            I.raise_('ModuleNotFoundError', f'No module named {name!r}')
        m = ModuleV(name, {}, False)
    else:
        for n, v in SINCE.get(name, {}).items():
            if I.version < v:
                ns.pop(n, None)
        m = ModuleV(name, ns)
    m.ns.setdefault('__name__', name)
    I.modules[name] = m
    if '.' in name:
        p = I.import_module(name.rsplit('.', 1)[0])
        p.ns[name.rsplit('.', 1)[1]] = m
    return m


def std_attr(I, m, name):
    since = SINCE.get(m.name, {}).get(name)
    if since and I.version < since:
        return MISSING
    if m.name == 'typing_extensions':
        return UnkV(f'{m.name}.{name}')
    if m.name == 'collections' and name == 'abc':
        return I.import_module('collections.abc')
    if m.name not in _HOST_NAMES:
        try:
            _HOST_NAMES[m.name] = set(dir(importlib.import_module(m.name)))
        except ImportError:
            _HOST_NAMES[m.name] = set()
    if name in _HOST_NAMES[m.name]:
        return UnkV(f'{m.name}.{name}')
    return MISSING


def env_dict(I, name, env):
    if name == 'globals':
        return ModuleDict(env.glob.ns)
    if env.kind == 'class':
        return env.ns
    if env.kind == 'module':
        return ModuleDict(env.vars)
    d = DictV()
    for k, v in env.vars.items():
        dict_set(I, d, k, v)
    return d


def call_special(I, f, args, kw):
    n = f.name
    if n in TYPING_ALIASES:
        I.raise_('TypeError', f"Type {TYPING_ALIASES[n].name.capitalize()} cannot be instantiated")
    if n == 'NamedTuple':
        raise Unsupported('NamedTuple')
    I.raise_('TypeError', f'Cannot instantiate typing.{n}')


def payload_re(kind):
    def h(I, o, name):
        return (pattern_method if kind == 'p' else match_method)(o.payload, name)
    return h


def class_getitem_native(I, o, k):
    if o.cls is MATCH:
        return o.payload[k]
    return MISSING


def abs_distinct(I):
    """Are two unknown byte runs with different keys known to be able to differ?"""
    def d(key):
        return isinstance(key, tuple) and key and key[0] in ('free', 'raw', 'txt', 'user')
    return d


def install(I):
    I.specials = {}
    for n in ('Union', 'Annotated'):
        I.specials[n] = Special(n)
    I.bufm = B
    I.alloc = lambda cls: alloc(I, cls)
    I.enum_members = lambda c: C.enum_members(I, c)
    I.class_getitem_native = lambda o, k: class_getitem_native(I, o, k)
    I.class_subscript = lambda c, k: class_subscript(I, c, k)
    I.special_subscript = lambda o, k: special_subscript(I, o, k)
    I.type_union = lambda a, b: C.type_union(I, a, b)
    I.dict_update = lambda d, b: dict_update(I, d, [b], {})
    I.eval_text = lambda s, g, l: eval_text(I, s, g, l)
    I.std_isinstance = lambda v, c: std_isinstance(I, v, c)
    from . import builtin_funcs as F
    I.native_method = lambda o, n: F.native_method(I, o, n)
    I.class_native_method = lambda c, n: F.class_native_method(I, c, n)
    I.payload_attr = lambda o, n: F.payload_attr(I, o, n)
    I.super_native = lambda c, s, n: F.super_native(I, c, s, n)
    I.native_init = lambda o, nb, a, k: F.native_init(I, o, nb, a, k)
    I.payload_hooks = {re.Pattern: payload_re('p'), re.Match: payload_re('m')}
    I.native_class_attrs = {}
    I.class_hooks = {}
    I.init_hooks = {}
    I.on_setattr = None
    I.readonly_payload = lambda o, n: False
    I.obj_values = None
    I.buf_writes = []
    I.user_mutations = []
    I.distinct = abs_distinct(I)

    def exc_ctor(I, a, k):
        raise Unsupported('exception')

    def struct_new(I, a, k):
        o = ObjV(STRUCT)
        I.call(STRUCT.ns['__init__'], [o] + a, k)
        return o

    def cached_prop(I, a, k):
        return CachedPropertyV(a[0])

    def meth(I, a, k):
        return BoundMethod(a[0], a[1])

    I.ctors = {
        INT: to_int, STR: to_str, FLOAT: to_float, BOOL: to_bool, TUPLE: to_tuple, LIST: to_list,
        DICT: to_dict, SET: to_set(False), FROZENSET: to_set(True), RANGE: to_range,
        TYPE: to_type, PROPERTY: to_property, OBJECT: to_object,
        BYTES: lambda I, a, k: B.ctor(I, 'bytes', a, k),
        BYTEARRAY: lambda I, a, k: B.ctor(I, 'bytearray', a, k),
        MEMORYVIEW: lambda I, a, k: B.ctor(I, 'memoryview', a, k),
        CLASSMETHOD: lambda I, a, k: ClassMethodV(a[0]),
        STATICMETHOD: lambda I, a, k: StaticMethodV(a[0]),
        SLICE: lambda I, a, k: SliceV(*([None, a[0], None] if len(a) == 1 else (list(a) + [None])[:3])),
        PARTIAL: make_partial, CACHEDPROP: cached_prop, METHOD: meth,
        BYTESIO: to_bytesio, STRUCT: struct_new, DEFAULTDICT: mk_defaultdict,
        ORDEREDDICT: to_dict, SIMPLENS: simple_namespace,
        TYPEVAR: typevar(TYPEVAR), PARAMSPEC: typevar(PARAMSPEC), TYPEVARTUPLE: typevar(TYPEVARTUPLE),
        ENUM: exc_ctor, SUPER: lambda I, a, k: make_super(I, a[0], a[1]),
        NONETYPE: lambda I, a, k: None,
    }


BUILTINS.update(FUNCS)
for _c in (OBJECT, TYPE, INT, BOOL, FLOAT, COMPLEX, STR, BYTES, BYTEARRAY, MEMORYVIEW, TUPLE, LIST,
           DICT, SET, FROZENSET, PROPERTY, CLASSMETHOD, STATICMETHOD, SLICE, RANGE, SUPER):
    BUILTINS[_c.name] = _c
for _n, _c in EXC.items():
    if '.' not in _n:
        BUILTINS[_n] = _c
BUILTINS['NotImplemented'] = NotImplemented
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['__debug__'] = True
