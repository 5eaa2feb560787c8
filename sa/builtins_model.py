"""The object protocol and the builtin types, over abstract values."""
from __future__ import annotations

import ast

from .terms import (BitV, Lin, Prune, Unsupported, add, atom, bits_range, from_bits,
                    scale, sub, to_bits)
from .values import *
from .layout import BufV

MISSING = object()


def mkcls(name, bases=(), module='builtins'):
    c = ClassV(name, bases, {}, None, module)
    c.native = True
    return c


OBJECT = mkcls('object')
TYPE = mkcls('type', (OBJECT,))
INT = mkcls('int', (OBJECT,))
BOOL = mkcls('bool', (INT,))
FLOAT = mkcls('float', (OBJECT,))
COMPLEX = mkcls('complex', (OBJECT,))
STR = mkcls('str', (OBJECT,))
BYTES = mkcls('bytes', (OBJECT,))
BYTEARRAY = mkcls('bytearray', (OBJECT,))
MEMORYVIEW = mkcls('memoryview', (OBJECT,))
TUPLE = mkcls('tuple', (OBJECT,))
LIST = mkcls('list', (OBJECT,))
DICT = mkcls('dict', (OBJECT,))
SET = mkcls('set', (OBJECT,))
FROZENSET = mkcls('frozenset', (OBJECT,))
NONETYPE = mkcls('NoneType', (OBJECT,))
ELLIPSISTYPE = mkcls('ellipsis', (OBJECT,))
NOTIMPLTYPE = mkcls('NotImplementedType', (OBJECT,))
FUNCTION = mkcls('function', (OBJECT,))
METHOD = mkcls('method', (OBJECT,))
PROPERTY = mkcls('property', (OBJECT,))
CLASSMETHOD = mkcls('classmethod', (OBJECT,))
STATICMETHOD = mkcls('staticmethod', (OBJECT,))
SLICE = mkcls('slice', (OBJECT,))
RANGE = mkcls('range', (OBJECT,))
ITERATOR = mkcls('iterator', (OBJECT,))
MODULE = mkcls('module', (OBJECT,))
SUPER = mkcls('super', (OBJECT,))
PARTIAL = mkcls('partial', (OBJECT,), 'functools')
CACHEDPROP = mkcls('cached_property', (OBJECT,), 'functools')
ALIAS = mkcls('GenericAlias', (OBJECT,), 'types')
UNIONTYPE = mkcls('UnionType', (OBJECT,), 'types')
STREAM = mkcls('BufferedIOBase', (OBJECT,), 'io')
for _c in OBJECT.mro:
    pass
for _c in list(globals().values()):
    if isinstance(_c, ClassV):
        _c.meta = TYPE

EXC = {}


def _exc(name, base):
    b = EXC.get(base) or OBJECT
    c = mkcls(name, (b,))
    c.meta = TYPE
    EXC[name] = c
    return c


for _n, _b in [
    ('BaseException', None), ('Exception', 'BaseException'),
    ('GeneratorExit', 'BaseException'), ('KeyboardInterrupt', 'BaseException'),
    ('StopIteration', 'Exception'), ('ArithmeticError', 'Exception'),
    ('OverflowError', 'ArithmeticError'), ('ZeroDivisionError', 'ArithmeticError'),
    ('AssertionError', 'Exception'), ('AttributeError', 'Exception'),
    ('BufferError', 'Exception'), ('EOFError', 'Exception'),
    ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'),
    ('LookupError', 'Exception'), ('IndexError', 'LookupError'),
    ('KeyError', 'LookupError'), ('MemoryError', 'Exception'),
    ('NameError', 'Exception'), ('UnboundLocalError', 'NameError'),
    ('OSError', 'Exception'), ('RuntimeError', 'Exception'),
    ('NotImplementedError', 'RuntimeError'), ('RecursionError', 'RuntimeError'),
    ('SyntaxError', 'Exception'), ('SystemError', 'Exception'),
    ('TypeError', 'Exception'), ('ValueError', 'Exception'),
    ('UnicodeError', 'ValueError'), ('UnicodeDecodeError', 'UnicodeError'),
    ('UnicodeEncodeError', 'UnicodeError'), ('Warning', 'Exception'),
    ('DeprecationWarning', 'Warning'), ('FutureWarning', 'Warning'),
    ('UserWarning', 'Warning'), ('RuntimeWarning', 'Warning'),
    ('FileNotFoundError', 'OSError'), ('PermissionError', 'OSError'),
    ('PendingDeprecationWarning', 'Warning'), ('ResourceWarning', 'Warning'),
    ('SystemExit', 'BaseException'), ('FloatingPointError', 'ArithmeticError'),
    ('ReferenceError', 'Exception'), ('StopAsyncIteration', 'Exception'),
    ('struct.error', 'Exception'), ('io.UnsupportedOperation', 'OSError'),
]:
    _exc(_n, _b)
EXC['struct.error'].name = 'error'
EXC['struct.error'].module = 'struct'

BUILTINS: dict = {}


# ---------------------------------------------------------------- keys and types
def key_of(v):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return ('c', type(v).__name__, v)
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, (Lin, BitV)):
        return ('n', v)
    if isinstance(v, BufV):
        view = () if v.target is None else (id(v.target),) + tuple(key_of(x) for x in v.base)
        return ('b', v.kind) + view + tuple(seg_key(s) for s in v.segs)
    if isinstance(v, tuple):
        return ('t',) + tuple(key_of(x) for x in v)
    if isinstance(v, ListV):
        return ('l',) + tuple(key_of(x) for x in v.items)
    if isinstance(v, SeqV):
        return ('seq', v.name)
    if isinstance(v, ObjV) and v.tag:
        return ('o', v.tag)
    return ('id', type(v).__name__, id(v))


def seg_key(s):
    if s[0] == 'enc':
        return s[:4] + (key_of(s[4]),)
    if s[0] == 'ser':
        return s[:3] + tuple(key_of(x) for x in s[3])
    if s[0] == 'part':
        return ('part', s[1], seg_key(s[2]), s[3])
    return s


def type_of(v):
    if v is None:
        return NONETYPE
    t = type(v)
    if t is bool:
        return BOOL
    if t is int or t is Lin or t is BitV:
        return INT
    if t is str:
        return STR
    if t is float:
        return FLOAT
    if t is bytes:
        return BYTES
    if t is tuple:
        return TUPLE
    if t is ObjV:
        return v.cls
    if t is ListV:
        return LIST
    if t is DictV:
        return DICT
    if t is ClassV:
        return v.meta or TYPE
    if t is BufV:
        return {'bytes': BYTES, 'bytearray': BYTEARRAY, 'memoryview': MEMORYVIEW}[v.kind]
    if t is SeqV:
        return {'list': LIST, 'tuple': TUPLE}[v.kind]
    if t is SetV:
        return FROZENSET if v.frozen else SET
    if t in (FuncV, NativeFunc, CacheV):
        return FUNCTION
    if t is BoundMethod:
        return METHOD
    if t is PropertyV:
        return PROPERTY
    if t is ClassMethodV:
        return CLASSMETHOD
    if t is StaticMethodV:
        return STATICMETHOD
    if t is CachedPropertyV:
        return CACHEDPROP
    if t is PartialV:
        return PARTIAL
    if t is AliasV:
        return UNIONTYPE if v.flavour == 'uniontype' else ALIAS
    if t is IterV:
        return ITERATOR
    if t is RangeV:
        return RANGE
    if t is SliceV:
        return SLICE
    if t is ModuleV:
        return MODULE
    if t is StreamV:
        return _std.BYTESIO
    if v is Ellipsis:
        return ELLIPSISTYPE
    if v is NotImplemented:
        return NOTIMPLTYPE
    if t is Special:
        return OBJECT
    if t is Sym:
        r = {'int': INT, 'str': STR, 'bool': BOOL, 'float': FLOAT, 'bytes': BYTES}.get(v.ty)
        if r is not None:
            return r
        raise Unsupported(f'type of unknown value {v!r}')
    if t is UnkV:
        raise Unsupported(f'type of {v!r}')
    return OBJECT


def isinstance_(I, v, c):
    if isinstance(c, tuple):
        return any([isinstance_(I, v, x) for x in c])
    if isinstance(c, AliasV):
        if c.flavour in ('union', 'uniontype'):
            return any([isinstance_(I, v, x) for x in c.args])
        I.raise_('TypeError', 'isinstance() argument 2 cannot be a parameterized generic')
    if isinstance(c, UnkV):
        raise Unsupported(f'isinstance with {c!r}')
    if not isinstance(c, ClassV):
        if c is None:
            return v is None
        r = I.std_isinstance(v, c)
        if r is not None:
            return r
        I.raise_('TypeError', 'isinstance() arg 2 must be a type')
    if isinstance(v, UnkV):
        raise Unsupported(f'isinstance of {v!r}')
    if isinstance(v, Sym) and v.ty in ('any', 'callable'):
        if c is OBJECT:
            return True
        if v.ty == 'callable' or v.key[:1] == ('payload',):
            # payloads of unknown serializers: instances of user classes
            return False
        return I.path.cond(('isinstance', v.key, c.qualname))
    t = type_of(v)
    return c in t.mro or (isinstance(v, ClassV) and c is TYPE)


def issubclass_(I, a, c):
    if isinstance(c, tuple):
        return any([issubclass_(I, a, x) for x in c])
    if isinstance(a, UnkV) or isinstance(c, UnkV):
        raise Unsupported('issubclass of an unmodelled value')
    if not isinstance(a, ClassV):
        I.raise_('TypeError', 'issubclass() arg 1 must be a class')
    if isinstance(c, AliasV) and c.flavour in ('union', 'uniontype'):
        return any([issubclass_(I, a, x) for x in c.args])
    if not isinstance(c, ClassV):
        I.raise_('TypeError', 'issubclass() arg 2 must be a class')
    return c in a.mro


# ---------------------------------------------------------------- attributes
def bind(I, attr, obj, cls):
    """Descriptor binding of a class attribute found for instance obj."""
    t = type(attr)
    if t is FuncV:
        return BoundMethod(attr, obj)
    if t is NativeFunc:
        return BoundMethod(attr, obj) if attr.binds else attr
    if t is CacheV:
        return BoundMethod(attr, obj)
    if t is ClassMethodV:
        return BoundMethod(attr.func, cls) if not isinstance(
            attr.func, (PropertyV,)) else I.call(attr.func.fget, [cls])
    if t is StaticMethodV:
        return attr.func
    if t is PropertyV:
        if attr.fget is None:
            I.raise_('AttributeError', 'unreadable attribute')
        return I.call(attr.fget, [obj], {})
    if t is CachedPropertyV:
        v = I.call(attr.func, [obj], {})
        if isinstance(obj, ObjV):
            I.jset(obj.d, attr.name or attr.func.name, v)
        return v
    if t is ObjV:
        _, g = attr.cls.find('__get__')
        if g is not None:
            return I.call(bind(I, g, attr, attr.cls), [obj, cls], {})
    return attr


def class_bind(I, attr, cls):
    t = type(attr)
    if t is ClassMethodV:
        return BoundMethod(attr.func, cls)
    if t is StaticMethodV:
        return attr.func
    if t is ObjV:
        _, g = attr.cls.find('__get__')
        if g is not None:
            return I.call(bind(I, g, attr, attr.cls), [None, cls], {})
    return attr


def getattr_(I, o, name):
    v = lookup(I, o, name)
    if v is MISSING:
        t = getattr(o, 'name', None) if isinstance(o, (ClassV, ModuleV)) else None
        try:
            tn = t or type_of(o).name
        except Unsupported:
            tn = '?'
        e = I.exc('AttributeError', f'{tn!r} object has no attribute {name!r}')
        e.obj.d['name'] = name
        raise e
    return v


def lookup(I, o, name):
    t = type(o)
    if t is ObjV:
        return obj_attr(I, o, name)
    if t is ClassV:
        return class_attr(I, o, name)
    if t is ModuleV:
        if name == '__dict__':
            return ModuleDict(o.ns)
        if name in o.ns:
            return o.ns[name]
        try:
            return I.module_attr(o, name)
        except Exception as e:
            if type(e).__name__ == 'PyExc':
                return MISSING
            raise
    if t is BoundMethod:
        if name == '__self__':
            return o.self
        if name == '__func__':
            return o.func
        return lookup(I, o.func, name)
    if t is FuncV:
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        if name == '__qualname__':
            return o.qualname
        if name == '__module__':
            return getattr(o.glob, 'name', None) or o.glob.ns.get('__name__')
        if name == '__defaults__':
            return tuple(o.defaults) or None
        if name == '__dict__':
            return DictV()
        if name == '__doc__':
            return None
        if name == '__get__':
            return NativeFunc('__get__', lambda I, a, k: o if a[0] is None else BoundMethod(o, a[0]))
        if name == '__call__':
            return o
        if name == '__annotations__':
            return DictV()
        return MISSING
    if t in (NativeFunc, CacheV):
        if name in o.attrs:
            return o.attrs[name]
        if name in ('__name__', '__qualname__'):
            return o.name.split('.')[-1] if t is NativeFunc else lookup(I, o.func, name)
        if name == '__doc__':
            return None
        if name == '__module__':
            return 'builtins'
        if t is CacheV:
            if name == 'cache_clear':
                return NativeFunc('cache_clear', lambda I, a, k: I.jattr(o, 'memo', DictV()))
            return lookup(I, o.func, name)
        return MISSING
    if t is SuperV:
        return super_attr(I, o, name)
    if t is AliasV:
        return alias_attr(I, o, name)
    if t is PartialV:
        if name == 'func':
            return o.func
        if name == 'args':
            return tuple(o.args)
        return MISSING
    if t is PropertyV:
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
        if name in ('setter', 'getter', 'deleter'):
            def upd(I, a, k):
                p = PropertyV(o.fget, o.fset, o.fdel)
                setattr(p, {'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}[name], a[0])
                return p
            return NativeFunc(name, upd)
        return MISSING
    if t in (ClassMethodV, StaticMethodV):
        if name in ('__func__', '__wrapped__'):
            return o.func
        return lookup(I, o.func, name)
    if t is UnkV:
        return UnkV(f'{o.why}.{name}')
    if t is SliceV:
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    if t is RangeV:
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    if t is Special:
        if name in ('__name__', '_name'):
            return o.name
        return MISSING
    if t is Sym and o.ty in ('any', 'callable'):
        if o.attrs is not None and name in o.attrs:
            return o.attrs[name]
        if name == '__class__':
            raise Unsupported(f'class of unknown value {o!r}')
        raise Unsupported(f'attribute {name} of unknown value {o!r}')
    cls = type_of(o)
    c, a = cls.find(name)
    if c is not None:
        return bind(I, a, o, cls)
    if name == '__class__':
        return cls
    if name == '__iter__' and has_iter(o):
        return NativeFunc('__iter__', lambda I, a, k: IterV(iterate(I, o)))
    if name == '__dict__' and t is StreamV:
        return DictV()
    m = I.native_method(o, name)
    return MISSING if m is None else m


def has_iter(o):
    return isinstance(o, (tuple, str, bytes, ListV, DictV, SetV, SeqV, IterV, RangeV, BufV))


def obj_attr(I, o, name):
    cls = o.cls
    c, a = cls.find(name)
    if c is not None:
        ta = type(a)
        if ta is PropertyV or (ta is ObjV and a.cls.find('__set__')[0] is not None):
            return bind(I, a, o, cls)
    v = o.d.get(name, MISSING)
    if v is not MISSING:
        return v
    if c is not None:
        return bind(I, a, o, cls)
    if name == '__class__':
        return cls
    if name == '__dict__':
        return ObjDict(o)
    if o.payload is not None:
        v = I.payload_attr(o, name)
        if v is not MISSING:
            return v
    _, g = cls.find('__getattr__')
    if g is not None:
        try:
            return I.call(bind(I, g, o, cls), [name], {})
        except Exception as e:
            if type(e).__name__ == 'PyExc' and EXC['AttributeError'] in e.obj.cls.mro:
                return MISSING
            raise
    if name == '__doc__':
        return None
    if name == '__module__':
        return cls.module
    v = object_attr(I, o, name)
    return v


def object_attr(I, o, name):
    """Defaults every object has."""
    f = OBJECT_METHODS.get(name)
    if f is not None:
        return NativeFunc(f'object.{name}', lambda I, a, k, f=f: f(I, o, *a, **k))
    return MISSING


def class_attr(I, c, name):
    meta = c.meta or TYPE
    mc, ma = meta.find(name)
    if mc is not None and isinstance(ma, PropertyV):
        return I.call(ma.fget, [c], {})
    k, a = c.find(name)
    if k is not None:
        return class_bind(I, a, c)
    if name == '__name__':
        return c.name
    if name == '__qualname__':
        return c.qualname
    if name == '__module__':
        return c.module
    if name == '__mro__':
        return c.mro
    if name == '__bases__':
        return c.bases
    if name == '__base__':
        return c.bases[0] if c.bases else None
    if name == '__dict__':
        return ClassDict(c)
    if name == '__class__':
        return meta
    if name == '__doc__':
        return None
    if name == 'mro':
        return NativeFunc('mro', lambda I, a, k: ListV(c.mro))
    if name == '__annotations__':
        return MISSING
    if name == '__subclasses__':
        return NativeFunc('__subclasses__', lambda I, a, k: ListV(c.subclasses))
    if mc is not None:
        return bind(I, ma, c, meta)
    if c.native or any(b.native and b is not OBJECT for b in c.mro):
        m = I.class_native_method(c, name)
        if m is not None:
            return m
    f = OBJECT_METHODS.get(name)
    if f is not None:
        return NativeFunc(f'object.{name}', lambda I, a, k, f=f: f(I, *a, **k))
    return MISSING


def super_attr(I, s, name):
    mro = s.typ.mro
    i = mro.index(s.start) + 1
    for c in mro[i:]:
        if name in c.ns:
            a = c.ns[name]
            if isinstance(s.obj, ClassV) and s.typ is s.obj:
                # super() in a classmethod / __new__ / __init_subclass__
                t = type(a)
                if t is ClassMethodV:
                    return BoundMethod(a.func, s.obj)
                if t is StaticMethodV:
                    return a.func
                return a if t is not PropertyV else a
            return bind(I, a, s.obj, s.typ)
        if c.native:
            m = I.super_native(c, s, name)
            if m is not None:
                return m
    if name in ('__init__',):
        return NativeFunc('object.__init__', lambda I, a, k: None)
    if name == '__init_subclass__':
        def isub(I, a, k):
            if k:
                I.raise_('TypeError', '__init_subclass__() takes no keyword arguments')
        return NativeFunc('object.__init_subclass__', isub)
    if name == '__new__':
        return NativeFunc('object.__new__', lambda I, a, k: I.alloc(a[0]))
    if name in OBJECT_METHODS:
        f = OBJECT_METHODS[name]
        return NativeFunc(f'object.{name}', lambda I, a, k: f(I, s.obj, *a, **k))
    if name == '__class__':
        return SUPER
    return MISSING


def zero_super(I, env):
    e = env
    while e is not None and e.kind != 'func':
        e = e.parent
    while e is not None and e.func.owner is None:
        e = e.parent
        while e is not None and e.kind != 'func':
            e = e.parent
    if e is None:
        raise Unsupported('super() outside of a method')
    f = e.func
    first = e.vars[f.info.params[0]]
    return make_super(I, f.owner, first)


def make_super(I, owner, first):
    if isinstance(first, ClassV) and owner in first.mro:
        return SuperV(owner, first, first)
    t = type_of(first)
    if owner not in t.mro:
        I.raise_('TypeError', 'super(type, obj): obj must be an instance or subtype of type')
    return SuperV(owner, first, t)


def setattr_(I, o, name, v):
    t = type(o)
    if t is ObjV:
        c, a = o.cls.find(name)
        if type(a) is PropertyV:
            if a.fset is None:
                I.raise_('AttributeError', f'property {name!r} of {o.cls.name!r} object has no setter')
            I.call(a.fset, [o, v], {})
            return
        c2, s = o.cls.find('__setattr__')
        if c2 is not None:
            I.call(bind(I, s, o, o.cls), [name, v], {})
            return
        obj_set(I, o, name, v)
        return
    if t is ClassV:
        if isinstance(v, FuncV) and False:
            pass
        I.jset(o.ns, name, v)
        if name == '__qualname__':
            I.jattr(o, 'qualname', v)
        elif name == '__name__':
            I.jattr(o, 'name', v)
        return
    if t is FuncV:
        if name == '__qualname__':
            I.jattr(o, 'qualname', v)
        elif name == '__name__':
            I.jattr(o, 'name', v)
        I.jset(o.attrs, name, v)
        return
    if t in (NativeFunc, CacheV):
        I.jset(o.attrs, name, v)
        return
    if t is ModuleV:
        I.jset(o.ns, name, v)
        return
    if t is UnkV:
        return
    I.raise_('AttributeError', f'{type_of(o).name!r} object has no attribute {name!r}')


def obj_set(I, o, name, v):
    if I.on_setattr is not None:
        I.on_setattr(o, name, v)
    if name == '__class__' and isinstance(v, ClassV):
        I.jattr(o, 'cls', v)
        return
    slots = slots_of(o.cls)
    if slots is not None and name not in slots:
        I.raise_('AttributeError', f'{o.cls.name!r} object has no attribute {name!r}')
    if name in ('size', 'format') and o.payload is not None and I.readonly_payload(o, name):
        I.raise_('AttributeError', f'attribute {name!r} is not writable')
    I.jset(o.d, name, v)


def slots_of(cls):
    """Allowed attribute names when no class in the MRO provides a __dict__."""
    out = set()
    for c in cls.mro:
        if c.native:
            if c is not OBJECT and c.name not in ('Generic', 'Protocol'):
                return None
            continue
        s = c.ns.get('__slots__')
        if s is None:
            return None
        if isinstance(s, str):
            out.add(s)
        elif isinstance(s, tuple):
            out.update(s)
        elif isinstance(s, ListV):
            out.update(s.items)
        else:
            return None
    return out


def delattr_(I, o, name):
    if isinstance(o, ObjV):
        if name in o.d:
            I.jdel(o.d, name)
            return
    elif isinstance(o, ClassV):
        if name in o.ns:
            I.jdel(o.ns, name)
            return
    I.raise_('AttributeError', name)


class ObjDict:
    """obj.__dict__"""
    def __init__(self, obj):
        self.obj = obj


class ClassDict:
    def __init__(self, cls):
        self.cls = cls


# ---------------------------------------------------------------- truth, equality
def truth(I, v):
    if v is None or v is False:
        return False
    t = type(v)
    if t in (int, str, bytes, float, tuple):
        return bool(v)
    if t is Lin:
        return not I.facts.eq0(v)
    if t is BitV:
        lo, hi = bits_range(v)
        if lo > 0:
            return True
        return I.path.cond(('bits!=0', v))
    if t is ListV:
        return bool(v.items)
    if t is DictV:
        return bool(v.d)
    if t is SetV:
        return bool(v.dict.d)
    if t is BufV:
        return not I.facts.eq0(I.bufm.total(v.segs) if v.target is None else v.base[1])
    if t is SeqV:
        return not I.facts.eq0(v.length)
    if t is RangeV:
        return bool(list(iterate(I, v)))
    if t is Sym:
        if v.ty == 'truthy':
            return True
        if v.ty == 'callable':
            return True
        return I.path.cond(('truth', v.key))
    if t is ObjV:
        c, m = v.cls.find('__bool__')
        if c is not None:
            return truth(I, I.call(bind(I, m, v, v.cls), [], {}))
        c, m = v.cls.find('__len__')
        if c is not None:
            return truth(I, I.call(bind(I, m, v, v.cls), [], {}))
        if isinstance(v.payload, (str, int, bytes, DictV, ListV)):
            return truth(I, v.payload)
        return True
    if t is UnkV:
        raise Unsupported(f'truth of {v!r}')
    return True


def is_(I, a, b):
    if a is b:
        return True
    if isinstance(a, UnkV) or isinstance(b, UnkV):
        raise Unsupported('identity of an unmodelled value')
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a == b
    ta, tb = type(a), type(b)
    if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, c = (a, b) if isinstance(a, Sym) else (b, a)
            if s.ty == 'bool' and isinstance(c, bool):
                return truth(I, s) == c
            if s.ty in ('any',) and s.key[:1] != ('payload',):
                return I.path.cond(('is', s.key, c))
        return False
    if ta is int and tb is int:
        return a == b
    if ta is str and tb is str:
        return a == b
    if a == () and b == () and ta is tuple and tb is tuple:
        return True
    return False


def seq_items(I, v):
    return list(iterate(I, v))


def eq(I, a, b):
    """Python ==, as a host bool (undecided conditions split the partition)."""
    if a is b:
        if isinstance(a, float) and a != a:
            return False
        return True
    ta, tb = type(a), type(b)
    if ta is UnkV or tb is UnkV:
        raise Unsupported('comparison with an unmodelled value')
    if ta is ObjV or tb is ObjV:
        return obj_eq(I, a, b)
    prim = (int, bool, float, str, bytes, type(None))
    if isinstance(a, prim) and isinstance(b, prim):
        return a == b
    num = (int, bool, float, Lin, BitV)
    if isinstance(a, num) and isinstance(b, num):
        return num_eq(I, a, b)
    if isinstance(a, (BufV, bytes)) and isinstance(b, (BufV, bytes)):
        return I.bufm.buf_eq(I, a, b)
    if ta is Sym or tb is Sym:
        s, o = (a, b) if ta is Sym else (b, a)
        if type(o) is Sym and s == o:
            return True
        st = {'int': 'n', 'bool': 'n', 'float': 'n', 'str': 's', 'bytes': 'b'}.get(s.ty)
        ot = ('n' if isinstance(o, num) else 's' if isinstance(o, str) else
              'b' if isinstance(o, (bytes, BufV)) else 'x' if o is None or isinstance(
                  o, (tuple, ListV, DictV, ClassV, FuncV, SeqV)) else
              {'int': 'n', 'bool': 'n', 'float': 'n', 'str': 's', 'bytes': 'b'}.get(
                  getattr(o, 'ty', None)))
        if st and ot and st != ot:
            return False
        k1, k2 = key_of(s), key_of(o)
        if repr(k1) > repr(k2):
            k1, k2 = k2, k1
        return I.path.cond(('eq', k1, k2))
    if ta is tuple and tb is tuple:
        return len(a) == len(b) and all(eq(I, x, y) for x, y in zip(a, b))
    listy = (ListV, SeqV)
    if isinstance(a, listy) and isinstance(b, listy):
        if ta is SeqV and tb is SeqV and a.name == b.name:
            return True
        x, y = seq_items(I, a), seq_items(I, b)
        return len(x) == len(y) and all(eq(I, p, q) for p, q in zip(x, y))
    if ta is DictV and tb is DictV:
        if len(a.d) != len(b.d):
            return False
        for k, v in a.d.values():
            e = dict_find(I, b, k)
            if e is None or not eq(I, v, e[1]):
                return False
        return True
    if ta is SetV and tb is SetV:
        return len(a.dict.d) == len(b.dict.d) and all(
            dict_find(I, b.dict, k) is not None for k, _ in a.dict.d.values())
    if ta is AliasV and tb is AliasV:
        return alias_eq(I, a, b)
    if ta is RangeV and tb is RangeV:
        return seq_items(I, a) == seq_items(I, b)
    if ta is BoundMethod and tb is BoundMethod:
        return a.func is b.func and a.self is b.self
    return False


def alias_eq(I, a, b):
    if a.flavour in ('union', 'uniontype') and b.flavour in ('union', 'uniontype'):
        return len(a.args) == len(b.args) and all(
            any(eq(I, x, y) for y in b.args) for x in a.args)
    return a.origin is b.origin and len(a.args) == len(b.args) and all(
        eq(I, x, y) for x, y in zip(a.args, b.args))


def num_eq(I, a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        f = a if isinstance(a, float) else b
        if f != int(f) if f == f and abs(f) != float('inf') else True:
            return False
        return num_eq(I, int(f), b if f is a else a)
    if isinstance(a, BitV) or isinstance(b, BitV):
        x, y = to_bits(a, I.facts), to_bits(b, I.facts)
        if x is None or y is None:
            return I.path.cond(('bits==', repr(a), repr(b)))
        n = max(len(x), len(y))
        x += [0] * (n - len(x))
        y += [0] * (n - len(y))
        if x == y:
            return True
        if any({p, q} == {0, 1} for p, q in zip(x, y)):
            return False
        return I.path.cond(('bits==', BitV(x), BitV(y)))
    return I.facts.eq0(sub(a, b))


def obj_eq(I, a, b):
    def dunder(x, y):
        if not isinstance(x, ObjV):
            return NotImplemented
        c, m = x.cls.find('__eq__')
        if c is None:
            return NotImplemented
        return I.call(bind(I, m, x, x.cls), [y], {})

    first, second = (a, b)
    try_b_first = (isinstance(b, ObjV) and isinstance(a, ObjV) and b.cls is not a.cls
                   and a.cls in b.cls.mro)
    if try_b_first:
        first, second = b, a
    r = dunder(first, second)
    if r is NotImplemented:
        r = dunder(second, first)
    if r is NotImplemented:
        pa = a.payload if isinstance(a, ObjV) and isinstance(a.payload, (str, int, bytes, float)) else a
        pb = b.payload if isinstance(b, ObjV) and isinstance(b.payload, (str, int, bytes, float)) else b
        if pa is not a or pb is not b:
            if isinstance(pa, ObjV) or isinstance(pb, ObjV):
                return False
            return eq(I, pa, pb)
        if isinstance(a, ObjV) and isinstance(b, ObjV) and isinstance(a.payload, DictV) and isinstance(b.payload, DictV):
            return eq(I, a.payload, b.payload)
        return False
    return truth(I, r)


def hash_key(I, v):
    """A host key that is equal exactly for equal values, or None when equality
    must be decided by __eq__.  Raises TypeError for unhashable values."""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return ('c', v)
    t = type(v)
    if t is tuple:
        ks = [hash_key(I, x) for x in v]
        return None if any(k is None for k in ks) else ('t',) + tuple(ks)
    if t in (ListV, DictV, SetV, SeqV):
        if t is SetV and v.frozen:
            return None
        I.raise_('TypeError', f"unhashable type: {type_of(v).name!r}")
    if t is BufV:
        if v.kind == 'bytearray':
            I.raise_('TypeError', "unhashable type: 'bytearray'")
        return None
    if t is ObjV:
        if isinstance(v.payload, (str, int, bytes)) and v.cls.find('__eq__')[0] is None:
            return ('c', v.payload)
        c, m = v.cls.find('__eq__')
        if c is not None:
            hc, h = v.cls.find('__hash__')
            if hc is None or h is None or v.cls.mro.index(hc) > v.cls.mro.index(c):
                I.raise_('TypeError', f'unhashable type: {v.cls.name!r}')
            return None
        return ('id', id(v))
    if t is AliasV:
        ks = [hash_key(I, x) for x in v.args]
        if any(k is None for k in ks):
            return None
        if v.flavour in ('union', 'uniontype'):
            return ('u', frozenset(ks))
        return ('a', id(v.origin)) + tuple(ks)
    if t in (Lin, BitV, Sym):
        return None
    if t is BoundMethod:
        return ('bm', id(v.func), id(v.self))
    if t is UnkV:
        raise Unsupported('hash of an unmodelled value')
    return ('id', id(v))


def dict_find(I, d, k):
    hk = hash_key(I, k)
    if hk is not None:
        e = d.d.get(hk)
        if e is not None:
            return e
        if not d.odd:
            return None
        for slot, e in list(d.d.items()):
            if slot[0] == 'odd' and eq(I, e[0], k):
                return e
        return None
    for e in list(d.d.values()):
        if eq(I, e[0], k):
            return e
    return None


def dict_slot(I, d, k):
    hk = hash_key(I, k)
    if hk is not None:
        if hk in d.d or not d.odd:
            return hk
        for slot, e in d.d.items():
            if slot[0] == 'odd' and eq(I, e[0], k):
                return slot
        return hk
    for slot, e in list(d.d.items()):
        if eq(I, e[0], k):
            return slot
    I.jattr(d, 'odd', d.odd + 1)
    return ('odd', d.odd)


def dict_set(I, d, k, v):
    slot = dict_slot(I, d, k)
    e = d.d.get(slot)
    I.jset(d.d, slot, (e[0] if e is not None else k, v))


def dict_del(I, d, k):
    slot = dict_slot(I, d, k)
    if slot not in d.d:
        I.raise_('KeyError', k)
    I.jdel(d.d, slot)


# ---------------------------------------------------------------- comparison
def compare(I, op, a, b):
    t = type(op)
    if t is ast.Is:
        return is_(I, a, b)
    if t is ast.IsNot:
        return not is_(I, a, b)
    if t is ast.Eq:
        return eq(I, a, b)
    if t is ast.NotEq:
        pair = [(a, b), (b, a)]
        if isinstance(a, ObjV) and isinstance(b, ObjV) and b.cls is not a.cls and a.cls in b.cls.mro:
            pair.reverse()
        if any(isinstance(x, ObjV) and x.cls.find('__ne__')[0] is not None for x in (a, b)):
            for x, y in pair:
                if not isinstance(x, ObjV):
                    continue
                c, m = x.cls.find('__ne__')
                if c is not None:
                    r = I.call(bind(I, m, x, x.cls), [y], {})
                    if r is not NotImplemented:
                        return truth(I, r)
                    continue
                c, m = x.cls.find('__eq__')
                if c is not None:
                    r = I.call(bind(I, m, x, x.cls), [y], {})
                    if r is not NotImplemented:
                        return not truth(I, r)
            return a is not b
        return not eq(I, a, b)
    if t is ast.In:
        return contains(I, b, a)
    if t is ast.NotIn:
        return not contains(I, b, a)
    return order(I, {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t], a, b)


def order(I, op, a, b):
    num = (int, float, Lin, BitV)
    if isinstance(a, num) and isinstance(b, num):
        if not isinstance(a, (Lin, BitV)) and not isinstance(b, (Lin, BitV)):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if isinstance(a, float) or isinstance(b, float):
            f, o = (a, b) if isinstance(a, float) else (b, a)
            if f in (float('inf'), float('-inf')):
                big = f > 0
                return (op in ('<', '<=')) == (big if f is b else not big)
            raise Unsupported('float ordering')
        if isinstance(a, BitV) or isinstance(b, BitV):
            return bits_order(I, op, a, b)
        if op == '<':
            return I.facts.ge0(sub(sub(b, a), 1))
        if op == '<=':
            return I.facts.ge0(sub(b, a))
        if op == '>':
            return I.facts.ge0(sub(sub(a, b), 1))
        return I.facts.ge0(sub(a, b))
    if isinstance(a, str) and isinstance(b, str) or (
            isinstance(a, bytes) and isinstance(b, bytes)):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not eq(I, x, y):
                return order(I, op, x, y)
        return {'<': len(a) < len(b), '<=': len(a) <= len(b),
                '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]
    if isinstance(a, UnkV) or isinstance(b, UnkV):
        raise Unsupported('ordering of an unmodelled value')
    dn = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
    rn = {'<': '__gt__', '<=': '__ge__', '>': '__lt__', '>=': '__le__'}
    for x, y, n in ((a, b, dn[op]), (b, a, rn[op])):
        if isinstance(x, ObjV):
            c, m = x.cls.find(n)
            if c is not None:
                r = I.call(bind(I, m, x, x.cls), [y], {})
                if r is not NotImplemented:
                    return truth(I, r)
    pa = a.payload if isinstance(a, ObjV) and isinstance(a.payload, (int, float, str, tuple)) else a
    pb = b.payload if isinstance(b, ObjV) and isinstance(b.payload, (int, float, str, tuple)) else b
    if pa is not a or pb is not b:
        return order(I, op, pa, pb)
    if isinstance(a, Sym) or isinstance(b, Sym):
        numeric = lambda v: isinstance(v, num) or (isinstance(v, Sym) and v.ty in ('int', 'float', 'bool', 'any'))
        if numeric(a) and numeric(b):
            return I.path.cond((op, key_of(a), key_of(b)))
        raise Unsupported('ordering of unknown values')
    if isinstance(a, SetV) and isinstance(b, SetV):
        x = [k for k, _ in a.dict.d.values()]
        y = [k for k, _ in b.dict.d.values()]
        sub_ = all(dict_find(I, b.dict, k) is not None for k in x)
        sup = all(dict_find(I, a.dict, k) is not None for k in y)
        return {'<=': sub_, '>=': sup, '<': sub_ and not sup, '>': sup and not sub_}[op]
    if isinstance(a, (ListV, SeqV)) and isinstance(b, (ListV, SeqV)):
        raise Unsupported('list ordering')
    I.raise_('TypeError', f'{op!r} not supported between instances of '
             f'{type_of(a).name!r} and {type_of(b).name!r}')


def bits_order(I, op, a, b):
    def rng(v):
        if isinstance(v, BitV):
            return bits_range(v)
        return I.facts.interval(v)
    (al, ah), (bl, bh) = rng(a), rng(b)
    if op in ('>', '>='):
        al, ah, bl, bh = bl, bh, al, ah
        a, b = b, a
        op = {'>': '<', '>=': '<='}[op]
    inf = float('inf')
    al = -inf if al is None else al
    bl = -inf if bl is None else bl
    ah = inf if ah is None else ah
    bh = inf if bh is None else bh
    if op == '<':
        if ah < bl:
            return True
        if al >= bh:
            return False
    else:
        if ah <= bl:
            return True
        if al > bh:
            return False
    # v < 2**k  <=>  no bit >= k is set
    for v, c, neg in ((a, b, False), (b, a, True)):
        if isinstance(v, BitV) and isinstance(c, int):
            # normalise to  v < t  /  v >= t
            if not neg:
                t = c if op == '<' else c + 1
            else:
                t = c + 1 if op == '<' else c
            if t > 0 and t & (t - 1) == 0:
                high = [x for x in v.bits[t.bit_length() - 1:] if x != 0]
                less = not high
                if high and any(x == 1 for x in high):
                    less = False
                elif high:
                    less = I.path.cond(('bits<', v, t))
                return less != neg
    return I.path.cond(('bits' + op, repr(a), repr(b)))


def contains(I, c, v):
    t = type(c)
    if t is str and isinstance(v, str):
        return v in c
    if isinstance(c, (tuple, ListV, SeqV, IterV)):
        for x in iterate(I, c):
            if is_(I, x, v) if isinstance(x, (ClassV, FuncV)) else eq(I, x, v):
                return True
        return False
    if t is DictV:
        return dict_find(I, c, v) is not None
    if t is SetV:
        return dict_find(I, c.dict, v) is not None
    if t in (bytes, BufV):
        return I.bufm.contains(I, c, v)
    if t is RangeV:
        if isinstance(v, (int, Lin)) and c.step == 1:
            return order(I, '<=', c.start, v) and order(I, '<', v, c.stop)
        return any(eq(I, x, v) for x in iterate(I, c))
    if t is ObjV:
        k, m = c.cls.find('__contains__')
        if k is not None:
            return truth(I, I.call(bind(I, m, c, c.cls), [v], {}))
        if isinstance(c.payload, (DictV, ListV, str)):
            return contains(I, c.payload, v)
        return any(eq(I, x, v) for x in iterate(I, c))
    if t is ObjDict:
        return v in c.obj.d
    if t is ClassDict:
        return v in c.cls.ns
    if t is ModuleDict:
        return v in c.ns
    if t is ClassV:
        m = I.enum_members(c)
        if m is not None:
            return any(eq(I, x, v) for x in m)
    if t in (UnkV, Sym):
        raise Unsupported(f'membership in {c!r}')
    I.raise_('TypeError', f'argument of type {type_of(c).name!r} is not iterable')


# ---------------------------------------------------------------- the rest of the model
from .ops import *                      # noqa: E402,F401,F403
from .ops import type_name, unary, binop, inplace, str_, repr_, format_  # noqa: E402
from .classes import *                  # noqa: E402,F401,F403
from .classes import (alias_attr, build_class, call_cached, call_class, object_methods)  # noqa
from . import stdlib_model as _std      # noqa: E402

OBJECT_METHODS = object_methods()
std_module, std_attr = _std.std_module, _std.std_attr
env_dict, call_special = _std.env_dict, _std.call_special
install = _std.install
SINCE_BUILTINS = _std.SINCE_BUILTINS
