"""Classes: creation, instantiation, enums, generic aliases."""
from __future__ import annotations

from .builtins_model import *
from .builtins_model import MISSING
from .ops import iterate, getitem, setitem, repr_

ENUM = mkcls('Enum', (OBJECT,), 'enum')
ENUM.meta = TYPE
GENERIC = mkcls('Generic', (OBJECT,), 'typing')
GENERIC.meta = TYPE
PROTOCOL = mkcls('Protocol', (GENERIC,), 'typing')
PROTOCOL.meta = TYPE
ABC = mkcls('ABC', (OBJECT,), 'abc')
ABC.meta = TYPE
TYPEVAR = mkcls('TypeVar', (OBJECT,), 'typing')
PARAMSPEC = mkcls('ParamSpec', (OBJECT,), 'typing')
TYPEVARTUPLE = mkcls('TypeVarTuple', (OBJECT,), 'typing')
FORWARDREF = mkcls('ForwardRef', (OBJECT,), 'typing')
NAMEDTUPLE = mkcls('NamedTuple', (TUPLE,), 'typing')
for _c in (TYPEVAR, PARAMSPEC, TYPEVARTUPLE, FORWARDREF, NAMEDTUPLE):
    _c.meta = TYPE


TOUCHED = []         # native classes with subclasses in the current laboratory


def forget_subclasses():
    """Native classes are shared by all laboratories: drop what an earlier one derived from them."""
    for b in TOUCHED:
        b.subclasses.clear()
    TOUCHED.clear()


def enum_members(I, c):
    if ENUM not in c.mro or c is ENUM:
        return None
    d = c.ns.get('__sa_members__')
    if d is None:
        return None
    seen, out = set(), []
    for m in d.values():
        if id(m) not in seen:
            seen.add(id(m))
            out.append(m)
    return out


def metaclass_of(bases, given=None):
    meta = given if isinstance(given, ClassV) else TYPE
    for b in bases:
        m = b.meta or TYPE
        if m is meta or m in meta.mro:
            continue
        if meta in m.mro:
            meta = m
    return meta


def mro_entries(I, bases):
    out = []
    for i, b in enumerate(bases):
        if isinstance(b, ClassV):
            out.append(b)
        elif isinstance(b, AliasV):
            o = b.origin
            if isinstance(o, ClassV):
                # Generic is dropped when another base already provides it
                if o is GENERIC and any(
                    isinstance(x, AliasV) and isinstance(x.origin, ClassV)
                    and x.origin is not GENERIC and GENERIC in x.origin.mro
                    for x in bases[i + 1:]
                ):
                    continue
                if o in out:
                    continue
                out.append(o)
            else:
                raise Unsupported(f'base class {b!r}')
        elif isinstance(b, Special):
            if b.name == 'Generic':
                out.append(GENERIC)
            elif b.name == 'Protocol':
                out.append(PROTOCOL)
            else:
                raise Unsupported(f'base class {b!r}')
        elif isinstance(b, UnkV):
            raise Unsupported(f'base class {b!r}')
        else:
            I.raise_('TypeError', f'{b!r} is not an acceptable base type')
    return out


def ns_dict(ns):
    return ns.payload if isinstance(ns, ObjV) else ns


def set_owner(v, cls):
    """Zero-argument super() in methods of cls."""
    t = type(v)
    if t is FuncV:
        if v.owner is None and v.node is not None:
            v.owner = cls
    elif t in (ClassMethodV, StaticMethodV, CachedPropertyV, CacheV):
        set_owner(v.func, cls)
        w = getattr(v, 'attrs', None)
        if w and '__wrapped__' in w:
            set_owner(w['__wrapped__'], cls)
    elif t is PropertyV:
        for f in (v.fget, v.fset, v.fdel):
            if f is not None:
                set_owner(f, cls)


def build_class(I, name, bases, kw, body, qual, module):
    orig = tuple(bases)
    real = mro_entries(I, bases)
    meta = metaclass_of(real, kw.pop('metaclass', None))
    # __prepare__
    mc, prep = meta.find('__prepare__')
    if mc is not None:
        # looked up on the metaclass: a plain function gets (name, bases)
        if isinstance(prep, ClassMethodV):
            ns = I.call(prep.func, [meta, name, tuple(real)], dict(kw))
        elif isinstance(prep, StaticMethodV):
            ns = I.call(prep.func, [name, tuple(real)], dict(kw))
        else:
            ns = I.call(prep, [name, tuple(real)], dict(kw))
    else:
        ns = DictV()
    envs = []
    body(ns, envs)
    if any(a is not b for a, b in zip(orig, real)) or len(orig) != len(real):
        setitem(I, ns, '__orig_bases__', orig)
    if meta.native:
        return make_class(I, meta, name, tuple(real), ns_dict(ns), kw, module, qual)
    c, new = meta.find('__new__')
    if c is not None:
        f = new.func if isinstance(new, StaticMethodV) else new
        cls = I.call(f, [meta, name, tuple(real), ns], dict(kw))
    else:
        cls = make_class(I, meta, name, tuple(real), ns_dict(ns), kw, module, qual)
    if isinstance(cls, ClassV):
        c, init = meta.find('__init__')
        if c is not None:
            I.call(init, [cls, name, tuple(real), ns], dict(kw))
    return cls


def make_class(I, meta, name, bases, d, kw, module='?', qual=None):
    """type.__new__"""
    if not bases:
        bases = (OBJECT,)
    ns = {}
    for k, v in d.d.values():
        if not isinstance(k, str):
            raise Unsupported('class namespace key')
        ns[k] = v
    module = ns.get('__module__', module)
    qual = ns.pop('__qualname__', qual or name)
    try:
        cls = ClassV(name, bases, ns, meta, module, qual)
    except TypeError:
        I.raise_('TypeError', 'Cannot create a consistent method resolution order (MRO)')
    for b in bases:
        I.jlist(b.subclasses)
        b.subclasses.append(cls)
        if b.native:
            TOUCHED.append(b)
    for k in ('__new__',):
        if isinstance(ns.get(k), FuncV):
            ns[k] = StaticMethodV(ns[k])
    for k in ('__init_subclass__', '__class_getitem__'):
        if isinstance(ns.get(k), FuncV):
            ns[k] = ClassMethodV(ns[k])
    if '__eq__' in ns and '__hash__' not in ns:
        ns['__hash__'] = None
    for k, v in list(ns.items()):
        set_owner(v, cls)
    for k, v in list(ns.items()):
        if isinstance(v, CachedPropertyV):
            v.name = k
        elif isinstance(v, ObjV):
            c, m = v.cls.find('__set_name__')
            if c is not None:
                I.call(bind(I, m, v, v.cls), [cls, k], {})
    if ENUM in cls.mro:
        make_enum(I, cls)
    # __init_subclass__ of the next class in the MRO
    for c in cls.mro[1:]:
        if '__init_subclass__' in c.ns:
            f = c.ns['__init_subclass__']
            f = f.func if isinstance(f, (ClassMethodV, StaticMethodV)) else f
            I.call(f, [cls], dict(kw))
            break
    else:
        if kw and ENUM not in cls.mro:
            I.raise_('TypeError', f'{name}.__init_subclass__() takes no keyword arguments')
    return cls


def make_enum(I, cls):
    members = {}
    # user-defined __new__ / auto are outside of the model
    for k, v in list(cls.ns.items()):
        if k.startswith('_') or isinstance(v, (FuncV, ClassMethodV, StaticMethodV,
                                               PropertyV, CacheV, ClassV)):
            continue
        for m in members.values():
            if eq(I, m.d['_value_'], v):
                members[k] = m
                break
        else:
            payload = v if isinstance(v, (str, int)) and any(
                b in cls.mro for b in (STR, INT)) else None
            m = ObjV(cls, payload)
            m.d['_value_'] = v
            m.d['_name_'] = k
            members[k] = m
        cls.ns[k] = members[k]
    cls.ns['__sa_members__'] = members


def enum_attr(I, o, name):
    if name in ('value', '_value_'):
        return o.d.get('_value_', MISSING)
    if name in ('name', '_name_'):
        return o.d.get('_name_', MISSING)
    return MISSING


# ---------------------------------------------------------------- instantiation
def native_base(cls):
    for c in cls.mro:
        if c.native and c not in (OBJECT, GENERIC, PROTOCOL, ABC, ENUM):
            return c
    return None


def alloc(I, cls):
    """object.__new__ with the storage of the builtin base, if any."""
    nb = native_base(cls)
    o = ObjV(cls)
    if nb is None:
        return o
    if DICT in cls.mro:
        o.payload = DictV()
    elif LIST in cls.mro:
        o.payload = ListV()
    elif SET in cls.mro:
        o.payload = SetV()
    elif EXC['BaseException'] in cls.mro:
        o.d['args'] = ()
    return o


def call_class(I, cls, args, kw):
    meta = cls.meta or TYPE
    if not meta.native:
        c, m = meta.find('__call__')
        if c is not None:
            return I.call(bind(I, m, cls, meta), args, kw)
    return type_call(I, cls, args, kw)


def type_call(I, cls, args, kw):
    if cls.native:
        ctor = I.ctors.get(cls)
        if ctor is not None:
            return ctor(I, args, kw)
        if EXC['BaseException'] in cls.mro:
            o = ObjV(cls)
            o.d['args'] = tuple(args)
            return o
        if cls is OBJECT:
            if args or kw:
                I.raise_('TypeError', 'object() takes no arguments')
            return ObjV(cls)
        raise Unsupported(f'construction of {cls.qualname}')
    mem = enum_members(I, cls)
    if mem is not None and args:
        for m in mem:
            if m is args[0] or eq(I, m.d['_value_'], args[0]):
                return m
        I.raise_('ValueError', f'{args[0]!r} is not a valid {cls.qualname}')
    c, new = cls.find('__new__')
    user_new = c is not None
    if user_new:
        f = new.func if isinstance(new, (StaticMethodV, ClassMethodV)) else new
        o = I.call(f, [cls] + list(args), dict(kw))
        if not (isinstance(o, ObjV) and cls in o.cls.mro):
            return o
    else:
        o = native_new(I, cls, args, kw)
    c, init = o.cls.find('__init__')
    if c is not None:
        r = I.call(bind(I, init, o, o.cls), args, kw)
        if r is not None:
            I.raise_('TypeError', '__init__() should return None')
    else:
        nb = native_base(cls)
        if nb is not None and I.native_init(o, nb, args, kw):
            pass
        elif EXC['BaseException'] in cls.mro:
            pass
        elif (args or kw) and not user_new and nb is None:
            I.raise_('TypeError', f'{cls.name}() takes no arguments')
    return o


def native_new(I, cls, args, kw):
    """object construction through the builtin base's __new__."""
    o = alloc(I, cls)
    if EXC['BaseException'] in cls.mro:
        o.d['args'] = tuple(args)
        return o
    nb = native_base(cls)
    if nb in (STR, INT, FLOAT, BYTES, TUPLE):
        o.payload = I.ctors[nb](I, args, {} if nb in (TUPLE,) else kw)
    return o


# ---------------------------------------------------------------- caches
def call_cached(I, f, args, kw):
    key = tuple(args)
    if kw:
        key = key + (('__kw__',),) + tuple(x for k in kw for x in (k, kw[k]))
    if f.typed:
        key = key + tuple(type_of(a) for a in args)
    # Python keys a single int/str argument by itself, others by value with ==
    k = ('key',) + key
    e = dict_find(I, f.memo, k)
    if e is not None:
        return e[1]
    v = I.call(f.func, list(args), dict(kw))
    dict_set(I, f.memo, k, v)
    return v


# ---------------------------------------------------------------- aliases
def make_union(I, parts, flavour='union'):
    flat = []
    for p in parts:
        if p is None:
            p = NONETYPE
        if isinstance(p, AliasV) and p.flavour in ('union', 'uniontype'):
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if not any(p is q or eq(I, p, q) for q in out):
            out.append(p)
    if len(out) == 1:
        return out[0]
    return AliasV(I.specials['Union'] if flavour == 'union' else UNIONTYPE, out, flavour)


def type_union(I, a, b):
    ok = (ClassV, AliasV, Special, type(None))
    def fine(x):
        return isinstance(x, ok) or (isinstance(x, ObjV) and x.cls in (TYPEVAR,)) or (
            'newtype' in (getattr(x, 'attrs', None) or ()))
    if not fine(a) or not fine(b):
        if isinstance(a, str) or isinstance(b, str):
            return NotImplemented if isinstance(a, ClassV) or isinstance(b, ClassV) else make_union(I, [a, b])
        return NotImplemented
    if I.version < (3, 10):
        # only typing objects have |, and they do not in 3.9 either
        return NotImplemented
    plain = all(isinstance(x, ClassV) or x is None or (isinstance(x, AliasV) and x.flavour in (None, 'uniontype') and isinstance(x.origin, ClassV) and x.origin.native) for x in (a, b))
    return make_union(I, [a, b], 'uniontype' if plain else 'union')


def alias_attr(I, o, name):
    if name == '__origin__':
        if o.flavour == 'annotated':
            return o.args[0]
        return o.origin
    if name == '__args__':
        return o.args if o.flavour != 'annotated' else (o.args[0],)
    if name == '__metadata__':
        return o.args[1:] if o.flavour == 'annotated' else MISSING
    if name == '__parameters__':
        out = []
        def walk(a):
            if isinstance(a, ObjV) and a.cls in (TYPEVAR, PARAMSPEC, TYPEVARTUPLE):
                if not any(a is x for x in out):
                    out.append(a)
            elif isinstance(a, AliasV):
                for x in (a.args[:1] if a.flavour == 'annotated' else a.args):
                    walk(x)
        walk(o)
        return tuple(out)
    if name == '__class__':
        return type_of(o)
    if name in ('__name__', '__qualname__', '_name'):
        # aliases of user generics forward to their origin
        if o.flavour == 'annotated':
            return 'Annotated' if name != '_name' else 'Annotated'
        if o.flavour == 'union':
            if name == '_name':
                return None
            if I.version >= (3, 10):
                return 'Union' if len(o.args) != 2 or NONETYPE not in o.args else 'Optional'
            return MISSING
        if o.flavour == 'uniontype':
            return MISSING
        if I.version < (3, 10) and name == '__name__' and isinstance(o.origin, Special):
            return MISSING
        if isinstance(o.origin, ClassV) and o.flavour != 'typing':
            return o.origin.name
        if o.flavour == 'typing':
            if I.version < (3, 10) and name == '__name__':
                return MISSING
            return {'list': 'List', 'dict': 'Dict', 'tuple': 'Tuple', 'set': 'Set',
                    'type': 'Type'}.get(getattr(o.origin, 'name', ''), getattr(o.origin, 'name', MISSING))
        if isinstance(o.origin, Special):
            return o.origin.name
        return MISSING
    if name.startswith('__') and name not in ('__mro__',):
        if name in ('__mro_entries__', '__class_getitem__'):
            return MISSING
    if isinstance(o.origin, ClassV) and o.flavour is None:
        return lookup(I, o.origin, name)
    if o.flavour == 'annotated' and isinstance(o.args[0], ClassV):
        return lookup(I, o.args[0], name)
    return MISSING


def object_methods():
    def eqm(I, a, b):
        return True if a is b else NotImplemented

    def nem(I, a, b):
        return not eq(I, a, b)

    def hashm(I, a):
        return Sym(('hash', key_of(a)), 'int')

    def newm(I, cls, *a, **k):
        return alloc(I, cls)

    def initm(I, *a, **k):
        return None

    def setm(I, o, n, v):
        obj_set(I, o, n, v)

    def getm(I, o, n):
        if isinstance(o, ObjV):
            # without __getattr__
            v = obj_attr_plain(I, o, n)
        else:
            v = lookup(I, o, n)
        if v is MISSING:
            I.raise_('AttributeError', n)
        return v

    def delm(I, o, n):
        delattr_(I, o, n)

    def strm(I, o):
        return I.bm.str_(I, o)

    def reprm(I, o):
        return Sym(('repr', key_of(o)), 'str')

    def formatm(I, o, spec=''):
        return I.bm.str_(I, o)

    def dirm(I, o):
        return ListV()

    def isub(I, *a, **k):
        if k:
            I.raise_('TypeError', '__init_subclass__() takes no keyword arguments')

    return {'__eq__': eqm, '__ne__': nem, '__hash__': hashm, '__new__': newm,
            '__init__': initm, '__setattr__': setm, '__getattribute__': getm,
            '__delattr__': delm, '__str__': strm, '__repr__': reprm,
            '__format__': formatm, '__dir__': dirm, '__init_subclass__': isub}


def obj_attr_plain(I, o, name):
    cls = o.cls
    c, a = cls.find(name)
    if c is not None and isinstance(a, PropertyV):
        return bind(I, a, o, cls)
    if name in o.d:
        return o.d[name]
    if c is not None:
        return bind(I, a, o, cls)
    return MISSING
