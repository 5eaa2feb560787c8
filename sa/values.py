"""Abstract Python values."""
from __future__ import annotations


class Sym:
    """An unknown value identified by its key; ty is what is known of its type."""
    __slots__ = ('key', 'ty', 'attrs', '_h')

    def __init__(self, key, ty='any', attrs=None):
        self.key, self.ty = key, ty
        self.attrs = attrs
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Sym) and (o is self or o.key == self.key)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __repr__(self):
        from .terms import show
        return show(self.key)


class UnkV:
    """The result of something the analysis does not model."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f'<unmodelled {self.why}>'


class Env:
    __slots__ = ('vars', 'parent', 'locals', 'glob', 'nonl', 'gdecl', 'kind', 'func', 'ns')

    def __init__(self, kind, parent, glob, locals_=None, func=None):
        self.kind, self.parent, self.glob = kind, parent, glob
        self.vars = {}
        self.locals = locals_
        self.nonl = ()
        self.gdecl = ()
        self.func = func
        self.ns = None


class FuncV:
    def __init__(self, node, env, glob, name, qualname, defaults, kwdefaults, cls_name):
        self.node, self.env, self.glob = node, env, glob
        self.name, self.qualname = name, qualname
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.mangle = cls_name
        self.owner = None        # ClassV for zero-argument super()
        self.attrs = {}
        self.info = None
        self.isgen = False

    def __repr__(self):
        return f'<function {self.qualname}>'


class NativeFunc:
    __slots__ = ('name', 'fn', 'attrs', 'binds')

    def __init__(self, name, fn, binds=True):
        self.name, self.fn = name, fn
        self.attrs = {}
        self.binds = binds

    def __repr__(self):
        return f'<native {self.name}>'


class BoundMethod:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f'<bound {self.func!r}>'


class PropertyV:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class CachedPropertyV:
    def __init__(self, func):
        self.func = func
        self.name = None


class ClassMethodV:
    def __init__(self, func):
        self.func = func


class StaticMethodV:
    def __init__(self, func):
        self.func = func


class CacheV:
    """functools.cache / lru_cache wrapper."""

    def __init__(self, func, typed=False):
        self.func = func
        self.typed = typed
        self.memo = DictV()
        self.attrs = {'__wrapped__': func}


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SuperV:
    __slots__ = ('start', 'obj', 'typ')

    def __init__(self, start, obj, typ):
        self.start, self.obj, self.typ = start, obj, typ


class ClassV:
    def __init__(self, name, bases, ns, meta=None, module='builtins', qualname=None):
        self.name = name
        self.bases = tuple(bases)
        self.ns = ns
        self.meta = meta
        self.module = module
        self.qualname = qualname or name
        self.native = False
        self.subclasses = []
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    c = s[0]
                    break
            else:
                raise TypeError('mro')
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return tuple(out)

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'


class ObjV:
    __slots__ = ('cls', 'd', 'payload', 'tag')

    def __init__(self, cls, payload=None):
        self.cls = cls
        self.d = {}
        self.payload = payload
        self.tag = None

    def __repr__(self):
        if self.tag:
            return f'<{self.tag}>'
        if self.payload is not None and not isinstance(self.payload, dict):
            return f'<{self.cls.name} {self.payload!r}>'
        return f'<{self.cls.name} object>'


class ListV:
    __slots__ = ('items', 'cls')

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return f'L{self.items!r}'


class DictV:
    __slots__ = ('d', 'odd')

    def __init__(self):
        self.d = {}     # slot -> (key, value)
        self.odd = 0

    def __repr__(self):
        return 'D{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.d.values()) + '}'


class SetV:
    __slots__ = ('dict', 'frozen')

    def __init__(self, frozen=False):
        self.dict = DictV()
        self.frozen = frozen


class SeqV:
    """An unknown list: abstract length, one abstract element per index."""
    __slots__ = ('name', 'length', 'elem', 'kind')

    def __init__(self, name, length, elem, kind='list'):
        self.name, self.length, self.elem, self.kind = name, length, elem, kind

    def __repr__(self):
        return f'<{self.kind} {self.name}>'


class AliasV:
    """Subscripted generics, Annotated[...], Union[...], ..."""
    __slots__ = ('origin', 'args', 'flavour')

    def __init__(self, origin, args, flavour=None):
        self.origin, self.args, self.flavour = origin, tuple(args), flavour

    def __repr__(self):
        return f'{self.origin!r}[{", ".join(map(repr, self.args))}]'


class Special:
    """typing special forms."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'typing.{self.name}'


class IterV:
    __slots__ = ('it', 'what', 'done', 'peek', 'same')

    def __init__(self, it, what='iterator'):
        self.it, self.what = it, what
        self.same = None         # (value, count) of an unused itertools.repeat

    def __repr__(self):
        return f'<{self.what}>'


class RangeV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f'range({self.start}, {self.stop}, {self.step})'


class SliceV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class ModuleV:
    def __init__(self, name, ns=None, known=True):
        self.name = name
        self.ns = {} if ns is None else ns
        self.known = known
        self.path = None

    def __repr__(self):
        return f'<module {self.name}>'


class ModuleDict:
    """module.__dict__"""
    def __init__(self, mod_ns):
        self.ns = mod_ns


class StreamV:
    """A binary stream.  Content is a segment sequence, pos an abstract int."""
    def __init__(self, segs=(), pos=0, mode='rw', short=False, name='stream'):
        self.segs = tuple(segs)
        self.pos = pos
        self.mode = mode
        self.short = short
        self.name = name
        self.nread = 0
        self.writes = 0
        self.closed = False


class PyExc(Exception):
    """A Python exception raised in the analysed program."""

    def __init__(self, obj, trace=None):
        self.obj = obj
        self.trace = trace

    def __str__(self):
        a = self.obj.d.get('args', ())
        return f'{self.obj.cls.name}{a!r}'


class Return(Exception):
    pass
