"""Abstract interpreter for Python source: evaluates syntax trees over the
abstract values of values.py / terms.py / layout.py.  Undecided conditions split
the trace partition (see Path.decide); nothing of the analysed package is ever
imported or executed by the host.
"""
from __future__ import annotations

import ast
import builtins
import os
import traceback

from .terms import BitV, Facts, Lin, Prune, Unsupported, show
from .values import *
from .layout import BufV

BREAK, CONT = object(), object()
HOST_ERRORS = None
LOOP_BOUND = 5
STEP_BUDGET = 400_000


class Path:
    """One trace partition: the answers given to undecided conditions so far."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []       # (choice, options, label)
        self.facts = Facts(self.decide)
        self.keyed = {}       # opaque boolean conditions already decided
        self.steps = 0
        self.notes = []
        self.active = True
        self.assume_fit = True
        self.excluded = {}    # raw key -> byte values that cannot occur in it
        self.encoded = {}     # key of an encoding -> the text it encodes
        self.excl_atoms = set()
        self.no_nul = set()   # texts known not to end in NUL

    def decide(self, n, label):
        if not self.active:
            raise Prune('inactive')
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n, label))
        if len(self.taken) > 80:
            raise Unsupported('too many undecided conditions on one path')
        return c

    def cond(self, key) -> bool:
        """An opaque boolean condition, decided once per partition."""
        r = self.keyed.get(key)
        if r is None:
            r = self.keyed[key] = self.decide(2, ('cond', key)) == 0
        return r

    def describe(self):
        out = []
        for c, n, l in self.taken:
            if l[0] == 'cond':
                out.append(('' if c == 0 else 'not ') + show(l[1]))
            elif l[0] in ('>=0', '==0'):
                neg = {'>=0': '<0', '==0': '!=0'}[l[0]]
                out.append(f'{l[1]!r} {l[0] if c == 0 else neg}')
            elif l[0] == 'rep':
                out.append(f'{l[1]!r} {"minimal" if c == 0 else "larger"}')
            else:
                out.append(f'{show(l)}={c}')
        return '; '.join(out)


class FnInfo:
    __slots__ = ('params', 'posonly', 'vararg', 'kwonly', 'kwarg', 'locals', 'isgen', 'nonl', 'gdecl')


def _names(target, out):
    if isinstance(target, ast.Name):
        out.add(target.id)
    elif isinstance(target, (ast.Tuple, ast.List)):
        for t in target.elts:
            _names(t, out)
    elif isinstance(target, ast.Starred):
        _names(target.value, out)


def collect(node_list, out, flags):
    stack = list(node_list)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d)
            continue
        if isinstance(n, ast.ClassDef):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            flags['gen'] = True
        if isinstance(n, ast.Nonlocal):
            flags['nonl'].update(n.names)
        elif isinstance(n, ast.Global):
            flags['glob'].update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))


def fn_info(node) -> FnInfo:
    info = getattr(node, '_sa_info', None)
    if info is not None:
        return info
    info = FnInfo()
    a = node.args
    info.posonly = [x.arg for x in a.posonlyargs]
    info.params = info.posonly + [x.arg for x in a.args]
    info.vararg = a.vararg.arg if a.vararg else None
    info.kwonly = [x.arg for x in a.kwonlyargs]
    info.kwarg = a.kwarg.arg if a.kwarg else None
    names = set(info.params) | set(info.kwonly)
    if info.vararg:
        names.add(info.vararg)
    if info.kwarg:
        names.add(info.kwarg)
    flags = {'gen': False, 'nonl': set(), 'glob': set()}
    body = node.body if isinstance(node.body, list) else [node.body]
    collect(body, names, flags)
    info.nonl, info.gdecl = flags['nonl'], flags['glob']
    info.locals = names - flags['nonl'] - flags['glob']
    info.isgen = flags['gen']
    node._sa_info = info
    return info


class Frame:
    __slots__ = ('func', 'line')

    def __init__(self, func):
        self.func, self.line = func, 0


BINOPS = {
    ast.Add: ('+', '__add__', '__radd__', '__iadd__'),
    ast.Sub: ('-', '__sub__', '__rsub__', '__isub__'),
    ast.Mult: ('*', '__mul__', '__rmul__', '__imul__'),
    ast.MatMult: ('@', '__matmul__', '__rmatmul__', '__imatmul__'),
    ast.Div: ('/', '__truediv__', '__rtruediv__', '__itruediv__'),
    ast.FloorDiv: ('//', '__floordiv__', '__rfloordiv__', '__ifloordiv__'),
    ast.Mod: ('%', '__mod__', '__rmod__', '__imod__'),
    ast.Pow: ('**', '__pow__', '__rpow__', '__ipow__'),
    ast.LShift: ('<<', '__lshift__', '__rlshift__', '__ilshift__'),
    ast.RShift: ('>>', '__rshift__', '__rrshift__', '__irshift__'),
    ast.BitOr: ('|', '__or__', '__ror__', '__ior__'),
    ast.BitXor: ('^', '__xor__', '__rxor__', '__ixor__'),
    ast.BitAnd: ('&', '__and__', '__rand__', '__iand__'),
}
OPINFO = {v[0]: v for v in BINOPS.values()}
MISSING = object()


class Interp:
    def __init__(self, root, version=(3, 12), package='structured'):
        self.root = root
        self.version = version
        self.package = package
        self.modules = {}
        self.path = Path()
        self.log = None
        self.stack = []
        self.entered = {}      # (file, qualname, line) -> calls
        self.files = {}
        self.future = set()
        self.E = {}
        self.S = {}
        for name in dir(self):
            if name.startswith('e_'):
                self.E[getattr(ast, name[2:])] = getattr(self, name)
            elif name.startswith('s_'):
                self.S[getattr(ast, name[2:])] = getattr(self, name)
        self.folds = {}
        from . import builtins_model as bm
        self.bm = bm
        bm.install(self)

    # -- partition bookkeeping ------------------------------------------------
    @property
    def facts(self) -> Facts:
        return self.path.facts

    def jset(self, d: dict, key, value):
        if self.log is not None:
            self.log.append((0, d, key, d.get(key, MISSING)))
        d[key] = value

    def jdel(self, d: dict, key):
        if self.log is not None:
            # restoring order matters for dicts that are iterated
            self.log.append((1, d, dict(d), None))
        del d[key]

    def jlist(self, lst: list):
        if self.log is not None:
            self.log.append((2, lst, list(lst), None))

    def jattr(self, obj, name, value):
        if self.log is not None:
            self.log.append((3, obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def rollback(self):
        for kind, o, a, b in reversed(self.log):
            if kind == 0:
                if b is MISSING:
                    o.pop(a, None)
                else:
                    o[a] = b
            elif kind == 1:
                o.clear()
                o.update(a)
            elif kind == 2:
                o[:] = a
            else:
                setattr(o, a, b)
        self.log = None

    def run_path(self, prefix, fn):
        """Run fn under one partition.  Returns (path, outcome, value)."""
        self.path = Path(prefix)
        self.log = []
        self.stack = []
        try:
            try:
                return self.path, 'ok', fn(self.path)
            except PyExc as e:
                return self.path, 'exc', e
            except Prune as e:
                return self.path, 'prune', e
            except Unsupported as e:
                e.where = self.where()
                return self.path, 'unsupported', e
            except (RecursionError, AttributeError, TypeError, ValueError, KeyError,
                    IndexError, NotImplementedError, AssertionError) as e:
                if HOST_ERRORS is not None:
                    HOST_ERRORS.append(traceback.format_exc())
                u = Unsupported(f'analysis error {type(e).__name__}: {e}')
                u.where = self.where()
                return self.path, 'unsupported', u
        finally:
            self.path.active = False
            self.rollback()

    def explore(self, fn, limit=400):
        """All trace partitions of fn, depth first."""
        out = []
        prefix = []
        while True:
            p, kind, val = self.run_path(prefix, fn)
            out.append((p, kind, val))
            taken = [(c, n) for c, n, _ in p.taken]
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                return out, True
            if len(out) >= limit:
                return out, False
            prefix = [c for c, _ in taken]
            prefix[-1] += 1

    def where(self, depth=3):
        fr = [f for f in self.stack if f.func is not None][-depth:]
        return ' <- '.join(
            f'{self.file_of(f.func)}:{f.line} {f.func.qualname}' for f in reversed(fr)
        )

    def file_of(self, func):
        m = func.glob
        p = getattr(m, 'path', None) or getattr(m, 'name', '?')
        return p

    # -- errors ---------------------------------------------------------------
    def exc(self, name, *args):
        cls = self.bm.EXC.get(name)
        o = ObjV(cls)
        o.d['args'] = tuple(args)
        return PyExc(o, self.where())

    def raise_(self, name, *args):
        raise self.exc(name, *args)

    # -- modules --------------------------------------------------------------
    def module_file(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(self.root, rel)
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            if os.path.isfile(f):
                return f, True
            return None, True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        top = name.split('.')[0]
        if top != self.package:
            return self.bm.std_module(self, name)
        parent = None
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        f, ispkg = self.module_file(name)
        if f is None:
            self.raise_('ModuleNotFoundError', f'No module named {name!r}')
        with open(f, encoding='utf8') as fh:
            src = fh.read()
        m = self.load_source(name, src, os.path.relpath(f, self.root), ispkg)
        if parent is not None:
            self.jset(parent.ns, name.rsplit('.', 1)[1], m)
        return m

    def load_source(self, name, src, path, ispkg=False, extra=None):
        tree = ast.parse(src, path)
        m = ModuleV(name)
        m.path = path
        self.files[path] = src
        m.ns.update(
            __name__=name,
            __package__=name if ispkg else name.rpartition('.')[0],
            __doc__=ast.get_docstring(tree),
            __file__=path,
        )
        if extra:
            m.ns.update(extra)
        self.modules[name] = m
        if self.log is not None:
            self.log.append((0, self.modules, name, MISSING))
        m.future = any(
            isinstance(n, ast.ImportFrom)
            and n.module == '__future__'
            and any(a.name == 'annotations' for a in n.names)
            for n in tree.body
        )
        env = Env('module', None, m)
        env.vars = m.ns
        fv = FuncV(None, env, m, '<module>', f'{name}.<module>', (), {}, None)
        self.stack.append(Frame(fv))
        try:
            self.exec_block(tree.body, env)
        finally:
            self.stack.pop()
        return m

    # -- names ----------------------------------------------------------------
    def load(self, name, env):
        e = env
        if e.kind == 'class':
            v = self.class_ns_get(e, name)
            if v is not MISSING:
                return v
            e = e.parent
        first = True
        while e is not None and e.kind != 'module':
            if e.kind == 'class':
                e = e.parent
                continue
            if name in e.gdecl:
                break
            v = e.vars.get(name, MISSING)
            if v is not MISSING:
                return v
            if e.locals is not None and name in e.locals and e.kind == 'func':
                if first:
                    self.raise_('UnboundLocalError',
                                f"cannot access local variable '{name}'")
                self.raise_('NameError', f"free variable '{name}'")
            if e.kind == 'func':
                first = False
            e = e.parent
        g = env.glob.ns
        v = g.get(name, MISSING)
        if v is not MISSING:
            return v
        v = self.bm.BUILTINS.get(name, MISSING)
        if v is not MISSING:
            return v
        if hasattr(builtins, name) and self.version >= self.bm.SINCE_BUILTINS.get(name, (3, 0)):
            return UnkV(name)
        self.raise_('NameError', f"name '{name}' is not defined")

    def class_ns_get(self, env, name):
        ns = env.ns
        d = ns.payload if isinstance(ns, ObjV) else ns
        ent = d.d.get(('c', name))
        return ent[1] if ent is not None else MISSING

    def store(self, name, value, env):
        if env.kind == 'class':
            if name in env.gdecl:
                self.jset(env.glob.ns, name, value)
            else:
                self.setitem(env.ns, name, value)
            return
        if env.kind == 'module':
            self.jset(env.vars, name, value)
            return
        e = env
        while e.kind == 'comp' and not (e.locals and name in e.locals):
            e = e.parent
        if e.kind == 'module' or name in e.gdecl:
            self.jset(env.glob.ns, name, value)
            return
        if e.kind == 'class':
            self.setitem(e.ns, name, value)
            return
        if name in e.nonl:
            p = e.parent
            while p is not None and p.kind != 'module':
                if p.kind == 'func' and p.locals is not None and name in p.locals:
                    self.jset(p.vars, name, value)
                    return
                p = p.parent
            raise Unsupported('nonlocal')
        e.vars[name] = value

    # -- statements -----------------------------------------------------------
    def exec_block(self, body, env):
        S = self.S
        fr = self.stack[-1]
        for node in body:
            fr.line = node.lineno
            self.path.steps += 1
            if self.path.steps > STEP_BUDGET:
                raise Unsupported('step budget')
            fn = S.get(type(node))
            if fn is None:
                raise Unsupported(f'statement {type(node).__name__}')
            r = fn(node, env)
            if r is not None:
                return r
        return None

    def s_Expr(self, n, env):
        self.ev(n.value, env)

    def s_Pass(self, n, env):
        return None

    def s_Import(self, n, env):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top), env)

    def resolve_from(self, n, env):
        if n.level:
            pkg = env.glob.ns.get('__package__') or ''
            parts = pkg.split('.') if pkg else []
            if n.level > 1:
                parts = parts[: -(n.level - 1)]
            base = '.'.join(parts)
            return base + ('.' + n.module if n.module else '') if base else n.module
        return n.module

    def s_ImportFrom(self, n, env):
        if n.module == '__future__':
            return
        name = self.resolve_from(n, env)
        m = self.import_module(name)
        for a in n.names:
            if a.name == '*':
                allv = m.ns.get('__all__')
                if allv is not None:
                    names = [x for x in self.iterate(allv)]
                else:
                    names = [k for k in m.ns if not k.startswith('_')]
                for k in names:
                    self.store(k, self.module_attr(m, k), env)
            else:
                self.store(a.asname or a.name, self.module_attr(m, a.name, True), env)

    def module_attr(self, m, name, importing=False):
        v = m.ns.get(name, MISSING)
        if v is not MISSING:
            return v
        if not m.known:
            return UnkV(f'{m.name}.{name}')
        if m.name.split('.')[0] == self.package:
            f, _ = self.module_file(f'{m.name}.{name}')
            if f is not None:
                return self.import_module(f'{m.name}.{name}')
        else:
            v = self.bm.std_attr(self, m, name)
            if v is not MISSING:
                return v
        if importing:
            self.raise_('ImportError', f'cannot import name {name!r} from {m.name!r}')
        self.raise_('AttributeError', f'module {m.name!r} has no attribute {name!r}')

    def s_FunctionDef(self, n, env):
        f = self.make_function(n, env, n.name)
        v = f
        for d in reversed([self.ev(x, env) for x in n.decorator_list]):
            v = self.call(d, [v], {})
        self.store(self.mangle(n.name, env), v, env)

    def make_function(self, n, env, name):
        defaults = [self.ev(x, env) for x in n.args.defaults]
        kwd = {
            a.arg: self.ev(d, env)
            for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults)
            if d is not None
        }
        cls_name = None
        e = env
        qual = name
        while e is not None:
            if e.kind == 'class':
                cls_name = e.func
                qual = f'{e.vars.get("__sa_qual__", e.func)}.{name}'
                break
            if e.kind == 'func':
                cls_name = e.func.mangle if e.func else None
                qual = f'{e.func.qualname}.<locals>.{name}' if e.func else name
                break
            e = e.parent
        f = FuncV(n, env, env.glob, name, qual, defaults, kwd, cls_name)
        f.info = fn_info(n)
        f.isgen = f.info.isgen
        if not isinstance(n, ast.Lambda):
            f.attrs['__doc__'] = ast.get_docstring(n)
        return f

    def mangle(self, name, env):
        if not name.startswith('__') or name.endswith('__'):
            return name
        e = env
        while e is not None:
            if e.kind == 'class':
                return f'_{e.func.lstrip("_")}{name}'
            if e.kind == 'func' and e.func is not None and e.func.mangle:
                return f'_{e.func.mangle.lstrip("_")}{name}'
            e = e.parent
        return name

    def s_ClassDef(self, n, env):
        bases = []
        for b in n.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.ev(b.value, env)))
            else:
                bases.append(self.ev(b, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for key in self.iterate(d):
                    kw[key] = self.getitem(d, key)
            else:
                kw[k.arg] = self.ev(k.value, env)
        e = env
        qual = n.name
        while e is not None:
            if e.kind == 'class':
                qual = f'{e.vars.get("__sa_qual__", e.func)}.{n.name}'
                break
            if e.kind == 'func' and e.func is not None:
                qual = f'{e.func.qualname}.<locals>.{n.name}'
                break
            e = e.parent

        def body(ns, cenv_out):
            cenv = Env('class', env, env.glob, None, n.name)
            cenv.ns = ns
            cenv.vars['__sa_qual__'] = qual
            flags = {'gen': False, 'nonl': set(), 'glob': set()}
            collect(n.body, set(), flags)
            cenv.gdecl = flags['glob']
            cenv_out.append(cenv)
            self.setitem(ns, '__module__', env.glob.ns.get('__name__', '?'))
            self.setitem(ns, '__qualname__', qual)
            doc = ast.get_docstring(n)
            if doc is not None:
                self.setitem(ns, '__doc__', doc)
            self.exec_block(n.body, cenv)

        v = self.bm.build_class(self, n.name, bases, kw, body, qual,
                                env.glob.ns.get('__name__', '?'))
        for d in reversed([self.ev(x, env) for x in n.decorator_list]):
            v = self.call(d, [v], {})
        self.store(n.name, v, env)

    def s_Return(self, n, env):
        return ('r', None if n.value is None else self.ev(n.value, env))

    def s_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if env.kind == 'class':
                    self.delitem(env.ns, t.id)
                elif env.kind == 'module':
                    self.jdel(env.vars, t.id)
                else:
                    env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), self.mangle(t.attr, env))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            else:
                raise Unsupported('del')

    def s_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)
        if env.kind in ('class', 'module') and isinstance(n.target, ast.Name) and n.simple:
            fut = getattr(env.glob, 'future', False)
            ann = ast.unparse(n.annotation) if fut else self.ev(n.annotation, env)
            name = self.mangle(n.target.id, env)
            if env.kind == 'module':
                d = env.vars.get('__annotations__')
                if d is None:
                    d = env.vars['__annotations__'] = DictV()
            else:
                d = self.class_ns_get(env, '__annotations__')
                if d is MISSING:
                    d = DictV()
                    self.setitem(env.ns, '__annotations__', d)
            self.setitem(d, name, ann)

    def s_AugAssign(self, n, env):
        op = BINOPS[type(n.op)][0]
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load(self.mangle(t.id, env), env)
            self.assign(t, self.inplace(op, cur, self.ev(n.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            name = self.mangle(t.attr, env)
            cur = self.getattr(o, name)
            self.setattr(o, name, self.inplace(op, cur, self.ev(n.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(n.value, env)))
        else:
            raise Unsupported('augassign')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(self.mangle(t.id, env), v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, env)
                mid = items[i:len(items) - after]
                self.assign(t.elts[i].value, ListV(mid), env)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, env)
            else:
                if len(items) != len(t.elts):
                    self.raise_('ValueError',
                                'too many values to unpack' if len(items) > len(t.elts)
                                else 'not enough values to unpack')
                for x, y in zip(t.elts, items):
                    self.assign(x, y, env)
        else:
            raise Unsupported(f'assignment to {type(t).__name__}')

    def s_If(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.exec_block(n.body, env)
        return self.exec_block(n.orelse, env)

    def loop_guard(self, before, count):
        if count > LOOP_BOUND and len(self.path.taken) > before:
            raise Prune('loop bound')
        if count > 6000:
            raise Unsupported('loop')

    def s_While(self, n, env):
        count = 0
        before = len(self.path.taken)
        while self.truth(self.ev(n.test, env)):
            count += 1
            self.loop_guard(before, count)
            r = self.exec_block(n.body, env)
            if r is not None:
                if r is BREAK:
                    return None
                if r is not CONT:
                    return r
            self.stack[-1].line = n.lineno
        return self.exec_block(n.orelse, env)

    def s_For(self, n, env):
        count = 0
        before = None
        for v in self.iterate(self.ev(n.iter, env)):
            if before is None:
                before = len(self.path.taken)
            count += 1
            if count > 40:
                self.loop_guard(before, count)
            self.assign(n.target, v, env)
            r = self.exec_block(n.body, env)
            if r is not None:
                if r is BREAK:
                    return None
                if r is not CONT:
                    return r
        return self.exec_block(n.orelse, env)

    def s_Break(self, n, env):
        return BREAK

    def s_Continue(self, n, env):
        return CONT

    def s_Global(self, n, env):
        return None

    s_Nonlocal = s_Global

    def s_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            self.raise_('AssertionError')

    def s_Raise(self, n, env):
        if n.exc is None:
            raise self.cur_exc(env)
        v = self.ev(n.exc, env)
        raise self.make_exc(v)

    def cur_exc(self, env):
        for e in reversed(self.handling):
            return e
        return self.exc('RuntimeError', 'No active exception to reraise')

    handling: list = []

    def make_exc(self, v):
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, ObjV):
            return PyExc(v, self.where())
        if isinstance(v, UnkV):
            return self.exc('Exception', 'unmodelled')
        return self.exc('TypeError', 'exceptions must derive from BaseException')

    def exc_matches(self, e: PyExc, spec):
        for c in self.iterate(spec) if isinstance(spec, tuple) else (spec,):
            if isinstance(c, UnkV):
                raise Unsupported('unmodelled exception class')
            if isinstance(c, ClassV) and c in e.obj.cls.mro:
                return True
        return False

    def s_Try(self, n, env):
        def run():
            depth = len(self.stack)
            try:
                r = self.exec_block(n.body, env)
            except PyExc as e:
                del self.stack[depth:]
                for h in n.handlers:
                    if h.type is None or self.exc_matches(e, self.ev(h.type, env)):
                        if h.name:
                            self.store(h.name, e.obj, env)
                        self.handling = self.handling + [e]
                        try:
                            return self.exec_block(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                            if h.name and env.kind == 'func':
                                env.vars.pop(h.name, None)
                raise
            if r is not None:
                return r
            return self.exec_block(n.orelse, env)

        if not n.finalbody:
            return run()
        depth = len(self.stack)
        try:
            r = run()
        except PyExc:
            del self.stack[depth:]
            r2 = self.exec_block(n.finalbody, env)
            if r2 is not None:
                return r2
            raise
        r2 = self.exec_block(n.finalbody, env)
        return r2 if r2 is not None else r

    def s_With(self, n, env, i=0):
        if i >= len(n.items):
            return self.exec_block(n.body, env)
        it = n.items[i]
        cm = self.ev(it.context_expr, env)
        v = self.call_method(cm, '__enter__', [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        depth = len(self.stack)
        try:
            r = self.s_With(n, env, i + 1)
        except PyExc as e:
            del self.stack[depth:]
            if self.truth(self.call_method(cm, '__exit__', [e.obj.cls, e.obj, None])):
                return None
            raise
        self.call_method(cm, '__exit__', [None, None, None])
        return r

    def s_Match(self, n, env):
        subj = self.ev(n.subject, env)
        for case in n.cases:
            if self.match(case.pattern, subj, env):
                if case.guard is None or self.truth(self.ev(case.guard, env)):
                    return self.exec_block(case.body, env)
        return None

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListV)):
                if isinstance(v, (str, bytes, int, type(None), ObjV, Sym, Lin)):
                    return False
                raise Unsupported('sequence pattern')
            items = list(self.iterate(v))
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if star:
                i = star[0]
                after = len(p.patterns) - i - 1
                if len(items) < len(p.patterns) - 1:
                    return False
                ok = all(self.match(a, b, env) for a, b in zip(p.patterns[:i], items[:i]))
                ok = ok and all(
                    self.match(a, b, env)
                    for a, b in zip(p.patterns[i + 1:], items[len(items) - after:])
                )
                if ok and p.patterns[i].name:
                    self.store(p.patterns[i].name, ListV(items[i:len(items) - after]), env)
                return ok
            return len(items) == len(p.patterns) and all(
                self.match(a, b, env) for a, b in zip(p.patterns, items)
            )
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, env)
            if not self.isinstance(v, cls):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(cls, ClassV) and cls.native:
                    if not self.match(p.patterns[0], v, env):
                        return False
                else:
                    raise Unsupported('positional class pattern')
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.getattr(v, k), env):
                    return False
            return True
        raise Unsupported('match pattern')

    # -- generator bodies (host generators) ------------------------------------
    def gen_block(self, body, env, fr):
        for node in body:
            fr.line = node.lineno
            self.path.steps += 1
            if self.path.steps > STEP_BUDGET:
                raise Unsupported('step budget')
            r = yield from self.gen_stmt(node, env, fr)
            if r is not None:
                return r
        return None

    def has_yield(self, node):
        r = getattr(node, '_sa_y', None)
        if r is None:
            flags = {'gen': False, 'nonl': set(), 'glob': set()}
            collect([node], set(), flags)
            r = node._sa_y = flags['gen']
        return r

    def gen_value(self, node, env, fr):
        """Evaluate an expression that may directly be a yield."""
        if isinstance(node, ast.Yield):
            v = None if node.value is None else self.ev(node.value, env)
            self.stack.pop()
            sent = yield v
            self.stack.append(fr)
            return sent
        if isinstance(node, ast.YieldFrom):
            it = self.ev(node.value, env)
            self.stack.pop()
            try:
                yield from self.iterate(it)
            finally:
                self.stack.append(fr)
            return None
        if isinstance(node, ast.Await) or (node is not None and self.has_yield(node)):
            raise Unsupported('yield inside an expression')
        return self.ev(node, env)

    def gen_stmt(self, n, env, fr):
        if not self.has_yield(n) or isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return self.S[type(n)](n, env) if type(n) in self.S else self.nostmt(n)
        if isinstance(n, ast.Expr):
            yield from self.gen_value(n.value, env, fr)
            return None
        if isinstance(n, ast.Assign):
            v = yield from self.gen_value(n.value, env, fr)
            for t in n.targets:
                self.assign(t, v, env)
            return None
        if isinstance(n, ast.AnnAssign) and n.value is not None:
            v = yield from self.gen_value(n.value, env, fr)
            self.assign(n.target, v, env)
            return None
        if isinstance(n, ast.Return):
            v = yield from self.gen_value(n.value, env, fr)
            return ('r', v)
        if isinstance(n, ast.If):
            t = self.truth(self.ev(n.test, env))
            return (yield from self.gen_block(n.body if t else n.orelse, env, fr))
        if isinstance(n, ast.For):
            for v in self.iterate(self.ev(n.iter, env)):
                self.assign(n.target, v, env)
                r = yield from self.gen_block(n.body, env, fr)
                if r is not None:
                    if r is BREAK:
                        return None
                    if r is not CONT:
                        return r
            return (yield from self.gen_block(n.orelse, env, fr))
        if isinstance(n, ast.While):
            count = 0
            before = len(self.path.taken)
            while self.truth(self.ev(n.test, env)):
                count += 1
                self.loop_guard(before, count)
                r = yield from self.gen_block(n.body, env, fr)
                if r is not None:
                    if r is BREAK:
                        return None
                    if r is not CONT:
                        return r
            return (yield from self.gen_block(n.orelse, env, fr))
        if isinstance(n, ast.With):
            if len(n.items) != 1:
                raise Unsupported('multiple with items around a yield')
            it = n.items[0]
            cm = self.ev(it.context_expr, env)
            v = self.call_method(cm, '__enter__', [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                r = yield from self.gen_block(n.body, env, fr)
            except PyExc as e:
                if self.truth(self.call_method(cm, '__exit__', [e.obj.cls, e.obj, None])):
                    return None
                raise
            self.call_method(cm, '__exit__', [None, None, None])
            return r
        if isinstance(n, ast.Try):
            try:
                try:
                    r = yield from self.gen_block(n.body, env, fr)
                    if r is None:
                        r = yield from self.gen_block(n.orelse, env, fr)
                except PyExc as e:
                    self.trim(fr)
                    for h in n.handlers:
                        if h.type is None or self.exc_matches(e, self.ev(h.type, env)):
                            if h.name:
                                self.store(h.name, e.obj, env)
                            self.handling = self.handling + [e]
                            try:
                                r = yield from self.gen_block(h.body, env, fr)
                            finally:
                                self.handling = self.handling[:-1]
                            break
                    else:
                        raise
            except PyExc:
                self.trim(fr)
                if n.finalbody:
                    r2 = yield from self.gen_block(n.finalbody, env, fr)
                    if r2 is not None:
                        return r2
                raise
            if n.finalbody:
                r2 = yield from self.gen_block(n.finalbody, env, fr)
                if r2 is not None:
                    return r2
            return r
        raise Unsupported(f'yield in {type(n).__name__}')

    def trim(self, fr):
        if fr in self.stack:
            while self.stack[-1] is not fr:
                self.stack.pop()
        else:
            self.stack.append(fr)

    def nostmt(self, n):
        raise Unsupported(f'statement {type(n).__name__}')

    def run_generator(self, f: FuncV, env):
        fr = Frame(f)
        my = self.path
        self.stack.append(fr)
        try:
            r = yield from self.gen_block(f.node.body, env, fr)
            if isinstance(r, tuple):
                return r[1]
        except GeneratorExit:
            return None
        finally:
            if self.stack and self.stack[-1] is fr:
                self.stack.pop()
            elif self.path is my and fr in self.stack:
                while self.stack.pop() is not fr:
                    pass

    # -- expressions ----------------------------------------------------------
    def ev(self, n, env):
        fn = self.E.get(type(n))
        if fn is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return fn(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.load(self.mangle(n.id, env) if n.id.startswith('__') else n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), self.mangle(n.attr, env))

    def e_Tuple(self, n, env):
        return tuple(self.elements(n.elts, env))

    def e_List(self, n, env):
        return ListV(self.elements(n.elts, env))

    def e_Set(self, n, env):
        s = SetV()
        for v in self.elements(n.elts, env):
            self.dict_set(s.dict, v, v)
        return s

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        d = DictV()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                for kk in self.iterate(self.call_method(o, 'keys', [])):
                    self.dict_set(d, kk, self.getitem(o, kk))
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(BINOPS[type(n.op)][0], a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        return self.bm.unary(self, type(n.op).__name__, v)

    def e_BoolOp(self, n, env):
        v = None
        isand = isinstance(n.op, ast.And)
        last = len(n.values) - 1
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == last:
                return v
            t = self.truth(v)
            if isand and not t or (not isand and t):
                return v
        return v

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                return v
            if not self.truth(v):
                return v
            left = right

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.kind == 'comp':
            e = e.parent
        self.store(n.target.id, v, e)
        return v

    def e_Lambda(self, n, env):
        return self.make_function(n, env, '<lambda>')

    def e_Call(self, n, env):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.bm.zero_super(self, env)
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for key in self.iterate(self.call_method(d, 'keys', [])):
                    if key in kw:
                        self.raise_('TypeError', f'multiple values for {key}')
                    kw[key] = self.getitem(d, key)
            else:
                kw[k.arg] = self.ev(k.value, env)
        if isinstance(f, NativeFunc) and f.name in ('locals', 'globals', 'vars') and not args:
            return self.bm.env_dict(self, f.name, env)
        return self.call(f, args, kw)

    def e_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev(n.slice, env))

    def e_Slice(self, n, env):
        return SliceV(
            *(None if x is None else self.ev(x, env) for x in (n.lower, n.upper, n.step))
        )

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, env))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Sym(('fstr',) + tuple(self.bm.key_of(p) for p in parts), 'str')

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        if n.conversion == ord('r'):
            v = self.bm.repr_(self, v)
        elif n.conversion == ord('s'):
            v = self.bm.str_(self, v)
        spec = self.ev(n.format_spec, env) if n.format_spec else ''
        return self.bm.format_(self, v, spec)

    def comp_iter(self, gens, env, leaf):
        """Host generator over the innermost leaf of a comprehension."""
        def rec(i, e):
            if i == len(gens):
                yield leaf(e)
                return
            g = gens[i]
            src = first if i == 0 else self.ev(g.iter, e)
            for v in self.iterate(src):
                self.assign(g.target, v, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    yield from rec(i + 1, e)
        cenv = Env('comp', env, env.glob)
        names = set()
        for g in gens:
            _names(g.target, names)
        cenv.locals = names
        first = self.ev(gens[0].iter, env)
        return rec(0, cenv)

    def e_ListComp(self, n, env):
        return ListV(self.comp_iter(n.generators, env, lambda e: self.ev(n.elt, e)))

    def e_SetComp(self, n, env):
        s = SetV()
        for v in self.comp_iter(n.generators, env, lambda e: self.ev(n.elt, e)):
            self.dict_set(s.dict, v, v)
        return s

    def e_DictComp(self, n, env):
        d = DictV()
        for k, v in self.comp_iter(
            n.generators, env, lambda e: (self.ev(n.key, e), self.ev(n.value, e))
        ):
            self.dict_set(d, k, v)
        return d

    def e_GeneratorExp(self, n, env):
        return IterV(
            self.comp_iter(n.generators, env, lambda e: self.ev(n.elt, e)), 'generator'
        )

    def e_Starred(self, n, env):
        raise Unsupported('starred expression')

    # -- calls ----------------------------------------------------------------
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        t = type(f)
        if t is FuncV:
            return self.call_func(f, args, kwargs)
        if t is BoundMethod:
            return self.call(f.func, [f.self] + list(args), kwargs)
        if t is NativeFunc:
            return f.fn(self, list(args), kwargs)
        if t is ClassV:
            return self.bm.call_class(self, f, list(args), kwargs)
        if t is CacheV:
            return self.bm.call_cached(self, f, list(args), kwargs)
        if t is PartialV:
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if t is StaticMethodV:
            return self.call(f.func, args, kwargs)
        if t is AliasV:
            o = f.origin
            if isinstance(o, ClassV):
                return self.call(o, args, kwargs)
            raise self.exc('TypeError', f'{f!r} is not callable')
        if t is ObjV:
            c, m = f.cls.find('__call__')
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kwargs)
            self.raise_('TypeError', f'{f.cls.name!r} object is not callable')
        if t is UnkV:
            return UnkV(f'{f.why}()')
        if t is Sym and t is not None:
            if f.ty == 'callable':
                return Sym(('call', f.key) + tuple(self.bm.key_of(a) for a in args))
            raise Unsupported(f'call of unknown value {f!r}')
        if t is Special:
            return self.bm.call_special(self, f, args, kwargs)
        self.raise_('TypeError', f'{f!r} is not callable')

    def bind_args(self, f: FuncV, args, kwargs, env):
        i = f.info
        params = i.params
        np_ = len(params)
        vars_ = env.vars
        na = len(args)
        for k in range(min(na, np_)):
            vars_[params[k]] = args[k]
        if na > np_:
            if i.vararg is None:
                self.raise_('TypeError', f'{f.qualname}() takes {np_} positional '
                            f'arguments but {na} were given')
            vars_[i.vararg] = tuple(args[np_:])
        elif i.vararg is not None:
            vars_[i.vararg] = ()
        extra = {}
        for k, v in kwargs.items():
            if (k in params and k not in i.posonly) or k in i.kwonly:
                if k in vars_:
                    self.raise_('TypeError', f'{f.qualname}() got multiple values '
                                f'for argument {k!r}')
                vars_[k] = v
            elif i.kwarg is not None:
                extra[k] = v
            else:
                self.raise_('TypeError', f'{f.qualname}() got an unexpected keyword '
                            f'argument {k!r}')
        if i.kwarg is not None:
            d = DictV()
            for k, v in extra.items():
                self.dict_set(d, k, v)
            vars_[i.kwarg] = d
        nd = len(f.defaults)
        for k in range(min(na, np_), np_):
            p = params[k]
            if p not in vars_:
                di = k - (np_ - nd)
                if di < 0:
                    self.raise_('TypeError', f'{f.qualname}() missing required '
                                f'argument {p!r}')
                vars_[p] = f.defaults[di]
        for k in i.kwonly:
            if k not in vars_:
                if k not in f.kwdefaults:
                    self.raise_('TypeError', f'{f.qualname}() missing required '
                                f'keyword argument {k!r}')
                vars_[k] = f.kwdefaults[k]

    def call_func(self, f: FuncV, args, kwargs):
        if len(self.stack) > 150:
            raise Unsupported('recursion depth')
        env = Env('func', f.env, f.glob, f.info.locals, f)
        env.nonl, env.gdecl = f.info.nonl, f.info.gdecl
        self.bind_args(f, args, kwargs, env)
        key = (self.file_of(f), f.qualname, f.node.lineno)
        self.entered[key] = self.entered.get(key, 0) + 1
        if isinstance(f.node, ast.Lambda):
            self.stack.append(Frame(f))
            self.stack[-1].line = f.node.lineno
            try:
                r = self.ev(f.node.body, env)
            except (PyExc, Prune):
                raise
            self.stack.pop()
            return r
        if f.isgen:
            return IterV(self.run_generator(f, env), 'generator')
        self.stack.append(Frame(f))
        r = self.exec_block(f.node.body, env)
        self.stack.pop()
        if r is None:
            return None
        if r is BREAK or r is CONT:
            return None
        return r[1]

    def call_method(self, obj, name, args, kwargs=None):
        return self.call(self.getattr(obj, name), args, kwargs)

    # delegated object protocol (builtins_model)
    def getattr(self, o, name):
        return self.bm.getattr_(self, o, name)

    def bind(self, attr, obj, cls):
        return self.bm.bind(self, attr, obj, cls)

    def setattr(self, o, name, v):
        self.bm.setattr_(self, o, name, v)

    def delattr(self, o, name):
        self.bm.delattr_(self, o, name)

    def getitem(self, o, k):
        return self.bm.getitem(self, o, k)

    def setitem(self, o, k, v):
        self.bm.setitem(self, o, k, v)

    def delitem(self, o, k):
        self.bm.delitem(self, o, k)

    def iterate(self, o):
        return self.bm.iterate(self, o)

    def truth(self, v):
        if v is True or v is False:
            return v
        return self.bm.truth(self, v)

    def eq(self, a, b):
        return self.bm.eq(self, a, b)

    def is_(self, a, b):
        return self.bm.is_(self, a, b)

    def isinstance(self, v, c):
        return self.bm.isinstance_(self, v, c)

    def compare(self, op, a, b):
        return self.bm.compare(self, op, a, b)

    def binop(self, op, a, b):
        return self.bm.binop(self, op, a, b)

    def inplace(self, op, a, b):
        return self.bm.inplace(self, op, a, b)

    def dict_set(self, d, k, v):
        self.bm.dict_set(self, d, k, v)

    def len(self, v):
        return self.bm.len_(self, v)
