"""The declared Python versions (C28): syntax, names and behaviour on each."""
from __future__ import annotations

import ast
import io
import os
import re
import tokenize

from . import experiments as X
from . import harness
from . import parts as P
from . import suites
from .stdlib_model import SINCE, SINCE_BUILTINS, SINCE_MODULES
from .suites import case

DECLARED = ((3, 9), (3, 10), (3, 11), (3, 12))
# names of the declared back-port dependency (typing_extensions 4.4.0)
BACKPORT = set('''Annotated Any AnyStr AsyncContextManager AsyncGenerator AsyncIterable AsyncIterator Awaitable BinaryIO Callable ChainMap ClassVar
Concatenate Container ContextManager Coroutine Counter DefaultDict Deque Dict Final FrozenSet Generic IntVar Iterable Iterator List Literal
LiteralString Mapping NamedTuple Never NewType NoReturn NotRequired Optional OrderedDict ParamSpec ParamSpecArgs ParamSpecKwargs Protocol
Required Self Set Sized SupportsAbs SupportsBytes SupportsComplex SupportsFloat SupportsIndex SupportsInt SupportsRound TYPE_CHECKING Text
Tuple Type TypeAlias TypeGuard TypeVar TypeVarTuple TypedDict Union Unpack assert_never assert_type clear_overloads dataclass_transform final
get_args get_origin get_overloads get_type_hints is_typeddict overload override reveal_type runtime runtime_checkable'''.split())
# keyword arguments that came later: (callee, keyword) -> version
KEYWORDS = {('zip', 'strict'): (3, 10), ('dataclass', 'slots'): (3, 10), ('dataclass', 'kw_only'): (3, 10), ('dataclass', 'weakref_slot'): (3, 11),
            ('field', 'kw_only'): (3, 10), ('bisect_left', 'key'): (3, 10), ('bisect_right', 'key'): (3, 10), ('bisect', 'key'): (3, 10),
            ('insort', 'key'): (3, 10), ('TypeVar', 'infer_variance'): (3, 12), ('TypeVar', 'default'): (3, 13), ('dataclass_transform', 'frozen_default'): (3, 12),
            ('get_type_hints', 'format'): (3, 14), ('ABCMeta', 'frozen'): (3, 14), ('index', 'root'): (3, 14), ('NamedTuple', 'defaults'): (3, 15)}
# methods whose names belong to one builtin type
METHODS = {'bit_count': (3, 10), 'add_note': (3, 11), 'is_integer': None, 'as_integer_ratio': None, 'from_number': (3, 14), 'batched': (3, 12),
           'pairwise': (3, 10), 'aclosing': (3, 10)}


def fmt(v):
    return f'Python {v[0]}.{v[1]}'


def sources(root):
    top = os.path.join(root, 'structured')
    for d, _, files in sorted(os.walk(top)):
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                yield os.path.relpath(p, root), open(p, encoding='utf-8').read()


def const_test(test, version):
    """The value of an `if` test about the version, or None."""
    if isinstance(test, ast.Name) and test.id == 'TYPE_CHECKING' or isinstance(test, ast.Attribute) and test.attr == 'TYPE_CHECKING':
        return False
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = const_test(test.operand, version)
        return None if r is None else not r
    if isinstance(test, ast.BoolOp):
        rs = [const_test(v, version) for v in test.values]
        stop = isinstance(test.op, ast.Or)
        if any(r is stop for r in rs):
            return stop
        return None if None in rs else not stop
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        def value(e):
            if isinstance(e, ast.Attribute) and e.attr == 'version_info':
                return tuple(version) + (0, 'final', 0)
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'version_info':
                try:
                    s = e.slice
                    full = tuple(version) + (0, 'final', 0)
                    if isinstance(s, ast.Slice):
                        return full[ast.literal_eval(s.lower) if s.lower else None:ast.literal_eval(s.upper) if s.upper else None]
                    return full[ast.literal_eval(s)]
                except Exception:
                    return None
            try:
                return ast.literal_eval(e)
            except Exception:
                return None
        a, b = value(test.left), value(test.comparators[0])
        if 'version_info' not in ast.dump(test) or a is None or b is None:
            return None
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                    ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[type(test.ops[0])]()
        except (TypeError, KeyError):
            return None
    return None


def live(tree, version):
    """The nodes that can run on this version, without annotations that are
    never evaluated and branches taken on other versions.  Names tried inside a
    `try` with an ImportError / AttributeError handler are optional."""
    future = any(isinstance(n, ast.ImportFrom) and n.module == '__future__' and any(a.name == 'annotations' for a in n.names) for n in tree.body)

    def walk(n, optional):
        yield n, optional
        if isinstance(n, (ast.If, ast.IfExp)):
            r = const_test(n.test, version)
            body = n.body if isinstance(n.body, list) else [n.body]
            orelse = n.orelse if isinstance(n.orelse, list) else [n.orelse]
            yield from walk(n.test, optional)
            for c in (body if r is not False else []) + (orelse if r is not True else []):
                yield from walk(c, optional)
            if r is None:
                return
            return
        if isinstance(n, ast.Try):
            caught = ast.dump(ast.Module([h.type for h in n.handlers if h.type], [])) if n.handlers else ''
            soft = any(h.type is None for h in n.handlers) or any(x in caught for x in ("'ImportError'", "'ModuleNotFoundError'", "'AttributeError'", "'Exception'", "'TypeError'"))
            for c in n.body:
                yield from walk(c, optional or soft)
            for c in n.handlers + n.orelse + n.finalbody:
                yield from walk(c, optional)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and future:
            for c in n.body + n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]:
                yield from walk(c, optional)
            return
        if isinstance(n, ast.AnnAssign) and future:
            for c in (n.target, n.value):
                if c is not None:
                    yield from walk(c, optional)
            return
        for c in ast.iter_child_nodes(n):
            yield from walk(c, optional)
    yield from walk(tree, False)


def fstrings(src):
    """Lines with f-strings that need Python 3.12 (PEP 701)."""
    out = []
    stack = []
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, SyntaxError, IndentationError):
        return out
    start = getattr(tokenize, 'FSTRING_START', None)
    if start is None:
        return out
    for t in toks:
        if t.type == tokenize.FSTRING_START:
            q = re.sub('^[a-zA-Z]*', '', t.string)
            if any(q == o for o, _ in stack) or stack and len(stack[-1][0]) == 1 and len(q) == 3:
                out.append((t.start[0], 'an f-string reusing its quotes inside'))
            stack.append((q, t.start[0]))
        elif t.type == tokenize.FSTRING_END:
            if stack:
                stack.pop()
        elif stack:
            q = stack[-1][0]
            if t.type == tokenize.STRING:
                body = re.sub('^[a-zA-Z]*', '', t.string)
                if any(body.startswith(o) or (len(o) == 1 and o in body) for o, _ in stack):
                    out.append((t.start[0], 'an f-string reusing its quotes inside'))
                elif '\\' in t.string:
                    out.append((t.start[0], 'a backslash inside an f-string expression'))
            elif t.type == tokenize.COMMENT:
                out.append((t.start[0], 'a comment inside an f-string'))
            elif t.type in (tokenize.NL,) and len(q) == 1:
                out.append((t.start[0], 'a line break inside an f-string expression'))
    return out


def syntax(src, path, version):
    try:
        tree = ast.parse(src, path, feature_version=version)
    except SyntaxError as e:
        yield e.lineno or 0, f'{e.msg}'
        return
    if version < (3, 12):
        yield from fstrings(src)
    for n in ast.walk(tree):
        line = getattr(n, 'lineno', 0)
        if version < (3, 11):
            if isinstance(n, ast.Subscript):
                items = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                if any(isinstance(x, ast.Starred) for x in items) and not parenthesised(src, n.slice):
                    yield line, 'unpacking inside a subscript'
            if isinstance(n, ast.arg) and isinstance(n.annotation, ast.Starred):
                yield line, 'an unpacked annotation'
            if isinstance(n, getattr(ast, 'TryStar', ())):
                yield line, 'except*'
        if version < (3, 10) and isinstance(n, getattr(ast, 'Match', ())):
            yield line, 'a match statement'
        if version < (3, 12):
            if isinstance(n, getattr(ast, 'TypeAlias', ())) or getattr(n, 'type_params', None):
                yield line, 'type parameter syntax'


def parenthesised(src, n):
    return (ast.get_source_segment(src, n) or '').lstrip().startswith('(') if isinstance(n, ast.Tuple) else False


def names(tree, version):
    """(line, what) of names this version does not have."""
    nodes = list(live(tree, version))
    mods = {}
    for n, _ in nodes:
        if isinstance(n, ast.Import):
            for a in n.names:
                mods[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
    for n, optional in nodes:
        if optional:
            continue
        line = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Import):
            for a in n.names:
                if SINCE_MODULES.get(a.name, (3, 0)) > version:
                    yield line, f'module {a.name}'
                if a.name.split('.')[0] == 'typing_extensions' and version >= (3, 11):
                    yield line, 'typing_extensions, which is only a dependency before Python 3.11'
        elif isinstance(n, ast.ImportFrom) and not n.level:
            if SINCE_MODULES.get(n.module, (3, 0)) > version:
                yield line, f'module {n.module}'
            if n.module == 'typing_extensions':
                if version >= (3, 11):
                    yield line, 'typing_extensions, which is only a dependency before Python 3.11'
                for a in n.names:
                    if a.name not in BACKPORT and a.name != '*':
                        yield line, f'typing_extensions.{a.name}'
            for a in n.names:
                if SINCE.get(n.module, {}).get(a.name, (3, 0)) > version:
                    yield line, f'{n.module}.{a.name}'
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in mods and isinstance(n.ctx, ast.Load):
            m = mods[n.value.id]
            if SINCE.get(m, {}).get(n.attr, (3, 0)) > version:
                yield line, f'{m}.{n.attr}'
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and SINCE_BUILTINS.get(n.id, (3, 0)) > version:
            yield line, f'builtin {n.id}'
        elif isinstance(n, ast.Call):
            f = n.func
            callee = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            for k in n.keywords:
                if KEYWORDS.get((callee, k.arg), (3, 0)) > version:
                    yield line, f'{callee}(..., {k.arg}=)'
            if isinstance(f, ast.Attribute):
                if (METHODS.get(f.attr) or (3, 0)) > version:
                    yield line, f'method {f.attr}'
                given = len(n.args) + sum(k.arg in ('length', 'byteorder', 'bytes') for k in n.keywords)
                star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
                if version < (3, 11) and f.attr == 'to_bytes' and given < 2 and not star:
                    yield line, 'to_bytes without a byte order'
                if version < (3, 11) and f.attr == 'from_bytes' and given < 2 and not star and isinstance(f.value, ast.Name) and f.value.id == 'int':
                    yield line, 'from_bytes without a byte order'


def lint(bench):
    root = bench.lab.root
    for path, src in sources(root):
        for v in DECLARED:
            label = f'{path} on {fmt(v)}'
            for rule, found in (('only syntax this version has', lambda: syntax(src, path, v)),
                                ('only names this version has', lambda: names(ast.parse(src), v))):
                try:
                    hits = list(found())
                except SyntaxError as e:
                    hits = [(e.lineno, str(e.msg))] if rule.startswith('only syntax') else []
                bench.record('C28', label, rule, not hits, '; '.join(f'line {l}: {w}' for l, w in hits[:4]), '')


case('C28', 'quick', 'syntax and names of every module')(lint)


def within(version, label, fn):
    """Run an experiment on the package as this version sees it; everything it
    establishes counts for C28."""
    def run(bench):
        name = fmt(version)
        try:
            b = harness.Bench(bench.lab.root, version)
        except Exception as e:
            und = 'Unsupported' in type(e).__name__
            bench.record('C28', name, 'the package can be imported', None if und else False, harness.failure_text(e), '')
            return
        bench.record('C28', name, 'the package can be imported', True, '', '')
        P.install(b.lab)
        fn(b)
        for r in b.rows.values():
            q = bench.row('C28', f'{r.subject}, on {name}', r.rule)
            if q.ok or q.undecided or q.nbad:      # the same obligation under another property
                if r.nbad and not q.nbad:
                    q.nbad, q.bad = r.nbad, r.bad
                continue
            q.ok, q.undecided, q.nbad, q.bad, q.why = r.ok, r.undecided, r.nbad, r.bad, r.why
        bench.partitions += b.partitions
        bench.pruned += b.pruned
        bench.incomplete += b.incomplete
        for k, n in b.lab.I.entered.items():
            bench.lab.I.entered[k] = bench.lab.I.entered.get(k, 0) + n
    return run


def subject_run(s, fn):
    def go(b):
        m = X.define(b, s, 'C28')
        if m is not None:
            b.explore(s.label, lambda t: fn(t, s, m))
    return go


HEAD = ('from typing import Callable, Dict, FrozenSet, List, Literal, Mapping, NewType, Sequence, Set, Tuple, Type\nimport typing\n'
        'N = NewType("N", int)\nclass Cls:\n    pass\n')
O = 'byte_order=ByteOrder.LE'
CHOICE = 'Annotated[{0}, LookbackDecider(lambda o: 0, {{0: int16}}, int8)]'
OWN = 'Annotated[{0}, int16]'
HINTS = ['int', 'None', 'List[int]', 'Dict[str, int]', 'Tuple[int, ...]', 'Tuple', 'List', 'typing.Any', 'Callable[[int], int]', 'Callable', 'Literal[1, 2]', 'N', 'T',
         'Optional[int]', 'Optional[List[int]]', 'Union[int, str]', 'Union[List[int], int]', 'Union[Tuple[int, int], Dict[str, str], None]', 'Union[typing.Any, int]',
         'Union[Callable[[int], int], int]', 'Union[Literal["a"], int]', 'Union[N, str]', 'Union[T, int]', 'list[int]', 'dict[str, int]', 'tuple[int, ...]', 'Union[list[int], None]',
         'Type[int]', 'type[int]', 'Mapping[str, int]', 'Sequence[int]', 'Set[int]', 'FrozenSet[int]', 'Union[Sequence[int], Mapping[str, int]]', 'Cls', 'Optional[Cls]', '"Cls"',
         'typing.Union[int8, char[2]]', 'Optional[Optional[int]]', 'Union[Type[int], Type[str]]', 'Union[Optional[List["Cls"]], int]']
HINTS10 = ['int | str', 'int | None', 'list[int] | None', 'Cls | int', 'List[int] | int', 'Union[int, str] | None', 'typing.Any | None', 'N | None', 'T | int']


def annotated(tier):
    """Fields hinted with every kind of typing construct."""
    from .classdefs import raw
    out = []
    for v in DECLARED:
        for future in (False, True):
            for h in HINTS + (HINTS10 if v >= (3, 10) else []):
                for form in (OWN, '{0}'):
                    if form == OWN:
                        src, slots = f'    a: int8\n    b: {OWN.format(h)}\n    c: int8\n', 'a:int8 b:int16 c:int8'
                    else:
                        if h == 'N' or 'int8' in h:
                            continue
                        src, slots = f'    a: int8\n    b: {h}\n    c: int8\n', 'a:int8 c:int8'
                    out.append((v, raw(f'{form.format(h)}' + (', postponed' if future else ''), HEAD + f'class Subj(Structured, {O}):\n{src}', slots, 'LE', future=future, tags='C28')))
            for h in ('Union[int8, char[2]]', 'Union[List[int], int]', 'Optional[int]', 'typing.Union[str, None]', 'Union[List[int], Dict[str, int], None]') + (
                    ('int8 | char[2]', 'list[int] | None', 'List[int] | int', 'int | None') if v >= (3, 10) else ()):
                cond = 'Annotated[{0}, int16, Condition(lambda o: True, 0)]'
                out.append((v, raw(f'{h} chosen' + (', postponed' if future else ''), HEAD + f'class Subj(Structured, {O}):\n    a: int8\n    b: {CHOICE.format(h)}\n    c: int8\n',
                                   'a:int8 b:int16 c:int8', 'LE', future=future, tags='C28')))
                out.append((v, raw(f'{h} under a condition' + (', postponed' if future else ''), HEAD + f'class Subj(Structured, {O}):\n    a: int8\n    b: {cond.format(h)}\n    c: int8\n',
                                   'a:int8 b:int16 c:int8', 'LE', future=future, tags='C28')))
            for l, b, slots in (('typing.Tuple', 'b: Tuple[uint8, int32]', 'a:int8 b:tup'), ('tuple', 'b: tuple[uint8, int32]', 'a:int8 b:tup'),
                                ('typing.ClassVar', 'b: ClassVar[int] = 3', 'a:int8'), ('typing.Final', 'b: typing.Final[int] = 3', 'a:int8'),
                                ('a class variable without a type', 'b: ClassVar = 3', 'a:int8'), ('nested Annotated', 'b: Annotated[Annotated[int, 1], int16]', 'a:int8 b:int16'),
                                ('a string', 'b: "int16"', 'a:int8 b:int16'), ('a string in Annotated', 'b: Annotated["Cls", int16]', 'a:int8 b:int16'),
                                ('removed', 'b: None', 'a:int8')):
                out.append((v, raw(f'{l}' + (', postponed' if future else ''), HEAD + f'class Subj(Structured, {O}):\n    a: int8\n    {b}\n', slots, 'LE', future=future, tags='C28')))
            for l, src in (('generic', 'class Gen(Generic[T], Structured, {o}):\n    a: int8\n    b: T\nclass Subj(Gen[int16], {o}):\n    c: int8\n'),
                           ('generic of two', 'class Gen(Generic[T, U], Structured, {o}):\n    a: T\n    b: U\nclass Subj(Gen[int8, int16], {o}):\n    c: int8\n'),
                           ('generic kept generic', 'class Gen(Generic[T, U], Structured, {o}):\n    a: T\n    b: U\nclass Mid(Gen[int8, V], Generic[V], {o}):\n    pass\nclass Subj(Mid[int16], {o}):\n    c: int8\n'),
                           ('generic under Annotated', 'class Gen(Generic[T], Structured, {o}):\n    a: int8\n    b: Annotated[List[int], T]\n    c: int8\nclass Subj(Gen[int16], {o}):\n    pass\n')):
                if l == 'generic under Annotated':
                    continue
                out.append((v, raw(l + (', postponed' if future else ''), HEAD + src.format(o=O), 'a:int8 b:int16 c:int8', 'LE', future=future, tags='C28')))
    return out


def chosen(tier):
    """Which classes are tried on every version: one per kind of field, and
    the hand-written ones that exercise typing."""
    out = []
    for s in suites.class_subjects('quick'):
        if s.order == 'LE' and not s.label.endswith('alone') and 'count8+size8' not in s.label:
            out.append(s)
    seen = set()
    for f in suites.SPECIAL:
        for s in f('quick'):
            if s.order not in ('LE', 'BE') or 'C28' in s.skip or s.label in seen or s.only and 'roundtrip' not in s.only.split():
                continue
            seen.add(s.label)
            out.append(s)
    if tier == 'thorough':
        return out
    return [s for i, s in enumerate(out) if i % 5 == 0 or s.future]


def registered(tier):
    from .describing import describe
    out = []
    for v in DECLARED[:3]:
        for i, s in enumerate(chosen(tier)):
            if tier != 'thorough' and (i + v[1]) % 2 and v != (3, 9):
                continue
            out.append((f'{fmt(v)}: {s.label}', within(v, s.label, subject_run(s, X.roundtrip))))
        for c in list(suites.CASES):
            if c.tier == 'quick' and any(x in c.name for x in CASES_TOO) and not c.name.startswith('Python'):
                out.append((f'{fmt(v)}: {c.name}', within(v, c.name, c.run)))
    group = {}
    for v, s in annotated(tier):
        group.setdefault(v, []).append(s)
    for v, ss in group.items():
        for i in range(0, len(ss), 12):
            def run(b, part=ss[i:i + 12]):
                for s in part:
                    subject_run(s, X.roundtrip)(b)
                    subject_run(s, describe)(b)
            out.append((f'{fmt(v)}: typing constructs {i}', within(v, '', run)))
    return out


CASES_TOO = ('valid parameters', 'equality with', 'invalid arguments')
