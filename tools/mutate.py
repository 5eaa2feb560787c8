#!/usr/bin/env python3
"""Automatic mutants of the package, to measure what the checks detect.

mutate.py gen OUTDIR [MAX]     mutants that survive the repository's tests -> OUTDIR/*.json
mutate.py hunt OUTDIR [FROM]   run every quick experiment once against each, until one reports a violation
Scratch copies live in a temporary directory; /repo is only read."""
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get('HUNT_REPO', '/repo')
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.MatMult: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Mult]}
RENAME = {'prepack': 'preunpack', 'preunpack': 'prepack', 'append': 'extend', 'pack_into': 'pack_write', 'update': 'setdefault', 'rstrip': 'strip'}


def files():
    for d, _, fs in os.walk(os.path.join(REPO, 'structured')):
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.join(d, f)


def names_in(fn):
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return sorted(out)


def mutations(tree):
    """(path of node, description, mutate(node, parent)) over a tree; each is applied to a fresh copy."""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.dump(n.test):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, (ast.FunctionDef, ast.AnnAssign, ast.arg)):
            for a in (getattr(n, 'annotation', None), getattr(n, 'returns', None)):
                if a is not None:
                    for c in ast.walk(a):
                        skip.add(id(c))
        if isinstance(n, ast.FunctionDef) and any('overload' in ast.dump(d) for d in n.decorator_list):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                if c is not n:
                    skip.add(id(c))
    owner = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for c in ast.walk(n):
                owner[id(c)] = n          # the innermost one wins: walk is breadth first
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in skip:
            continue

        def add(what, f, i=i):
            out.append((i, what, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for k in CMP.get(type(n.ops[0]), ()):
                add(f'compare -> {k.__name__}', lambda m, k=k: m.ops.__setitem__(0, k()))
        elif isinstance(n, ast.BoolOp):
            add('and <-> or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for j in range(len(n.values)):
                add(f'drop operand {j}', lambda m, j=j: m.values.pop(j) if len(m.values) > 2 else m.values.__setitem__(slice(None), [m.values[1 - j]] * 2))
        elif isinstance(n, ast.BinOp):
            for k in BIN.get(type(n.op), ()):
                add(f'operator -> {k.__name__}', lambda m, k=k: setattr(m, 'op', k()))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.MatMult)):
                add('left operand swapped', lambda m: (lambda a, b: (setattr(m, 'left', b), setattr(m, 'right', a)))(m.left, m.right))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, type(None), type(...))):
            v = n.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v + b'\0', b''] if isinstance(v, bytes) else []):
                add(f'{v!r} -> {w!r}', lambda m, w=w: setattr(m, 'value', w))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add('condition negated', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            add('condition True', lambda m: setattr(m, 'test', ast.Constant(True)))
            add('condition False', lambda m: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, ast.Return) and n.value is not None:
            add('return None', lambda m: setattr(m, 'value', ast.Constant(None)))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                add('first arguments swapped', lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            if len(n.args) >= 1 and not isinstance(n.args[-1], ast.Starred):
                add('last argument dropped', lambda m: m.args.pop())
            for j in range(len(n.keywords)):
                add(f'keyword {n.keywords[j].arg} dropped', lambda m, j=j: m.keywords.pop(j))
            if isinstance(n.func, ast.Attribute) and n.func.attr in RENAME:
                add(f'{n.func.attr} -> {RENAME[n.func.attr]}', lambda m: setattr(m.func, 'attr', RENAME[m.func.attr]))
        elif isinstance(n, ast.Slice):
            for a in ('lower', 'upper'):
                if getattr(n, a) is not None:
                    add(f'slice {a} dropped', lambda m, a=a: setattr(m, a, None))
                    add(f'slice {a} + 1', lambda m, a=a: setattr(m, a, ast.BinOp(getattr(m, a), ast.Add(), ast.Constant(1))))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) in owner:
            others = [x for x in names_in(owner[id(n)]) if x != n.id]
            if n.id in names_in(owner[id(n)]):
                for o in others:
                    add(f'{n.id} -> {o}', lambda m, o=o: setattr(m, 'id', o))
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
            pairs = {'static_length': 'count', 'header': 'serializer', 'size': 'num_values', 'num_values': 'size', 'serializer': 'header', 'format': 'base_format'}
            if n.attr in pairs:
                add(f'self.{n.attr} -> self.{pairs[n.attr]}', lambda m: setattr(m, 'attr', pairs[m.attr]))
        if hasattr(n, 'body') and isinstance(n.body, list):
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(n, field, None)
                if not isinstance(b, list):
                    continue
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.If, ast.Return, ast.For, ast.Delete)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and id(s) not in skip:
                        add(f'statement {j} of {field} deleted: {ast.unparse(s).splitlines()[0][:60]}',
                            lambda m, field=field, j=j: getattr(m, field).__setitem__(j, ast.Pass()))
                    if j and not isinstance(n, (ast.Module, ast.ClassDef)) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.For, ast.If)) and isinstance(
                            b[j - 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.For, ast.If)) and id(s) not in skip:
                        add(f'statements {j - 1} and {j} of {field} swapped',
                            lambda m, field=field, j=j: getattr(m, field).__setitem__(slice(j - 1, j + 1), getattr(m, field)[j - 1:j + 1][::-1]))
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            for j, d in enumerate(n.decorator_list):
                if not any(x in ast.dump(d) for x in ('classmethod', 'staticmethod', 'property', 'setter')):
                    add(f'decorator {ast.unparse(d)[:30]} dropped', lambda m, j=j: m.decorator_list.pop(j))
    return out


def all_mutants():
    out = []
    for f in files():
        src = open(f).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = {base}
        for i, what, fn in mutations(tree):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            try:
                fn(m)
                ast.fix_missing_locations(t)
                new = ast.unparse(t)
                compile(new, f, 'exec')
            except Exception:
                continue
            if new in seen:
                continue
            seen.add(new)
            out.append(dict(file=os.path.relpath(f, REPO), line=getattr(m, 'lineno', 0), what=what, new=new, text=(ast.get_source_segment(src, list(ast.walk(tree))[i]) or '').splitlines()[:1]))
    return out


def tests(job):
    k, m, base = job
    d = os.path.join(base, f'w{multiprocessing.current_process().name.split("-")[-1]}')
    if not os.path.exists(d):
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    p = os.path.join(d, m['file'])
    old = open(p).read()
    open(p, 'w').write(m['new'])
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '--no-cov', '-p', 'no:cacheprovider', '--timeout=60'], cwd=d,
                           env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'), capture_output=True, text=True, timeout=120)
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    finally:
        open(p, 'w').write(old)
    return k, ok


def gen(outdir, limit):
    ms = all_mutants()
    random.Random(7).shuffle(ms)
    ms = ms[:limit]
    base = tempfile.mkdtemp(prefix='mut')
    n = 0
    try:
        with multiprocessing.Pool(8) as pool:
            for k, ok in pool.imap_unordered(tests, [(k, m, base) for k, m in enumerate(ms)], chunksize=4):
                if ok:
                    n += 1
                    json.dump(ms[k], open(os.path.join(outdir, f'm{k:05d}.json'), 'w'))
    finally:
        shutil.rmtree(base)
    print(len(ms), 'mutants,', n, 'survive the tests')


def whole_plan():
    from sa import suites, experiments as X, versions
    suites.load()
    out = []
    for name, (fn, props) in suites.GENERIC.items():
        for s in suites.subjects('quick'):
            if name in ('counted', 'coded') and not getattr(s, name, False):
                continue
            if s.only and name not in ('counted', 'coded') and name not in s.only.split():
                continue
            if name == 'truncate' and any(p.final for p in s.parts):
                continue
            if name in ('object order', 'reorder', 'truncate', 'reuse', 'overflow') and s.order not in ('LE', 'BE'):
                continue
            out.append((f'{name}: {s.label}', suites.subject_runner(s, fn)))
    for c in suites.CASES:
        if c.tier == 'quick' and 'C28' not in c.props:
            out.append((c.name, c.run))
    random.Random(5).shuffle(out)
    return out


PLAN = None
PROFILE = None
CAP = float(os.environ.get('HUNT_CAP', '150'))


LINES = None


def watch_lines():
    """Record which lines of the package are executed (in the profile only)."""
    global LINES
    from sa import interp

    class Frame:
        __slots__ = ('func', '_line')

        def __init__(self, func):
            self.func, self._line = func, 0

        @property
        def line(self):
            return self._line

        @line.setter
        def line(self, n):
            self._line = n
            g = self.func.glob
            LINES.add((getattr(g, 'path', None) or getattr(g, 'name', '?'), n))
    LINES = set()
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('sa.') and hasattr(m, 'Frame'):
            m.Frame = Frame


def one(job):
    root, i = job
    from sa import harness, parts
    label, run = PLAN[i]
    t0 = time.time()
    try:
        b = harness.Bench(root)
    except Exception as e:
        return label, [], f'the package cannot be loaded: {harness.failure_text(e)}', 0, [], None
    I = b.lab.I
    before = dict(I.entered)
    parts.install(b.lab)
    if LINES is not None:
        LINES.clear()
    fail = ''
    try:
        run(b)
    except Exception as e:
        fail = f'{type(e).__name__}: {e}'
    und = sum(r.undecided for r in b.rows.values())
    seen = sorted((f, n) for f, n in LINES or () if 'structured/' in f and '<client' not in f)
    return (label, [(r.prop, r.subject, r.rule, r.bad[0]) for r in b.rows.values() if r.nbad], fail, und,
            [str(x[1])[:120] for x in b.incomplete[:2]], (i, time.time() - t0, seen))


def profile():
    """Which functions of the package each experiment enters, and how long it takes, on /repo."""
    path = os.environ.get('HUNT_PROFILE', '/tmp/hunt_profile.json')
    if os.path.exists(path):
        p = json.load(open(path))
        if p['labels'] == [x for x, _ in PLAN]:
            return p['prof']
    prof = [None] * len(PLAN)
    watch_lines()
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=60) as pool:
        for *_, (i, dt, seen) in pool.imap_unordered(one, [(REPO, i) for i in range(len(PLAN))]):
            prof[i] = (dt, [list(x) for x in seen])
    json.dump(dict(labels=[x for x, _ in PLAN], prof=prof), open(path, 'w'))
    print('profile written, run again', flush=True)
    sys.exit()


def order_for(m):
    """Experiments that execute the changed statement, those that execute few others and cheap ones first."""
    tree = ast.parse(open(os.path.join(REPO, m['file'])).read())
    stmt = fn = None
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and n.lineno <= m['line'] <= n.end_lineno and (stmt is None or n.lineno >= stmt.lineno):
            stmt = n
        if isinstance(n, ast.FunctionDef) and n.lineno <= m['line'] <= n.end_lineno and (fn is None or n.lineno >= fn.lineno):
            fn = n
    ids = list(range(len(PLAN)))
    span = None
    if fn is not None:
        inner = stmt if stmt is not None and stmt.lineno > fn.lineno and not isinstance(stmt, (ast.FunctionDef, ast.ClassDef)) else fn
        span = (inner.lineno, inner.lineno if not isinstance(inner, ast.FunctionDef) else inner.end_lineno)
        hit = [i for i in ids if any(span[0] <= l <= span[1] and f.endswith(m['file']) for f, l in PROFILE[i][1])]
        ids = hit or ids
    rnd = random.Random(m['line'])
    return sorted(ids, key=lambda i: (PROFILE[i][0] + 0.2) * (0.2 + rnd.random()))


def known():
    keys = set()
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        if line.startswith('finding: '):
            keys.add(line.split(' ', 2)[2].partition(' :: ')[0].strip())
    return keys


def hunt_one(m, keys):
    d = tempfile.mkdtemp(prefix='hunt')
    t0 = time.time()
    hits, und, broken, done, inc = [], 0, set(), 0, []
    ids = order_for(m)
    try:
        shutil.copytree(os.path.join(REPO, 'structured'), os.path.join(d, 'structured'), ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(d, m['file']), 'w').write(m['new'])
        pool = multiprocessing.get_context('fork').Pool(8, maxtasksperchild=60)
        try:
            for label, bad, fail, u, incomplete, _ in pool.imap_unordered(one, [(d, i) for i in ids]):
                done += 1
                und += u
                inc += incomplete
                if fail:
                    broken.add(fail[:150])
                    if fail.startswith('the package cannot'):
                        break
                bad = [b for b in bad if f'{b[1]} | {b[2]}' not in keys]
                if bad:
                    hits.append((label, bad[0], sorted({b[0] for b in bad})))
                    break
                if time.time() - t0 > CAP:
                    break
        finally:
            pool.terminate()
            pool.join()
    finally:
        shutil.rmtree(d)
    return dict(hit=hits[:1], undecided=und, broken=sorted(broken)[:2], experiments=done, of=len(ids), incomplete=sorted(set(inc))[:3], seconds=round(time.time() - t0, 1))


def main():
    global PLAN, PROFILE
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9)
        return
    PLAN = whole_plan()
    keys = known()
    PROFILE = profile()
    print(len(PLAN), 'experiments', flush=True)
    todo = sorted(f for f in os.listdir(sys.argv[2]) if f.endswith('.json'))
    for f in todo:
        res = os.path.join(sys.argv[2], f.replace('.json', '.res'))
        if os.path.exists(res):
            continue
        m = json.load(open(os.path.join(sys.argv[2], f)))
        r = hunt_one(m, keys)
        json.dump(r, open(res, 'w'))
        state = 'caught' if r['hit'] else 'BROKEN' if r['broken'] else 'missed'
        print(state, f, m['file'], m['line'], m['what'], '|', (m['text'] or [''])[0][:80], '|', r['seconds'], 's', r['experiments'], 'of', r['of'], 'undecided', r['undecided'],
              (r['hit'][0][2], r['hit'][0][1][2][:60]) if r['hit'] else (r['broken'], r['incomplete']), flush=True)


if __name__ == '__main__':
    main()
