"""blind.py [SHARE] [FUNCTION ...]: the interpreter is made unable to handle one function of /repo at a
time (before or after its body); nothing may then be reported as violated, only left undecided.
SHARE is the part of all experiments to run for each function (default 0.02)."""
import os
import random
import sys
import time
from multiprocessing import get_context

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import harness, interp, parts, suites
from sa.interp import Unsupported

suites.load()
ROOT = os.environ.get('RR', '/repo')
PROPS = [f'C{i:02}' for i in range(1, 31) if i != 29]


def main():
    share = float(sys.argv[1]) if len(sys.argv) > 1 else 0.02
    only = sys.argv[2:]
    todo = {}
    for p in PROPS:
        for label, run in suites.plan(p, 'quick'):
            todo.setdefault(label, run)
    todo = list(todo.items())
    plain = interp.Interp.call_func
    funcs = set()
    b = harness.Bench(ROOT)
    import ast
    for d, _, fs in os.walk(os.path.join(ROOT, 'structured')):
        for f in fs:
            if f.endswith('.py'):
                tree = ast.parse(open(os.path.join(d, f)).read())
                for c in tree.body:
                    for x in (c.body if isinstance(c, ast.ClassDef) else [c]):
                        if isinstance(x, ast.FunctionDef):
                            q = (c.name + '.' if isinstance(c, ast.ClassDef) else '') + x.name
                            funcs.add(q)
    funcs = sorted(f for f in funcs if not only or any(o in f for o in only))
    jobs = []
    for f in funcs:
        for mode in ('before', 'after'):
            r = random.Random(f + mode + os.environ.get('SEED', ''))
            jobs += [(f, mode, i) for i in r.sample(range(len(todo)), max(1, int(len(todo) * share)))]
    print(len(funcs), 'functions', len(todo), 'experiments', len(jobs), 'jobs', flush=True)
    global one

    def one(job):
        name, mode, i = job
        label, run = todo[i]

        def call_func(self, f, args, kwargs):
            hit = f.qualname == name and str(self.file_of(f)).startswith('structured') and armed
            if hit and mode == 'before':
                raise Unsupported('blind')
            r = plain(self, f, args, kwargs)
            if hit:
                raise Unsupported('blind')
            return r

        armed = False
        interp.Interp.call_func = call_func
        try:
            bench = harness.Bench(ROOT)
            parts.install(bench.lab)
            armed = True
            t0 = time.time()
            run(bench)
            bad = [(r.prop, r.subject, r.rule, str(r.bad[0])[:200]) for r in bench.rows.values() if r.nbad]
            und = sum(bool(r.undecided) for r in bench.rows.values())
            return job, label, bad, und, None, time.time() - t0
        except Exception as e:
            import traceback
            return job, label, [], 0, traceback.format_exc()[-400:], 0
        finally:
            interp.Interp.call_func = plain

    jobs.sort(key=lambda j: random.Random(str(j)).random())
    seen, n, u = set(), 0, 0
    with get_context('fork').Pool(int(os.environ.get('CORES', '8'))) as pool:
        for job, label, bad, und, err, t in pool.imap_unordered(call_one, ((one_ref, j) for j in jobs), chunksize=4):
            n += 1
            u += bool(und)
            if err and err[-60:] not in seen:
                seen.add(err[-60:])
                print('BROKEN', job, label, err, flush=True)
            for p, s, r, w in bad:
                if r not in seen:
                    seen.add(r)
                    print('BAD', job[:2], label, '|', p, s, '|', r, '|', w, flush=True)
    print(n, 'jobs,', u, 'with something undecided')


one_ref = None


def call_one(a):
    return one(a[1])


if __name__ == '__main__':
    main()
