#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root DIR]

Static decision of one property over the current source of /repo: the package is
interpreted abstractly (never imported or run) under client programs with
unknown inputs, and the obligations of the property are decided on every trace
partition.  Exit 0: no obligation is violated.  Exit 1: VIOLATION line."""
import argparse
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def work(job):
    prop, tier, root, lo, step = job
    from sa import harness, parts, suites
    todo = suites.plan(prop, tier)[lo::step]
    bench = None
    out = dict(rows=[], partitions=0, pruned=0, incomplete=[], entered={}, cases=[], broken=[])
    for label, run in todo:
        try:
            bench = harness.Bench(root)
        except Exception as e:
            out['broken'].append((label, f'the package cannot be loaded: {harness.failure_text(e)}'))
            continue
        parts.install(bench.lab)
        t0 = time.time()
        try:
            run(bench)
        except Exception as e:
            import traceback
            out['broken'].append((label, traceback.format_exc()[-700:]))
        out['cases'].append((label, round(time.time() - t0, 2), bench.partitions))
        for r in bench.rows.values():
            if r.prop == prop:
                out['rows'].append((r.subject, r.rule, r.ok, r.undecided, r.nbad, r.bad,
                                    list(r.why.items())[:3]))
        out['partitions'] += bench.partitions
        out['pruned'] += bench.pruned
        out['incomplete'] += bench.incomplete
        for k, n in bench.lab.I.entered.items():
            if not str(k[0]).startswith('<'):
                out['entered'][k] = out['entered'].get(k, 0) + n
    return out


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f'finding: property={prop} '):
                body = line.split(' ', 2)[2]
                key, _, what = body.partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick', choices=('quick', 'thorough'))
    ap.add_argument('--root', default=os.environ.get('SA_REPO', '/repo'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    n = a.jobs
    jobs = [(a.prop, a.tier, a.root, i, n) for i in range(n)]
    if n == 1:
        outs = [work(jobs[0])]
    else:
        with multiprocessing.get_context('fork').Pool(n) as pool:
            outs = pool.map(work, jobs)
    rows, entered, cases = {}, {}, []
    parts = pruned = 0
    incomplete, broken = [], []
    for o in outs:
        for subject, rule, ok, und, nbad, bad, why in o['rows']:
            r = rows.setdefault((subject, rule), [0, 0, 0, [], []])
            r[0] += ok
            r[1] += und
            r[2] += nbad
            r[3] += bad
            r[4] += why
        parts += o['partitions']
        pruned += o['pruned']
        incomplete += o['incomplete']
        broken += o['broken']
        cases += o['cases']
        for k, c in o['entered'].items():
            entered[k] = entered.get(k, 0) + c
    findings = known(a.prop)
    viol, listed = [], []
    for (subject, rule), r in sorted(rows.items()):
        if not r[2]:
            continue
        key = f'{subject} | {rule}'
        hit = [f for f in findings if f[0] == key]
        if hit:
            listed.append((key, hit[0][1]))
        else:
            viol.append((subject, rule, r))
    total = len(rows)
    ok = sum(1 for r in rows.values() if r[0] and not r[1] and not r[2])
    partial = sum(1 for r in rows.values() if r[0] and r[1] and not r[2])
    undecided = sum(1 for r in rows.values() if not r[0] and r[1] and not r[2])
    decided = sum(r[0] for r in rows.values())
    functions = sorted({f'{f}:{q}' for f, q, _ in entered})
    print(f'{a.prop} ({a.tier}): {len(cases)} abstract client programs, {parts} trace partitions '
          f'({pruned} infeasible), {len(functions)} functions of the package interpreted')
    print(f'obligations: {total}; holding on every partition {ok}, on some (others undecided) {partial}, '
          f'undecided {undecided}, violated {len(viol)}, known findings {len(listed)}; '
          f'{decided} partition-level obligations discharged')
    if a.v:
        for label, dt, n in sorted(cases, key=lambda c: -c[1])[:12]:
            print(f'  {dt} s, {n} partitions: {label}')
        for (s, r), x in rows.items():
            if x[1]:
                print('  undecided', s, '|', r, x[1], x[4][:1])
        for x in incomplete:
            print('  incomplete', x)
    for x in broken:
        print('  analysis failed:', x)
    for key, what in sorted(set(listed)):
        print(f'KNOWN-FINDING: property={a.prop} {what} [{key}]')
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'replay', f'{a.prop}.txt')
    wall = time.time() - t0
    if viol:
        with open(replay, 'w') as f:
            for s, rule, r in viol:
                f.write(f'obligation: {rule}\nsubject: {s}\nviolated on {r[2]} partitions, '
                        f'discharged on {r[0]}\n')
                for d, part in r[3][:3]:
                    f.write(f'  what: {d}\n  partition: {part or "(no case distinction)"}\n')
                f.write('\n')
    ev = dict(
        property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
        coverage=dict(
            explanation='Abstract interpretation of the package source under client programs with unknown '
                        'inputs; every obligation of the property is decided on every trace partition.',
            programs_analysed=len(cases), trace_partitions=parts, infeasible_partitions=pruned,
            obligations=total, discharged=ok, partly_discharged=partial, undecided=undecided,
            violated=len(viol), known_findings=len(listed), partition_obligations_discharged=decided,
            functions_interpreted=functions, rules=sorted({r for _, r in rows}),
            undecided_reasons=sorted({w for x in rows.values() for w, _ in x[4]})[:20],
            incomplete=[list(map(str, x)) for x in incomplete[:20]],
            programs_not_analysed=[str(x)[:300] for x in broken[:20]],
            samples=[f'{s}: {r}' for s, r in list(sorted(rows))[:: max(1, len(rows) // 8)]][:9]),
        assumptions=['struct, io, typing and builtins behave as modelled in sa/*_model.py',
                     'values fit the field they are packed into',
                     'loops over unknown lengths are analysed for lengths 0, 1 and one larger representative'],
        wall_s=round(wall, 2), violations=len(viol))
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{a.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if viol:
        for s, rule, r in viol[:12]:
            d, part = r[3][0]
            print(f'violated: {rule} [{s}]: {d[:400]}')
        if len(viol) > 12:
            print(f'... and {len(viol) - 12} more in {replay}')
        print(f'VIOLATION property={a.prop} replay={replay}')
        return 1
    if 2 * len(broken) > len(cases) or not total or decided == 0:
        print('the analysis could not decide anything about this property')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
