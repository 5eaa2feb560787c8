"""plant.py SPEC.py [ID...]: turn seed specifications into /verif/seeded/<id>/, after confirming
that the change applies, builds, passes the stable tests and is shown by its demo.
A SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]."""
import json
import os
import runpy
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    if sh('bash /opt/vp/build.sh').returncode:
        return 'build fails'
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(
        open('/opt/vp/BASELINE.json')) else json.load(open('/opt/vp/BASELINE.json'))['passed'])
    now = set(json.load(open('/tmp/plant_out.json'))['passed'])
    bad = base - now
    return f'{len(bad)} stable tests fail: {sorted(bad)[:3]}' if bad else None


def not_original(diff):
    bad, f, n = [], None, 0
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
            bl = sh(f'git -C {REPO} blame -s HEAD -- {f}').stdout.splitlines()
        elif line.startswith('@@'):
            n = int(line.split()[1][1:].split(',')[0])
        elif line.startswith('-'):
            if not bl[n - 1].startswith('^'):
                bad.append(f'{f}:{n}')
            n += 1
        elif line.startswith(' '):
            n += 1
    return bad


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for s in spec['SEEDS']:
        if only and s['id'] not in only:
            continue
        assert not sh('git -C /repo status --porcelain').stdout, 'repo not clean'
        d = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        try:
            ok = True
            for f, old, new in s['edits']:
                p = os.path.join(REPO, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT does not apply:', t.count(old), 'matches in', f)
                    ok = False
                    break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            diff = sh('git -C /repo diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            mine = not_original(diff)
            if mine:
                print(s['id'], 'changes lines that are not original:', mine[:3])
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\ncd /repo || exit 2\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/vp/nocache '
                'PYTHONPATH=/repo\nexec timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']),
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            bad = stable()
            r = sh(f'bash {d}/demo.sh', cwd=REPO)
            chk = sh(f'python3 check.py {s["prop"]} --no-evidence', cwd=VERIF)
            caught = chk.returncode == 1 and f'VIOLATION property={s["prop"]}' in chk.stdout
            print(f'{s["id"]} [{s["prop"]}]: tests {bad or "pass"}; demo with change {r.returncode} '
                  f'({(r.stderr.strip().splitlines() or [""])[-1][:90]}); '
                  f'{"CAUGHT" if caught else "MISSED rc=%d" % chk.returncode}')
            if caught:
                print('    ', [x for x in chk.stdout.splitlines() if x.startswith('violated')][0][:220])
        finally:
            sh('git -C /repo checkout -- .')
        r = sh(f'bash {d}/demo.sh', cwd=REPO)
        if r.returncode:
            print('    demo fails on the unchanged tree:', r.stderr[-300:])


main()
