"""Plants a bug: from plant import plant; plant(id, property, [(file, old, new)...], demo_source, needs, breaks).

Works in a scratch copy of /repo (/tmp/plant); keeps the bug in /verif/seeded/<id> when it builds, the stable tests pass,
and the demonstration tells both trees apart; then runs the quick check of the property against the scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import time

SCR = '/tmp/plant'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    st = b.get('stable') or b.get('passed') or b.get('tests') or b
    return set(st) if not isinstance(st, dict) else set(st.get('passed', st))


def tests():
    out = '/tmp/plant_junit.xml'
    sh(f"rm -rf unittests/temp; mkdir -p unittests/temp; {PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
       f"-o junit_family=xunit2 --junitxml={out} -o python_files='test_*.py *_unittest.py' --ignore=unittests/test_montecarlo.py unittests",
       SCR, {'PYTHONPATH': SCR})
    sh(f'/usr/bin/python3 /opt/vp/results.py /tmp/plant_res.json junit:{out}', SCR)
    return stable() - set(json.load(open('/tmp/plant_res.json'))['passed'])


def plant(id, prop, edits, demo, needs, breaks, check=True, tier='quick'):
    if os.path.isdir(SCR):
        shutil.rmtree(SCR)
    sh(f'cp -a /repo {SCR}', '/')
    sh('git checkout -q -- . && git clean -fdq', SCR)
    for f, old, new in edits:
        p = f'{SCR}/{f}'
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(sh('git diff', SCR).stdout)
    open(f'{d}/demo.py', 'w').write(demo.lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    a = sh(f'bash {d}/demo.sh', '/repo', {'PYTHONPATH': '/repo'}, 300)
    b = sh(f'bash {d}/demo.sh', SCR, {'PYTHONPATH': SCR}, 300)
    lost = tests()
    ok = a.returncode == 0 and b.returncode != 0 and not lost
    print(f'{id}: demo clean={a.returncode} planted={b.returncode} tests lost={list(lost)[:3]} -> {"KEPT" if ok else "DROPPED"}')
    if a.returncode:
        print('  clean:', a.stderr[-500:])
    print('  planted:', (b.stderr or b.stdout).strip()[-200:])
    if not ok:
        shutil.rmtree(d)
        return False
    if check:
        caught(id, prop, tier)
    return True


def caught(id, prop, tier='quick'):
    t = time.time()
    r = sh(f'bash /verif/check.sh {prop} {tier}', '/verif', {'VERIF_REPO': SCR})
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    print(f'  check {prop}: exit {r.returncode} {"CAUGHT" if v and r.returncode == 1 else "MISSED"} {time.time() - t:.0f}s {v[:1]}')
    return bool(v)


def recheck(ids, tier='quick'):
    for id in ids:
        if os.path.isdir(SCR):
            shutil.rmtree(SCR)
        sh(f'cp -a /repo {SCR}', '/')
        sh('git checkout -q -- .', SCR)
        r = sh(f'git apply /verif/seeded/{id}/patch.diff', SCR)
        if r.returncode:
            print(id, 'does not apply', r.stderr[:200])
            continue
        print(id)
        caught(id, json.load(open(f'/verif/seeded/{id}/meta.json'))['property'], tier)


if __name__ == '__main__':
    recheck(sys.argv[1:] or sorted(os.listdir('/verif/seeded')))
