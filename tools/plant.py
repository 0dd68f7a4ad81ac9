"""Plant a bug: make the patch, confirm the demonstration and the tests, show what the checks say.

    from plant import plant
    plant('c04-prefix', 'C04', [(file, old, new), ...], demo, needs, breaks)
"""
import json
import os
import shutil
import subprocess
import sys

SEEDED = '/verif/seeded/'
LIB = os.path.join(os.path.dirname(__file__), 'plant_lib.py')
SH = ('#!/bin/bash\n'
      'cd "${REPO:-$PWD}" || exit 2\n'
      'exec env PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo_rc(d):
    tmp = '/tmp/plant/demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for f in ('demo.sh', 'demo.py', 'lib.py'):
        shutil.copy(d + f, tmp)
    r = sh('bash /tmp/plant/demo/demo.sh', cwd='/repo', timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-2:]


def plant(name, prop, edits, demo, needs, breaks, checks=None):
    d = SEEDED + name + '/'
    os.makedirs(d, exist_ok=True)
    open(d + 'demo.py', 'w').write(demo.lstrip())
    shutil.copy(LIB, d + 'lib.py')
    open(d + 'demo.sh', 'w').write(SH.replace('cd "${REPO:-$PWD}" || exit 2\n', ''))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + 'meta.json', 'w'), indent=1)
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty /repo'
    rc0, out0 = demo_rc(d)
    try:
        for f, a, b in edits:
            p = '/repo/src/oidcrp/' + f
            s = open(p).read()
            assert s.count(a) == 1, (name, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + 'patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        rc1, out1 = demo_rc(d)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant/o.json 2>&1 | tail -1').stdout.strip()
        print(name, '| demo', rc0, '->', rc1, '| build', b.returncode, '|', t, flush=True)
        if rc0 or not rc1:
            print('   BAD DEMO', out0, out1)
        else:
            print('   ', out1[-1:])
        for pr in (checks or [prop]):
            r = subprocess.run(['python3-vt', 'check.py', pr], cwd='/verif', capture_output=True, text=True)
            out = [x for x in r.stdout.splitlines() if 'VIOLATION' in x][:2]
            print('   ', pr, 'exit', r.returncode, out or r.stdout.splitlines()[-1:], flush=True)
    finally:
        sh('git -C /repo checkout -q -- .')
