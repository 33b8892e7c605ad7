"""plant.py SPEC.py: confirm a planted change and keep it under seeded/.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (text of demo.py).
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
fast = '--fast' in sys.argv
d = os.path.join(ROOT, 'seeded', spec['ID'])
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
os.makedirs(d, exist_ok=True)
open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_util import *\n' + spec['DEMO'])
shutil.copy(ROOT + '/tools/demo_util.py', d + '/demo_util.py')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd is the repository
export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 200 /opt/venv-pypy/bin/python "$here/demo.py"
''')
json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
r = sh('bash %s/demo.sh' % d, cwd='/repo')
print('clean demo', r.returncode)
if r.returncode: print(r.stdout[-3000:])
ok = r.returncode == 0
try:
    for f, a, b in spec['EDITS']:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    diff = sh('git -C /repo diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    # lines of the original repository
    base = '08e0ecb'
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    print('patched demo', r.returncode, r.stdout[-400:])
    ok = ok and r.returncode != 0
    r = sh('bash /opt/vp/build.sh', cwd='/repo')
    print('build', r.returncode, r.stdout[-300:] if r.returncode else '')
    ok = ok and r.returncode == 0
    if not fast:
        r = sh('bash /opt/vp/test.sh /tmp/plant.json', cwd='/repo')
        print(r.stdout[-200:].strip().splitlines()[-1:])
        stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
        res = json.load(open('/tmp/plant.json'))
        passed = set(res.get('passed', []))
        bad = stable - passed
        print('stable tests failing:', sorted(bad)[:5], len(stable), len(passed))
        ok = ok and not bad
finally:
    sh('git -C /repo checkout -- .')
print('KEPT' if ok else 'NOT CONFIRMED', spec['ID'])
if not ok:
    shutil.rmtree(d)
