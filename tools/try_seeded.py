"""try_seeded.py [ID...] [--prop P]: run the property's check on a copy of /repo with each planted change."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.listdir(ROOT + '/seeded'))
for i in ids:
    d = ROOT + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run(['cp', '-a', '/repo/lib', t + '/lib'], check=True)
        subprocess.run(['git', 'init', '-q', t], check=True)
        subprocess.run(['git', '-C', t, 'apply', d + '/patch.diff'], check=True)
        env = dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=t + '/ev')
        r = subprocess.run([sys.executable, ROOT + '/checks/run.py', prop], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        kind = 'MISSED' if not v else 'proof only' if all('no-failing' in x for x in v) else 'input'
        obl = [l.strip()[:200] for l in r.stdout.splitlines() if 'not discharged' in l][:3]
        print(i, prop, 'exit', r.returncode, kind, r.stdout.strip().splitlines()[-1][:100] if r.returncode == 0 else '', obl)
        if os.environ.get('V'):
            print(r.stdout[-3000:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(t)
