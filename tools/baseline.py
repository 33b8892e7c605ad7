"""Writes contracts/baseline.json: results of every proof on the unchanged tree (run on a clean /repo)."""
import json, os, sys, tempfile, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, 'checks'))
import run
def main():
    rc, text = run.run_proc([run.VT, '-c', 'import sys,json; sys.path.insert(0,%r); sys.dont_write_bytecode=True\n'
                             'from contracts import registry\n'
                             'print(json.dumps([(g,c.__name__,i) for g,(cs,u) in registry.groups().items() for c in cs if not c.trusted for i in range(len(c.variants))]))' % ROOT], 60, cwd='/tmp')
    items = [tuple(x) for x in json.loads(text.strip().splitlines()[-1])]
    path = os.path.join(ROOT, 'contracts', 'baseline.json')
    old = json.load(open(path)) if os.path.exists(path) else {}
    only = sys.argv[1:]
    if only:
        items = [i for i in items if i[0] in only or i[1] in only]
    tmp = tempfile.mkdtemp()
    res = []
    pool = run.Pool(8)
    for it in items:
        pool.add(run.prove, it, 600, tmp, res)
    pool.wait()
    out = dict(old) if only else {}
    for r in sorted(res, key=lambda r: r['label']):
        print(r['label'], r['status'], r['wall'], r['why'][:300], [(f['obligation'], f['reason']) for f in r['failed']][:5])
        if r['status'] == 'ok':
            out[r['label']] = dict(functions=r['functions'], skeletons=r['skeletons'])
        else:
            out.pop(r['label'], None)
        out['%s/%s/%d' % tuple(r['item'])] = dict(wall=round(r['wall']))
    json.dump(out, open(path, 'w'), indent=1, sort_keys=True)
main()
