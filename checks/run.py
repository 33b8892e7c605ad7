"""run.py PROPERTY [--tier quick|thorough]

Decides one property: proves the contracts of the functions in /repo it rests
on and runs the bounded checks of the same functions.  Exit 0 or 1 only.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PYPY = '/opt/venv-pypy/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
CPUS = 8
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')


def run_proc(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode('utf-8', 'replace')


class Pool:
    def __init__(self, n):
        self.sem = threading.Semaphore(n)
        self.ts = []

    def add(self, fn, *args):
        def go():
            with self.sem:
                fn(*args)
        t = threading.Thread(target=go, daemon=True)
        t.start()
        self.ts.append(t)

    def wait(self):
        for t in self.ts:
            t.join()


def prove(item, budget, tmp, results):
    g, name, i = item
    out = os.path.join(tmp, '%s-%s-%d.json' % item)
    r = None
    try:
        for attempt in range(2):
            rc, text = run_proc([VT, os.path.join(HERE, 'prove_worker.py'), g, name, str(i), str(budget), out],
                                budget + 60, cwd=tmp)
            if os.path.exists(out) or rc is None or rc >= 0:
                break                       # otherwise the solver crashed: once more
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            r = dict(status='undecided', why='worker ended (%s): %s' % (rc, text[-1500:]))
    except Exception:
        r = dict(status='undecided', why='worker: ' + traceback.format_exc()[-800:])
    r.setdefault('label', '%s[%d]' % (name, i))
    for k, v in dict(obligations={}, failed=[], functions={}, skeletons={}, stats={}, assumptions=[], wall=0,
                     inlined=[], used_contracts=[], trusted=[], target=name, why='', unsure=False).items():
        r.setdefault(k, v)
    r['item'] = list(item)
    results.append(r)


def bounded(module, cases, seed, tier, budget, tmp, results):
    out = os.path.join(tmp, 'h-%s-%s-%s.json' % (module, cases.replace(',', '+'), seed))
    env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', TMPDIR=tmp)
    r = None
    try:
        rc, text = run_proc([PYPY, 'lib.py', module, cases, str(seed), tier, str(budget), out], budget + 150,
                            env=env, cwd=os.path.join(ROOT, 'harness'))
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            r = dict(cases={}, violations=[], errors=[dict(message='ended (%s): %s' % (rc, text[-1500:]))])
    except Exception:
        r = dict(cases={}, violations=[], errors=[dict(message=traceback.format_exc()[-800:])])
    r.update(module=module, seed=seed)
    results.append(r)


def load(name, default):
    try:
        return json.load(open(os.path.join(ROOT, name)))
    except (OSError, ValueError):
        return default


def changed(r, base):
    """Did the code this contract was proved on change since the baseline?"""
    b = base.get(r['label'])
    if b is None:
        return False                # never proved: nothing can be concluded
    return b['functions'] != r['functions'] or b['skeletons'] != r['skeletons']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-bounded', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    from contracts import registry
    known = load('known_findings.json', {'findings': [], 'fixed': []})
    base = load('contracts/baseline.json', {})
    tmp = tempfile.mkdtemp(prefix='verif-')
    code = 0
    try:
        code = decide(prop, tier, seed, a, registry, known, base, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def decide(prop, tier, seed, a, registry, known, base, tmp, t0):
    thorough = tier == 'thorough'
    pbudget = 700 if thorough else 240
    hbudget = registry.BUDGET.get(prop, 40)
    if thorough:
        hbudget = 600
    err = None
    items = []
    if not a.no_proof:
        try:
            rc, text = run_proc([VT, '-c', 'import sys,json; sys.path.insert(0,%r); sys.dont_write_bytecode=True\n'
                                 'from contracts import registry\nprint(json.dumps(registry.contracts_for(%r)))'
                                 % (ROOT, prop)], 60, cwd=tmp)
            items = [tuple(x) for x in json.loads(text.strip().splitlines()[-1])]
        except Exception:
            err = 'listing the contracts failed: ' + traceback.format_exc()[-500:]
    weight = lambda it: -base.get('%s/%s/%d' % it, {}).get('wall', 0)
    items.sort(key=weight)
    proofs, runs = [], []
    pool = Pool(CPUS)
    hs = [] if a.no_bounded else registry.HARNESS.get(prop, [])
    for module, cases, n in hs:
        for k in range(n * (2 if thorough else 1)):
            pool.add(bounded, module, cases, '%d.%d' % (seed, k), tier, hbudget, tmp, runs)
    for it in items:
        pool.add(prove, it, pbudget, tmp, proofs)
    pool.wait()

    failed, undecided = [], []
    for r in proofs:
        r['alarm'] = False
        if r['status'] == 'failed':
            definite = not r['unsure'] and any(f['reason'] in ('sat', 'reachable') for f in r['failed'])
            if definite or changed(r, base):
                r['alarm'] = True
                failed.append(r)
            else:
                undecided.append(r)
        elif r['status'] != 'ok':
            undecided.append(r)

    def is_known(v):
        for f in known['findings']:
            if f['property'] == prop and f.get('case') == v['case'] and f.get('match') and f['match'] in v['message']:
                return f
        return None

    viols = [(r, v) for r in runs for v in r['violations']]
    fresh = [(r, v) for r, v in viols if not is_known(v)]
    if failed and not fresh and hs:
        # look longer for an input that shows the failed obligation
        more = []
        pool = Pool(CPUS)
        per = max(1, CPUS // max(1, len(hs)))
        for module, cases, n in hs:
            for k in range(per):
                pool.add(bounded, module, cases, '%d.s%d' % (seed, k), tier, 90 if not thorough else 300, tmp, more)
        pool.wait()
        runs += more
        viols = [(r, v) for r in runs for v in r['violations']]
        fresh = [(r, v) for r, v in viols if not is_known(v)]

    for f in known['findings']:
        if f['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    lines, nv = [], 0
    rdir = os.path.join(EVIDENCE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    if fresh:
        for x in failed:
            for o in x['failed'][:3]:
                print('  %s: obligation not discharged: %s (%s)' % (x['label'], o['obligation'], o['reason']))
        for n, (r, v) in enumerate(fresh[:3]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, module=r['module'], case=v['case'], params=v['params'],
                               timeout=v.get('timeout', 60), message=v['message'],
                               replay='cd /verif/harness && %s lib.py --replay %s' % (PYPY, path),
                               failed_obligations=[dict(contract=x['label'], failed=x['failed'][:5]) for x in failed]),
                          f, indent=1)
            print('  %s: %s' % (v['case'], v['message'][:1500].replace('\n', '\n    ')))
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif failed:
        for n, x in enumerate(failed[:3]):
            path = os.path.join(rdir, '%s-proof-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, contract=x['label'], target=x['target'], failed=x['failed'],
                               solver=x['stats'], functions=x['functions'],
                               replay='cd /tmp && python3-vt /verif/checks/prove_worker.py %s %s %d 300 /tmp/out.json'
                               % tuple(x['item'])), f, indent=1)
            for o in x['failed'][:4]:
                print('  %s: obligation not discharged: %s (%s)' % (x['label'], o['obligation'], o['reason']))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    nv = len(lines)
    for l in lines:
        print(l)

    write_evidence(prop, tier, seed, proofs, runs, undecided, err, nv, t0, registry)
    return 1 if nv else 0


def write_evidence(prop, tier, seed, proofs, runs, undecided, err, nv, t0, registry):
    obl = sum(len(r['obligations']) for r in proofs)
    bad = 0
    for r in proofs:
        if r['status'] == 'ok':
            continue
        f = [n for n, o in r['obligations'].items() if o['failed']]
        bad += len(f) if r['status'] == 'failed' else len(r['obligations'])
    assumptions = sorted({x for r in proofs for x in r['assumptions']} |
                         {'trusted contract: ' + x for r in proofs for x in r['trusted']} |
                         set(registry.ASSUMPTIONS.get(prop, ())) | set(registry.GENERAL_ASSUMPTIONS if proofs else ()))
    cases = {}
    for r in runs:
        for n, c in r['cases'].items():
            d = cases.setdefault('%s.%s' % (r['module'], n), dict(cases=0, distinct=0, seeds=[], truncated=False,
                                                                  sample=None))
            d['cases'] += c['run']
            d['distinct'] += c['distinct']
            if d['sample'] is None and c['samples'] and len(json.dumps(c['samples'][0])) < 4000:
                d['sample'] = c['samples'][0]
            d['seeds'].append(r['seed'])
            d['truncated'] = d['truncated'] or c['truncated']
    ev = dict(
        property=prop, tier=tier, seed=seed, level=registry.LEVEL.get(prop, 'proof' if proofs else 'exploration'),
        coverage=dict(
            obligations=obl, discharged=obl - bad,
            obligation_failures=[dict(contract=r['label'], why=r['why'], failed=[f['obligation'] for f in r['failed']])
                                 for r in proofs if r['status'] != 'ok'],
            checker_cmd='python3-vt checks/prove_worker.py GROUP CONTRACT VARIANT BUDGET OUT',
            trusted_base=['pyvc: generation of verification conditions from the syntax tree of /repo (Python semantics '
                          'of the supported subset)', 'z3 (python binding of python3-vt)'] +
            sorted({'contract assumed, not proved: ' + x for r in proofs for x in r['trusted']}),
            functions_under_contract=[dict(
                contract=r['label'], function=r['target'], status=r['status'], why=r['why'][:300],
                obligations=sorted(r['obligations']), paths=r['stats'].get('paths'), seconds=r['wall'],
                solver_seconds=round(r['stats'].get('solver_time', 0), 2), back_end='z3',
                inlined=r['inlined'], callee_contracts=r['used_contracts']) for r in sorted(proofs, key=lambda r: r['label'])],
            solver_seconds=round(sum(r['stats'].get('solver_time', 0) for r in proofs), 1),
            bounded=dict(note='bounded checks of the running code, never counted as proved', cases=cases,
                         not_repeatable=[e.get('message', '')[:300] for r in runs for e in r['errors']][:10]),
            undecided=[dict(contract=r['label'], why=r['why'][:500] or 'solver gave no answer') for r in undecided] +
            ([dict(contract='*', why=err)] if err else []),
        ),
        assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=nv)
    ev['coverage'].update(registry.COVERAGE.get(prop, {}))
    if ev['level'] == 'exploration':
        ev['coverage'].update(
            evaluations=sum(c['cases'] for c in cases.values()),
            distinct_nontrivial=sum(c['distinct'] for c in cases.values()),
            rule='; '.join(sorted({str(r.get('rule')) for r in runs})),
            samples=[c['sample'] for c in cases.values() if c['sample'] is not None] or ['none small enough to print'])
    p = EVIDENCE
    os.makedirs(p, exist_ok=True)
    with open(os.path.join(p, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d/%d obligations, %d undecided, %d bounded cases, %.0f s' % (
        prop, len(proofs), obl - bad, obl, len(undecided), sum(c['cases'] for c in cases.values()), time.time() - t0))
    for r in undecided:
        print('  undecided: %s: %s %s' % (r['label'], r['why'][:600], [f['obligation'] for f in r['failed']][:4]))
    for r in runs:
        for e in r['errors'][:2]:
            print('  bounded: %s' % e.get('message', '')[:600])


if __name__ == '__main__':
    main()
