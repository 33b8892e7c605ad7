"""Runs bounded checks of the real code under PyPy, one forked child per case.

A harness module has CASES: {name: (generator, runner)} where generator(rng,
tier) yields JSON-able parameters and runner(params, scratch) raises Violation.
"""
import faulthandler
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO_LIB = os.environ.get('VERIF_REPO', '/repo') + '/lib'
sys.path.insert(0, REPO_LIB)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


class Violation(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def in_child(fn, timeout=60):
    """Run fn() in a forked child; returns ('ok', value) | ('bad', text) | ('hang', '') | ('died', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            if not os.environ.get('HARNESS_DEBUG'):
                os.dup2(null, 1)
                os.dup2(null, 2)
            try:
                out = ['ok', fn()]
            except Violation as e:
                out = ['bad', str(e)]
            except BaseException:
                out = ['bad', 'unexpected exception\n' + traceback.format_exc()[-3000:]]
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    import select
    chunks, end = [], time.time() + timeout
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        rs, _, _ = select.select([r], [], [], min(left, 1))
        if rs:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    if hang:
        return 'hang', 'no answer within %d s' % timeout
    data = b''.join(chunks)
    if not data:
        return 'died', 'status %d' % status
    k, v = json.loads(data.decode())
    return k, v


def run_case(mod, case, params, timeout=60):
    gen, runner = mod.CASES[case][:2]
    scratch = tempfile.mkdtemp(prefix='fbv-')
    try:
        def go():
            os.chdir(scratch)
            return runner(params, scratch)
        kind, v = in_child(go, timeout)
        if kind != 'ok':
            return '%s: %s' % (kind, v) if kind != 'bad' else v
        return None
    finally:
        subtree_remove(scratch)


def subtree_remove(p):
    for d, ds, fs in os.walk(p):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(p, ignore_errors=True)


def shrink(mod, case, params, timeout):
    """Greedy: drop elements of lists named in the module's SHRINK."""
    keys = getattr(mod, 'SHRINK', ())
    end = time.time() + 20
    best = params
    for key in keys:
        if not isinstance(best, dict) or key not in best:
            continue
        i = len(best[key]) - 1
        while i >= 0 and time.time() < end:
            q = dict(best)
            q[key] = best[key][:i] + best[key][i + 1:]
            try:
                m = run_case(mod, case, q, timeout)
            except Exception:
                m = None
            if m is not None and 'harness' not in m:
                best = q
            i -= 1
    return best


def main():
    """lib.py MODULE CASES SEED TIER BUDGET OUT | lib.py --replay FILE"""
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module(rec['module'])
        m = run_case(mod, rec['case'], rec['params'], rec.get('timeout', 60))
        print(m or 'holds')
        sys.exit(1 if m else 0)
    module, cases, seed, tier, budget, out = sys.argv[1:7]
    mod = importlib.import_module(module)
    res = dict(cases={}, violations=[], errors=[])
    t0 = time.time()
    names = cases.split(',') if cases != '-' else list(mod.CASES)
    share = float(budget) / max(1, len(names))
    for ci, name in enumerate(names):
        rng = random.Random('%s/%s' % (seed, name))
        n, bad = 0, 0
        opts = mod.CASES[name][2] if len(mod.CASES[name]) > 2 else {}
        timeout = opts.get('timeout', 60)
        exhaustive = opts.get('exhaustive', False)
        end = t0 + share * (ci + 1)
        truncated = False
        seen, samples = set(), []
        for params in mod.CASES[name][0](rng, tier):
            if time.time() > end and n >= opts.get('min', 3):
                truncated = True
                break
            n += 1
            key = json.dumps(params, sort_keys=True)
            if len(samples) < 1:
                samples.append(params)
            seen.add(hash(key))
            m = run_case(mod, name, params, timeout)
            if m is not None:
                m2 = run_case(mod, name, params, timeout)     # only what happens again counts
                if m2 is None and not opts.get('racy'):
                    for _ in range(3):
                        m2 = m2 or run_case(mod, name, params, timeout)
                if m2 is None and opts.get('racy'):
                    m2 = m
                if m2 is None:
                    res['errors'].append(dict(case=name, params=params, message=m, note='not repeatable'))
                    continue
                p = shrink(mod, name, params, timeout)
                msg = (run_case(mod, name, p, timeout) or m2) if p is not params else m2
                res['violations'].append(dict(case=name, params=p, message=msg, timeout=timeout))
                bad += 1
                if bad >= 2:
                    break
        res['cases'][name] = dict(run=n, distinct=len(seen), samples=samples, truncated=truncated, wall=round(time.time() - t0, 1))
    res['rule'] = getattr(mod, 'RULE', mod.__doc__)
    res['wall'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(res, f)
    sys.exit(0)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    import lib
    lib.main()
