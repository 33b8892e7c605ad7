"""Verify contracts and report."""
import os
import time
import traceback
from . import types as T
from .engine import Engine
from .repo import Repo
from .values import *


def verify(contract, used, budget=120):
    """Returns a plain dict describing the outcome."""
    T.MODE['str'] = contract.str_mode
    T._memo.clear()
    t0 = time.time()
    repo = Repo()
    cmap = {}
    for c in used:
        k = c() if isinstance(c, type) else c
        cmap[k.target] = k
    E = Engine(repo, cmap, budget)
    res = dict(label=contract.label, target=contract.target, status='ok', why='', obligations={}, failed=[],
               wall=0, assumptions=list(contract.assumptions))
    try:
        contract.install(E)
        for c in cmap.values():
            if hasattr(c, 'install_use'):
                c.install_use(E)
        E.run_contract(contract)
    except Unsupported as e:
        res['status'], res['why'] = 'undecided', 'outside the verified subset: %s' % e
        ln = getattr(E.curnode, 'lineno', None)
        if ln:
            res['why'] += ' [near line %s]' % ln
    except (PyExc, PathEnd, Restart, Brk, Cnt, Ret) as e:
        res['status'], res['why'] = 'undecided', 'control flow escaped: %r %r' % (e, getattr(e, 'exc', ''))
    except RecursionError:
        res['status'], res['why'] = 'undecided', 'recursion too deep'
        if os.environ.get('PYVC_TB'):
            traceback.print_exc()
    except Exception as e:
        res['status'], res['why'] = 'undecided', 'checker error: ' + traceback.format_exc()[-1500:]
    for o in E.obls.values():
        res['obligations'][o.name] = dict(paths=o.paths, failed=len(o.failed), time=round(o.time, 2))
        for why, m in o.failed[:2]:
            res['failed'].append(dict(obligation=o.name, reason=why, model=m[:3000]))
    if res['status'] == 'ok' and res['failed']:
        res['status'] = 'failed'
    if res['status'] == 'ok' and len(res['obligations']) <= 1:
        res['status'], res['why'] = 'undecided', 'no obligations were generated'
    if res['status'] == 'ok' and not E.exits:
        res['status'], res['why'] = 'undecided', 'no exit of the function is reachable under the contract'
    res['unsure'] = E.unsure
    res['assumptions'] += sorted(E.assumptions)
    res['skeletons'] = {m.name: repo.skeleton(m) for m in repo.mods.values() if m is not None and
                        any(q.startswith(m.name + '.') for q in repo.used)}
    res['wall'] = round(time.time() - t0, 2)
    res['stats'] = E.stats
    res['functions'] = dict(repo.used)
    res['used_contracts'] = sorted(E.used_contracts)
    res['inlined'] = sorted(E.inlined)
    return res
