"""prove_worker.py GROUP CLASS VARIANT BUDGET OUT: verify one contract."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


def main():
    group, name, variant, budget, out = sys.argv[1:6]
    from contracts import registry
    from pyvc.verify import verify
    c, used = registry.find(group, name)
    r = verify(c(c.variants[int(variant)]), used, budget=float(budget))
    r['trusted'] = sorted(k.target for k in used if k.trusted and k.target in r['used_contracts'])
    with open(out, 'w') as f:
        json.dump(r, f)


main()
