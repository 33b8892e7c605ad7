"""Platform-conditional options (C16)."""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TSeq, TMap, TOpt, TU, TSet, TColl
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract
from .binding import fa

S = T.sort


def bang(E, p):
    return E.truth(E.call(E.getattr(Sym(p, TStr), 'startswith'), ['!']))


def tail(E, p):
    return E.enc(E.getitem(Sym(p, TStr), Slice(1, None, None)), TStr)


class PlatformMatch(Contract):
    target = 'fbuild.builders.platform.platform_match'
    props = ('C16',)
    params = ('platform', 'matcher')
    types = {'platform': TSet(TStr)}
    variants = ('set', 'list')

    def fresh_param(self, E, p):
        if p == 'matcher':
            return E.fresh(TSet(TStr) if self.variant == 'set' else TColl(TStr), p)
        return E.fresh(self.types[p], p)

    def ensures(self, E, a, pre, post, out):
        if out[0] == 'raise':
            return [('returns', z3.BoolVal(False))]
        p = z3.Const('q_p', S(TStr))
        pl, m = E.enc(a.platform, TSet(TStr)), a.matcher.read()
        want = z3.ForAll([p], z3.Implies(z3.Select(m, p), z3.If(bang(E, p), z3.Not(z3.Select(pl, tail(E, p))),
                                                                 z3.Select(pl, p))))
        r = E.truth(out[1])
        return [('applies only when every matcher holds', z3.Implies(r, want) if not isinstance(r, bool) else (want if r else True)),
                ('applies when every matcher holds', z3.Implies(want, r) if not isinstance(r, bool) else (True if r else z3.Not(want)))]


CONTRACTS = [PlatformMatch]
USED = []
