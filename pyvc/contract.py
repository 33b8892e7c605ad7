"""Contracts: what is assumed of and required from one function."""
import z3

from . import types as T
from .values import *
from .containers import *


class A:
    """Actual arguments and ghost values of one call."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Contract:
    target = None            # dotted name in the repository
    name = None              # label in reports
    props = ()               # properties it supports
    params = ()              # names of the parameters, by position
    types = {}               # parameter -> type, for fresh arguments
    hints = ()               # element types of heterogeneous lists
    loops = ()               # invariant candidates: tmpl(contract, E, L) -> [(name, formula)]
    str_mode = 'U'
    result_type = None       # type of the result at call sites (or override result())
    raises = ()              # exception classes a caller must expect
    inline_names = frozenset()
    variants = (None,)
    may_fail = False         # used only as an assumption at call sites (trusted)
    trusted = False
    assumptions = ()
    kwonly = ()

    def __init__(self, variant=None):
        self.variant = variant

    @property
    def label(self):
        n = self.name or self.target
        return n if self.variant is None else '%s[%s]' % (n, self.variant)

    def inline(self, qual):
        return qual in self.inline_names

    # -- verification ------------------------------------------------------
    def install(self, E):
        """Register models of the environment (once per engine)."""

    def world(self, E):
        """Ghost state and external functions, on every path."""

    def fresh_param(self, E, p):
        t = self.types.get(p)
        if t is None:
            raise Unsupported('no type for parameter %s of %s' % (p, self.target))
        return E.fresh(t, p)

    def setup(self, E):
        self.world(E)
        a = A(args=[], kw={}, self_=None)
        for p in self.params:
            v = self.fresh_param(E, p)
            setattr(a, p + '_' if p == 'args' else p, v)
            a.args.append(v)
        for p in self.kwonly:
            v = self.fresh_param(E, p)
            setattr(a, p, v)
            a.kw[p] = v
        return a

    def requires(self, E, a):
        return []

    def begin(self, E, a):
        pass

    def ensures(self, E, a, pre, post, out):
        return []

    def modifies(self, E, a):
        return ()

    def allowed_exc(self, E, a, exc):
        c = exc.cls if exc.cls is not None else exc.upper
        cs = E.real_bases(E.exc_classes(c))
        return any(r in cs for r in self.raises)

    def nested(self, E, f, args, kw):
        """Called for a function that is defined in a function; NotImplemented: inline it."""
        return NotImplemented

    # -- use at call sites -------------------------------------------------
    def actuals(self, E, vals, byname):
        a = A(args=vals)
        for p, v in zip(self.params, vals):
            setattr(a, p + '_' if p == 'args' else p, v)
        for p in self.kwonly:
            setattr(a, p, byname[p])
        return a

    def result(self, E, a):
        if self.result_type is None:
            return None
        return E.fresh(self.result_type, (self.name or self.target).split('.')[-1])

    def outcomes(self, E, a):
        return [('return', None)] + [('raise', c) for c in self.raises]

    def apply(self, E, a):
        for n, f in enumerate(self.requires(E, a)):
            E.prove('%s: precondition %d at a call' % (self.label, n), f)
        pre = E.snapshot()
        a.pre = pre
        outs = self.outcomes(E, a)
        kind, c = outs[E.choose_free(len(outs))] if len(outs) > 1 else outs[0]
        for n in self.modifies(E, a):
            E.havoc_name(n)
        if kind == 'return':
            out = ('return', self.result(E, a))
        else:
            out = ('raise', ExcVal(c, ()) if c is not None else ExcVal(None, (), upper=Exception))
        post = E.snapshot()
        for n, f in self.ensures(E, a, pre, post, out):
            E.assume(f)
        E.assume_or_end(z3.BoolVal(True))
        E.pathnotes.append('%s: %s' % (self.label.split('.')[-1], kind))
        if kind == 'raise':
            raise PyExc(out[1])
        return out[1]
