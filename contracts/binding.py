"""Argument binding (C05): normalize_args and bind_args of fbuild.functools.

What a Python call does is written down once, in `Sig`, from the language
reference; `inspect.getfullargspec`, `inspect.ismethod` and the code object's
count of positional-only parameters are assumed to describe the function.
"""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TSeq, TMap, TOpt, TU
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

Val = TU('Val')
S = T.sort
VSEQ, NAMES, VMAP = TSeq(Val, tup=True), TSeq(TStr), TMap(TStr, Val)


def fa(vs, body, pats=()):
    # only ground-free terms without if or arithmetic can serve as patterns
    if pats:
        try:
            return z3.ForAll(vs, body, patterns=list(pats))
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def named(E, t):
    c = E.fresh_term(t.sort(), 'res')
    E.assume(c == t)
    return c


def arr(s, i):
    return z3.Select(S(VSEQ).arr(s), i)


def name(s, i):
    return z3.Select(S(NAMES).arr(s), i)


def vlen(s):
    return S(VSEQ).len(s)


def has(m, k):
    return T.is_some(Val, z3.Select(m, k))


def get(m, k):
    return T.val(Val, z3.Select(m, k))


def opt(m, k):
    return z3.Select(m, k)


class Sig:
    """The signature of the function and what Python makes of a call of it."""

    def __init__(self, E, method, defaults, kwdefaults, code):
        c = z3.Const
        self.E = E
        self.method = method
        self.off = 1 if method else 0
        self.all = c('sig_args', S(NAMES))
        self.kwonly = c('sig_kwonly', S(NAMES))
        self.varargs = c('sig_varargs', S(TOpt(TStr)))
        self.varkw = c('sig_varkw', S(TOpt(TStr)))
        self.defaults = c('sig_defaults', S(VSEQ)) if defaults else None
        self.kwdef = c('sig_kwdefaults', S(VMAP)) if kwdefaults else None
        self.po_all = z3.Int('sig_posonly') if code else z3.IntVal(0)
        self.pos = z3.Function('sig_pos', S(TStr), z3.IntSort())     # index of a positional parameter
        self.kpos = z3.Function('sig_kpos', S(TStr), z3.IntSort())   # index of a keyword-only one
        self.np = S(NAMES).len(self.all) - self.off
        self.nk = S(NAMES).len(self.kwonly)
        self.nd = vlen(self.defaults) if defaults else z3.IntVal(0)
        self.po = z3.If(self.po_all - self.off > 0, self.po_all - self.off, 0)
        i = z3.Int('q_i')
        A = E.assume
        A(z3.And(self.np >= 0, self.nk >= 0, self.nd >= 0, self.nd <= self.np + self.off,
                 self.po_all >= 0, self.po_all <= self.np + self.off))
        # the names of the parameters are distinct
        A(fa([i], z3.Implies(z3.And(0 <= i, i < self.np + self.off), z3.And(
            self.pos(name(self.all, i)) == i - self.off, self.kpos(name(self.all, i)) == -1)),
            pats=[name(self.all, i)]))
        A(fa([i], z3.Implies(z3.And(0 <= i, i < self.nk), z3.And(
            self.kpos(name(self.kwonly, i)) == i, self.pos(name(self.kwonly, i)) == -9)),
            pats=[name(self.kwonly, i)]))
        for v in (self.varargs, self.varkw):
            A(z3.Implies(T.is_some(TStr, v), z3.And(self.pos(T.val(TStr, v)) == -9, self.kpos(T.val(TStr, v)) == -9)))
        A(z3.Implies(z3.And(T.is_some(TStr, self.varargs), T.is_some(TStr, self.varkw)), self.varargs != self.varkw))

    def P(self, j):
        return name(self.all, z3.simplify(j + self.off))

    def K(self, j):
        return name(self.kwonly, j)

    def is_pos(self, k):
        """k names a positional parameter"""
        return z3.And(0 <= self.pos(k), self.pos(k) < self.np, self.P(self.pos(k)) == k)

    def is_named(self, k):
        """k names a positional parameter that may be given by keyword"""
        return z3.And(self.is_pos(k), self.pos(k) >= self.po)

    def is_kwonly(self, k):
        return z3.And(0 <= self.kpos(k), self.kpos(k) < self.nk, self.K(self.kpos(k)) == k)

    def has_varargs(self):
        return T.is_some(TStr, self.varargs)

    def has_varkw(self):
        return T.is_some(TStr, self.varkw)

    def has_kwdef(self, k):
        return has(self.kwdef, k) if self.kwdef is not None else z3.BoolVal(False)

    def by_keyword(self, kw, j):
        return z3.And(j >= self.po, has(kw, self.P(j)))

    def given(self, args, kw, j):
        """Value of positional parameter j."""
        d = arr(self.defaults, j - (self.np - self.nd)) if self.defaults is not None else arr(args, j)
        return z3.If(j < vlen(args), arr(args, j), z3.If(self.by_keyword(kw, j), get(kw, self.P(j)), d))

    def given_kw(self, kw, k):
        """Value of the keyword-only parameter k."""
        d = get(self.kwdef, k) if self.kwdef is not None else get(kw, k)
        return z3.If(has(kw, k), get(kw, k), d)

    # what Python rejects, each with a TypeError
    def too_many(self, args):
        return z3.And(z3.Not(self.has_varargs()), vlen(args) > self.np)

    def twice_at(self, args, kw, j):
        return z3.And(0 <= j, j < self.np, j < vlen(args), self.by_keyword(kw, j))

    def missing_at(self, args, kw, j):
        return z3.And(0 <= j, j < self.np, j >= vlen(args), z3.Not(self.by_keyword(kw, j)), j < self.np - self.nd)

    def missing_kw_at(self, kw, j):
        return z3.And(0 <= j, j < self.nk, z3.Not(has(kw, self.K(j))), z3.Not(self.has_kwdef(self.K(j))))

    def unknown_at(self, kw, k):
        return z3.And(z3.Not(self.has_varkw()), has(kw, k), z3.Not(self.is_named(k)), z3.Not(self.is_kwonly(k)))

    def rejected(self, args, kw):
        j, k = z3.Int('q_j'), z3.Const('q_k', S(TStr))
        return z3.Or(self.too_many(args), z3.Exists([j], self.twice_at(args, kw, j)),
                     z3.Exists([j], self.missing_at(args, kw, j)), z3.Exists([j], self.missing_kw_at(kw, j)),
                     z3.Exists([k], self.unknown_at(kw, k)))

    def accepted(self, args, kw):
        """The negation of rejected, clause by clause: [(name, formula)]"""
        j, k = z3.Int('q_j'), z3.Const('q_k', S(TStr))
        return [('not too many positional arguments', z3.Not(self.too_many(args))),
                ('no argument is given twice', fa([j], z3.Not(self.twice_at(args, kw, j)), pats=[self.P(j)])),
                ('no positional parameter is missing', fa([j], z3.Not(self.missing_at(args, kw, j)), pats=[self.P(j)])),
                ('no keyword-only parameter is missing', fa([j], z3.Not(self.missing_kw_at(kw, j)), pats=[self.K(j)])),
                ('no keyword is unknown', fa([k], z3.Not(self.unknown_at(kw, k)), pats=[opt(kw, k)]))]


def install(E):
    E.ufun_vt = None
    vt = z3.Function('vtuple', S(VSEQ), S(Val))
    vd = z3.Function('vdict', S(VMAP), S(Val))
    E.vt_len = z3.Function('vt_len', S(Val), z3.IntSort())
    E.vt_at = z3.Function('vt_at', S(Val), z3.IntSort(), S(Val))
    E.vd_map = z3.Function('vd_map', S(Val), S(VMAP))

    def encc(E, v):
        if isinstance(v, tuple) or isinstance(v, MList) and v.py == 'tuple':
            t = E.enc(v, VSEQ)
            i = z3.Int('q_i')
            r = vt(t)
            E.assume(z3.And(E.vt_len(r) == vlen(t), fa([i], E.vt_at(r, i) == arr(t, i), pats=[E.vt_at(r, i)])))
            return r
        if isinstance(v, MDict):
            t = E.enc(v, VMAP)
            E.assume(E.vd_map(vd(t)) == t)
            return vd(t)
        return None
    E.isinst[('encc', 'Val')] = encc

    def pop(E, o, a, k):
        m = E.vd_map(o.t)
        E.prove('a key popped from the keywords is not there', z3.Not(has(m, E.enc(a[0], TStr))))
        return a[1]
    E.methods[('UVal', 'pop')] = pop


class Binding(Contract):
    props = ('C05',)
    params = ('function', 'args', 'kwargs')
    variants = tuple('%s%s%s%s' % (m, d, k, c) for m, d, k, c in (
        ('function', ',defaults', ',kwdefaults', ''), ('method', ',defaults', ',kwdefaults', ''),
        ('function', '', '', ''), ('method', '', '', ''), ('function', ',defaults', ',kwdefaults', ',nocode')))
    raises = (TypeError,)
    assumptions = (
        'inspect.getfullargspec, inspect.ismethod and __code__.co_posonlyargcount describe the signature of the function',
        'a method has a named first parameter, which the bound object takes',
        'the keyword __FBUILD_INNER that fbuild decorators pass on is not among the keywords',
    )

    def install(self, E):
        install(E)

    install_use = install

    def world(self, E):
        v = self.variant
        g = Sig(E, v.startswith('method'), ',defaults' in v, ',kwdefaults' in v, 'nocode' not in v)
        E.ghost = g

        def getfullargspec(E, a, k):
            i = E.new_inst('FullArgSpec')
            i.attrs.update(args=E.dec(g.all, NAMES), kwonlyargs=E.dec(g.kwonly, NAMES),
                           varargs=Sym(g.varargs, TOpt(TStr)), varkw=Sym(g.varkw, TOpt(TStr)),
                           defaults=None if g.defaults is None else E.dec(g.defaults, VSEQ),
                           kwonlydefaults=None if g.kwdef is None else E.dec(g.kwdef, VMAP))
            for n in ('varargs', 'varkw'):
                i.attrs[n] = E.dec(i.attrs[n].t, TOpt(TStr))
            return i
        E.intrinsics['inspect.getfullargspec'] = getfullargspec
        E.intrinsics['inspect.ismethod'] = lambda E, a, k: g.method

    def fresh_param(self, E, p):
        if p == 'function':
            f = E.new_inst('function')
            f.attrs.update(__module__=E.fresh(TStr, 'module'), __name__=E.fresh(TStr, 'name'))
            if 'nocode' not in self.variant:
                c = E.new_inst('code')
                c.attrs['co_posonlyargcount'] = Sym(E.ghost.po_all, TInt)
                f.attrs['__code__'] = c
            return f
        return E.fresh({'args': VSEQ, 'kwargs': VMAP}[p], p)

    def begin(self, E, a):
        a.args0, a.kw0 = E.enc(a.args[1], VSEQ), E.enc(a.args[2], VMAP)
        E.assume(vlen(a.args0) >= 0)
        E.assume(z3.Not(has(a.kw0, E.lit('__FBUILD_INNER'))))
        self.a0, self.k0 = a.args0, a.kw0

    def kwargs_left(self, g, k0, s):
        """s is a keyword that goes to the double-star parameter"""
        return z3.And(has(k0, s), z3.Not(g.is_named(s)), z3.Not(g.is_kwonly(s)))


def is_norm(E, g, a0, k0, t, d):
    """(t, d) are the normalised arguments: [(name, formula)]"""
    m = vlen(a0)
    j, s = z3.Int('q_j'), z3.Const('q_k', S(TStr))
    left = z3.And(g.has_varkw(), has(k0, s), z3.Not(g.is_named(s)), z3.Not(g.is_kwonly(s)))
    return [
        ('number of positional values', vlen(t) == z3.If(m > g.np, m, g.np)),
        ('each positional parameter has its value', fa([j], z3.Implies(
            z3.And(0 <= j, j < g.np), arr(t, j) == g.given(a0, k0, j)), pats=[arr(t, j)])),
        ('extra positional arguments are kept in order', fa([j], z3.Implies(
            z3.And(g.np <= j, j < m), arr(t, j) == arr(a0, j)), pats=[arr(t, j)])),
        ('keyword-only parameters and extra keywords', fa([s], opt(d, s) == z3.If(
            g.is_kwonly(s), T.some(Val, g.given_kw(k0, s)), z3.If(left, opt(k0, s), T.none(Val))), pats=[opt(d, s)]))]


class NormalizeArgs(Binding):
    target = 'fbuild.functools.normalize_args'

    def loop(self, E, L):
        g, a0, k0 = E.ghost, self.a0, self.k0
        out = []
        j, s = z3.Int('q_j'), z3.Const('q_k', S(TStr))
        lists = [v for v in L.locals.values() if isinstance(v, MList) and v.items is None and v.a == Val]
        dicts = [v for v in L.locals.values() if isinstance(v, MDict) and v.items is None and v.v == Val]
        if L.kind == 'seq':
            i = L.i
            for n, v in enumerate(lists):
                t = v.read()
                out.append(('values so far', fa([j], z3.Implies(
                    z3.And(0 <= j, j < i), arr(t, j) == g.given(a0, k0, j)), pats=[arr(t, j)])))
            c1, c2 = z3.And(g.is_named(s), g.pos(s) < i), z3.And(g.is_kwonly(s), g.kpos(s) < i)
            out.append(('none twice so far', fa([j], z3.Implies(j < i, z3.Not(g.twice_at(a0, k0, j))), pats=[g.P(j)])))
            out.append(('none missing so far', fa([j], z3.Implies(j < i, z3.Not(g.missing_at(a0, k0, j))), pats=[g.P(j)])))
            out.append(('no keyword missing so far', fa([j], z3.Implies(
                j < i, z3.Not(g.missing_kw_at(k0, j))), pats=[g.K(j)])))
            for n, v in enumerate(dicts):
                t = v.read()
                out.append(('taken%d' % n, fa([s], opt(t, s) == z3.If(c1, T.none(Val), opt(k0, s)), pats=[opt(t, s)])))
                out.append(('takenkw%d' % n, fa([s], opt(t, s) == z3.If(
                    z3.Or(g.is_named(s), c2), T.none(Val), opt(k0, s)), pats=[opt(t, s)])))
                out.append(('bound%d' % n, fa([s], opt(t, s) == z3.If(
                    c2, T.some(Val, g.given_kw(k0, s)), T.none(Val)), pats=[opt(t, s)])))
        else:
            out.append(('nothing passes', fa([s], z3.Not(z3.Select(L.D, s)))) if L.ety == TStr else ('-', z3.BoolVal(True)))
        return out

    loops = (lambda c, E, L: c.loop(E, L),)

    def ensures(self, E, a, pre, post, out):
        g = E.ghost
        a0, k0 = a.args0, a.kw0
        if out[0] == 'raise':
            return [('only what Python rejects is rejected', g.rejected(a0, k0))]
        t, d = out[1]
        t, d = named(E, E.enc(t, VSEQ)), named(E, E.enc(d, VMAP))
        return g.accepted(a0, k0) + is_norm(E, g, a0, k0, t, d)

    # at call sites
    def apply(self, E, a):
        g = E.ghost
        a0, k0 = E.enc(a.args[1], VSEQ), E.enc(a.args[2], VMAP)
        E.prove('normalize_args: the keywords hold no __FBUILD_INNER', z3.Not(has(k0, E.lit('__FBUILD_INNER'))))
        if E.choose_free(2):
            E.assume_or_end(g.rejected(a0, k0))
            raise PyExc(ExcVal(TypeError))
        t, d = E.fresh(VSEQ, 'norm_args'), E.fresh(VMAP, 'norm_kwargs')
        for n, f in g.accepted(a0, k0) + is_norm(E, g, a0, k0, E.enc(t, VSEQ), E.enc(d, VMAP)):
            E.assume(f)
        return (t, d)


class BindArgs(Binding):
    target = 'fbuild.functools.bind_args'

    def loop(self, E, L):
        g, a0, k0 = E.ghost, self.a0, self.k0
        if L.kind != 'seq':
            return []
        i = L.i
        out = []
        s = z3.Const('q_k', S(TStr))
        for n, v in enumerate(v for v in L.locals.values() if isinstance(v, MDict) and v.items is None and v.v == Val):
            t = v.read()
            done = z3.And(g.is_pos(s), g.pos(s) < i)
            out.append(('positional%d' % n, fa([s], opt(t, s) == z3.If(
                done, T.some(Val, g.given(a0, k0, g.pos(s))), T.none(Val)), pats=[opt(t, s)])))
            va = z3.And(g.has_varargs(), s == T.val(TStr, g.varargs))
            out.append(('kwonly%d' % n, fa([s], z3.Implies(z3.Not(va), opt(t, s) == z3.If(
                g.is_pos(s), T.some(Val, g.given(a0, k0, g.pos(s))), z3.If(
                    z3.And(g.is_kwonly(s), g.kpos(s) < i), T.some(Val, g.given_kw(k0, s)), T.none(Val)))),
                pats=[opt(t, s)])))
            old = [x for x in L.pre_locals.items() if L.locals.get(x[0]) is v]
            if old and isinstance(old[0][1], Sym):
                p = old[0][1].t
                out.append(('star%d' % n, fa([s], z3.Implies(va, opt(t, s) == opt(p, s)), pats=[opt(t, s)])))
            left = z3.And(g.has_varkw(), has(k0, s), z3.Not(g.is_named(s)), z3.Not(g.is_kwonly(s)))
            out.append(('rest%d' % n, fa([s], opt(t, s) == z3.If(
                z3.And(g.is_kwonly(s), g.kpos(s) >= i), T.some(Val, g.given_kw(k0, s)),
                z3.If(left, opt(k0, s), T.none(Val))), pats=[opt(t, s)])))
        return out

    loops = (lambda c, E, L: c.loop(E, L),)

    def ensures(self, E, a, pre, post, out):
        g = E.ghost
        a0, k0 = a.args0, a.kw0
        if out[0] == 'raise':
            return [('only what Python rejects is rejected', g.rejected(a0, k0))]
        d = named(E, E.enc(out[1], VMAP))
        m = vlen(a0)
        j, s = z3.Int('q_j'), z3.Const('q_k', S(TStr))
        va, vk = T.val(TStr, g.varargs), T.val(TStr, g.varkw)
        left = z3.And(has(k0, s), z3.Not(g.is_named(s)), z3.Not(g.is_kwonly(s)))
        star = get(d, va)
        return g.accepted(a0, k0) + [
            ('every positional parameter is bound to its value', fa([j], z3.Implies(
                z3.And(0 <= j, j < g.np), opt(d, g.P(j)) == T.some(Val, g.given(a0, k0, j))))),
            ('every keyword-only parameter is bound to its value', fa([j], z3.Implies(
                z3.And(0 <= j, j < g.nk), opt(d, g.K(j)) == T.some(Val, g.given_kw(k0, g.K(j)))))),
            ('the star parameter holds the extra positional arguments', z3.Implies(g.has_varargs(), z3.And(
                has(d, va), E.vt_len(star) == z3.If(m > g.np, m - g.np, 0), fa([j], z3.Implies(
                    z3.And(0 <= j, j < m - g.np), E.vt_at(star, j) == arr(a0, j + g.np)))))),
            ('the double-star parameter holds the extra keywords', z3.Implies(g.has_varkw(), z3.And(
                has(d, vk), fa([s], opt(E.vd_map(get(d, vk)), s) == z3.If(left, opt(k0, s), T.none(Val)))))),
            ('nothing else is bound', fa([s], z3.Implies(has(d, s), z3.Or(
                g.is_pos(s), g.is_kwonly(s), z3.And(g.has_varargs(), s == va), z3.And(g.has_varkw(), s == vk)))))]

    inline_names = frozenset({'fbuild.functools.unwrap'})


CONTRACTS = [NormalizeArgs, BindArgs]
USED = [NormalizeArgs]
