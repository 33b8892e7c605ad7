"""File name patterns (C19): the cache of compiled patterns, matching and filtering.

The translation of a pattern to a regular expression is a function here; what it
matches is checked bounded.
"""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool, TMap
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
Bytes = TU('Bytes', py='bytes')
Regex = TU('Regex', truthy=True)
Matcher = TU('Matcher', truthy=True)
Match = TU('Match', truthy=True)
Q = 'fbuild.fnmatch.'
B = z3.BoolSort()


def fa(vs, f, *pats):
    return z3.ForAll(vs, f, patterns=list(pats))


def fn(name, *a):
    return z3.Function(name, *a)


def translated(p):
    return fn('translated', S(TStr), S(TStr))(p)


def compiled(p):
    return fn('compiled', p.sort(), S(Regex))(p)


def matcher(r):
    return fn('matcher', S(Regex), S(Matcher))(r)


def of_bytes(b):
    return fn('latin1_text', S(Bytes), S(TStr))(b)


def to_bytes(s):
    return fn('latin1_bytes', S(TStr), S(Bytes))(s)


def normed(p):
    return fn('normcase', S(TStr), S(TStr))(p)


def hit(m, n):
    return fn('matches', S(Matcher), S(TStr), B)(m, n)


def regex_of(p):
    if p.sort() == S(TStr):
        return compiled(translated(p))
    return compiled(to_bytes(translated(of_bytes(p))))


class Translate(Contract):
    """What a pattern is translated to depends on the pattern alone."""
    target = Q + 'translate'
    params = ('pat',)
    trusted = True
    assumptions = ('fnmatch.translate gives the regular expression that matches what the pattern denotes (checked bounded)',)

    def apply(self, E, a):
        return Sym(translated(E.enc(a.pat, TStr)), TStr)


class Patterns(Contract):
    props = ('C19',)
    variants = ('text',)

    def install(self, E):
        I = E.intrinsics
        I['os.path.normcase'] = lambda E, a, k: Sym(normed(E.enc(a[0], TStr)), TStr)

        def comp(E, a, k):
            if len(a) != 1 or k:
                raise Unsupported('re.compile with flags')
            ty = E.type_of(a[0])
            return Sym(compiled(E.enc(a[0], ty)), Regex)
        I['re.compile'] = comp
        E.attrs_sym[(Regex.key, 'match')] = lambda E, o: Sym(matcher(o.t), Matcher)

        def call(E, m, a, k):
            if len(a) != 1 or k:
                raise Unsupported('match with bounds')
            if E.branch(hit(m.t, E.enc(a[0], TStr))):
                r = fn('match_of', S(Matcher), S(TStr), S(Match))(m.t, E.enc(a[0], TStr))
                E.assume(r != E.uconst(Match, 'None'))
                return Sym(r, Match)
            return None
        E.methods[(Matcher.key, '__call__')] = call
        for n in ('_cache', '_cacheb'):
            I['global:fbuild.fnmatch.' + n] = lambda E, n=n: self.caches[n]

    def world(self, E):
        self.caches = {'_cache': MDict(E, TStr, Regex, term=E.fresh_term(S(TMap(TStr, Regex)), 'cache')),
                       '_cacheb': MDict(E, Bytes, Regex, term=E.fresh_term(S(TMap(Bytes, Regex)), 'cacheb'))}
        self.names0 = [c.name for c in self.caches.values()]

    def fresh_param(self, E, p):
        if p == 'names':
            self.names = E.fresh(TSeq(TStr), p)
            self.n0 = self.names.read()
            return self.names
        return E.fresh(TStr if self.variant == 'text' or p == 'name' else Bytes, p)

    def ok(self, E):
        out = []
        for ty, c in ((TStr, self.caches['_cache']), (Bytes, self.caches['_cacheb'])):
            p = z3.Const('p!c' + ty.key, S(ty))
            v = z3.Select(c.read(), p)
            out.append(('a cached pattern is its own (%s)' % ty.key, fa(
                [p], z3.Implies(T.is_some(Regex, v), T.val(Regex, v) == regex_of(p)), v)))
        return out

    def requires(self, E, a):
        return [f for _, f in self.ok(E)]

    def modifies(self, E, a):
        return tuple(self.names0)


class CompilePattern(Patterns):
    """_compile_pattern: the matcher of the pattern, whatever is cached."""
    target = Q + '_compile_pattern'
    params = ('pat',)
    variants = ('text', 'bytes')

    def install(self, E):
        super().install(E)

        def text(E, a, k):
            if len(a) == 1 and E.type_of(a[0]) == TStr:
                return a[0]
            if len(a) != 2 or a[1] != 'ISO-8859-1':
                raise Unsupported('str of bytes')
            return Sym(of_bytes(E.enc(a[0], Bytes)), TStr)

        def byt(E, a, k):
            if len(a) != 2 or a[1] != 'ISO-8859-1':
                raise Unsupported('bytes of str')
            return Sym(to_bytes(E.enc(a[0], TStr)), Bytes)
        E.intrinsics['builtins.str'] = text
        E.intrinsics['builtins.bytes'] = byt

    def ensures(self, E, a, pre, post, out):
        if out[0] == 'raise':
            return [('a pattern is compiled', z3.BoolVal(False))]
        p = E.enc(a.pat, TStr if self.variant == 'text' else Bytes)
        return [('the pattern given is matched', E.enc(out[1], Matcher) == matcher(regex_of(p)))] + self.ok(E)

    # at a call site: the cache is that of the caller
    def apply(self, E, a):
        ty = E.type_of(a.pat)
        return Sym(matcher(regex_of(E.enc(a.pat, ty))), Matcher)


class FnmatchCase(Patterns):
    target = Q + 'fnmatchcase'
    params = ('name', 'pat')

    def ensures(self, E, a, pre, post, out):
        if out[0] == 'raise':
            return [('returns', z3.BoolVal(False))]
        r = E.truth(out[1])
        return [('the name is matched against the pattern', E.enc(E.bv(r) if not isinstance(r, bool) else r, TBool) == hit(
            matcher(regex_of(E.enc(a.pat, TStr))), E.enc(a.name, TStr)))]

    def apply(self, E, a):
        return Sym(hit(matcher(regex_of(E.enc(a.pat, TStr))), E.enc(a.name, TStr)), TBool)


class Fnmatch(Patterns):
    """fnmatch: as fnmatchcase after both were case-normalised."""
    target = Q + 'fnmatch'
    params = ('name', 'pat')

    def ensures(self, E, a, pre, post, out):
        if out[0] == 'raise':
            return [('returns', z3.BoolVal(False))]
        r = E.truth(out[1])
        return [('the name is matched against the pattern', E.enc(E.bv(r) if not isinstance(r, bool) else r, TBool) == hit(
            matcher(regex_of(normed(E.enc(a.pat, TStr)))), normed(E.enc(a.name, TStr))))]


class Filter(Patterns):
    """filter keeps the matching names in their order.

    cnt(i) is how many of the first i names match: the only function with its
    three equations, so the list is determined.
    """
    target = Q + 'filter'
    params = ('names', 'pat')
    loops = (lambda c, E, L: c.inv(E, L),)

    def cnt(self, i):
        return fn('matching_before', z3.IntSort(), z3.IntSort())(i)

    def want(self, E, k):
        x = z3.Select(S(TSeq(TStr)).arr(self.n0), k)
        return hit(self.m, x)

    def requires(self, E, a):
        st = S(TSeq(TStr))
        i, j = z3.Ints('i!f j!f')
        self.m = matcher(regex_of(normed(E.enc(a.pat, TStr))))
        x = z3.Select(st.arr(self.n0), i)
        return super().requires(E, a) + [
            # on POSIX there is one spelling of a name
            fa([z3.Const('s!n', S(TStr))], normed(z3.Const('s!n', S(TStr))) == z3.Const('s!n', S(TStr)), normed(z3.Const('s!n', S(TStr)))),
            self.cnt(z3.IntVal(0)) == 0,
            fa([i], z3.Implies(i >= 0, self.cnt(i + 1) == self.cnt(i) + z3.If(hit(self.m, x), 1, 0)), x),
            # cnt grows (a lemma by induction on the equations above)
            fa([i, j], z3.Implies(z3.And(0 <= i, i <= j), z3.And(0 <= self.cnt(i), self.cnt(i) <= self.cnt(j))),
               z3.MultiPattern(self.cnt(i), self.cnt(j)))]

    def kept(self, E, l, upto):
        st = S(TSeq(TStr))
        j = z3.Int('j!k')
        if l.items is not None and not l.items:
            return self.cnt(upto) == 0
        t = l.seq_term(TSeq(TStr))
        x = z3.Select(st.arr(self.n0), j)
        return z3.And(st.len(t) == self.cnt(upto), fa([j], z3.Implies(z3.And(0 <= j, j < upto, hit(self.m, x)), z3.And(
            z3.Select(st.arr(t), self.cnt(j)) == x)), x))

    def inv(self, E, L):
        if L.kind != 'seq':
            return []
        ls = [(n, x) for n, x in sorted(L.env.vars.items()) if isinstance(x, MList) and x.name != self.names.name and not x.coll]
        return [('the matching names so far (%s)' % n, self.kept(E, x, L.i)) for n, x in ls]

    def ensures(self, E, a, pre, post, out):
        if out[0] == 'raise':
            return [('returns', z3.BoolVal(False))]
        l = out[1]
        n = S(TSeq(TStr)).len(self.n0)
        if not isinstance(l, MList) or l.coll:
            return [('a list is returned', z3.BoolVal(False))]
        return [('the matching names in their order', self.kept(E, l, n)),
                ('the given names stay', self.names.read() == self.n0)]


CONTRACTS = [CompilePattern, FnmatchCase, Fnmatch, Filter]
USED = [Translate, CompilePattern, FnmatchCase]
