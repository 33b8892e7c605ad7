"""Path rewriting (C20), over the string theory of the solver.

os.path.join, split and splitext are given by what they are documented to do
on POSIX systems; every word of them is a definition over strings here.
"""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool, TMap
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
St = z3.StringSort()
SL = z3.StringVal('/')


def lit(s):
    return z3.StringVal(s)


def joined(a, b):
    return z3.If(z3.PrefixOf(SL, b), b, z3.If(z3.Or(a == lit(''), z3.SuffixOf(SL, a)), z3.Concat(a, b), z3.Concat(a, SL, b)))


def jn(a, b):
    """joined, as a name"""
    return z3.Function('jn', St, St, St)(a, b)


def fold(i):
    return z3.Function('fold', z3.IntSort(), St)(i)


def fold_list(b, s):
    return z3.Function('fold_list', St, S(TSeq(TStr)), St)(b, s)


def f(name, *a):
    return z3.Function(name, *([x.sort() for x in a] + [St]))(*a)


def split(E, p):
    """(head, tail) of p, with what defines them"""
    pre, tail, head, sl = f('pre', p), f('tail', p), f('head', p), f('slashes', p)
    E.assume(z3.And(
        p == z3.Concat(pre, tail), z3.Not(z3.Contains(tail, SL)), z3.Or(pre == lit(''), z3.SuffixOf(SL, pre)),
        z3.If(z3.InRe(pre, z3.Star(z3.Re('/'))), head == pre, z3.And(
            pre == z3.Concat(head, sl), z3.InRe(sl, z3.Plus(z3.Re('/'))), z3.Not(z3.SuffixOf(SL, head)), head != lit('')))))
    return head, tail


def splitext(E, p):
    """(everything before the extension, extension): the last dot of the last component begins the extension
    unless only dots precede it there"""
    head, tail = split(E, p)
    pre, root, ext, lead, mid = f('pre', p), f('root', p), f('ext', p), f('dots', p), f('middle', p)
    body = f('body', p)
    E.assume(z3.And(
        tail == z3.Concat(lead, body), z3.InRe(lead, z3.Star(z3.Re('.'))), z3.Not(z3.PrefixOf(lit('.'), body)),
        z3.If(z3.Contains(body, lit('.')),
              z3.And(body == z3.Concat(mid, ext), z3.PrefixOf(lit('.'), ext), z3.Not(z3.Contains(z3.SubString(
                  ext, 1, z3.Length(ext) - 1), lit('.')))),
              z3.And(mid == body, ext == lit(''))),
        root == z3.Concat(pre, lead, mid)))
    return root, ext


class PathContract(Contract):
    props = ('C20',)
    str_mode = 'S'
    variants = ('Path', 'str')
    assumptions = ('os.path.join, split, splitext and isabs are as documented for POSIX',)

    def cls(self, E):
        return E.global_value(E.repo.module('fbuild.path'), 'Path')

    def install(self, E):
        I = E.intrinsics
        e = lambda x: E.enc(x, TStr)
        st = lambda t: Sym(t, TStr)

        def join(E, a, k):
            t = e(a[0])
            for x in a[1:]:
                if isinstance(x, Star):
                    return st(fold_list(t, x.v.seq_term(TSeq(TStr))))
                t = joined(t, e(x))
            return st(t)
        I['os.path.join'] = join
        I['os.path.split'] = lambda E, a, k: tuple(st(x) for x in split(E, e(a[0])))
        I['os.path.splitext'] = lambda E, a, k: tuple(st(x) for x in splitext(E, e(a[0])))
        I['os.path.basename'] = lambda E, a, k: st(split(E, e(a[0]))[1])
        I['os.path.dirname'] = lambda E, a, k: st(split(E, e(a[0]))[0])
        I['os.path.isabs'] = lambda E, a, k: Sym(z3.PrefixOf(SL, e(a[0])), TBool)
        I['attr:os.sep'] = lambda E: '/'
        I['attr:os.path.sep'] = lambda E: '/'

        def new(E, cls, a, k):
            """as PathNew proves"""
            t = lit('')
            for x in a:
                if not E.is_str(x):
                    raise Unsupported('Path of %r' % (x,))
                t = joined(t, e(x))
            return Sym(z3.simplify(t) if len(a) > 1 else e(a[0]) if a else t, TStr, cls=cls)
        I['new:fbuild.path.Path'] = new

    def own(self, E):
        self.p = z3.Const('path', St)
        return Sym(self.p, TStr, cls=self.cls(E) if self.variant == 'Path' else None)

    def fresh_param(self, E, p):
        return self.own(E) if p == 'self' else E.fresh(TStr, p)

    def is_path(self, E, v):
        return ('the result is a Path', z3.BoolVal(isinstance(v, Sym) and v.cls is self.cls(E)))

    def ensures(self, E, a, pre, post, out):
        return [self.is_path(E, out[1])] + self.result_is(E, a, E.enc(out[1], TStr))


class AddRoot(PathContract):
    target = 'fbuild.path.Path.addroot'
    params = ('self', 'root')

    def result_is(self, E, a, r):
        p, root = self.p, E.enc(a.root, TStr)
        under = joined(root, lit(''))           # the root as a directory
        return [('a path under the root stays', z3.Implies(z3.PrefixOf(root, p), r == p)),
                ('a relative path is placed under the root', z3.Implies(z3.Not(z3.Or(z3.PrefixOf(root, p), z3.PrefixOf(
                    SL, p))), r == joined(root, p))),
                ('removing the root again gives the path', z3.Implies(z3.Not(z3.Or(z3.PrefixOf(root, p), z3.PrefixOf(SL, p))), z3.And(
                    z3.PrefixOf(under, r), z3.SubString(r, z3.Length(under), z3.Length(r) - z3.Length(under)) == p))),
                ('an absolute path keeps its name under the root', z3.Implies(z3.And(
                    z3.PrefixOf(SL, p), z3.Not(z3.PrefixOf(root, p))), r == joined(root, split(E, p)[1]))),
                ('the result is under the root', z3.PrefixOf(root, r))]


class RemoveRoot(PathContract):
    target = 'fbuild.path.Path.removeroot'
    params = ('self', 'root')

    def result_is(self, E, a, r):
        p, root = self.p, E.enc(a.root, TStr)
        return [('the rest after the root is left', z3.Implies(z3.PrefixOf(root, p), z3.Concat(root, r) == p)),
                ('another path stays', z3.Implies(z3.Not(z3.PrefixOf(root, p)), r == p))]


class ReplaceExt(PathContract):
    target = 'fbuild.path.Path.replaceext'
    params = ('self', 'ext')

    def result_is(self, E, a, r):
        root, ext = splitext(E, self.p)
        return [('only the extension changes', z3.And(self.p == z3.Concat(root, ext), r == z3.Concat(root, E.enc(a.ext, TStr))))]


class ReplaceExts(PathContract):
    target = 'fbuild.path.Path.replaceexts'
    params = ('self', 'extensions')

    def fresh_param(self, E, p):
        return self.own(E) if p == 'self' else E.fresh(TMap(TStr, TStr), p)

    def result_is(self, E, a, r):
        root, ext = splitext(E, self.p)
        new = z3.Select(a.extensions.read(), ext)
        return [('only a listed extension changes', r == z3.If(T.is_some(TStr, new), z3.Concat(
            root, T.val(TStr, new)), self.p))]


class AddPrefix(PathContract):
    target = 'fbuild.path.Path.addprefix'
    params = ('self', 'prefix')

    def result_is(self, E, a, r):
        head, tail = split(E, self.p)
        x = E.enc(a.prefix, TStr)
        plain = z3.Not(z3.Or(z3.PrefixOf(SL, x), z3.And(x == lit(''), tail == lit(''))))
        new = z3.Concat(x, tail)
        sep = z3.If(z3.Or(head == lit(''), z3.SuffixOf(SL, head)), head, z3.Concat(head, SL))
        return [('only the start of the last component changes', z3.Implies(plain, r == z3.Concat(sep, new)))]


class PathNew(PathContract):
    """Path(a, b, ...) joins its parts in order; a list among them joins its elements."""
    target = 'fbuild.path.Path.__new__'
    params = ('cls', 'paths')
    variants = ('strings', 'list', 'path')
    loops = (lambda c, E, L: c.inv(E, L),)

    def install(self, E):
        super().install(E)

        def new(E, a, k):
            if len(a) != 2 or k:
                raise Unsupported('str.__new__')
            return Sym(E.enc(a[1], TStr), TStr, cls=a[0])
        E.intrinsics['builtins.str.__new__'] = new

    def fresh_param(self, E, p):
        return self.cls(E) if p == 'cls' else None

    def setup(self, E):
        a = super().setup(E)
        a.args = [self.cls(E)]
        if self.variant == 'strings':
            l = E.fresh(TSeq(TStr), 'paths')
            l.py = 'tuple'
            self.L = l.read()
            a.args.append(Star(l))
        elif self.variant == 'list':
            l = E.fresh(TSeq(TStr), 'paths')
            self.L = l.read()
            a.args.append(l)
        else:
            a.args.append(E.fresh(TStr, 'path'))
            self.one = a.args[1].t
        return a

    def requires(self, E, a):
        if self.variant != 'strings':
            return []
        A, i = S(TSeq(TStr)).arr(self.L), z3.Int('i!f')
        return [fold(0) == lit(''), z3.ForAll([i], z3.Implies(i >= 0, fold(i + 1) == joined(fold(i), z3.Select(A, i))),
                                              patterns=[z3.MultiPattern(fold(i), z3.Select(A, i))])]

    def inv(self, E, L):
        if L.kind != 'seq' or L.seq is None or self.variant != 'strings' or not L.seq.eq(self.L):
            return []
        return [('the parts so far %s' % (k,), E.enc(v, TStr) == fold(L.i)) for k, v in L.locals.items() if E.is_str(v)]

    def result_is(self, E, a, r):
        if self.variant == 'strings':
            return [('the parts are joined in order', r == fold(S(TSeq(TStr)).len(self.L)))]
        if self.variant == 'list':
            return [('the elements are joined in order', r == fold_list(lit(''), self.L))]
        return [('a single part is the path', r == self.one)]


class SplitAll(PathContract):
    """Joining the components gives the path again, when it has no repeated separators."""
    target = 'fbuild.path.Path.splitall'
    params = ('self',)
    loops = (lambda c, E, L: c.inv(E, L),)

    def install(self, E):
        super().install(E)

        def go(E, a, k):
            p = E.enc(a[0], TStr)
            h, t = split(E, p)
            single = z3.Not(z3.Contains(p, lit('//')))
            E.prove('lemma: joining what was split gives the path', z3.Implies(single, joined(h, t) == p))
            E.prove('lemma: splitting makes no repeated separators', z3.Implies(single, z3.Not(z3.Contains(h, lit('//')))))
            E.assume(jn(h, t) == joined(h, t))
            return Sym(h, TStr), Sym(t, TStr)
        E.intrinsics['os.path.split'] = go
        rev = E.reverse_list

        def reverse(o):
            # what joining in order means for the reversed list
            r = rev(o)
            E.assume(self.forward(r.read()) == self.again(lit(''), o.seq_term(TSeq(TStr))))
            return r
        E.reverse_list = reverse

    def again(self, b, s):
        """b joined with the elements of s, the last one first"""
        return z3.Function('again', St, S(TSeq(TStr)), St)(b, s)

    def forward(self, s):
        """the elements of s joined in order"""
        return fold_list(lit(''), s)

    def requires(self, E, a):
        ss = S(TSeq(TStr))
        b, s, t, j = z3.Const('b!a', St), z3.Const('s!a', ss), z3.Const('t!a', ss), z3.Int('j!a')
        x = z3.Const('x!a', St)
        return [z3.ForAll([x], jn(lit(''), x) == x, patterns=[jn(lit(''), x)]),
                z3.Not(z3.Contains(self.p, lit('//'))),
                z3.ForAll([b, s], z3.Implies(ss.len(s) == 0, self.again(b, s) == b), patterns=[self.again(b, s)]),
                # again(b, s + [x]) = again(join(b, x), s)
                z3.ForAll([b, s, x], z3.Implies(ss.len(s) >= 0, self.again(b, ss.seq(ss.len(s) + 1, z3.Store(
                    ss.arr(s), ss.len(s), x))) == self.again(jn(b, x), s)), patterns=[self.again(b, ss.seq(
                        ss.len(s) + 1, z3.Store(ss.arr(s), ss.len(s), x)))]),
                z3.ForAll([s], z3.Implies(ss.len(s) == 0, self.forward(s) == lit('')), patterns=[self.forward(s)]),
                z3.ForAll([s], z3.Implies(ss.len(s) == 1, self.forward(s) == z3.Select(ss.arr(s), 0)), patterns=[self.forward(s)])]

    def inv(self, E, L):
        r = []
        ss = S(TSeq(TStr))
        j = z3.Int('j!i')
        strs = [(k, E.enc(v, TStr)) for k, v in L.locals.items() if E.is_str(v)]
        for k, v in L.locals.items():
            if isinstance(v, MList) and v.ty() is not None and v.ty().key == TSeq(TStr).key:
                s = v.seq_term(TSeq(TStr))
                for n, t in strs:
                    r.append(('what is left and the components make the path %s %s' % (k, n), self.again(t, s) == self.p))
                r.append(('components have no separator %s' % (k,), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ss.len(
                    s)), z3.Not(z3.Contains(z3.Select(ss.arr(s), j), SL))))))
        for n, t in strs:
            r.append(('no repeated separators %s' % (n,), z3.Not(z3.Contains(t, lit('//')))))
            for m, u in strs:
                if n < m:
                    r.append(('the same %s %s' % (n, m), t == u))
        return r

    def ensures(self, E, a, pre, post, out):
        ss = S(TSeq(TStr))
        s = out[1].seq_term(TSeq(TStr))
        j = z3.Int('j!e')
        return [('joining the components gives the path', self.forward(s) == self.p),
                ('a component has no separator', z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < ss.len(s)), z3.Not(z3.Contains(
                    z3.Select(ss.arr(s), j), SL)))))]


CONTRACTS = [AddRoot, RemoveRoot, ReplaceExt, ReplaceExts, AddPrefix, PathNew, SplitAll]
USED = []
