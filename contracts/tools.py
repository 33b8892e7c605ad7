"""Looking for programs and checking their versions (C23)."""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
Comp = TU('Comp')            # one component of a version: an integer or a string
Comp.truthy = None
Ver = TSeq(Comp, tup=True)


def isfile(n):
    return z3.Function('isfile', S(TStr), z3.BoolSort())(n)


def exists(n):
    return z3.Function('exists', S(TStr), z3.BoolSort())(n)


def joined(p, n):
    return z3.Function('joined', S(TStr), S(TStr), S(TStr))(p, n)


def quiet(E):
    l = E.new_inst('logger')
    for n in ('check', 'passed', 'failed', 'log', 'write'):
        l.attrs[n] = Native(lambda E, a, k: None, n)
    ctx = E.new_inst('ctx')
    ctx.attrs['logger'] = l
    return ctx


class FindProgram(Contract):
    target = 'fbuild.builders.find_program'
    props = ('C23',)
    params = ('ctx', 'names', 'paths')
    variants = ('paths', 'PATH')
    raises = (Exception,)
    loops = (lambda c, E, L: c.inv(E, L),)

    def install(self, E):
        I = E.intrinsics

        def path(E, cls, a, k):
            if len(a) == 1:
                return Sym(E.enc(a[0], TStr), TStr, cls=cls)
            if len(a) == 2:
                return Sym(joined(E.enc(a[0], TStr), E.enc(a[1], TStr)), TStr, cls=cls)
            raise Unsupported('Path of %d parts' % len(a))
        I['new:fbuild.path.Path'] = path
        I['os.path.join'] = lambda E, a, k: path(E, None, a, k)
        I['os.path.exists'] = lambda E, a, k: Sym(exists(E.enc(a[0], TStr)), TBool)
        I['os.path.isfile'] = lambda E, a, k: Sym(isfile(E.enc(a[0], TStr)), TBool)
        I['attr:os.environ'] = self.environ

        def basename(E, a, k):
            return E.fmt_opaque('basename', [a[0]])
        I['os.path.basename'] = basename

    def environ(self, E):
        i = E.new_inst('environ')
        # the entries of PATH
        v = E.new_inst('PATH')

        def split(E, a, k):
            if len(a) != 1 or k or not (a[0] == ':' or getattr(a[0], 'name', '') == 'os.pathsep'):
                raise Unsupported('split of PATH')
            return self.paths
        v.attrs.update(split=Native(split, 'split'), __open__=True)

        def get(E, a, k):
            if a[0] != 'PATH':
                raise Unsupported('another variable than PATH')
            return v
        i.attrs.update(__getitem__=Native(get, '__getitem__'), get=Native(get, 'get'), __open__=True)
        return i

    def fresh_param(self, E, p):
        if p == 'ctx':
            return quiet(E)
        if p == 'names':
            self.names = E.fresh(TSeq(TStr), 'names')
            return self.names
        self.paths = E.fresh(TSeq(TStr), 'paths')
        self.N, self.P = self.names.read(), self.paths.read()
        return self.paths if self.variant == 'paths' else None

    def requires(self, E, a):
        x = z3.Const('x!n', S(TStr))
        return [z3.ForAll([x], z3.Implies(isfile(x), exists(x)), patterns=[isfile(x)])]

    def hit(self, i, j):
        st = S(TSeq(TStr))
        return isfile(joined(z3.Select(st.arr(self.P), j), z3.Select(st.arr(self.N), i)))

    def none_of(self, i, m):
        """name i is no file as given and in none of the first m directories"""
        st = S(TSeq(TStr))
        j = z3.Int('j!t')
        return z3.And(z3.Not(isfile(z3.Select(st.arr(self.N), i))), self.none_in(i, m))

    def none_in(self, i, m):
        st = S(TSeq(TStr))
        j = z3.Int('j!t')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Not(self.hit(i, j))),
                         patterns=[joined(z3.Select(st.arr(self.P), j), z3.Select(st.arr(self.N), i))])

    def before(self, i):
        """none of the first i names has a file"""
        st = S(TSeq(TStr))
        k, j = z3.Ints('k!b j!b')
        N, P = st.arr(self.N), st.arr(self.P)
        return [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(isfile(z3.Select(N, k)))), patterns=[z3.Select(N, k)]),
                z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < i, 0 <= j, j < st.len(self.P)), z3.Not(self.hit(k, j))),
                          patterns=[joined(z3.Select(P, j), z3.Select(N, k))])]

    def inv(self, E, L):
        if L.kind != 'seq' or L.seq is None:
            return []
        if L.seq.eq(self.N):
            self.at = L
            return [('no earlier name %d' % n, f) for n, f in enumerate(self.before(L.i))]
        if L.seq.eq(self.P):
            return [('not in an earlier directory', self.none_in(self.at.i, L.i))]
        return []

    def ensures(self, E, a, pre, post, out):
        st = S(TSeq(TStr))
        n, m = st.len(self.N), st.len(self.P)
        if out[0] == 'raise':
            missing = getattr(out[1].cls, 'name', '') == 'MissingProgram'
            return [('only a missing program is reported', z3.BoolVal(missing))] + \
                [('a program is missing only when no name has one (%d)' % i, f) for i, f in enumerate(self.before(n))]
        r = E.enc(out[1], TStr)
        i, j = z3.Ints('i!e j!e')
        N, P = st.arr(self.N), st.arr(self.P)
        name = z3.Select(N, i)
        given = z3.And(r == name, isfile(name))
        found = z3.And(0 <= j, j < m, r == joined(z3.Select(P, j), name), self.hit(i, j), self.none_of(i, j))
        return [('the first program found is returned', z3.Exists([i], z3.And(
            0 <= i, i < n, *self.before(i), z3.Or(given, z3.Exists([j], found)))))]


class CheckVersion(Contract):
    target = 'fbuild.builders.check_version'
    props = ('C23',)
    params = ('ctx', 'builder', 'version_function')
    kwonly = ('requires_version', 'requires_at_least_version', 'requires_at_most_version')
    variants = ('none', 'exact', 'least', 'most', 'range', 'all')
    raises = (Exception,)
    hints = (Comp,)
    loops = (lambda c, E, L: c.inv(E, L),)

    def f_int(self, i):
        return z3.Function('comp_int', z3.IntSort(), S(Comp))(i)

    def f_str(self, s):
        return z3.Function('comp_str', S(TStr), S(Comp))(s)

    def install(self, E):
        def can(E, v):
            t = E.type_of(v)
            return t is not None and t.key in ('Int', 'Str')

        def encc(E, v):
            t = E.type_of(v)
            if t is not None and t.key == 'Int':
                return self.f_int(E.enc(v, TInt))
            if t is not None and t.key == 'Str':
                return self.f_str(E.enc(v, TStr))
            return None
        E.isinst[('can', 'Comp')] = can
        E.isinst[('encc', 'Comp')] = encc

        def order(E, op, a, b):
            a, b = E.enc(a, Ver), E.enc(b, Ver)
            if op == 'LtE':
                return z3.Not(self.less(E, b, a))
            if op == 'GtE':
                return z3.Not(self.less(E, a, b))
            return self.less(E, a, b) if op == 'Lt' else self.less(E, b, a)
        E.methods[(Ver.key, '__order__')] = order

    def less(self, E, a, b):
        """Python's own order of tuples"""
        return z3.Function('less', S(Ver), S(Ver), z3.BoolSort())(a, b)

    def fresh_param(self, E, p):
        if p == 'ctx':
            return quiet(E)
        if p == 'builder':
            return E.fresh(TStr, 'builder')
        if p == 'version_function':
            self.text = E.fresh(TStr, 'version')
            self.asked = 0

            def go(E, a, k):
                self.asked += 1
                return self.text
            return Native(go, 'version_function')
        has = {'requires_version': ('exact', 'all'), 'requires_at_least_version': ('least', 'range', 'all'),
               'requires_at_most_version': ('most', 'range', 'all')}[p]
        return E.fresh(Ver, p) if self.variant in has else None

    def begin(self, E, a):
        self.parts = E.call(E.getattr(self.text, 'split'), ['.'])
        self.seq = self.parts.read()

    def comp(self, E, i):
        s = z3.Select(S(TSeq(TStr)).arr(self.seq), i)
        return z3.If(E.ufun('is_int', [s], z3.BoolSort()), self.f_int(E.ufun('int_of', [s], z3.IntSort())), self.f_str(s))

    def same(self, E, v, n):
        """the first n components"""
        st = S(Ver)
        k = z3.Int('k!v')
        return z3.And(st.len(v) == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(
            st.arr(v), k) == self.comp(E, k)), patterns=[z3.Select(st.arr(v), k)]))

    def inv(self, E, L):
        if L.kind != 'seq' or L.seq is None or not L.seq.eq(self.seq):
            return []
        fs = []
        for k, v in L.locals.items():
            if isinstance(v, MList) and v.items is None and v.ty() is not None and v.ty().key == Ver.key:
                fs.append(('the components so far %s' % (k,), self.same(E, v.read(), L.i)))
        return fs

    def ensures(self, E, a, pre, post, out):
        st = S(Ver)
        v = E.fresh_term(st, 'v')
        n = S(TSeq(TStr)).len(self.seq)
        E.assume(self.same(E, v, n))
        k = z3.Int('k!q')
        bad = []
        if a.requires_version is not None:
            r = a.requires_version.read()
            bad.append(z3.Not(z3.And(st.len(r) == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(
                st.arr(r), k) == self.comp(E, k)), patterns=[z3.Select(st.arr(r), k)]))))
        # all tuples with these components are the same tuple to the order
        for r, f in ((a.requires_at_least_version, lambda r, x: self.less(E, x, r)),
                     (a.requires_at_most_version, lambda r, x: self.less(E, r, x))):
            if r is not None:
                bad.append(f(r.read(), v))
        x = z3.Const('x!v', st)
        y = z3.Const('y!v', st)
        for r in (a.requires_at_least_version, a.requires_at_most_version):
            if r is not None:
                t = r.read()
                E.assume(z3.ForAll([x], z3.Implies(self.same(E, x, n), self.less(E, x, t) == self.less(E, v, t)),
                                   patterns=[self.less(E, x, t)]))
                E.assume(z3.ForAll([x], z3.Implies(self.same(E, x, n), self.less(E, t, x) == self.less(E, t, v)),
                                   patterns=[self.less(E, t, x)]))
        if out[0] == 'raise':
            cls = getattr(out[1].cls, 'name', '')
            return [('only a failed requirement is reported', z3.BoolVal(cls == 'ConfigFailed')),
                    ('a tool is refused only if a requirement fails', z3.Or(*bad) if bad else z3.BoolVal(False))]
        return [('a tool is accepted only if every requirement holds', z3.Not(z3.Or(*bad)) if bad else z3.BoolVal(True)),
                ('the version is asked for at most once', z3.BoolVal(self.asked <= 1))]


CONTRACTS = [FindProgram, CheckVersion]
USED = []
