"""The engines that keep their records in dictionaries (cache and pickle).

The same contracts as in dbmodel, on CacheBackend, with the abstract records
read off its dictionaries; each method also keeps the representation
invariant.  In these engines the id of a function or file is its name and the
id of a call is (function name, index), so the sorts of ids are these.
"""
import z3

from pyvc import types as T
from pyvc.values import *
from pyvc.containers import *
from .dbmodel import *
from . import dbmodel as M
from . import dbcore as C

CID = TTup(TStr, TInt)
CALL = TTup(Bound, Val)
CALLS = TSeq(CALL)
FUN = TTup(Digest, TColl(TStr, tup=True))
FILE = TTup(TReal, Digest)
TABLES = {
    '._functions': TMap(TStr, FUN),
    '._function_calls': TMap(TStr, CALLS),
    '._files': TMap(TStr, FILE),
    '._call_files': TMap(TStr, TMap(TStr, TMap(TInt, Digest))),
    '._external_srcs': TMap(TStr, TMap(TInt, TSet(TStr))),
    '._external_dsts': TMap(TStr, TMap(TInt, TSet(TStr))),
}
WHERE = {'fun': '._functions', 'call': '._function_calls', 'cfile': '._call_files', 'file': '._files',
         'esrc': '._external_srcs', 'edst': '._external_dsts'}


def first(s, b):
    """Index of the first call in s with arguments b, if there is one."""
    return z3.Function('first', S(CALLS), S(Bound), z3.IntSort())(s, b)


def at(s, i):
    return z3.Select(S(CALLS).arr(s), i)


def n_of(s):
    return S(CALLS).len(s)


def opt_in(ty, o, k):
    """o is an optional map of type ty; its entry at k"""
    return z3.If(T.is_some(ty, o), z3.Select(T.val(ty, o), k), T.none(ty.v))


class CView(View):
    def tab(self, n):
        return self.st[n]

    def calls(self, f):
        return z3.Select(self.st['._function_calls'], f)

    def seq(self, f):
        return T.val(CALLS, self.calls(f))

    def hit(self, f, b):
        s = self.seq(f)
        i = first(s, b)
        return z3.And(T.is_some(CALLS, self.calls(f)), 0 <= i, i < n_of(s), acc(CALL, 0)(at(s, i)) == b)

    def digests(self, fi):
        return z3.Select(self.st['._call_files'], fi)

    def opt(self, table, k):
        if table == 'fun':
            o = z3.Select(self.st['._functions'], k)
            r = T.val(FUN, o)
            return z3.If(T.is_some(FUN, o), T.some(FunRec, tup(FunRec, k, acc(FUN, 0)(r), acc(FUN, 1)(r))), T.none(FunRec))
        if table == 'file':
            o = z3.Select(self.st['._files'], k)
            r = T.val(FILE, o)
            return z3.If(T.is_some(FILE, o), T.some(FileRec, tup(FileRec, k, acc(FILE, 0)(r), acc(FILE, 1)(r))),
                         T.none(FileRec))
        if table == 'call':
            f, b = acc(CallKey, 0)(k), acc(CallKey, 1)(k)
            return z3.If(self.hit(f, b), T.some(CallRec, tup(CallRec, tup(CID, f, first(self.seq(f), b)),
                         acc(CALL, 1)(at(self.seq(f), first(self.seq(f), b))))), T.none(CallRec))
        if table == 'cfile':
            c, fi = acc(CFKey, 0)(k), acc(CFKey, 1)(k)
            return self.cfo(c, fi)
        raise KeyError(table)

    def cfo(self, c, fi):
        m1, m2 = TABLES['._call_files'].v, TABLES['._call_files'].v.v
        return opt_in(m2, opt_in(m1, self.digests(fi), acc(CID, 0)(c)), acc(CID, 1)(c))

    def pat(self, table, k):
        if table in ('fun', 'file'):
            return z3.Select(self.st[WHERE[table]], k)
        return None

    def has(self, table, k):
        if table == 'fun':
            return T.is_some(FUN, z3.Select(self.st['._functions'], k))
        if table == 'file':
            return T.is_some(FILE, z3.Select(self.st['._files'], k))
        if table == 'call':
            return self.hit(acc(CallKey, 0)(k), acc(CallKey, 1)(k))
        return T.is_some(Digest, self.opt(table, k))

    def has_fun(self, n):
        return self.has('fun', n)

    def fun_id(self, n):
        return n

    def fun_dig(self, n):
        return acc(FUN, 0)(T.val(FUN, z3.Select(self.st['._functions'], n)))

    def fun_deps(self, n):
        return acc(FUN, 1)(T.val(FUN, z3.Select(self.st['._functions'], n)))

    def of_fun(self, n, c):
        """Some arguments b have call_id(n, b) == c: as each call is stored once
        (invariant), these are the calls at the positions of the list; the
        lemma obligations of FindCallC prove that this is the same."""
        i = acc(CID, 1)(c)
        return z3.And(self.has_fun(n), acc(CID, 0)(c) == n, T.is_some(CALLS, self.calls(n)), 0 <= i, i < n_of(self.seq(n)))

    def has_call(self, f, b):
        return self.hit(f, b)

    def call_id(self, f, b):
        return tup(CID, f, first(self.seq(f), b))

    def call_res(self, f, b):
        return acc(CALL, 1)(at(self.seq(f), first(self.seq(f), b)))

    def has_cf(self, c, f):
        return T.is_some(Digest, self.cfo(c, f))

    def cf(self, c, f):
        return T.val(Digest, self.cfo(c, f))

    def has_file(self, n):
        return self.has('file', n)

    def file_id(self, n):
        return n

    def may_get(self, n, i):
        return i == n

    def file_mt(self, n):
        return acc(FILE, 0)(T.val(FILE, z3.Select(self.st['._files'], n)))

    def file_dig(self, n):
        return acc(FILE, 1)(T.val(FILE, z3.Select(self.st['._files'], n)))

    def ext(self, t, c, n):
        m = TABLES[t].v
        o = opt_in(m, z3.Select(self.st[t], acc(CID, 0)(c)), acc(CID, 1)(c))
        return z3.And(T.is_some(TSet(TStr), o), z3.Select(T.val(TSet(TStr), o), n))

    def esrc(self, c, n):
        return self.ext('._external_srcs', c, n)

    def edst(self, c, n):
        return self.ext('._external_dsts', c, n)


def invariant(v):
    """Representation invariant: [(name, formula)]"""
    q, n = z3.Consts('q_f q_n', S(TStr))
    i = z3.Int('q_i')
    m1, m2 = TABLES['._call_files'].v, TABLES['._call_files'].v.v
    out = []

    def stored(name, t, ty):
        o = z3.Select(v.st[t], q)
        out.append((name + ' only of stored functions', forall([q], z3.Implies(T.is_some(ty, o), v.has_fun(q)), [o])))
    stored('calls', '._function_calls', CALLS)
    stored('registered sources', '._external_srcs', TABLES['._external_srcs'].v)
    stored('registered destinations', '._external_dsts', TABLES['._external_dsts'].v)
    o = v.digests(n)
    oo = z3.Select(T.val(m1, o), q)
    out.append(('digests only of stored functions and files', forall([n, q], z3.Implies(
        z3.And(T.is_some(m1, o), T.is_some(m2, oo)), v.has_fun(q)), [oo])))
    out.append(('digests only of stored files', forall([n], z3.Implies(T.is_some(m1, o), v.has_file(n)), [o])))
    out.append(('no file without digests is kept', forall([n], z3.Implies(
        T.is_some(m1, o), T.val(m1, o) != T.empty_map(TStr, m2)), [o])))
    s = v.seq(q)
    out.append(('each call is stored once', forall([q, i], z3.Implies(
        z3.And(T.is_some(CALLS, v.calls(q)), 0 <= i, i < n_of(s)), first(s, acc(CALL, 0)(at(s, i))) == i), [at(s, i)])))
    out.append(('call lists have a length', forall([q], z3.Implies(T.is_some(CALLS, v.calls(q)), n_of(s) >= 0), [v.calls(q)])))
    inb = z3.And(T.is_some(CALLS, v.calls(q)), 0 <= i, i < n_of(s))
    e = z3.Select(T.val(m2, oo), i)
    out.append(('digests only of stored calls', forall([n, q, i], z3.Implies(
        z3.And(T.is_some(m1, o), T.is_some(m2, oo), T.is_some(Digest, e)), inb), [e])))
    for t in ('._external_srcs', '._external_dsts'):
        ty = TABLES[t].v
        x = z3.Select(v.st[t], q)
        y = z3.Select(T.val(ty, x), i)
        out.append(('%s only of stored calls' % t[1:], forall([q, i], z3.Implies(
            z3.And(T.is_some(ty, x), T.is_some(TSet(TStr), y)), inb), [y])))
    return out


class Concrete:
    """Mixed into a contract of dbmodel or dbcore."""
    view = CView
    trusted = False

    def install(self, E):
        self.sorts(E)
        C.install_fs(E)

    def install_use(self, E):
        pass

    @staticmethod
    def sorts(E):
        for ty, real in ((FunId, TStr), (FileId, TStr), (CallId, CID)):
            T._memo[(ty.key, 'U')] = S(real)
        E.isinst[('enc', 'CallId')] = lambda E, v: E.enc(v, CID)
        E.isinst[('enc', 'FunId')] = lambda E, v: E.enc(v, TStr)
        E.isinst[('enc', 'FileId')] = lambda E, v: E.enc(v, TStr)

    def world(self, E):
        s = z3.Const('q_s', S(CALLS))
        b = z3.Const('q_b', S(Bound))
        i = z3.Int('q_i')
        e = at(s, i)
        E.assume(z3.ForAll([s, b, i], z3.Implies(
            z3.And(0 <= i, i < n_of(s), acc(CALL, 0)(e) == b),
            z3.And(0 <= first(s, b), first(s, b) <= i, acc(CALL, 0)(at(s, first(s, b))) == b)),
            patterns=[z3.MultiPattern(first(s, b), e)]))

    def engine(self, E):
        inst = E.new_inst(E.repo.find('fbuild.db.cache_backend.CacheBackend'), 'backend')
        for n, ty in TABLES.items():
            inst.attrs[n[1:]] = MDict(E, ty.k, ty.v, term=z3.Const('t' + n, S(ty)), name=n)
        return inst

    def fresh_param(self, E, p):
        t = self.types.get(p)
        sub = {FunId: TStr, FileId: TStr, CallId: CID}
        if t in sub:
            t = sub[t]
        elif isinstance(t, TOpt) and t.a in sub:
            t = TOpt(sub[t.a])
        elif t is None or p == 'self':
            return super().fresh_param(E, p)
        return E.fresh(t, p)

    def modifies(self, E, a):
        return tuple(WHERE[n] for n in super().modifies(E, a))

    def requires(self, E, a):
        v = self.view(E.snapshot())
        return [f for _, f in invariant(v)] + self.pre(E, v, a)

    def ensures(self, E, a, pre, post, out):
        v = self.view(post)
        return list(super().ensures(E, a, pre, post, out)) + [
            ('%s: %s' % (self.target.split('.')[-1], n), f) for n, f in invariant(v)]


def concrete(c, target=None, **kw):
    d = dict(kw)
    d['target'] = target or c.target.replace('fbuild.db.backend.Backend', 'fbuild.db.cache_backend.CacheBackend')
    return type('Cache' + c.__name__, (Concrete, c), d)


def over_calls(c, E, L):
    """Searching the list of calls: none before the current one matches."""
    if L.kind != 'seq' or not hasattr(c.a, 'bound'):
        return []
    b = E.enc(c.a.bound, Bound)
    q = CView(L.now).seq(E.enc(c.a.fun_id, TStr))
    j = z3.Int('q_j')
    return [('none before', forall([j], z3.Implies(z3.And(0 <= j, j < L.i), acc(CALL, 0)(at(q, j)) != b), [at(q, j)]))]


class WithArgs:
    def begin(self, E, a):
        self.a = a


class FindCallC(WithArgs, M.FindCall):
    def post(self, E, a, v0, v, r):
        f, b, i = E.enc(a.fun_id, TStr), z3.Const('any_b', S(Bound)), z3.Int('any_i')
        c = tup(CID, f, i)
        w = acc(CALL, 0)(at(v0.seq(f), i))
        return super().post(E, a, v0, v, r) + [
            ('lemma: a position of the list is the id of a call', z3.Implies(
                v0.of_fun(f, c), z3.And(v0.has_call(f, w), v0.call_id(f, w) == c))),
            ('lemma: the id of a call is a position of the list', z3.Implies(
                v0.has_call(f, b), v0.of_fun(f, v0.call_id(f, b))))]


CacheFindCall = concrete(FindCallC, loops=(over_calls,))


def deleting(c, E, L):
    """Removing one function from the digests of every file."""
    st, st0 = L.now, E.entry
    n = E.enc(c.a.fun_name, TStr)
    m1, m2 = TABLES['._call_files'].v, TABLES['._call_files'].v.v
    v, v0 = CView(st), CView(st0)
    k = z3.Const('q_k', S(TStr))
    q = z3.Const('q_f', S(TStr))
    out = []
    ex = [x for key, x in L.locals.items() if isinstance(x, Sym) and x.ty.key == 'Bool' or isinstance(x, bool)]
    for x in ex:
        out.append(('existed', E.enc(x, TBool) == v0.has_fun(n)))
    if L.kind == 'coll' and L.ety == TStr:
        # removing what was listed
        o, o0 = v.digests(k), CView(L.pre).digests(k)
        out.append(('removed', forall([k], o == z3.If(z3.Select(L.D, k), T.none(m1), o0), [o])))
    if L.kind == 'set' and L.ety == TStr:
        o, o0 = v.digests(k), v0.digests(k)
        out += [('kept', forall([k], T.is_some(m1, o) == T.is_some(m1, o0), [o])),
                ('todo', forall([k], z3.Implies(z3.Not(z3.Select(L.D, k)), o == o0), [o])),
                ('gone', forall([k], z3.Implies(z3.And(z3.Select(L.D, k), T.is_some(m1, o)), T.is_none(m2, z3.Select(
                    T.val(m1, o), n))), [o])),
                ('others', forall([k, q], z3.Implies(z3.And(T.is_some(m1, o), q != n), z3.Select(T.val(m1, o), q) == z3.Select(
                    T.val(m1, o0), q)), [z3.Select(T.val(m1, o), q)]))]
        for key, x in L.locals.items():
            if isinstance(x, MList) and x.coll:
                m = x.read()
                out += [('listed empty', forall([k], z3.Select(m, k) == z3.And(
                    z3.Select(L.D, k), T.is_some(m1, o), T.val(m1, o) == T.empty_map(TStr, m2)), [z3.Select(m, k)]))]
    return out


DeleteFunctionC = type('DeleteFunctionC', (WithArgs, M.DeleteFunction), {})
CacheDeleteFunction = concrete(DeleteFunctionC, loops=(deleting,), colls=(TStr,))

PRIMS = [concrete(M.FindFunction), concrete(M.FindFunctionDependents), concrete(M.SaveFunction), CacheDeleteFunction,
         CacheFindCall, concrete(M.SaveCall), concrete(M.FindCallFile), concrete(M.SaveCallFile),
         concrete(M.FindExternalSrcs), concrete(M.FindExternalDsts), concrete(M.FindFile), concrete(M.SaveFile),
         concrete(M.DeleteFile)]
for c in PRIMS:
    c.props = ('C07',)
CacheDeleteFunction.props = ('C07', 'C08')
PRIMS[-1].props = ('C07', 'C08')
ADD = [concrete(C.AddFile, C.AddFile.target), concrete(C.SaveCallFiles, C.SaveCallFiles.target)]
ADD[0].variants = ADD[1].variants = (None,)
CONTRACTS = PRIMS
USED = PRIMS + ADD + [C.PathDigest]
