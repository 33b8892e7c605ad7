"""The abstract database all three engines implement, and the files around it.

Ghost state (per engine instance):
  fun   : name -> (id, digest, called functions)
  call  : (function id, bound arguments) -> (call id, result)
  cfile : (call id, file id) -> digest
  file  : name -> (file id, mtime, digest)
  esrc, edst : call id -> set of names
The file system is read through exists/mtime/content of a name, which do not
change while one database operation runs.
"""
import z3

from pyvc import types as T
from pyvc.values import *
from pyvc.contract import Contract, A
from pyvc.types import TStr, TBool, TReal, TInt, TU, TOpt, TTup, TSet, TMap, TColl, TSeq

FunId = TU('FunId', py=('?id',))
CallId = TU('CallId', py=('?id',))
FileId = TU('FileId', py=('?id',))
Bound = TU('Bound', py=('dict',))
Val = TU('Val')
Digest = TStr
FunRec = TTup(FunId, Digest, TColl(TStr))
CallKey = TTup(FunId, Bound)
CallRec = TTup(CallId, Val)
CFKey = TTup(CallId, FileId)
FileRec = TTup(FileId, TReal, Digest)
ExtKey = TTup(CallId, TStr)

STATE = {
    'fun': TMap(TStr, FunRec),
    'call': TMap(CallKey, CallRec),
    'cfile': TMap(CFKey, Digest),
    'file': TMap(TStr, FileRec),
    'esrc': TSet(ExtKey),
    'edst': TSet(ExtKey),
}
ALL = tuple(STATE)


def S(ty):
    return T.sort(ty)


def fn(name, *tys):
    return z3.Function(name, *[S(t) for t in tys])


def exists(n):
    return fn('exists', TStr, TBool)(n)


def mtime(n):
    return fn('mtime', TStr, TReal)(n)


def content(n):
    return fn('content', TStr, Digest)(n)


def defined(n):
    return fn('defined', TStr, TBool)(n)


def curdig(n):
    return fn('curdig', TStr, Digest)(n)


def acc(ty, i):
    return S(ty).accessor(0, i)


def tup(ty, *ts):
    return S(ty).mk(*ts)


def has(st, table, k):
    return T.is_some(STATE[table].v, z3.Select(st[table], k))


def rec(st, table, k):
    return T.val(STATE[table].v, z3.Select(st[table], k))


class View:
    """Accessors on a state; engines override these."""

    def __init__(self, st):
        self.st = st

    def opt(self, table, k):
        return z3.Select(self.st[table], k)

    def pat(self, table, k):
        return self.opt(table, k)

    def has(self, table, k):
        return T.is_some(STATE[table].v, self.opt(table, k))

    # functions
    def has_fun(self, n):
        return self.has('fun', n)

    def fun_id(self, n):
        return acc(FunRec, 0)(rec(self.st, 'fun', n))

    def fun_dig(self, n):
        return acc(FunRec, 1)(rec(self.st, 'fun', n))

    def fun_deps(self, n):
        return acc(FunRec, 2)(rec(self.st, 'fun', n))

    # calls
    def has_call(self, f, b):
        return has(self.st, 'call', tup(CallKey, f, b))

    def call_id(self, f, b):
        return acc(CallRec, 0)(rec(self.st, 'call', tup(CallKey, f, b)))

    def call_res(self, f, b):
        return acc(CallRec, 1)(rec(self.st, 'call', tup(CallKey, f, b)))

    # digests stored for calls
    def has_cf(self, c, f):
        return has(self.st, 'cfile', tup(CFKey, c, f))

    def cf(self, c, f):
        return rec(self.st, 'cfile', tup(CFKey, c, f))

    # files
    def has_file(self, n):
        return has(self.st, 'file', n)

    def file_id(self, n):
        return acc(FileRec, 0)(rec(self.st, 'file', n))

    def file_mt(self, n):
        return acc(FileRec, 1)(rec(self.st, 'file', n))

    def file_dig(self, n):
        return acc(FileRec, 2)(rec(self.st, 'file', n))

    def may_get(self, n, i):
        """A new record of the file may be stored under this id (the engine proposed it)."""
        t = self.st['file']
        return z3.Function('may_get', t.sort(), S(TStr), S(FileId), z3.BoolSort())(t, n, i)

    # registered files
    def esrc(self, c, n):
        return z3.Select(self.st['esrc'], tup(ExtKey, c, n))

    def edst(self, c, n):
        return z3.Select(self.st['edst'], tup(ExtKey, c, n))


def forall(xs, b, pats=()):
    """A quantifier; triggers that the solver cannot use are left out."""
    pats = [p for p in pats if p is not None]
    if pats:
        try:
            return z3.ForAll(xs, b, patterns=pats)
        except z3.Z3Exception:
            pass
    return z3.ForAll(xs, b)


def fa(ty, f, *pats):
    """forall x: ty. f(x)"""
    x = z3.Const('q_' + T._nm(ty.key), S(ty))
    b = f(x)
    return forall([x], b, [p(x) for p in pats])


def file_seen(v, v0, n):
    """File n has been brought up to date: its record describes the file, and
    keeps its id."""
    return z3.And(v.has_file(n), v.file_mt(n) == mtime(n), v.file_dig(n) == content(n),
                  z3.Implies(v0.has_file(n), v.file_id(n) == v0.file_id(n)))


def trusted_mtime(v):
    """A file whose recorded modification time is current, and old enough, has
    the recorded contents."""
    now = z3.Const('now', z3.RealSort())
    return fa(TStr, lambda n: z3.Implies(z3.And(v.has_file(n), v.file_mt(n) == mtime(n), now - mtime(n) > 1),
                                         v.file_dig(n) == content(n)))


def ids_injective(v):
    m, n = z3.Consts('q_m q_n', S(TStr))
    return z3.ForAll([m, n], z3.Implies(z3.And(v.has_file(m), v.has_file(n), v.file_id(m) == v.file_id(n)), m == n))


def same_file(v, v0, n):
    return v.opt('file', n) == v0.opt('file', n)


class DB(Contract):
    """A method of an engine, over the abstract state."""
    view = View

    def world(self, E):
        for n, ty in STATE.items():
            E.heap_init(n, ty)

    def fresh_param(self, E, p):
        if p == 'self':
            return self.engine(E)
        return super().fresh_param(E, p)

    def engine(self, E):
        return E.new_inst(E.repo.find('fbuild.db.backend.Backend'), 'backend', __open__=True)

    def requires(self, E, a):
        return self.pre(E, self.view(E.snapshot()), a)

    def pre(self, E, v, a):
        return []

    def ensures(self, E, a, pre, post, out):
        v0, v = self.view(pre), self.view(post)
        if out[0] == 'return':
            return self.post(E, a, v0, v, out[1])
        return self.post_exc(E, a, v0, v, out[1])

    def post(self, E, a, v0, v, r):
        return []

    def post_exc(self, E, a, v0, v, e):
        return []


def S_(E, v, ty):
    return E.enc(v, ty)


def eqv(E, v, t, ty):
    """value v equals the term t of type ty"""
    return E.enc(v, ty) == t


def coll_eq(E, v, t, k):
    """The members of the collection value v are those of the set t."""
    if isinstance(v, tuple):
        s = T.empty_set(k)
        for x in v:
            s = z3.Store(s, E.enc(x, k), z3.BoolVal(True))
        return s == t
    from pyvc.containers import MList, MSet
    return members(E, v, k) == t


def members(E, v, k):
    from pyvc.containers import MList, MSet
    if isinstance(v, tuple):
        return E.enc(v, TColl(k))
    if isinstance(v, MSet):
        return v.set_term(k)
    return E.coll_term(v, k)


# ---------------------------------------------------------------------------
# primitives: what every engine has to provide

class FindFunction(DB):
    target = 'fbuild.db.backend.Backend.find_function'
    params = ('self', 'fun_name')
    types = {'fun_name': TStr}

    def result(self, E, a):
        if E.choose_free(2) == 0:
            return (E.fresh(FunId, 'fid'), E.fresh(Digest, 'fdig'), E.fresh(TColl(TStr), 'deps'))
        return (None, None, ()) if E.choose_free(2) else (None, None, None)

    def post(self, E, a, v0, v, r):
        n = E.enc(a.fun_name, TStr)
        out = [('functions.unchanged', z3.BoolVal(True))]
        i, d, deps = r
        if d is None:
            out.append(('find_function: none only if absent', z3.Not(v0.has_fun(n))))
            out.append(('find_function: no id if absent', z3.BoolVal(i is None)))
        else:
            out += [('find_function: record exists', v0.has_fun(n)),
                    ('find_function: id', False if i is None else eqv(E, i, v0.fun_id(n), FunId)),
                    ('find_function: digest', eqv(E, d, v0.fun_dig(n), Digest)),
                    ('find_function: called functions', coll_eq(E, deps, v0.fun_deps(n), TStr))]
        return out


class FindFunctionDependents(DB):
    target = 'fbuild.db.backend.Backend.find_function_dependents'
    params = ('self',)
    result_type = TColl(TTup(TStr, TColl(TStr)))
    pure_key = True

    def post(self, E, a, v0, v, r):
        et = TTup(TStr, TColl(TStr))
        m = members(E, r, et)
        return [('find_function_dependents: every function is listed', fa(TStr, lambda n: z3.Implies(
                    v0.has_fun(n), z3.Select(m, tup(et, n, v0.fun_deps(n)))), lambda n: v0.pat('fun', n))),
                ('find_function_dependents: nothing else is listed', fa(et, lambda e: z3.Implies(
                    z3.Select(m, e), z3.And(v0.has_fun(acc(et, 0)(e)), acc(et, 1)(e) == v0.fun_deps(acc(et, 0)(e)))),
                    lambda e: z3.Select(m, e)))]


class SaveFunction(DB):
    target = 'fbuild.db.backend.Backend.save_function'
    params = ('self', 'fun_id', 'fun_name', 'fun_digest', 'fun_dependents')
    types = {'fun_id': TOpt(FunId), 'fun_name': TStr, 'fun_digest': Digest, 'fun_dependents': TColl(TStr)}
    result_type = FunId

    def modifies(self, E, a):
        return ('fun',)

    def pre(self, E, v, a):
        n = E.enc(a.fun_name, TStr)
        if a.fun_id is None:
            return [z3.Not(v.has_fun(n))]
        return [v.has_fun(n), E.enc(a.fun_id, FunId) == v.fun_id(n)]

    def post(self, E, a, v0, v, r):
        n = E.enc(a.fun_name, TStr)
        out = [('save_function: stored', z3.And(v.has_fun(n), v.fun_dig(n) == E.enc(a.fun_digest, Digest),
                                                v.fun_deps(n) == members(E, a.fun_dependents, TStr))),
               ('save_function: returns the id', eqv(E, r, v.fun_id(n), FunId)),
               ('save_function: other functions unchanged', fa(TStr, lambda m: z3.Implies(
                   m != n, v.opt('fun', m) == v0.opt('fun', m)), lambda m: v.pat('fun', m)))]
        if a.fun_id is not None:
            out.append(('save_function: keeps the id', eqv(E, r, v0.fun_id(n), FunId)))
        else:
            out.append(('save_function: a new id is not in use', z3.And(
                fa(TStr, lambda m: z3.Implies(v0.has_fun(m), v0.fun_id(m) != E.enc(r, FunId))),
                fa(CallKey, lambda k: z3.Implies(v0.has('call', k), acc(CallKey, 0)(k) != E.enc(r, FunId))))))
        return out


class DeleteFunction(DB):
    target = 'fbuild.db.backend.Backend.delete_function'
    params = ('self', 'fun_name')
    types = {'fun_name': TStr}
    result_type = TBool

    def modifies(self, E, a):
        return ('fun', 'call', 'cfile', 'esrc', 'edst')

    def post(self, E, a, v0, v, r):
        n = E.enc(a.fun_name, TStr)

        def mine(f):
            return z3.And(v0.has_fun(n), f == v0.fun_id(n))
        return [
            ('delete_function: record gone', z3.Not(v.has_fun(n))),
            ('delete_function: other functions unchanged', fa(TStr, lambda m: z3.Implies(
                m != n, v.opt('fun', m) == v0.opt('fun', m)), lambda m: v.pat('fun', m))),
            ('delete_function: calls gone, others unchanged', fa(CallKey, lambda k: z3.If(
                mine(acc(CallKey, 0)(k)), z3.Not(v.has('call', k)), v.opt('call', k) == v0.opt('call', k)),
                lambda k: v.pat('call', k))),
            ('delete_function: says whether it existed', E.enc(r, TBool) == v0.has_fun(n)),
            ('delete_function: digests of its calls gone', fa(CFKey, lambda k: z3.Implies(
                of_fun(v0, n, acc(CFKey, 0)(k)), z3.Not(v.has('cfile', k))))),
            ('delete_function: digests of other calls unchanged', fa(CFKey, lambda k: z3.Or(
                v.opt('cfile', k) == v0.opt('cfile', k), of_fun(v0, n, acc(CFKey, 0)(k))), lambda k: v.pat('cfile', k))),
            ('delete_function: registered files of its calls gone', fa(ExtKey, lambda k: z3.Implies(
                of_fun(v0, n, acc(ExtKey, 0)(k)), z3.Not(z3.Or(v.esrc(acc(ExtKey, 0)(k), acc(ExtKey, 1)(k)),
                                                              v.edst(acc(ExtKey, 0)(k), acc(ExtKey, 1)(k))))))),
            ('delete_function: registered files of other calls unchanged', fa(ExtKey, lambda k: z3.Or(
                of_fun(v0, n, acc(ExtKey, 0)(k)), same_ext(v, v0, acc(ExtKey, 0)(k), acc(ExtKey, 1)(k))))),
        ]


def of_fun(v, n, c):
    """c is the id of a stored call of function n."""
    if hasattr(v, 'of_fun'):
        return v.of_fun(n, c)
    b = z3.Const('q_b', S(Bound))
    return z3.And(v.has_fun(n), z3.Exists([b], z3.And(v.has_call(v.fun_id(n), b), v.call_id(v.fun_id(n), b) == c)))


def same_ext(v, v0, c, n):
    return z3.And(v.esrc(c, n) == v0.esrc(c, n), v.edst(c, n) == v0.edst(c, n))


def live_fun(v, f):
    n = z3.Const('q_n', S(TStr))
    return z3.Exists([n], z3.And(v.has_fun(n), v.fun_id(n) == f))


def live_call(v, c):
    k = z3.Const('q_k', S(CallKey))
    return z3.Exists([k], z3.And(v.has('call', k), v.call_id(acc(CallKey, 0)(k), acc(CallKey, 1)(k)) == c))


def live_file(v, f):
    n = z3.Const('q_n', S(TStr))
    return z3.Exists([n], z3.And(v.has_file(n), v.file_id(n) == f))


class FindCall(DB):
    target = 'fbuild.db.backend.Backend.find_call'
    params = ('self', 'fun_id', 'bound')
    types = {'fun_id': FunId, 'bound': Bound}

    def result(self, E, a):
        if E.choose_free(2) == 0:
            return (False, E.fresh(CallId, 'cid'), E.fresh(Val, 'old_result'))
        return (True, None, None)

    def post(self, E, a, v0, v, r):
        f, b = E.enc(a.fun_id, FunId), E.enc(a.bound, Bound)
        dirty, cid, res = r
        if cid is None:
            return [('find_call: dirty if absent', z3.And(E.enc(dirty, TBool), z3.Not(v0.has_call(f, b))))]
        return [('find_call: found', z3.And(z3.Not(E.enc(dirty, TBool)), v0.has_call(f, b))),
                ('find_call: id', eqv(E, cid, v0.call_id(f, b), CallId)),
                ('find_call: stored result', eqv(E, res, v0.call_res(f, b), Val))]


class SaveCall(DB):
    target = 'fbuild.db.backend.Backend.save_call'
    params = ('self', 'call_id', 'fun_id', 'bound', 'result')
    types = {'call_id': TOpt(CallId), 'fun_id': FunId, 'bound': Bound, 'result': Val}
    result_type = CallId

    def modifies(self, E, a):
        return ('call',)

    def pre(self, E, v, a):
        f, b = E.enc(a.fun_id, FunId), E.enc(a.bound, Bound)
        if a.call_id is None:
            return [z3.Not(v.has_call(f, b)), live_fun(v, f)]
        return [v.has_call(f, b), v.call_id(f, b) == E.enc(a.call_id, CallId)]

    def post(self, E, a, v0, v, r):
        f, b = E.enc(a.fun_id, FunId), E.enc(a.bound, Bound)
        key = tup(CallKey, f, b)
        out = [('save_call: stored', z3.And(v.has_call(f, b), v.call_res(f, b) == E.enc(a.result, Val))),
               ('save_call: returns the id', eqv(E, r, v.call_id(f, b), CallId)),
               ('save_call: other calls unchanged', fa(CallKey, lambda k: z3.Implies(
                   k != key, v.opt('call', k) == v0.opt('call', k)), lambda k: v.pat('call', k)))]
        c = E.enc(r, CallId)
        if a.call_id is not None:
            out.append(('save_call: keeps the id', c == E.enc(a.call_id, CallId)))
        else:
            out += [('save_call: a new id is not in use', fa(CallKey, lambda k: z3.Implies(v0.has('call', k), v0.call_id(
                        acc(CallKey, 0)(k), acc(CallKey, 1)(k)) != c), lambda k: v0.pat('call', k))),
                    ('save_call: a new call has no digests', fa(FileId, lambda f: z3.Not(v.has_cf(c, f)))),
                    ('save_call: a new call has no registered files', fa(TStr, lambda n: z3.Not(z3.Or(
                        v.esrc(c, n), v.edst(c, n)))))]
        return out


class FindCallFile(DB):
    target = 'fbuild.db.backend.Backend.find_call_file'
    params = ('self', 'call_id', 'file_id')
    types = {'call_id': CallId, 'file_id': FileId}

    def result(self, E, a):
        return E.fresh(TOpt(Digest), 'old_digest')

    def post(self, E, a, v0, v, r):
        c, f = E.enc(a.call_id, CallId), E.enc(a.file_id, FileId)
        if r is None:
            return [('find_call_file: none only if absent', z3.Not(v0.has_cf(c, f)))]
        return [('find_call_file: stored digest', z3.And(v0.has_cf(c, f), eqv(E, r, v0.cf(c, f), Digest)))]


class SaveCallFile(DB):
    target = 'fbuild.db.backend.Backend.save_call_file'
    params = ('self', 'call_id', 'file_id', 'file_digest')
    types = {'call_id': CallId, 'file_id': FileId, 'file_digest': Digest}

    def modifies(self, E, a):
        return ('cfile',)

    def pre(self, E, v, a):
        return [live_call(v, E.enc(a.call_id, CallId)), live_file(v, E.enc(a.file_id, FileId))]

    def post(self, E, a, v0, v, r):
        c, f = E.enc(a.call_id, CallId), E.enc(a.file_id, FileId)
        key = tup(CFKey, c, f)
        return [('save_call_file: stored', z3.And(v.has_cf(c, f), v.cf(c, f) == E.enc(a.file_digest, Digest))),
                ('save_call_file: other digests unchanged', fa(CFKey, lambda k: z3.Implies(
                    k != key, v.opt('cfile', k) == v0.opt('cfile', k)), lambda k: v.pat('cfile', k)))]


class FindExternal(DB):
    params = ('self', 'call_id')
    types = {'call_id': CallId}
    result_type = TSet(TStr)
    which = 'esrc'

    def post(self, E, a, v0, v, r):
        c = E.enc(a.call_id, CallId)
        sel = getattr(v0, self.which)
        m = members(E, r, TStr)
        return [('%s: exactly the stored files' % self.target.split('.')[-1],
                 fa(TStr, lambda n: z3.Select(m, n) == sel(c, n), lambda n: z3.Select(m, n)))]


class FindExternalSrcs(FindExternal):
    target = 'fbuild.db.backend.Backend.find_external_srcs'


class FindExternalDsts(FindExternal):
    target = 'fbuild.db.backend.Backend.find_external_dsts'
    which = 'edst'


class SaveExternalFiles(DB):
    target = 'fbuild.db.backend.Backend.save_external_files'
    params = ('self', 'call_id', 'srcs', 'dsts')
    types = {'call_id': CallId, 'srcs': TSet(TStr), 'dsts': TSet(TStr)}
    raises = (OSError,)

    def modifies(self, E, a):
        return ('esrc', 'edst', 'file', 'cfile')

    def pre(self, E, v, a):
        return [trusted_mtime(v), ids_injective(v), live_call(v, E.enc(a.call_id, CallId))]

    def post_exc(self, E, a, v0, v, e):
        x = z3.Const('q_missing', S(TStr))
        return [('save_external_files: fails only if a source is missing', z3.Exists([x], z3.And(
            z3.Select(members(E, a.srcs, TStr), x), z3.Not(exists(x)))))]

    def post(self, E, a, v0, v, r):
        c = E.enc(a.call_id, CallId)
        srcs, dsts = members(E, a.srcs, TStr), members(E, a.dsts, TStr)
        return [
            ('save_external_files: sources stored', fa(TStr, lambda n: v.esrc(c, n) == z3.Select(srcs, n))),
            ('save_external_files: destinations stored', fa(TStr, lambda n: v.edst(c, n) == z3.Select(dsts, n))),
            ('save_external_files: other calls unchanged', fa(ExtKey, lambda k: z3.Implies(acc(ExtKey, 0)(k) != c, same_ext(
                v, v0, acc(ExtKey, 0)(k), acc(ExtKey, 1)(k))))),
            ('save_external_files: digests of the sources stored', fa(TStr, lambda n: z3.Implies(
                z3.Select(srcs, n), z3.And(file_seen(v, v0, n), v.has_cf(c, v.file_id(n)),
                                           v.cf(c, v.file_id(n)) == content(n))))),
            ('save_external_files: other digests unchanged', fa(CFKey, lambda k: z3.Implies(
                acc(CFKey, 0)(k) != c, v.opt('cfile', k) == v0.opt('cfile', k)))),
            ('save_external_files: file records stay right', fa(TStr, lambda n: z3.Implies(v0.has_file(n), z3.And(
                v.has_file(n), v.file_id(n) == v0.file_id(n))))),
            ('save_external_files: digests of this call are kept or refreshed', fa(TStr, lambda n: z3.Implies(
                z3.And(v0.has_file(n), v0.has_cf(c, v0.file_id(n)), v0.cf(c, v0.file_id(n)) == content(n)),
                z3.And(v.has_cf(c, v.file_id(n)), v.cf(c, v.file_id(n)) == content(n))))),
        ]


class FindFile(DB):
    target = 'fbuild.db.backend.Backend.find_file'
    params = ('self', 'file_name')
    types = {'file_name': TStr}

    def result(self, E, a):
        if E.choose_free(2) == 0:
            return (E.fresh(FileId, 'file_id'), E.fresh(TReal, 'old_mtime'), E.fresh(Digest, 'old_digest'))
        # an engine may already know the id a new record will get
        return (E.fresh(FileId, 'new_id') if E.choose_free(2) else None, None, None)

    def post(self, E, a, v0, v, r):
        n = E.enc(a.file_name, TStr)
        i, m, d = r
        if m is None:
            out = [('find_file: none only if absent', z3.And(z3.Not(v0.has_file(n)), z3.BoolVal(d is None)))]
            if i is not None:
                out.append(('find_file: a proposed id may be used', v0.may_get(n, E.enc(i, FileId))))
            return out
        return [('find_file: record', z3.And(v0.has_file(n), z3.BoolVal(i is not None and d is not None))),
                ('find_file: id', False if i is None else eqv(E, i, v0.file_id(n), FileId)),
                ('find_file: mtime', eqv(E, m, v0.file_mt(n), TReal)),
                ('find_file: digest', False if d is None else eqv(E, d, v0.file_dig(n), Digest))]


class SaveFile(DB):
    target = 'fbuild.db.backend.Backend.save_file'
    params = ('self', 'file_id', 'file_name', 'file_mtime', 'file_digest')
    types = {'file_id': TOpt(FileId), 'file_name': TStr, 'file_mtime': TReal, 'file_digest': Digest}
    result_type = FileId

    def modifies(self, E, a):
        return ('file',)

    def pre(self, E, v, a):
        n = E.enc(a.file_name, TStr)
        if a.file_id is None:
            return [z3.Not(v.has_file(n))]
        i = E.enc(a.file_id, FileId)
        return [z3.Or(z3.And(v.has_file(n), i == v.file_id(n)),
                      z3.And(z3.Not(v.has_file(n)), v.may_get(n, i)))]

    def post(self, E, a, v0, v, r):
        n = E.enc(a.file_name, TStr)
        i = E.enc(r, FileId)
        out = [('save_file: stored', z3.And(v.has_file(n), v.file_id(n) == i,
                                            v.file_mt(n) == E.enc(a.file_mtime, TReal),
                                            v.file_dig(n) == E.enc(a.file_digest, Digest))),
               ('save_file: keeps the id', z3.Implies(v0.has_file(n), i == v0.file_id(n))),
               ('save_file: other files unchanged', fa(TStr, lambda m: z3.Implies(
                   m != n, v.opt('file', m) == v0.opt('file', m)), lambda m: v.pat('file', m))),
               ('save_file: a new id is not in use', z3.Implies(z3.Not(v0.has_file(n)), fa(TStr, lambda k: z3.Implies(
                   v0.has_file(k), v0.file_id(k) != i))))]
        return out


class DeleteFile(DB):
    target = 'fbuild.db.backend.Backend.delete_file'
    params = ('self', 'file_name')
    types = {'file_name': TStr}
    result_type = TBool

    def modifies(self, E, a):
        return ('file', 'cfile')

    def post(self, E, a, v0, v, r):
        n = E.enc(a.file_name, TStr)
        return [('delete_file: record gone', z3.Not(v.has_file(n))),
                ('delete_file: other files unchanged', fa(TStr, lambda m: z3.Implies(
                    m != n, v.opt('file', m) == v0.opt('file', m)), lambda m: v.pat('file', m))),
                ('delete_file: its digests gone, others unchanged', fa(CFKey, lambda k: z3.If(
                    z3.And(v0.has_file(n), acc(CFKey, 1)(k) == v0.file_id(n)), z3.Not(v.has('cfile', k)),
                    v.opt('cfile', k) == v0.opt('cfile', k)), lambda k: v.pat('cfile', k))),
                ('delete_file: says whether it existed', E.enc(r, TBool) == v0.has_file(n))]


PRIMITIVES = [FindFunction, FindFunctionDependents, SaveFunction, DeleteFunction, FindCall, SaveCall, FindCallFile,
              SaveCallFile, FindExternalSrcs, FindExternalDsts, SaveExternalFiles, FindFile, SaveFile,
              DeleteFile]
