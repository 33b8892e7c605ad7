"""Contracts of fbuild.db.backend.Backend, proved over the abstract engine."""
import ast
import z3

from pyvc import types as T
from pyvc.values import *
from pyvc.containers import *
from .dbmodel import *


class PathDigest(Contract):
    """At call sites; its own proof is in contracts/pathdigest.py."""
    target = 'fbuild.path.Path.digest'
    params = ('self',)
    raises = (OSError,)

    def result(self, E, a):
        return Sym(content(E.enc(a.self, TStr)), TStr)

    def outcomes(self, E, a):
        if E.branch(exists(E.enc(a.self, TStr))):
            return [('return', None)]
        return [('raise', OSError)]


def install_fs(E):
    I = E.intrinsics

    def new_path(E, cls, args, kw):
        if len(args) == 1 and E.is_str(args[0]):
            return Sym(E.enc(args[0], TStr), TStr, cls=cls)
        t = E.fmt_opaque('join', list(args))
        return Sym(t.t, TStr, cls=cls)
    I['new:fbuild.path.Path'] = new_path

    def getmtime(E, a, k):
        n = E.enc(a[0], TStr)
        if not E.branch(exists(n)):
            E.raise_py(OSError)
        return Sym(mtime(n), TReal)
    I['os.path.getmtime'] = getmtime

    def ex(E, a, k):
        return E.bv(exists(E.enc(a[0], TStr)))
    I['os.path.exists'] = ex

    def now(E, a, k):
        return Sym(z3.Const('now', z3.RealSort()), TReal)
    I['time.time'] = now


class Composite(DB):
    def install(self, E):
        install_fs(E)

    def engine(self, E):
        return E.new_inst(E.repo.find('fbuild.db.backend.Backend'), 'backend')


class AddFile(Composite):
    target = 'fbuild.db.backend.Backend.add_file'
    params = ('self', 'file_name')
    types = {'file_name': TStr}
    raises = (OSError,)
    props = ('C01', 'C04', 'C07')

    def modifies(self, E, a):
        return ('file',)

    def pre(self, E, v, a):
        return [trusted_mtime(v), ids_injective(v)]

    def outcomes(self, E, a):
        return [('return', None), ('raise', OSError)]

    def result(self, E, a):
        return (E.fresh(TBool, 'dirty'), E.fresh(FileId, 'file_id'), E.fresh(TReal, 'mtime'), E.fresh(Digest, 'digest'))

    def post(self, E, a, v0, v, r):
        n = E.enc(a.file_name, TStr)
        d, i, m, g = r
        return [
            ('add_file: returns the current digest', E.enc(g, Digest) == content(n)),
            ('add_file: returns the id', eqv(E, i, v.file_id(n), FileId)),
            ('add_file: the record describes the file', z3.And(exists(n), file_seen(v, v0, n))),
            ('add_file: dirty exactly when the contents changed or are new',
             E.enc(d, TBool) == z3.Not(z3.And(v0.has_file(n), v0.file_dig(n) == content(n)))),
            ('add_file: other files unchanged', fa(TStr, lambda k: z3.Implies(k != n, v.opt('file', k) == v0.opt('file', k)), lambda k: v.pat('file', k))),
            ('add_file: records stay trustworthy', trusted_mtime(v)),
            ('add_file: ids stay distinct', ids_injective(v)),
        ]

    def post_exc(self, E, a, v0, v, e):
        n = E.enc(a.file_name, TStr)
        return [('add_file: fails only if the file is missing', z3.Not(exists(n))),
                ('add_file: nothing stored for a missing file', v.st['file'] == v0.st['file'])]


def not_stale(v, call, i, n):
    """The call has stored the current digest of the file."""
    return z3.And(v.has_cf(call, i), v.cf(call, i) == content(n))


class CheckCallFile(Composite):
    target = 'fbuild.db.backend.Backend.check_call_file'
    params = ('self', 'call_id', 'file_name')
    types = {'call_id': TOpt(CallId), 'file_name': TStr}
    raises = (OSError,)
    props = ('C01', 'C04')

    def modifies(self, E, a):
        return ('file',)

    def pre(self, E, v, a):
        return [trusted_mtime(v), ids_injective(v)]

    def result(self, E, a):
        return (E.fresh(TBool, 'dirty'), E.fresh(FileId, 'file_id'), E.fresh(Digest, 'digest'))

    def post(self, E, a, v0, v, r):
        n = E.enc(a.file_name, TStr)
        d, i, g = r
        dirty = E.enc(d, TBool)
        out = [
            ('check_call_file: returns the current digest', E.enc(g, Digest) == content(n)),
            ('check_call_file: returns the id', eqv(E, i, v.file_id(n), FileId)),
            ('check_call_file: the record describes the file', z3.And(exists(n), file_seen(v, v0, n))),
            ('check_call_file: other files unchanged', fa(TStr, lambda k: z3.Implies(k != n, v.opt('file', k) == v0.opt('file', k)), lambda k: v.pat('file', k))),
            ('check_call_file: records stay trustworthy', trusted_mtime(v)),
            ('check_call_file: ids stay distinct', ids_injective(v)),
        ]
        if a.call_id is None:
            out.append(('check_call_file: always dirty for a new call', dirty))
        else:
            c = E.enc(a.call_id, CallId)
            out += [('check_call_file: clean only if the call saw these contents',
                     z3.Implies(z3.Not(dirty), not_stale(v0, c, v.file_id(n), n))),
                    ('check_call_file: clean if nothing changed', z3.Implies(z3.And(
                        v0.has_file(n), v0.file_dig(n) == content(n), not_stale(v0, c, v0.file_id(n), n)),
                        z3.Not(dirty)))]
        return out

    def post_exc(self, E, a, v0, v, e):
        n = E.enc(a.file_name, TStr)
        return [('check_call_file: fails only if the file is missing', z3.Not(exists(n))),
                ('check_call_file: nothing stored for a missing file', v.st['file'] == v0.st['file'])]


DirtyRec = TTup(FileId, TStr, Digest)
DirtyRecOpt = TTup(TOpt(FileId), TStr, TOpt(Digest))


def opt_member(m, k, i, n, g):
    """(i, n, g) is in the collection m of element type k."""
    if k == DirtyRec:
        return z3.Select(m, tup(k, i, n, g))
    return z3.Select(m, tup(k, T.some(FileId, i), n, T.some(Digest, g)))


def over_names(c, E, L):
    """Loop over a set of file names, checking each file."""
    if L.kind not in ('set', 'coll') or L.ety != TStr or L.D is None or 'file' not in E.heap:
        return []
    v, v0 = c.view(L.now), c.view(E.entry)
    if getattr(E.cur, 'a', None) is None:
        return []
    D = L.D
    call = getattr(E.cur.a, 'call_id', None)
    out = [('done files are up to date', fa(TStr, lambda n: z3.Implies(z3.And(z3.Select(D, n), exists(n)),
                                                                     file_seen(v, v0, n)),
                                            lambda n: z3.Select(D, n), lambda n: v.pat('file', n))),
           ('other files unchanged', fa(TStr, lambda n: z3.Implies(
               z3.Not(z3.Select(D, n)), v.opt('file', n) == v0.opt('file', n)), lambda n: v.pat('file', n))),
           ('missing files unchanged', fa(TStr, lambda n: z3.Implies(
               z3.Not(exists(n)), v.opt('file', n) == v0.opt('file', n)), lambda n: v.pat('file', n))),
           ('done files exist', fa(TStr, lambda n: z3.Implies(z3.Select(D, n), exists(n)))),
           ('trusted', trusted_mtime(v)), ('ids', ids_injective(v))]
    for key, x in L.locals.items():
        if key[0] != 'C' or not isinstance(x, (MSet, MList)):
            continue
        k = x.ty()
        if k is None:
            continue
        k = k.k if isinstance(k, (T.TSet, T.TColl)) else k.a
        if k not in (DirtyRec, DirtyRecOpt):
            continue
        m = members(E, x, k)

        def clean(n):
            if call is None:
                return z3.BoolVal(False)
            cc = E.enc(call, CallId)
            return not_stale(v0, cc, v.file_id(n), n)
        nm = acc(k, 1)
        out += [('every stale file is listed', fa(TStr, lambda n: z3.Implies(
                    z3.And(z3.Select(D, n), exists(n)), z3.Or(clean(n), opt_member(m, k, v.file_id(n), n, content(n)))),
                    lambda n: z3.Select(D, n))),
                ('listed entries', fa(k, lambda e: z3.Implies(z3.Select(m, e), entry_ok(k, D, v, e)),
                                      lambda e: z3.Select(m, e)))]
        if k == DirtyRecOpt:
            out.append(('missing files are listed', fa(TStr, lambda n: z3.Implies(
                z3.And(z3.Select(D, n), z3.Not(exists(n))), z3.Select(m, tup(k, T.none(FileId), n, T.none(Digest)))),
                lambda n: z3.Select(D, n))))
        if call is not None:
            cc = E.enc(call, CallId)
            out.append(('unchanged files are not listed', fa(k, lambda e: z3.Implies(
                z3.Select(m, e), z3.Not(z3.And(exists(nm(e)), v0.has_file(nm(e)), v0.file_dig(nm(e)) == content(nm(e)),
                                               not_stale(v0, cc, v0.file_id(nm(e)), nm(e))))),
                lambda e: z3.Select(m, e))))
    return out


def entry_ok(k, D, v, e):
    n = acc(k, 1)(e)
    full = z3.And(z3.Select(D, n), exists(n), e == (
        tup(k, v.file_id(n), n, content(n)) if k == DirtyRec else
        tup(k, T.some(FileId, v.file_id(n)), n, T.some(Digest, content(n)))))
    if k == DirtyRec:
        return full
    return z3.Or(full, z3.And(z3.Select(D, n), z3.Not(exists(n)), e == tup(k, T.none(FileId), n, T.none(Digest))))


class FileSet(Composite):
    """Shared by check_call_files and check_external_files."""
    hints = (DirtyRec, DirtyRecOpt)
    colls = (DirtyRecOpt,)
    loops = (over_names,)

    def begin(self, E, a):
        self.a = a

    def modifies(self, E, a):
        return ('file',)

    def pre(self, E, v, a):
        return [trusted_mtime(v), ids_injective(v)]

    def files_post(self, E, nm, names, v0, v):
        return [
            (nm + ': every file is up to date', fa(TStr, lambda n: z3.Implies(
                z3.And(names(n), exists(n)), file_seen(v, v0, n)), lambda n: v.pat('file', n))),
            (nm + ': other files unchanged', fa(TStr, lambda n: z3.Implies(
                z3.Not(names(n)), v.opt('file', n) == v0.opt('file', n)), lambda n: v.pat('file', n))),
            (nm + ': records stay trustworthy', trusted_mtime(v)),
            (nm + ': ids stay distinct', ids_injective(v)),
        ]

    def entries_post(self, E, nm, names, m, k, call, v0, v):
        def clean(n):
            if call is None:
                return z3.BoolVal(False)
            return not_stale(v0, E.enc(call, CallId), v.file_id(n), n)
        name = acc(k, 1)
        out = [
            (nm + ': every file the call did not see like this is listed', fa(TStr, lambda n: z3.Implies(
                z3.And(names(n), exists(n)), z3.Or(clean(n), opt_member(m, k, v.file_id(n), n, content(n)))))),
            (nm + ': listed entries carry id and current digest', fa(k, lambda e: z3.Implies(
                z3.Select(m, e), entry_ok_names(k, names, v, e)), lambda e: z3.Select(m, e)))]
        if call is not None:
            cc = E.enc(call, CallId)
            out.append((nm + ': a file that did not change is not listed', fa(k, lambda e: z3.Implies(
                z3.Select(m, e), z3.Not(z3.And(exists(name(e)), v0.has_file(name(e)),
                                               v0.file_dig(name(e)) == content(name(e)),
                                               not_stale(v0, cc, v0.file_id(name(e)), name(e))))),
                lambda e: z3.Select(m, e))))
        return out


def entry_ok_names(k, names, v, e):
    n = acc(k, 1)(e)
    full = z3.And(names(n), exists(n), e == (
        tup(k, v.file_id(n), n, content(n)) if k == DirtyRec else
        tup(k, T.some(FileId, v.file_id(n)), n, T.some(Digest, content(n)))))
    if k == DirtyRec:
        return full
    return z3.Or(full, z3.And(names(n), z3.Not(exists(n)), e == tup(k, T.none(FileId), n, T.none(Digest))))


class CheckCallFiles(FileSet):
    target = 'fbuild.db.backend.Backend.check_call_files'
    params = ('self', 'call_id', 'file_names')
    types = {'call_id': TOpt(CallId), 'file_names': TSet(TStr)}
    raises = (OSError,)
    props = ('C01', 'C04')
    hints = (DirtyRec,)
    result_type = TSet(DirtyRec)

    def post(self, E, a, v0, v, r):
        s = members(E, a.file_names, TStr)

        def names(n):
            return z3.Select(s, n)
        m = members(E, r, DirtyRec)
        return ([('check_call_files: succeeds only if all files exist',
                  fa(TStr, lambda n: z3.Implies(names(n), exists(n))))] +
                self.files_post(E, 'check_call_files', names, v0, v) +
                self.entries_post(E, 'check_call_files', names, m, DirtyRec, a.call_id, v0, v))

    def post_exc(self, E, a, v0, v, e):
        s = members(E, a.file_names, TStr)
        x = z3.Const('q_missing', S(TStr))
        return [('check_call_files: fails only if a file is missing',
                 z3.Exists([x], z3.And(z3.Select(s, x), z3.Not(exists(x)))))]


class CheckExternalFiles(FileSet):
    target = 'fbuild.db.backend.Backend.check_external_files'
    params = ('self', 'call_id')
    types = {'call_id': CallId}
    props = ('C01', 'C03', 'C04', 'C11')
    hints = (DirtyRecOpt,)

    def result(self, E, a):
        return (E.fresh(TSet(TStr), 'external_srcs'), E.fresh(TSet(TStr), 'external_dsts'),
                E.fresh(TColl(DirtyRecOpt), 'external_digests'))

    def post(self, E, a, v0, v, r):
        c = E.enc(a.call_id, CallId)
        srcs, dsts, dg = r

        def names(n):
            return v0.esrc(c, n)
        m = members(E, dg, DirtyRecOpt)
        nm = 'check_external_files'
        ms, md = members(E, srcs, TStr), members(E, dsts, TStr)
        return ([(nm + ': the stored sources', fa(TStr, lambda n: z3.Select(ms, n) == v0.esrc(c, n))),
                 (nm + ': the stored destinations', fa(TStr, lambda n: z3.Select(md, n) == v0.edst(c, n))),
                 (nm + ': a missing source is listed', fa(TStr, lambda n: z3.Implies(
                     z3.And(names(n), z3.Not(exists(n))),
                     z3.Select(m, tup(DirtyRecOpt, T.none(FileId), n, T.none(Digest))))))] +
                self.files_post(E, nm, names, v0, v) +
                self.entries_post(E, nm, names, m, DirtyRecOpt, a.call_id, v0, v))


def over_entries(c, E, L):
    """Loop storing digests."""
    if L.kind not in ('set', 'coll') or L.ety != DirtyRec or L.D is None or 'cfile' not in E.heap:
        return []
    a = getattr(E.cur, 'a', None)
    if a is None:
        return []
    v, v0 = c.view(L.now), c.view(E.entry)
    cc = E.enc(a.call_id, CallId)
    k = DirtyRec
    i, g = acc(k, 0), acc(k, 2)
    return [('done entries stored', fa(k, lambda e: z3.Implies(z3.Select(L.D, e), z3.And(
                v.has_cf(cc, i(e)), v.cf(cc, i(e)) == g(e))), lambda e: z3.Select(L.D, e))),
            ('other digests', fa(CFKey, lambda q: z3.Or(v.opt('cfile', q) == v0.opt('cfile', q), z3.And(
                acc(CFKey, 0)(q) == cc, T.is_some(Digest, v.opt('cfile', q)),
                z3.Select(L.S, tup(k, acc(CFKey, 1)(q), c.entry_name(acc(CFKey, 1)(q)), T.val(Digest, v.opt('cfile', q)))))),
                lambda q: v.pat('cfile', q)))]


def live_entries(v, m):
    """The files of the entries are stored under their ids."""
    k = DirtyRec
    return fa(k, lambda e: z3.Implies(z3.Select(m, e), z3.And(v.has_file(acc(k, 1)(e)), v.file_id(acc(k, 1)(e)) == acc(
        k, 0)(e))), lambda e: z3.Select(m, e))


class SaveCallFiles(Composite):
    target = 'fbuild.db.backend.Backend.save_call_files'
    params = ('self', 'call_id', 'digests')
    types = {'call_id': CallId, 'digests': TSet(DirtyRec)}
    props = ('C01', 'C04', 'C07')
    loops = (over_entries,)

    def begin(self, E, a):
        self.a = a

    @staticmethod
    def entry_name(i):
        return fn('name_of_id', FileId, TStr)(i)

    def modifies(self, E, a):
        return ('cfile',)

    def pre(self, E, v, a):
        """The entries describe distinct files: one digest for each id."""
        m = members(E, a.digests, DirtyRec)
        k = DirtyRec
        e, f = z3.Consts('q_e q_f', S(k))
        return [z3.ForAll([e, f], z3.Implies(z3.And(z3.Select(m, e), z3.Select(m, f), acc(k, 0)(e) == acc(k, 0)(f)),
                                             e == f)), live_call(v, E.enc(a.call_id, CallId)), live_entries(v, m)]

    def ghost(self, E, a):
        m = members(E, a.digests, DirtyRec)
        k = DirtyRec
        return fa(k, lambda e: z3.Implies(z3.Select(m, e), self.entry_name(acc(k, 0)(e)) == acc(k, 1)(e)),
                  lambda e: z3.Select(m, e))

    def setup(self, E):
        a = super().setup(E)
        E.assume(self.ghost(E, a))       # names the file of each id (ids are distinct)
        return a

    def post(self, E, a, v0, v, r):
        m = members(E, a.digests, DirtyRec)
        cc = E.enc(a.call_id, CallId)
        k = DirtyRec
        i, g = acc(k, 0), acc(k, 2)
        q = z3.Const('q_s', S(DirtyRec))
        return [('save_call_files: every digest stored', fa(k, lambda e: z3.Implies(z3.Select(m, e), z3.And(
                    v.has_cf(cc, i(e)), v.cf(cc, i(e)) == g(e))), lambda e: z3.Select(m, e))),
                ('save_call_files: other digests unchanged', fa(CFKey, lambda q: z3.Or(
                    v.opt('cfile', q) == v0.opt('cfile', q), z3.And(acc(CFKey, 0)(q) == cc, z3.Exists(
                        [z3.Const('q_w', S(k))], z3.And(z3.Select(m, z3.Const('q_w', S(k))),
                                                        i(z3.Const('q_w', S(k))) == acc(CFKey, 1)(q))))),
                    lambda q: v.pat('cfile', q)))]


# ---------------------------------------------------------------------------
# functions

class DigestFromMap(Contract):
    """Database.get_function_digest_from_map: the current digest of a function."""
    target = 'fbuild.db.database.Database.get_function_digest_from_map'
    params = ('self', 'fun_name')
    trusted = True

    def outcomes(self, E, a):
        if E.branch(defined(E.enc(a.fun_name, TStr))):
            return [('return', None)]
        return [('raise', KeyError)]

    def result(self, E, a):
        return Sym(curdig(E.enc(a.fun_name, TStr)), TStr)


def fun_ok(v, n):
    """Function n is stored with its current digest."""
    return z3.And(defined(n), v.has_fun(n), v.fun_dig(n) == curdig(n))


def closed_ok(v, Z, minus, plus):
    """Members of Z except those of `minus` are unchanged and call only members of `plus`."""
    z, d = z3.Consts('q_z q_d', S(TStr))
    return z3.ForAll([z, d], z3.Implies(z3.And(z3.Select(Z, z), z3.Not(z3.Select(minus, z))), z3.And(
        fun_ok(v, z), z3.Implies(z3.Select(v.fun_deps(z), d), z3.Select(plus, d)))),
        patterns=[z3.MultiPattern(z3.Select(Z, z), z3.Select(v.fun_deps(z), d))])


def all_ok(v, Z, minus):
    return fa(TStr, lambda z: z3.Implies(z3.And(z3.Select(Z, z), z3.Not(z3.Select(minus, z))), fun_ok(v, z)),
              lambda z: z3.Select(Z, z))


def good_set(v, W):
    """W is closed under calls and every member is stored unchanged."""
    z, d = z3.Consts('q_z q_d', S(TStr))
    return z3.And(fa(TStr, lambda z: z3.Implies(z3.Select(W, z), fun_ok(v, z)), lambda z: z3.Select(W, z)),
                  z3.ForAll([z, d], z3.Implies(z3.And(z3.Select(W, z), z3.Select(v.fun_deps(z), d)), z3.Select(W, d)),
                            patterns=[z3.MultiPattern(z3.Select(W, z), z3.Select(v.fun_deps(z), d))]))


WSET = z3.Const('W', S(TSet(TStr)))


def over_deps(c, E, L):
    """Loop over the functions called by one function."""
    a = getattr(E.cur, 'a', None)
    if L.kind not in ('set', 'coll') or L.ety != TStr or L.D is None or a is None or not isinstance(E.cur, CheckFunction):
        return []
    v = c.view(L.now)
    s0, s = a.old, a.cur_set(E)
    if s is None:
        return []
    n = E.enc(a.fun_name, TStr)
    start = z3.Store(s0, n, z3.BoolVal(True))
    return [('checked grows', fa(TStr, lambda m: z3.Implies(z3.Select(start, m), z3.Select(s, m)),
                                 lambda m: z3.Select(start, m), lambda m: z3.Select(s, m))),
            ('done are checked', fa(TStr, lambda m: z3.Implies(z3.Select(L.D, m), z3.Select(s, m)),
                                    lambda m: z3.Select(L.D, m))),
            ('checked are ok', all_ok(v, s, start)),
            ('checked are closed', closed_ok(v, s, start, s))]


class CheckFunction(Composite):
    target = 'fbuild.db.backend.Backend.check_function'
    params = ('self', 'fun_name', 'already_checked')
    types = {'fun_name': TStr}
    props = ('C02', 'C04')
    loops = (over_deps,)
    variants = ('top', 'nested')
    assumptions = ('termination of the recursion is not proved (each call adds a name to already_checked)',)

    def fresh_param(self, E, p):
        if p == 'already_checked':
            if self.variant == 'top':
                return None
            return MSet(E, TStr, term=E.fresh_term(S(TSet(TStr)), 'already_checked'), name='.already')
        return super().fresh_param(E, p)

    def begin(self, E, a):
        self.a = a
        self.capture(E, a)

    def capture(self, E, a):
        if a.already_checked is None:
            a.old = T.empty_set(TStr)

            def cur(E):
                # the set the function made for itself
                for c in E.conts.values():
                    if isinstance(c, MSet) and c.items is None and c.k == TStr and c.name in a.made:
                        return c.read()
                return None
            a.made = Made(E)
        else:
            a.old = a.already_checked.set_term(TStr)

            def cur(E):
                return a.already_checked.set_term(TStr)
        a.cur_set = cur

    def modifies(self, E, a):
        return ('.already',)

    def result(self, E, a):
        return (E.fresh(TBool, 'fun_dirty'), E.fresh(TOpt(FunId), 'fun_id'))

    def apply(self, E, a):
        self_ = a.already_checked
        a.old = T.empty_set(TStr) if self_ is None else self_.set_term(TStr)
        pre = E.snapshot()
        r = self.result(E, a)
        if self_ is not None:
            self_.symbolic(TStr)
            self_.kill_views()
            self_.touched()
            self_.write(E.fresh_term(S(TSet(TStr)), 'checked'))
            a.cur_set = lambda E: self_.set_term(TStr)
        else:
            t = E.fresh_term(S(TSet(TStr)), 'checked')
            a.cur_set = lambda E: t
        v = self.view(pre)
        for n, f in self.post(E, a, v, self.view(E.snapshot()), r):
            E.assume(f)
        E.assume_or_end(z3.BoolVal(True))
        return r

    def post(self, E, a, v0, v, r):
        n = E.enc(a.fun_name, TStr)
        dirty, i = r
        dirty = E.enc(dirty, TBool)
        s0, s = a.old, a.cur_set(E)
        out = []
        if s is None:
            s = E.fresh_term(S(TSet(TStr)), 'nochecked')
        full = [('check_function: clean only if it and all functions it calls are unchanged (set grows)',
                 z3.Implies(z3.Not(dirty), z3.And(z3.Select(s, n), fa(TStr, lambda m: z3.Implies(
                     z3.Select(s0, m), z3.Select(s, m)), lambda m: z3.Select(s0, m))))),
                ('check_function: clean only if every checked function is unchanged',
                 z3.Implies(z3.And(z3.Not(dirty)), z3.And(fun_ok(v0, n), all_ok(v0, s, s0)))),
                ('check_function: clean only if the checked functions call only checked ones', z3.Implies(z3.Not(dirty),
                 closed_ok(v0, s, z3.Store(s0, n, z3.BoolVal(False)), s)))]
        out += full
        out.append(('check_function: checked names are kept', fa(TStr, lambda m: z3.Implies(
            z3.Select(s0, m), z3.Select(s, m)), lambda m: z3.Select(s0, m))) if a.already_checked is not None else
            ('check_function: checked names are kept', z3.BoolVal(True)))
        out.append(('check_function: clean if nothing it calls changed',
                    z3.Implies(z3.And(good_set(v0, WSET), z3.Select(WSET, n)), z3.Not(dirty))))
        if i is None:
            out.append(('check_function: id only of a stored function', z3.Or(z3.Not(v0.has_fun(n)), z3.Not(defined(n)))))
            out.append(('check_function: an unknown function is dirty', dirty))
        else:
            out.append(('check_function: id', z3.And(v0.has_fun(n), eqv(E, i, v0.fun_id(n), FunId))))
        return out


class Made:
    """Names of containers created after this point."""

    def __init__(self, E):
        self.before = set(E.conts)

    def __contains__(self, n):
        return n not in self.before


def over_dependents(c, E, L):
    """while/for loops of find_dependent_functions."""
    a = getattr(E.cur, 'a', None)
    if a is None or not isinstance(E.cur, FindDependent):
        return []
    v = c.view(E.entry)
    n0 = E.enc(a.fun_name, TStr)
    out = []
    for key, x in L.locals.items():
        if key[0] != 'C' or not isinstance(x, MSet) or x.items is not None or x.k != TStr:
            continue
        s = x.set_term(TStr)
        out += [('names has the function', z3.Select(s, n0)),
                ('names are dependents', c.minimal(v, s, n0))]
        for k2, f in L.locals.items():
            if k2[0] == 'L' and (isinstance(f, bool) or isinstance(f, Sym) and f.ty.key == 'Bool'):
                fd = E.enc(f, TBool)
                if L.kind == 'while':
                    out.append(('stopped when closed:%s' % k2[2], z3.Implies(z3.Not(fd), c.closed(v, s))))
                elif L.D is not None and L.ety == TTup(TStr, TColl(TStr)):
                    et = L.ety
                    m, d = z3.Consts('q_m q_d', S(TStr))
                    out.append(('done are closed:%s' % k2[2], z3.Implies(z3.Not(fd), z3.ForAll([m, d], z3.Implies(
                        z3.And(z3.Select(L.D, tup(et, m, v.fun_deps(m))), z3.Select(v.fun_deps(m), d),
                               z3.Select(s, d)), z3.Select(s, m)),
                        patterns=[z3.MultiPattern(z3.Select(v.fun_deps(m), d), z3.Select(s, d))]))))
    return out


class FindDependent(Composite):
    target = 'fbuild.db.backend.Backend.find_dependent_functions'
    params = ('self', 'fun_name')
    types = {'fun_name': TStr}
    props = ('C02',)
    loops = (over_dependents,)
    result_type = TSet(TStr)
    assumptions = ('termination of the loop is not proved (each round adds a name)',)

    def begin(self, E, a):
        self.a = a

    @staticmethod
    def closed(v, s):
        m, d = z3.Consts('q_m q_d', S(TStr))
        return z3.ForAll([m, d], z3.Implies(z3.And(v.has_fun(m), z3.Select(v.fun_deps(m), d), z3.Select(s, d)),
                                            z3.Select(s, m)),
                         patterns=[z3.MultiPattern(z3.Select(v.fun_deps(m), d), z3.Select(s, d))])

    @staticmethod
    def minimal(v, s, n0):
        """Every member is in each closed set that has the function: stated for an arbitrary set W."""
        m, d = z3.Consts('q_m q_d', S(TStr))
        wclosed = z3.ForAll([m, d], z3.Implies(z3.And(v.has_fun(m), z3.Select(v.fun_deps(m), d), z3.Select(WSET, d)),
                                               z3.Select(WSET, m)))
        return z3.Implies(z3.And(z3.Select(WSET, n0), wclosed), fa(TStr, lambda m: z3.Implies(
            z3.Select(s, m), z3.Select(WSET, m)), lambda m: z3.Select(s, m)))

    def post(self, E, a, v0, v, r):
        s = members(E, r, TStr)
        n0 = E.enc(a.fun_name, TStr)
        return [('find_dependent_functions: has the function itself', z3.Select(s, n0)),
                ('find_dependent_functions: closed under direct dependents', self.closed(v0, s)),
                ('find_dependent_functions: nothing that does not depend on it', self.minimal(v0, s, n0))]


COMPOSITES = [AddFile, CheckCallFile, CheckCallFiles, CheckExternalFiles, SaveCallFiles, CheckFunction, FindDependent]


class Prepare(Composite):
    target = 'fbuild.db.backend.Backend.prepare'
    params = ('self', 'fun_name', 'fun_digest', 'bound', 'srcs', 'dsts')
    types = {'fun_name': TStr, 'fun_digest': Digest, 'bound': Bound, 'srcs': TSet(TStr), 'dsts': TSet(TStr)}
    raises = (OSError,)
    props = ('C01', 'C02', 'C04', 'C11')

    def modifies(self, E, a):
        return ('file',)

    def pre(self, E, v, a):
        return [trusted_mtime(v), ids_injective(v)]

    def result(self, E, a):
        """An answer is either a hit (every part clean) or asks to run."""
        if E.choose_free(2) == 0:
            return (False, E.fresh(FunId, 'fun_id'), False, E.fresh(CallId, 'call_id'), E.fresh(Val, 'old_result'),
                    E.fresh(TSet(DirtyRec), 'cfd'), E.fresh(TSet(TStr), 'esrcs'), E.fresh(TSet(TStr), 'edsts'),
                    E.fresh(TColl(DirtyRecOpt), 'edig'))
        return (E.fresh(TBool, 'fun_dirty'), E.fresh(TOpt(FunId), 'fun_id'), True, None, None,
                E.fresh(TSet(DirtyRec), 'cfd'), E.fresh(TSet(TStr), 'esrcs'), E.fresh(TSet(TStr), 'edsts'), ())

    def post(self, E, a, v0, v, r):
        n, b = E.enc(a.fun_name, TStr), E.enc(a.bound, Bound)
        fd, fid, cd, cid, old, cfd, es, ed, xd = r
        fd, cd = E.enc(fd, TBool), E.enc(cd, TBool)
        nm = 'prepare'
        s = members(E, a.srcs, TStr)
        mes, med = members(E, es, TStr), members(E, ed, TStr)
        m, mx = members(E, cfd, DirtyRec), members(E, xd, DirtyRecOpt)
        clean = z3.And(z3.Not(fd), z3.Not(cd), m == T.empty_set(DirtyRec), mx == T.empty_set(DirtyRecOpt))
        out = [
            (nm + ': records stay trustworthy', trusted_mtime(v)), (nm + ': ids stay distinct', ids_injective(v)),
            (nm + ': succeeds only if all declared sources exist', fa(TStr, lambda x: z3.Implies(
                z3.Select(s, x), exists(x)))),
            (nm + ': every declared source is up to date', fa(TStr, lambda x: z3.Implies(
                z3.Select(s, x), file_seen(v, v0, x)))),
            (nm + ': a missing call is dirty', z3.Implies(z3.BoolVal(cid is None), cd)),
            (nm + ': clean function only if it is stored with its current digest', z3.Implies(z3.Not(fd), fun_ok(v0, n))),
        ]
        if cid is None:
            out += [(nm + ': no call found only if there is none or the function changed', z3.Or(
                fd, z3.BoolVal(fid is None) if fid is None else z3.Not(v0.has_call(E.enc(fid, FunId), b)))),
                (nm + ': nothing registered without a call', z3.And(mes == T.empty_set(TStr), med == T.empty_set(TStr))),
                (nm + ': every declared source is listed for a new call', fa(TStr, lambda x: z3.Implies(
                    z3.Select(s, x), z3.Select(m, tup(DirtyRec, v.file_id(x), x, content(x))))))]
        else:
            f = E.enc(fid, FunId) if fid is not None else None
            c = E.enc(cid, CallId)
            out += [
                (nm + ': the call is the stored one', z3.And(v0.has_fun(n), f == v0.fun_id(n), v0.has_call(f, b),
                                                           c == v0.call_id(f, b), E.enc(old, Val) == v0.call_res(f, b))),
                (nm + ': the registered sources', fa(TStr, lambda x: z3.Select(mes, x) == v0.esrc(c, x))),
                (nm + ': the registered destinations', fa(TStr, lambda x: z3.Select(med, x) == v0.edst(c, x))),
                (nm + ': clean only if the call saw the current contents of all its sources', z3.Implies(clean, fa(
                    TStr, lambda x: z3.Implies(z3.Or(z3.Select(s, x), v0.esrc(c, x)), z3.And(
                        exists(x), not_stale(v0, c, v.file_id(x), x)))))),
                (nm + ': a changed declared source is listed with its digest', fa(TStr, lambda x: z3.Implies(
                    z3.And(z3.Select(s, x), z3.Not(not_stale(v0, c, v.file_id(x), x))),
                    z3.Select(m, tup(DirtyRec, v.file_id(x), x, content(x)))))),
                (nm + ': clean if nothing changed', z3.Implies(z3.And(z3.Not(fd), fa(
                    TStr, lambda x: z3.Implies(z3.Or(z3.Select(s, x), v0.esrc(c, x)), z3.And(
                        exists(x), v0.has_file(x), v0.file_dig(x) == content(x),
                        not_stale(v0, c, v0.file_id(x), x))))), clean)),
            ]
        out.append((nm + ': the function is clean if nothing it calls changed',
                    z3.Implies(z3.And(good_set(v0, WSET), z3.Select(WSET, n)), z3.Not(fd))))
        out.append((nm + ': listed entries carry id and current digest', fa(DirtyRec, lambda e: z3.Implies(
            z3.Select(m, e), entry_ok_names(DirtyRec, lambda x: z3.Select(s, x), v, e)), lambda e: z3.Select(m, e))))
        return out

    def post_exc(self, E, a, v0, v, e):
        s = members(E, a.srcs, TStr)
        x = z3.Const('q_missing', S(TStr))
        return [('prepare: fails only if a declared source is missing',
                 z3.Exists([x], z3.And(z3.Select(s, x), z3.Not(exists(x)))))]


COMPOSITES.append(Prepare)


def fun_ids_injective(v):
    m, n = z3.Consts('q_m q_n', S(TStr))
    return z3.ForAll([m, n], z3.Implies(z3.And(v.has_fun(m), v.has_fun(n), v.fun_id(m) == v.fun_id(n)), m == n))


def distinct_entries(E, digests):
    m = members(E, digests, DirtyRec)
    k = DirtyRec
    e, f = z3.Consts('q_e q_f', S(k))
    return z3.ForAll([e, f], z3.Implies(z3.And(z3.Select(m, e), z3.Select(m, f), acc(k, 0)(e) == acc(k, 0)(f)),
                                         e == f))


def over_deleted(c, E, L):
    """Loop deleting the functions that depend on the changed one."""
    if not isinstance(E.cur, Cache) or L.kind not in ('set', 'coll') or L.ety != TStr or L.D is None:
        return []
    v, v0 = c.view(L.now), c.view(E.entry)
    return [('deleted are gone', fa(TStr, lambda m: z3.Implies(z3.Select(L.D, m), z3.Not(v.has_fun(m))),
                                    lambda m: z3.Select(L.D, m))),
            ('others stay', fa(TStr, lambda m: z3.Implies(z3.Not(z3.Select(L.D, m)), v.opt('fun', m) == v0.opt('fun', m)), lambda m: v.pat('fun', m))),
            ('calls of others stay', fa(CallKey, lambda k: z3.Or(
                v.opt('call', k) == v0.opt('call', k),
                z3.And(z3.Not(v.has('call', k)), owner_deleted(v0, v, acc(CallKey, 0)(k)))),
                lambda k: v.pat('call', k))),
            ('calls of deleted are gone', fa(CallKey, lambda k: z3.Implies(
                owner_in(v0, L.D, acc(CallKey, 0)(k)), z3.Not(v.has('call', k))), lambda k: v.pat('call', k)))]


def owner_in(v0, D, f):
    m = z3.Const('q_own', S(TStr))
    return z3.Exists([m], z3.And(z3.Select(D, m), v0.has_fun(m), v0.fun_id(m) == f))


def owner_deleted(v0, v, f):
    m = z3.Const('q_own', S(TStr))
    return z3.Exists([m], z3.And(v0.has_fun(m), v0.fun_id(m) == f, z3.Not(v.has_fun(m))))


class Cache(Composite):
    target = 'fbuild.db.backend.Backend.cache'
    params = ('self', 'fun_dirty', 'fun_id', 'fun_name', 'fun_digest', 'fun_dependents', 'call_id', 'bound', 'result',
              'call_file_digests', 'external_srcs', 'external_dsts')
    types = {'fun_dirty': TBool, 'fun_id': TOpt(FunId), 'fun_name': TStr, 'fun_digest': Digest,
             'fun_dependents': TColl(TStr), 'call_id': TOpt(CallId), 'bound': Bound, 'result': Val,
             'call_file_digests': TSet(DirtyRec), 'external_srcs': TSet(TStr), 'external_dsts': TSet(TStr)}
    raises = (OSError,)
    props = ('C01', 'C02', 'C03', 'C04', 'C07', 'C11')
    loops = (over_deleted,)

    def modifies(self, E, a):
        return ('fun', 'call', 'cfile', 'file', 'esrc', 'edst')

    def pre(self, E, v, a):
        n = E.enc(a.fun_name, TStr)
        return [trusted_mtime(v), ids_injective(v), fun_ids_injective(v), distinct_entries(E, a.call_file_digests),
                live_entries(v, members(E, a.call_file_digests, DirtyRec)),
                defined(n), E.enc(a.fun_digest, Digest) == curdig(n)]

    def post(self, E, a, v0, v, r):
        nm = 'cache'
        n, b = E.enc(a.fun_name, TStr), E.enc(a.bound, Bound)
        deps = members(E, a.fun_dependents, TStr)
        m = members(E, a.call_file_digests, DirtyRec)
        es, ed = members(E, a.external_srcs, TStr), members(E, a.external_dsts, TStr)
        c = v.call_id(v.fun_id(n), b)
        x, d = z3.Consts('q_x q_d', S(TStr))
        changed = z3.Or(z3.Not(v0.has_fun(n)), v0.fun_dig(n) != curdig(n))
        return [
            (nm + ': the function is stored with its current digest', z3.And(v.has_fun(n), v.fun_dig(n) == curdig(n))),
            (nm + ': the functions this run called are among its called functions', fa(TStr, lambda y: z3.Implies(
                z3.Select(deps, y), z3.Select(v.fun_deps(n), y)))),
            (nm + ': the functions its other stored calls called are kept', z3.Or(
                z3.Not(v0.has_fun(n)),
                fa(TStr, lambda y: z3.Implies(z3.Select(v0.fun_deps(n), y), z3.Select(v.fun_deps(n), y))),
                fa(CallKey, lambda k: z3.Implies(z3.And(acc(CallKey, 0)(k) == v.fun_id(n), k != tup(CallKey, v.fun_id(n), b)),
                                                 z3.Not(v.has('call', k)))))),
            (nm + ': other functions are unchanged or deleted', fa(TStr, lambda y: z3.Implies(y != n, z3.Or(
                v.opt('fun', y) == v0.opt('fun', y), z3.Not(v.has_fun(y)))), lambda y: v.pat('fun', y))),
            (nm + ': dependents of a changed function are deleted', z3.Implies(changed, z3.ForAll([x, d], z3.Implies(
                z3.And(x != n, v0.has_fun(x), z3.Select(v0.fun_deps(x), d),
                       z3.Or(d == n, z3.And(v0.has_fun(d), z3.Not(v.has_fun(d))))), z3.Not(v.has_fun(x)))))),
            (nm + ': no call of a changed function survives', z3.Implies(z3.And(v0.has_fun(n), changed), fa(
                CallKey, lambda k: z3.Implies(z3.And(acc(CallKey, 0)(k) == v0.fun_id(n), z3.Or(
                    acc(CallKey, 0)(k) != v.fun_id(n), acc(CallKey, 1)(k) != b)), z3.Not(v.has('call', k)))))),
            (nm + ': nothing is deleted if nothing it calls changed', z3.Implies(
                z3.And(good_set(v0, WSET), z3.Select(WSET, n)), z3.And(
                    fa(TStr, lambda y: z3.Implies(y != n, v.opt('fun', y) == v0.opt('fun', y))),
                    v.fun_id(n) == v0.fun_id(n),
                    fa(CallKey, lambda k: z3.Implies(k != tup(CallKey, v.fun_id(n), b), v.opt('call', k) == v0.opt('call', k)))))),
            (nm + ': the result is stored', z3.And(v.has_call(v.fun_id(n), b),
                                                  v.call_res(v.fun_id(n), b) == E.enc(a.result, Val))),
            (nm + ': registered sources are stored', fa(TStr, lambda y: v.esrc(c, y) == z3.Select(es, y))),
            (nm + ': registered destinations are stored', fa(TStr, lambda y: v.edst(c, y) == z3.Select(ed, y))),
            (nm + ': digests of the sources are stored', fa(DirtyRec, lambda e: z3.Implies(z3.And(
                z3.Select(m, e), acc(DirtyRec, 2)(e) == content(acc(DirtyRec, 1)(e)),
                v0.has_file(acc(DirtyRec, 1)(e)), v0.file_id(acc(DirtyRec, 1)(e)) == acc(DirtyRec, 0)(e)), z3.And(
                v.has_cf(c, acc(DirtyRec, 0)(e)), v.cf(c, acc(DirtyRec, 0)(e)) == content(acc(DirtyRec, 1)(e)))),
                lambda e: z3.Select(m, e))),
            (nm + ': digests of the registered sources are stored', fa(TStr, lambda y: z3.Implies(
                z3.Select(es, y), z3.And(file_seen(v, v0, y), not_stale(v, c, v.file_id(y), y))))),
        ]


COMPOSITES.append(Cache)
