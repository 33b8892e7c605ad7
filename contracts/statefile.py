"""The state file: version gate (C10), crash-safe saving and loading (C09)."""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TMap, TU, TOpt, TBool
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract
from .fsmodel import FS

S = T.sort
Blob = TU('Blob')
Recs = TU('Recs')
TABLES = ('_functions', '_function_calls', '_files', '_call_files', '_external_srcs', '_external_dsts')
Tab = {n: TU('Tab' + n) for n in TABLES}
for _n, _t in Tab.items():
    _t.truthy = None


def f_version(b):
    return z3.Function('blob_version', S(Blob), S(TStr))(b)


def f_tab(n, b):
    return z3.Function('blob' + n, S(Blob), S(Tab[n]))(b)


def f_kind(b):
    """1: a version and six tables, 2: six tables, 0: names something that no longer exists, other: not loadable"""
    return z3.Function('blob_kind', S(Blob), z3.IntSort())(b)


def whole(b):
    return z3.Function('whole', S(Blob), z3.BoolSort())(b)


def tab_term(E, n, v):
    """A table of the backend as an opaque value (an empty dict is one value)."""
    if isinstance(v, MDict) and v.items is not None and not v.items:
        return E.uconst(Tab[n], 'empty')
    if isinstance(v, Sym) and v.ty == Tab[n]:
        return v.t
    raise Unsupported('table %s is %r' % (n, v))


class PickleCase(Contract):
    may_fail = False

    def fs(self, E):
        f = getattr(self, '_fs', None)
        if f is None or f.E is not E:
            f = self._fs = FS(E, Blob, on_change=self.on_change, may_fail=self.may_fail)
        return f

    def on_change(self, E):
        pass

    def install(self, E):
        self.fs(E).install(E)
        I = E.intrinsics

        def bytesio(E, a, k):
            i = E.new_inst('bytesio')
            i.attrs['__blob__'] = a[0] if a else None
            i.attrs['getvalue'] = Native(lambda E, a, k: i.attrs['__blob__'], 'getvalue')
            i.attrs['__open__'] = True
            return i
        I['io.BytesIO'] = bytesio

        def pickler(E, cls, args, kw):
            out = args[1]
            i = E.new_inst('pickler')

            def dump(E, a, k):
                b = E.fresh_term(S(Blob), 'pickled')
                v = a[0]
                E.assume(whole(b))
                if isinstance(v, tuple) and len(v) == 7:
                    E.assume(z3.And(f_kind(b) == 1, f_version(b) == E.enc(v[0], TStr),
                                    *[f_tab(n, b) == tab_term(E, n, x) for n, x in zip(TABLES, v[1:])]))
                elif isinstance(v, tuple) and len(v) == 6:
                    E.assume(z3.And(f_kind(b) == 2, *[f_tab(n, b) == tab_term(E, n, x) for n, x in zip(TABLES, v)]))
                else:
                    E.assume(f_kind(b) == 3)
                if out.attrs.get('__mode__') is not None:
                    E.call(out.attrs['write'], [Sym(b, Blob)])
                else:
                    out.attrs['__blob__'] = Sym(b, Blob)
            i.attrs['dump'] = Native(dump, 'dump')
            return i
        I['new:fbuild.db.backend.Pickler'] = pickler

        def unpickler(E, cls, args, kw):
            src = args[1]
            i = E.new_inst('unpickler')

            def load(E, a, k):
                b = E.enc(E.call(src.attrs['read'], []), Blob)
                w = E.choose([f_kind(b) == 1, f_kind(b) == 2, f_kind(b) == 0, z3.Or(f_kind(b) < 0, f_kind(b) > 2)])
                tabs = tuple(Sym(f_tab(n, b), Tab[n]) for n in TABLES)
                if w == 0:
                    return (Sym(f_version(b), TStr),) + tabs
                if w == 1:
                    return tabs
                if w == 2:
                    E.raise_py(AttributeError)
                raise PyExc(ExcVal(None, (), upper=Exception))
            i.attrs['load'] = Native(load, 'load')
            return i
        I['new:fbuild.db.backend.Unpickler'] = unpickler

    def world(self, E):
        self.fs(E).world(E)
        E.heap_init('crash', TBool)

    def backend(self, E, connected):
        i = E.new_inst(E.repo.find('fbuild.db.pickle_backend.PickleBackend'), 'backend')
        i.attrs['_ctx'] = E.new_inst('ctx')
        if connected:
            i.attrs['_file_name'] = Sym(z3.Const('state_file', S(TStr)), TStr, cls=E.repo.find('fbuild.path.Path'))
            i.attrs['_version'] = E.fresh(TStr, '_version')
            for n in TABLES:
                i.attrs[n] = Sym(z3.Const('tab' + n, S(Tab[n])), Tab[n])
        return i

    def version_now(self, E):
        return E.enc(E.class_attr(self.inst.cls, '_LATEST_VERSION'), TStr)


class PickleConnect(PickleCase):
    target = 'fbuild.db.pickle_backend.PickleBackend._connect'
    props = ('C09', 'C10')
    params = ('self', 'filename')
    raises = (Exception,)

    def fresh_param(self, E, p):
        if p == 'self':
            self.inst = self.backend(E, False)
            return self.inst
        return Sym(z3.Const('state_file', S(TStr)), TStr)

    def ensures(self, E, a, pre, post, out):
        n = z3.Const('state_file', S(TStr))
        fs = self.fs(E)
        b = fs.get(n)
        has = fs.has(n)
        if out[0] == 'raise':
            return [('loading fails only for a file that cannot be loaded', z3.And(has, z3.Or(f_kind(b) < 0, f_kind(b) > 2)))]
        at = self.inst.attrs
        cur = E.lit(E.class_attr(self.inst.cls, '_LATEST_VERSION'))
        null = E.lit(E.class_attr(self.inst.cls, '_NULL_VERSION'))
        known = z3.And(has, z3.Or(f_kind(b) == 1, f_kind(b) == 2))
        tabs = []
        for t in TABLES:
            if t not in at:
                return [('every table is there', z3.BoolVal(False))]
            tabs.append((t, tab_term(E, t, at[t])))
        v = E.enc(at['_version'], TStr)
        return [('the file is remembered', E.enc(at['_file_name'], TStr) == n),
                ('the version is that of the file', z3.Implies(z3.And(has, f_kind(b) == 1), v == f_version(b))),
                ('a file without a version is not taken for a current one', z3.Implies(z3.And(has, f_kind(b) == 2), v == null)),
                ('a database without a file is current', z3.Implies(z3.Not(has), v == cur)),
                ('nothing is made up', z3.Implies(z3.Not(known), z3.And(*[x == E.uconst(Tab[t], 'empty') for t, x in tabs]))),
                ('the null version is no current version', null != cur)] + \
               [('%s is what was saved' % t, z3.Implies(known, x == f_tab(t, b))) for t, x in tabs]


class PickleClose(PickleCase):
    target = 'fbuild.db.pickle_backend.PickleBackend.close'
    props = ('C09',)
    params = ('self',)
    raises = (OSError,)
    may_fail = True

    def names(self, E):
        n = z3.Const('state_file', S(TStr))
        cat = lambda s: E.enc(E.strcat([Sym(n, TStr), s]), TStr)
        return n, cat('.tmp'), cat('.old')

    def fresh_param(self, E, p):
        self.inst = self.backend(E, True)
        return self.inst

    def modifies(self, E, a):
        return ('fs',)

    def requires(self, E, a):
        n, tmp, old = self.names(E)
        fs = self.fs(E)
        # a state file on disk is whole; names of different files differ
        return [z3.Distinct(n, tmp, old), z3.Implies(fs.has(n), whole(fs.get(n))),
                z3.Implies(z3.And(z3.Not(fs.has(n)), fs.has(old)), whole(fs.get(old)))]

    def begin(self, E, a):
        self.tabs0 = {t: self.inst.attrs[t].t for t in TABLES}
        self.fs0 = E.heap['fs']

    def is_new(self, E, b):
        cur = E.lit(E.class_attr(self.inst.cls, '_LATEST_VERSION'))
        return z3.And(whole(b), f_kind(b) == 1, f_version(b) == cur, *[f_tab(t, b) == x for t, x in self.tabs0.items()])

    def on_change(self, E):
        """What is on disk if the process dies here."""
        n, tmp, old = self.names(E)
        fs, f0 = self.fs(E), self.fs0
        prev = z3.If(fs.has(n, f0), fs.get(n, f0), fs.get(old, f0))
        had = z3.Or(fs.has(n, f0), fs.has(old, f0))

        def good(x):
            return z3.And(fs.has(x), z3.Or(z3.And(had, fs.get(x) == prev), self.is_new(E, fs.get(x))))
        E.prove('crash: no truncated or foreign state under the state file name', z3.Implies(fs.has(n), good(n)))
        E.prove('crash: a complete state is on disk', z3.Implies(had, z3.Or(good(n), z3.And(z3.Not(fs.has(n)), good(old)))))
        q = z3.Const('q_n', S(TStr))
        E.prove('crash: other files are untouched', z3.ForAll([q], z3.Implies(
            z3.And(q != n, q != tmp, q != old), fs.opt(q) == fs.opt(q, f0))))

    def ensures(self, E, a, pre, post, out):
        n, tmp, old = self.names(E)
        fs = self.fs(E)
        if out[0] == 'raise':
            return []
        return [('the new state is under the state file name', z3.And(fs.has(n), self.is_new(E, fs.get(n)))),
                ('no leftovers', z3.And(z3.Not(fs.has(tmp)), z3.Not(fs.has(old))))]


class AnyBackend:
    """What connect may rely on: _connect, close and the file, abstractly."""
    pass


class EngineConnect(Contract):
    """Assumed of every engine; proved for the pickle engine by PickleConnect."""
    target = 'fbuild.db.backend.Backend._connect'
    params = ('self', 'args', 'kwargs')
    trusted = True
    assumptions = ('the sqlite engine loads the version and the records that its file holds',)

    def apply(self, E, a):
        d = E.heap['disk']
        i = a.self
        E.ghost['connects'] += 1
        E.ghost['args'].append((a.args_, a.kwargs))
        i.attrs['_file_name'] = E.ghost['file']
        vk = z3.Function('disk_version', S(Recs), S(TStr))
        empty = E.uconst(Recs, 'empty')
        if E.branch(T.is_some(Recs, d)):
            r = T.val(Recs, d)
            i.attrs['_version'] = Sym(vk(r), TStr)
            i.attrs['__records__'] = Sym(r, Recs)
        else:
            v = E.fresh(TStr, 'fresh_version')
            i.attrs['_version'] = v
            i.attrs['__records__'] = Sym(empty, Recs)
        return None


class EngineClose(Contract):
    target = 'fbuild.db.backend.Backend.close'
    params = ('self', 'args', 'kwargs')
    trusted = True

    def apply(self, E, a):
        # writes the records it holds, labelled as current
        E.heap_set('disk', T.some(Recs, E.fresh_term(S(Recs), 'saved')))
        return None


class Connect(Contract):
    target = 'fbuild.db.backend.Backend.connect'
    props = ('C10',)
    params = ('self',)
    variants = ('file', 'memory')

    def install(self, E):
        I = E.intrinsics

        def remove(E, a, k):
            same = E.enc(a[0], TStr) == z3.Const('state_file', S(TStr))
            E.prove('only the state file is removed', same)
            if not E.branch(T.is_some(Recs, E.heap['disk'])):
                E.raise_py(FileNotFoundError)
            E.heap_set('disk', T.none(Recs))
        I['os.remove'] = I['os.unlink'] = remove

    def world(self, E):
        E.heap_init('disk', TOpt(Recs))
        E.ghost = dict(connects=0, args=[])
        E.ghost['file'] = Sym(z3.Const('state_file', S(TStr)), TStr, cls=E.repo.find('fbuild.path.Path')) \
            if self.variant == 'file' else None

    def setup(self, E):
        a = super().setup(E)
        if self.variant == 'file':
            self.fname = Sym(z3.Const('state_file', S(TStr)), TStr)
            a.args.append(self.fname)
        return a

    def fresh_param(self, E, p):
        i = E.new_inst(E.repo.find('fbuild.db.backend.Backend'), 'backend')
        self.cur = i.cls.attrs['_LATEST_VERSION'] = E.fresh(TStr, 'latest')
        self.inst = i
        return i

    def modifies(self, E, a):
        return ('disk',)

    def ensures(self, E, a, pre, post, out):
        if out[0] == 'raise':
            return [('connecting does not fail', z3.BoolVal(False))]
        vk = z3.Function('disk_version', S(Recs), S(TStr))
        d0, d = pre['disk'], post['disk']
        r0 = T.val(Recs, d0)
        at = self.inst.attrs
        if '__records__' not in at:
            return [('connects', z3.BoolVal(False))]
        rec = at['__records__'].t
        cur = z3.And(T.is_some(Recs, d0), vk(r0) == E.enc(self.cur, TStr))
        empty = E.uconst(Recs, 'empty')
        ok = E.ghost['args'] and all(self.same_args(E, x) for x in E.ghost['args'])
        out = [('every connection is to the same file', z3.BoolVal(bool(ok)))]
        if self.variant == 'memory':
            return out + [('a database without a file is opened once', z3.BoolVal(E.ghost['connects'] == 1)),
                          ('nothing is written', d == d0)]
        return out + [
            ('records of the current version are kept', z3.Implies(cur, z3.And(rec == r0, d == d0))),
            ('records of another version are discarded', z3.Implies(z3.Not(cur), rec == empty)),
            ('the old file is gone', z3.Implies(z3.Not(cur), z3.Or(T.is_none(Recs, d), d != d0)))]

    def same_args(self, E, x):
        args, kw = x
        if self.variant == 'file':
            return isinstance(args, tuple) and len(args) == 1 and args[0] is self.fname and not (isinstance(kw, MDict) and kw.items)
        return isinstance(args, tuple) and not args


CONTRACTS = [PickleConnect, PickleClose, Connect]
USED = [EngineConnect, EngineClose]
