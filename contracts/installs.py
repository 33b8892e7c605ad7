"""Installing files (C17)."""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool, TMap, TOpt
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract
from contracts import paths
from contracts.paths import PathContract, joined, SL, lit, St, split

S = T.sort
Perms = TU('Perms')            # permissions of a file
Perms.truthy = None
Spec = TU('InstallSpec')


def spec(s, t, p):
    return z3.Function('spec', St, St, S(TOpt(Perms)), S(Spec))(s, t, p)


def field(n, t):
    ty = S(TOpt(Perms)) if n == 'perms' else St
    return z3.Function('spec_' + n, S(Spec), ty)(t)


def abspath(p):
    return z3.Function('abspath', St, St)(p)


def stripped(E, p):
    """p without the separators it begins with"""
    sl, r = paths.f('lead', p), paths.f('rest', p)
    E.assume(z3.And(p == z3.Concat(sl, r), z3.InRe(sl, z3.Star(z3.Re('/'))), z3.Not(z3.PrefixOf(SL, r))))
    return r


def specs(E):
    """InstallSpec as a record"""
    def new(E):
        def go(E, a, k):
            v = dict(zip(('source', 'target', 'perms'), a), **k)
            if len(v) != 3 or len(a) + len(k) != 3:
                E.raise_py(TypeError)
            s, t = E.enc(v['source'], TStr), E.enc(v['target'], TStr)
            p = E.enc(v['perms'], TOpt(Perms))
            x = spec(s, t, p)
            E.assume(z3.And(field('source', x) == s, field('target', x) == t, field('perms', x) == p))
            return Sym(x, Spec)
        return Native(go, 'InstallSpec')
    E.intrinsics['global:fbuild.context.InstallSpec'] = new


class Register(PathContract):
    """Context.install appends one record with the place the file belongs."""
    target = 'fbuild.context.Context.install'
    props = ('C17',)
    params = ('self', 'path', 'subdir')
    kwonly = ('rename', 'perms')
    variants = ('plain', 'rename', 'perms', 'both')
    assumptions = ('os.path functions are as documented for POSIX',)

    def install(self, E):
        super().install(E)
        specs(E)
        E.intrinsics['os.path.abspath'] = lambda E, a, k: Sym(abspath(E.enc(a[0], TStr)), TStr)
        E.methods[('str', 'lstrip')] = lambda E, o, a, k: self.lstrip(E, o, a)

    def lstrip(self, E, o, a):
        if isinstance(o, str) and all(isinstance(x, str) for x in a):
            return o.lstrip(*a)
        if list(a) != ['/']:
            raise Unsupported('lstrip')
        return Sym(stripped(E, E.enc(o, TStr)), TStr)

    def fresh_param(self, E, p):
        if p == 'self':
            o = self.ctx = E.new_inst('fbuild.context.Context')
            o.cls = E.global_value(E.repo.module('fbuild.context'), 'Context')
            self.dest, self.prefix = E.fresh(TStr, 'destdir'), E.fresh(TStr, 'prefix')
            o.attrs.update(install_destdir=self.dest, install_prefix=self.prefix, to_install=E.fresh(TSeq(Spec), 'to_install'))
            self.list = o.attrs['to_install']
            return o
        if p == 'rename':
            self.ren = E.fresh(TStr, p) if self.variant in ('rename', 'both') else None
            return self.ren
        if p == 'perms':
            return E.fresh(Perms, p) if self.variant in ('perms', 'both') else None
        return E.fresh(TStr, p)

    def requires(self, E, a):
        self.l0 = self.list.read()
        self.attrs0 = dict(self.ctx.attrs)
        return []

    def modifies(self, E, a):
        return (self.list.name,)

    def ensures(self, E, a, pre, post, out):
        ss = S(TSeq(Spec))
        src, sub = E.enc(a.path, TStr), E.enc(a.subdir, TStr)
        dest, prefix = self.dest.t, self.prefix.t
        root = z3.If(z3.PrefixOf(SL, sub), joined(dest, stripped(E, sub)),
                     joined(joined(dest, stripped(E, prefix)), sub))
        base = split(E, src)[1]
        name = base if self.ren is None else z3.If(self.ren.t == lit(''), base, self.ren.t)
        l = self.list.read()
        n = ss.len(self.l0)
        new = z3.Select(ss.arr(l), n)
        j = z3.Int('j!e')
        return [('nothing is returned', z3.BoolVal(out[1] is None)),
                ('one file is registered', ss.len(l) == n + 1),
                ('the other files stay registered', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(
                    ss.arr(l), j) == z3.Select(ss.arr(self.l0), j)))),
                ('the file is found wherever the build runs', field('source', new) == abspath(src)),
                ('the file gets its place', field('target', new) == joined(root, name)),
                ('the file gets its permissions', field('perms', new) == E.enc(a.perms, TOpt(Perms))),
                ('the directories stay', z3.BoolVal(self.ctx.attrs == self.attrs0))]


Node = TU('Node')              # what a name denotes: a regular file or a link
Opt = TOpt(Node)


def fn(name, *a):
    return z3.Function(name, *a)


def is_link(n):
    return fn('is_link', S(Node), z3.BoolSort())(n)


def data(n):
    return fn('data', S(Node), S(TU('Data')))(n)


def mode(n):
    return fn('mode', S(Node), S(Perms))(n)


def text(n):
    return fn('link_text', S(Node), S(TStr))(n)


class Local(Contract):
    """LocalCommander.install on names that denote files and links.

    Reading, writing and changing permissions follow links; what happens to
    the file behind a link is not said, so the contract fails when one is used.
    """
    target = 'fbuild.install.LocalCommander.install'
    props = ('C17',)
    str_mode = 'U'
    params = ('self', 'file', 'target', 'perms')
    variants = ('perms', 'none', 'default')
    raises = (OSError,)
    assumptions = ('source and target are different files and the target is no directory',
                   'shutil.copy copies contents and permissions, os.chmod sets them; both follow links')
    mty = TMap(TStr, Node)

    def world(self, E):
        E.heap_init('fs', self.mty)
        E.heap_init('dirs', TMap(TStr, TBool))
        E.heap_init('refused', TBool)

    def at(self, n, fs=None):
        return z3.Select(self.E.heap['fs'] if fs is None else fs, n)

    def has(self, n, fs=None):
        return T.is_some(Node, self.at(n, fs))

    def get(self, n, fs=None):
        return T.val(Node, self.at(n, fs))

    def put(self, n, node):
        E = self.E
        E.heap_set('fs', z3.Store(E.heap['fs'], n, T.none(Node) if node is None else T.some(Node, node)))

    def behind(self):
        """an unknown file changes"""
        self.E.havoc_name('fs')

    def may_fail(self, cls=OSError):
        if self.E.choose_free(2):
            self.refuse(cls)

    def refuse(self, cls=OSError):
        self.E.heap_set('refused', z3.BoolVal(True))
        self.E.raise_py(cls)

    def fresh(self, **kw):
        E = self.E
        n = E.fresh_term(S(Node), 'node')
        for k, v in kw.items():
            E.assume({'link': is_link, 'data': data, 'mode': mode, 'text': text}[k](n) == v)
        return n

    def is_dir(self, n):
        return T.is_some(TBool, z3.Select(self.E.heap['dirs'], n))

    def parent(self, n):
        return fn('dirname', S(TStr), S(TStr))(n)

    def install(self, E):
        self.E = E
        I = E.intrinsics
        nm = lambda x: E.enc(x, TStr)
        Sy = lambda t: Sym(t, TBool)
        followed = lambda n: fn('exists_behind', S(self.mty), S(TStr), z3.BoolSort())(E.heap['fs'], n)
        I['os.path.dirname'] = lambda E, a, k: Sym(self.parent(nm(a[0])), TStr)
        I['os.path.islink'] = lambda E, a, k: Sy(z3.And(self.has(nm(a[0])), is_link(self.get(nm(a[0])))))
        I['os.path.lexists'] = lambda E, a, k: Sy(z3.Or(self.has(nm(a[0])), self.is_dir(nm(a[0]))))
        I['os.path.exists'] = lambda E, a, k: Sy(z3.Or(self.is_dir(nm(a[0])), z3.And(self.has(nm(a[0])), z3.Or(
            z3.Not(is_link(self.get(nm(a[0])))), followed(nm(a[0]))))))
        I['os.path.isfile'] = lambda E, a, k: Sy(z3.And(self.has(nm(a[0])), z3.Or(
            z3.Not(is_link(self.get(nm(a[0])))), followed(nm(a[0])))))
        I['os.path.isdir'] = lambda E, a, k: Sy(self.is_dir(nm(a[0])))

        def makedirs(E, a, k):
            self.may_fail()
            if not (k.get('exist_ok') is True or len(a) > 2 and a[2] is True) and E.branch(self.is_dir(nm(a[0]))):
                E.raise_py(FileExistsError)
            E.heap_set('dirs', z3.Store(E.heap['dirs'], nm(a[0]), T.some(TBool, z3.BoolVal(True))))
        I['os.makedirs'] = makedirs

        def room(n):
            if not E.branch(self.is_dir(self.parent(n))):
                E.raise_py(FileNotFoundError)

        def remove(E, a, k):
            n = nm(a[0])
            if not E.branch(self.has(n)):
                E.raise_py(FileNotFoundError)
            self.may_fail()
            self.put(n, None)
        I['os.remove'] = I['os.unlink'] = remove

        def symlink(E, a, k):
            t, n = nm(a[0]), nm(a[1])
            room(n)
            if E.branch(self.has(n)):
                E.raise_py(FileExistsError)
            self.may_fail()
            self.put(n, self.fresh(link=True, text=t))
        I['os.symlink'] = symlink

        def readlink(E, a, k):
            n = nm(a[0])
            if not E.branch(z3.And(self.has(n), is_link(self.get(n)))):
                E.raise_py(OSError)
            return Sym(text(self.get(n)), TStr)
        I['os.readlink'] = readlink

        def copy(modes):
            def go(E, a, k):
                if k:
                    raise Unsupported('copying with ' + ', '.join(k))
                x, y = nm(a[0]), nm(a[1])
                room(y)
                if not E.branch(self.has(x)):
                    self.refuse(FileNotFoundError)
                if E.branch(is_link(self.get(x))):
                    src = self.fresh(link=False)
                else:
                    src = self.get(x)
                if E.branch(z3.And(self.has(y), is_link(self.get(y)))):
                    self.behind()
                    return a[1]
                if E.choose_free(2):
                    self.put(y, self.fresh(link=False))
                    self.refuse()
                self.put(y, self.fresh(link=False, data=data(src), **(dict(mode=mode(src)) if modes else {})))
                return a[1]
            return go
        I['shutil.copy'] = I['shutil.copy2'] = copy(True)
        I['shutil.copyfile'] = copy(False)

        def chmod(E, a, k):
            if k or len(a) != 2:
                raise Unsupported('chmod')
            n = nm(a[0])
            if not E.branch(self.has(n)):
                E.raise_py(FileNotFoundError)
            if E.branch(is_link(self.get(n))):
                self.behind()
                return
            self.may_fail()
            self.put(n, self.fresh(link=False, data=data(self.get(n)), mode=E.enc(a[1], Perms)))
        I['os.chmod'] = chmod

        def new(E, cls, a, k):
            if len(a) != 1:
                raise Unsupported('Path of several parts')
            return Sym(nm(a[0]), TStr, cls=cls)
        I['new:fbuild.path.Path'] = new

    def fresh_param(self, E, p):
        if p == 'self':
            i = E.new_inst('fbuild.install.LocalCommander')
            i.cls = E.global_value(E.repo.module('fbuild.install'), 'LocalCommander')
            return i
        if p == 'perms':
            return E.fresh(Perms, p) if self.variant == 'perms' else None
        path = E.global_value(E.repo.module('fbuild.path'), 'Path')
        return Sym(z3.Const(p, S(TStr)), TStr, cls=path)

    def setup(self, E):
        a = super().setup(E)
        if self.variant == 'default':
            a.args.pop()
        return a

    def requires(self, E, a):
        r = [a.file.t != a.target.t, z3.Not(E.heap['refused']), z3.Not(self.is_dir(a.target.t)),
             self.parent(a.target.t) != a.target.t]
        return r + ([a.perms.t != E.uconst(Perms, 'None')] if a.perms is not None else [])

    def modifies(self, E, a):
        return ('fs', 'dirs', 'refused')

    def ensures(self, E, a, pre, post, out):
        f0, f1 = pre['fs'], post['fs']
        x = z3.Const('x!fs', S(TStr))
        s, t = a.file.t, a.target.t
        same = ('no other file changes', z3.ForAll([x], z3.Implies(x != t, z3.Select(f1, x) == z3.Select(f0, x)),
                                                   patterns=[z3.Select(f1, x)]))
        if out[0] == 'raise':
            return [same, ('it fails only when the system does', post['refused'])]
        src, new = self.get(s, f0), self.get(t, f1)
        perms = mode(src) if a.perms is None else a.perms.t
        return [same, ('the target is there', self.has(t, f1)),
                ('a file is copied', z3.Implies(z3.Not(is_link(src)), z3.And(z3.Not(is_link(new)), data(new) == data(src)))),
                ('a file has the permissions asked for', z3.Implies(z3.Not(is_link(src)), mode(new) == perms)),
                ('a link is copied as a link', z3.Implies(is_link(src), z3.And(is_link(new), text(new) == text(src)))),
                ('the source is there', self.has(s, f0)),
                ('nothing is returned', z3.BoolVal(out[1] is None))]


class Items(Contract):
    """Every registered file is handed to the commander once, in order, with its record."""
    target = 'fbuild.install.Installer._install'
    props = ('C17',)
    str_mode = 'U'
    params = ('self', 'commander')
    raises = (BaseException,)
    loops = (lambda c, E, L: c.inv(E, L),)

    def world(self, E):
        E.heap_init('n', TInt)
        E.heap_init('failed', TBool)
        E.heap_init('trace', TU('Trace'), E.fresh_term(z3.ArraySort(z3.IntSort(), S(Spec)), 'trace'))

    def rec(self, s, t, p):
        return z3.Function('spec', S(TStr), S(TStr), S(TOpt(Perms)), S(Spec))(s, t, p)

    def get(self, n, t):
        return z3.Function('spec_' + n, S(Spec), S(TOpt(Perms)) if n == 'perms' else S(TStr))(t)

    def install(self, E):
        for n in ('source', 'target', 'perms'):
            E.attrs_sym[(Spec.key, n)] = lambda E, v, n=n: E.dec(self.get(n, v.t), TOpt(Perms) if n == 'perms' else TStr)
        E.methods[(Spec.key, '__unpack__')] = lambda E, v, n: tuple(
            E.dec(self.get(m, v.t), TOpt(Perms) if m == 'perms' else TStr) for m in ('source', 'target', 'perms'))

    def fresh_param(self, E, p):
        if p == 'self':
            from contracts.tools import quiet
            i = E.new_inst('fbuild.install.Installer')
            i.cls = E.global_value(E.repo.module('fbuild.install'), 'Installer')
            c = i.attrs['ctx'] = quiet(E)
            self.items = c.attrs['to_install'] = E.fresh(TSeq(Spec), 'to_install')
            c.attrs.update(install_destdir=E.fresh(TStr, 'destdir'), install_prefix=E.fresh(TStr, 'prefix'))
            i.attrs['privileged'] = False
            self.spec0 = self.items.read()
            return i
        return self.commander(E)

    def commander(self, E):
        c = E.new_inst('commander')

        def go(E, a, k):
            v = dict(zip(('file', 'target', 'perms'), a), **k)
            if not {'file', 'target'} <= set(v) or len(v) != len(a) + len(k) or len(v) > 3:
                E.raise_py(TypeError)
            E.prove('nothing is installed after a failure', z3.Not(E.heap['failed']))
            x = self.rec(E.enc(v['file'], TStr), E.enc(v['target'], TStr), E.enc(v.get('perms'), TOpt(Perms)))
            E.heap_set('trace', z3.Store(E.heap['trace'], E.heap['n'], x))
            E.heap_set('n', E.heap['n'] + 1)
            if E.choose_free(2):
                E.heap_set('failed', z3.BoolVal(True))
                raise PyExc(ExcVal(None, (), upper=BaseException))
        c.attrs['install'] = Native(go, 'install')
        c.attrs['__open__'] = True
        return c

    def requires(self, E, a):
        x = z3.Const('x!s', S(Spec))
        return [E.heap['n'] == 0, z3.Not(E.heap['failed']),
                z3.ForAll([x], self.rec(self.get('source', x), self.get('target', x), self.get('perms', x)) == x,
                          patterns=[self.get('source', x)])]

    def modifies(self, E, a):
        return ('n', 'failed', 'trace')

    def done(self, heap, n):
        ss = S(TSeq(Spec))
        k = z3.Int('k!d')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(heap['trace'], k) == z3.Select(
            ss.arr(self.spec0), k)), patterns=[z3.Select(heap['trace'], k), z3.Select(ss.arr(self.spec0), k)])

    def inv(self, E, L):
        if L.kind != 'seq' or L.seq is None or not L.seq.eq(self.spec0):
            return []
        return [('count', E.heap['n'] == L.i), ('no failure', z3.Not(E.heap['failed'])), ('trace', self.done(E.heap, L.i))]

    def ensures(self, E, a, pre, post, out):
        n = S(TSeq(Spec)).len(self.spec0)
        r = [('the files are handed over in order', self.done(post, post['n'])), ('each at most once', post['n'] <= n)]
        if out[0] == 'return':
            return r + [('every file is installed', z3.And(post['n'] == n, z3.Not(post['failed'])))]
        return r + [('only failures are reported', post['failed'])]


class Pkexec(Contract):
    """A program path or None."""
    target = 'fbuild.install.Installer._find_pkexec'
    trusted = True
    params = ('self',)
    result_type = TOpt(TStr)


class Process(Contract):
    target = 'fbuild.install.Installer._load_polkit_process'
    trusted = True
    params = ('self', 'pkexec')

    def apply(self, E, a):
        if E.choose_free(2):
            E.heap_set('refused', z3.BoolVal(True))
            E.raise_py(OSError)
        return E.new_inst('process')


class Install(Items):
    """All files are installed by one commander, which is closed afterwards, whatever happens."""
    target = 'fbuild.install.Installer.install'
    params = ('self',)
    assumptions = ('the privileged process installs what it is told as LocalCommander does',)
    inline_names = frozenset(('fbuild.install.Installer._install',))

    def world(self, E):
        super().world(E)
        E.heap_init('made', TInt)
        E.heap_init('closed', TInt)
        E.heap_init('refused', TBool)

    def install(self, E):
        super().install(E)

        def may_fail(E, a, k):
            if E.choose_free(2):
                E.heap_set('refused', z3.BoolVal(True))
                E.raise_py(OSError)
        E.intrinsics['os.makedirs'] = may_fail
        E.intrinsics['os.access'] = lambda E, a, k: Sym(E.fresh_term(z3.BoolSort(), 'access'), TBool)
        for n in ('exists', 'isdir'):
            E.intrinsics['os.path.' + n] = lambda E, a, k: Sym(E.fresh_term(z3.BoolSort(), 'there'), TBool)
        E.intrinsics['new:fbuild.path.Path'] = lambda E, cls, a, k: Sym(E.enc(a[0], TStr), TStr, cls=cls)

        def new(E, cls, a, k):
            c = self.commander(E)
            E.heap_set('made', E.heap['made'] + 1)
            go = c.attrs['install'].fn

            def inst(E, a, k):
                E.prove('nothing is installed after closing', E.heap['closed'] == 0)
                return go(E, a, k)

            def close(E, a, k):
                E.heap_set('closed', E.heap['closed'] + 1)
            c.attrs.update(install=Native(inst, 'install'), close=Native(close, 'close'))
            return c
        for n in ('LocalCommander', 'PolkitCommander'):
            E.intrinsics['new:fbuild.install.' + n] = new

    def requires(self, E, a):
        return super().requires(E, a) + [E.heap['made'] == 0, E.heap['closed'] == 0, z3.Not(E.heap['refused'])]

    def modifies(self, E, a):
        return super().modifies(E, a) + ('made', 'closed', 'refused')

    def inv(self, E, L):
        return super().inv(E, L) + [('closed', E.heap['closed'] == 0)]

    def ensures(self, E, a, pre, post, out):
        r = super().ensures(E, a, pre, post, out)
        if out[0] == 'raise':
            r = [(n, f) if n != 'only failures are reported' else (n, z3.Or(f, post['refused'])) for n, f in r]
            return r + [('the commander is closed', z3.Implies(post['n'] > 0, post['closed'] == 1))]
        return r + [('the commander is closed', post['closed'] == 1)]


CONTRACTS = [Register, Local, Items, Install]
USED = [Pkexec, Process]
