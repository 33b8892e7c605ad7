"""The targets of the command line (C18)."""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
Tgt = TU('Target')
Tgt.truthy = True
RUN, PRE, FILES, POST = range(4)


def registered(n):
    return z3.Function('registered', S(TStr), z3.BoolSort())(n)


def target_of(n):
    return z3.Function('target_of', S(TStr), S(Tgt))(n)


def name_of(t):
    return z3.Function('name_of', S(Tgt), S(TStr))(t)


class Build(Contract):
    """Trace of what the build does: which targets ran, and the installation, in which order."""
    target = 'fbuild.main.build'
    props = ('C18',)
    params = ('ctx',)
    raises = (BaseException,)
    variants = ('plain', 'hooks', 'pre', 'post')
    loops = (lambda c, E, L: c.inv(E, L),)

    def world(self, E):
        E.heap_init('n', TInt)
        E.heap_init('kind', TU('Kinds'), E.fresh_term(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'kind'))
        E.heap_init('what', TU('Whats'), E.fresh_term(z3.ArraySort(z3.IntSort(), S(TStr)), 'what'))
        E.heap_init('failed', TBool)

    def event(self, E, kind, name=None):
        E.prove('nothing runs after a failure', z3.Not(E.heap['failed']))
        n = E.heap['n']
        E.heap_set('kind', z3.Store(E.heap['kind'], n, kind))
        if name is not None:
            E.heap_set('what', z3.Store(E.heap['what'], n, name))
        E.heap_set('n', n + 1)
        if E.choose_free(2):
            E.heap_set('failed', z3.BoolVal(True))
            raise PyExc(ExcVal(None, (), upper=BaseException))

    def install(self, E):
        def hook(name, kind):
            def go(E, a, k):
                E.prove('a hook gets the context', z3.BoolVal(len(a) == 1 and not k and a[0] is self.ctx))
                self.event(E, kind)

            def get(E):
                if self.variant not in ('hooks', name.split('_')[0]):
                    E.raise_py(AttributeError, name)
                return Native(go, name)
            return get
        E.intrinsics['attr:fbuildroot.pre_install'] = hook('pre_install', PRE)
        E.intrinsics['attr:fbuildroot.post_install'] = hook('post_install', POST)
        # the table of registered targets
        E.intrinsics['global:fbuild.target._targets'] = self.table

        def function(E, s, a, k):
            E.prove('a target gets the context', z3.BoolVal(len(a) == 1 and not k and a[0] is self.ctx))
            self.event(E, RUN, name_of(s.t))
        E.methods[(Tgt.key, 'function')] = function

        def installer(E, cls, a, k):
            i = E.new_inst('installer')

            def go(E, a2, k2):
                E.prove('the files of this context are installed', z3.BoolVal(bool(a) and a[0] is self.ctx))
                self.event(E, FILES)
            i.attrs['install'] = Native(go, 'install')
            return i
        E.intrinsics['new:fbuild.install.Installer'] = installer

    def table(self, E):
        i = E.new_inst('targets')

        def get(E, a, k):
            n = E.enc(a[0], TStr)
            if not E.branch(registered(n)):
                E.raise_py(KeyError)
            E.assume(name_of(target_of(n)) == n)
            return Sym(target_of(n), Tgt)
        i.attrs['__getitem__'] = Native(get, '__getitem__')
        i.attrs['__contains__'] = Native(lambda E, a, k: Sym(registered(E.enc(a[0], TStr)), TBool), '__contains__')
        i.attrs['__open__'] = True
        return i

    def fresh_param(self, E, p):
        self.ctx = E.new_inst('ctx')
        o = E.new_inst('options')
        o.attrs.update(dump_state=False, delete_function=None, delete_file=None)
        self.targets = o.attrs['targets'] = E.fresh(TSeq(TStr), 'targets')
        self.ctx.attrs['options'] = o
        t = self.targets.read()
        self.len0, self.arr0 = S(TSeq(TStr)).len(t), S(TSeq(TStr)).arr(t)
        return self.ctx

    def requires(self, E, a):
        n, A = self.len0, self.arr0
        ins, conf = E.lit('install'), E.lit('configure')
        k = z3.Int('k!f')

        def some(name, hi, f):
            """a name for: an index below hi with f exists"""
            b, w = z3.Bool(name), z3.Int(name + '_at')
            return [z3.Implies(b, z3.And(0 <= w, w < hi, f(w))),
                    z3.Implies(z3.Not(b), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hi), z3.Not(f(k))),
                                                    patterns=[z3.Select(A, k)]))]
        add = z3.And(z3.Bool('has'), z3.Bool('only'))
        F, N = z3.Const('final', A.sort()), z3.Int('final_len')
        ax = [N == z3.If(add, n + 1, n), z3.Bool('install_last') == z3.And(N > 0, z3.Select(F, N - 1) == ins)]
        for M in (F, A):
            ax.append(z3.ForAll([k], z3.Select(F, k) == z3.If(z3.And(add, k == n - 1), E.lit('build'), z3.If(
                z3.And(add, k == n), ins, z3.Select(A, k))), patterns=[z3.Select(M, k)]))
        return ax + [E.heap['n'] == 0, z3.Not(E.heap['failed']), z3.Bool('only') == z3.Not(z3.Bool('other'))] + \
            some('has', n, lambda i: z3.Select(A, i) == ins) + some('misplaced', n - 1, lambda i: z3.Select(A, i) == ins) + \
            some('other', n, lambda i: z3.And(z3.Select(A, i) != ins, z3.Select(A, i) != conf))

    def modifies(self, E, a):
        return ('n', 'kind', 'what', 'failed', self.targets.name)

    # what is to be run
    def final(self, E):
        """length and elements of the list that has to be run"""
        F = z3.Const('final', self.arr0.sort())
        return z3.Int('final_len'), lambda i: z3.Select(F, i), E.lit('install'), z3.Bool('misplaced')

    def steps(self):
        v = self.variant
        return ([PRE] if v in ('hooks', 'pre') else []) + [FILES] + ([POST] if v in ('hooks', 'post') else [])

    def done(self, E, i, heap):
        """The trace is the one of the first i targets."""
        N, at, ins, mis = self.final(E)
        k = z3.Int('k!d')
        st = self.steps()
        K, W, n = heap['kind'], heap['what'], heap['n']
        last = z3.And(i == N, z3.Bool('install_last'))
        return [('ran', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z3.If(last, i - 1, i)),
                                                  z3.And(z3.Select(K, k) == RUN, z3.Select(W, k) == at(k), at(k) != ins)),
                                  patterns=[z3.Select(W, k)])),
                ('nothing else ran', n == z3.If(last, i - 1 + len(st), i)),
                ('installed', z3.Implies(last, z3.And(*[z3.Select(K, i - 1 + m) == s for m, s in enumerate(st)])))]

    def inv(self, E, L):
        if L.kind != 'seq':
            return []
        return self.done(E, L.i, E.heap) + [('nothing failed', z3.Not(E.heap['failed']))]

    def ensures(self, E, a, pre, post, out):
        N, at, ins, mis = self.final(E)
        fs = [('install is refused unless it is last', z3.Implies(mis, z3.And(z3.BoolVal(out[0] == 'raise'), post['n'] == 0)))]
        if out[0] == 'return':
            return fs + [('every target ran once, in order, with install last: ' + t, f) for t, f in self.done(E, N, post)] + \
                        [('nothing failed', z3.Not(post['failed']))]
        k = z3.Int('k!p')
        n = post['n']
        err = getattr(out[1].cls, 'qual', '') in ('fbuild.Error', 'fbuild.target.Error')
        return fs + [('only errors are reported that occurred', z3.Or(
            post['failed'], z3.And(z3.BoolVal(err), z3.Or(z3.And(mis, n == 0), z3.And(
                0 <= n, n < N, at(n) != ins, z3.Not(registered(at(n)))))))),
            ('the targets before a failure ran in order', z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < n, z3.Select(post['kind'], k) == RUN), z3.Select(post['what'], k) == at(k)),
                patterns=[z3.Select(post['what'], k)]))]


class DeleteCommand(Build):
    """Deleting from the command line says whether something was deleted, and builds nothing."""
    name = 'fbuild.main.build (deleting)'
    props = ('C08',)
    variants = ('function', 'file')
    raises = (Exception,)
    loops = ()

    def fresh_param(self, E, p):
        ctx = Build.fresh_param(self, E, p)
        o = ctx.attrs['options']
        self.name_ = E.fresh(TStr, 'name')
        self.had = E.fresh_term(z3.BoolSort(), 'had')
        o.attrs['delete_' + self.variant] = self.name_
        db = ctx.attrs['db'] = E.new_inst('db')
        self.asked = 0

        def delete(what):
            def go(E, a, k):
                E.prove('what was asked for is deleted', z3.BoolVal(what == self.variant and len(a) == 1 and a[0] is self.name_))
                self.asked += 1
                return Sym(self.had, TBool)
            return Native(go, 'delete_' + what)
        db.attrs.update(delete_function=delete('function'), delete_file=delete('file'), __open__=True)
        return ctx

    def requires(self, E, a):
        return [E.enc(self.name_, TStr) != E.lit('')]

    def modifies(self, E, a):
        return ()

    def ensures(self, E, a, pre, post, out):
        err = out[0] == 'raise' and getattr(out[1].cls, 'qual', '') == 'fbuild.Error'
        return [('it is deleted once', z3.BoolVal(self.asked == 1)),
                ('an error is reported exactly when nothing was stored', self.had == z3.BoolVal(out[0] == 'return')),
                ('only that error is reported', z3.BoolVal(err or out[0] == 'return')),
                ('no target runs', post['n'] == pre['n'])]


CONTRACTS = [Build, DeleteCommand]
USED = []
