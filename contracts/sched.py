"""The scheduler (C12, C13).

A task is a reference whose fields live in the heap.  Ghost state of one
evaluation: which tasks were handed to the workers (sub), which came back
(got, in the order gotat), how many did (ngot) and how many are under way
(npend, the number of elements of sub that are not in got).
"""
import copy
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool, TOpt, TTup, TObj, TSet
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
Q = 'fbuild.sched.'
Src = TU('Src')                # an element that is mapped
Val = TU('Val')                # what the mapped function returns
Exc = TU('Exc')                # what it raises
Exc.truthy = True
Task = TObj('Task')
Task.fields = {'running': TBool, 'done': TBool, 'exc': TOpt(Exc), 'result': Val, 'dependencies': TSeq(Task)}
I, B = z3.IntSort(), z3.BoolSort()


def src_of(t):
    return z3.Function('src_of', S(Task), S(Src))(t)


def index_of(t):
    return z3.Function('index_of', S(Task), I)(t)


def fa(vs, f, *pats):
    return z3.ForAll(vs, f, patterns=list(pats))


class View:
    """Fields and ghosts in a heap."""

    def __init__(self, h):
        self.h = h

    def f(self, n, t):
        return z3.Select(self.h['Task.' + n], t)

    def g(self, n, t):
        return z3.Select(self.h[n], t)

    def sub(self, t):
        return self.g('sub', t)

    def got(self, t):
        return self.g('got', t)

    def dlen(self, t):
        return S(TSeq(Task)).len(self.f('dependencies', t))

    def darr(self, t):
        return S(TSeq(Task)).arr(self.f('dependencies', t))

    def dep(self, t, j):
        return z3.Select(self.darr(t), j)

    def isdep(self, t, j):
        return z3.And(0 <= j, j < self.dlen(t))


t, d = z3.Const('t!s', S(Task)), z3.Const('d!s', S(Task))
i, j = z3.Ints('i!s j!s')
FIELDS = ('Task.running', 'Task.done', 'Task.exc', 'Task.result')


class Tasks(Contract):
    """Shared by the contracts over tasks."""

    def world(self, E):
        for n, ty in Task.fields.items():
            E.heap_init('Task.' + n, TU('F' + n), E.fresh_term(z3.ArraySort(S(Task), S(ty)), n))
        for n, s in (('sub', B), ('got', B), ('gotat', I), ('wit', I)):
            E.heap_init(n, TU('G' + n), E.fresh_term(z3.ArraySort(S(Task), s), n))
        E.heap_init('ch', TU('Gch'), E.fresh_term(z3.ArraySort(S(Task), z3.ArraySort(S(Task), B)), 'ch'))
        E.heap_init('miss', Task)
        E.heap_init('npend', TInt)
        E.heap_init('ngot', TInt)

    def install(self, E):
        Task.cls = E.global_value(E.repo.module('fbuild.sched'), 'Task')
        E.attrs_sym[(Task.key, 'src')] = lambda E, o: Sym(src_of(o.t), Src)
        E.attrs_sym[(Task.key, 'index')] = lambda E, o: Sym(index_of(o.t), TInt)
        E.isinst[('raise', Exc.key)] = lambda E, e: ExcVal(None, (), upper=BaseException, attrs={'of': e.t})


class CanRun(Tasks):
    """A task can run when it did not yet and all its dependencies are done."""
    target = Q + 'Task.can_run'
    props = ('C12', 'C13')
    params = ('self',)

    def fresh_param(self, E, p):
        return E.fresh(Task, p)

    def begin(self, E, a):
        a.snap = dict(E.heap)

    def value(self, h, x):
        v = View(h)
        return z3.And(z3.Not(v.f('running', x)), z3.Not(v.f('done', x)),
                      fa([j], z3.Implies(v.isdep(x, j), v.f('done', v.dep(x, j))), v.dep(x, j)))

    def ensures(self, E, a, pre, post, out):
        x = E.enc(a.self, Task)
        r = E.truth(out[1])
        r = r if isinstance(r, z3.ExprRef) else z3.BoolVal(bool(r))
        return [('the answer', r == self.value(pre, x)),
                ('nothing changes', z3.And(*[post[n] == pre[n] for n in pre if n.startswith('Task.')]))]

    def apply(self, E, a):
        x = E.enc(a.self, Task)
        r = E.fresh_term(B, 'can_run')
        v = View(E.heap)
        E.assume(r == self.value(E.heap, x))
        # a dependency that is not done, when there is one
        w = E.fresh_term(I, 'w')
        E.assume(z3.Implies(z3.And(z3.Not(r), z3.Not(v.f('running', x)), z3.Not(v.f('done', x))),
                            z3.And(v.isdep(x, w), z3.Not(v.f('done', v.dep(x, w))))))
        E.heap_set('wit', z3.Store(E.heap['wit'], x, w))
        return Sym(r, TBool)


def new_context(E, run):
    """A copy of the context of the caller: its values are those of the moment it was copied."""
    x = E.new_inst('Context')
    x.attrs['run'] = Native(run, 'run')
    return x


class Init(Contract):
    """A new task did not run, has no dependencies and keeps the context it was made in."""
    target = Q + 'Task.__init__'
    props = ('C02', 'C12', 'C13')
    params = ('self', 'function', 'src', 'index')

    def install(self, E):
        def copy_context(E, a, k):
            self.contexts.append(new_context(E, lambda E, a, k: E.prove('a task is not run by its creation', z3.BoolVal(False))))
            return self.contexts[-1]
        E.intrinsics['contextvars.copy_context'] = copy_context

    def fresh_param(self, E, p):
        if p == 'self':
            self.contexts = []
            x = E.new_inst(Q + 'Task')
            x.cls = E.global_value(E.repo.module('fbuild.sched'), 'Task')
            return x
        if p == 'function':
            return Native(lambda E, a, k: E.prove('a task is not run by its creation', z3.BoolVal(False)), 'function')
        return E.fresh(Src if p == 'src' else TOpt(TInt), p)

    def ensures(self, E, a, pre, post, out):
        at = a.self.attrs
        deps = at.get('dependencies')
        tb = lambda n: z3.BoolVal(at.get(n) is False) if not isinstance(at.get(n), Sym) else z3.Not(at[n].t)
        return [('it keeps what it is for', z3.BoolVal(at.get('function') is a.function and at.get('src') is a.src
                                                       and at.get('index') is a.index)),
                ('it did not run', z3.And(tb('running'), tb('done'), z3.BoolVal(at.get('exc', 0) is None))),
                ('it has no dependencies yet', z3.BoolVal(isinstance(deps, MList) and deps.items == [])),
                ('it keeps the context of its maker', z3.BoolVal(len(self.contexts) == 1 and at.get('context') is self.contexts[0]))]


class Run(Contract):
    """Task.run: one call of the function, in the context of the task, and its outcome is kept."""
    target = Q + 'Task.run'
    props = ('C02', 'C12', 'C13')
    params = ('self',)
    raises = (BaseException,)

    def fresh_param(self, E, p):
        x = E.new_inst(Q + 'Task')
        x.cls = E.global_value(E.repo.module('fbuild.sched'), 'Task')
        self.calls = []
        self.src = E.fresh(Src, 'src')

        self.inside = []

        def run(E, a, k):
            self.inside.append(True)
            try:
                return E.call(a[0], list(a[1:]), k)
            finally:
                self.inside.pop()

        def function(E, a, k):
            self.calls.append((list(a), dict(k)))
            E.prove('the function runs in the context of its task', z3.BoolVal(len(self.inside) == 1))
            w = E.choose_free(3)
            if w:
                self.outcome = ('raise', ExcVal(None, (), upper=Exception) if w == 1 else ExcVal(KeyboardInterrupt, ()))
                raise PyExc(self.outcome[1])
            self.outcome = ('return', E.fresh(Val, 'value'))
            return self.outcome[1]
        x.attrs.update(function=Native(function, 'function'), src=self.src, index=None, running=True, done=False,
                       dependencies=MList(E, items=[]), exc=None, context=new_context(E, run))
        return x

    def ensures(self, E, a, pre, post, out):
        at = a.self.attrs
        one = len(self.calls) == 1 and not self.calls[0][1] and len(self.calls[0][0]) == 1 and self.calls[0][0][0] is self.src
        fs = [('the function is called once with the element', z3.BoolVal(one))]
        if one:
            k, v = self.outcome
            fs.append(('its outcome is kept', z3.BoolVal(
                at.get('result') is v and at.get('exc', 0) is None if k == 'return' else at.get('exc') is v)))
            if out[0] == 'raise':
                fs.append(('only what is no Exception passes on', z3.BoolVal(out[1] is v and v.upper is None)))
        return fs


class RunOne(Contract):
    """WorkerThread.run_one: a task that was taken is run once, and its map hears of it afterwards, always."""
    target = Q + 'WorkerThread.run_one'
    props = ('C12', 'C13')
    params = ('self', 'queue_task')
    raises = (BaseException,)
    variants = ('task', 'none')

    def fresh_param(self, E, p):
        if p == 'self':
            self.log = []
            w = E.new_inst(Q + 'WorkerThread')
            w.cls = E.global_value(E.repo.module('fbuild.sched'), 'WorkerThread')
            q = E.new_inst('ready')
            q.attrs['task_done'] = Native(lambda E, a, k: self.log.append('task_done'), 'task_done')
            w.attrs['__ready_queue'] = q
            return w
        if self.variant == 'none':
            return None
        q, self.task = E.new_inst('done'), E.new_inst('task')

        def put(E, a, k):
            self.log.append(('put', a[0] if a else None))

        def run(E, a, k):
            self.log.append('run')
            if E.choose_free(2):
                self.exc = ExcVal(None, (), upper=BaseException)
                raise PyExc(self.exc)
        self.exc = None
        q.attrs['put'] = Native(put, 'put')
        self.task.attrs['run'] = Native(run, 'run')
        return (q, self.task)

    def ensures(self, E, a, pre, post, out):
        l = self.log
        if self.variant == 'none':
            return [('nothing ran', z3.BoolVal(out == ('return', False) and [x for x in l if x != 'task_done'] == []))]
        r = [x for x in l if x != 'task_done']
        return [('run once, then handed back once', z3.BoolVal(r == ['run', ('put', self.task)])),
                ('says that it ran', z3.BoolVal(out[0] == 'raise' and out[1] is self.exc or out == ('return', True)))]


class Evaluate(Tasks):
    """Scheduler._evaluate.

    The environment: the workers hand back each task that was put in the queue
    exactly once, in any order (RunOne).  A thread that waits while nothing is
    under way would hang, so that is an obligation of every wait.
    """
    target = Q + 'Scheduler._evaluate'
    props = ('C12', 'C13')
    params = ('self', 'tasks')
    raises = (BaseException,)
    variants = ('main thread', 'worker thread')
    inline_names = frozenset((Q + 'Scheduler.interruptible',))
    loops = (lambda c, E, L: c.inv(E, L),)
    assumptions = ('queues hand over every element once', 'the fields of a task are changed by its own map only',
                   'the number of elements of a finite set (npend, ngot) is zero, or all, exactly if the set is empty, or full')

    def fresh_param(self, E, p):
        if p == 'self':
            return self.scheduler(E)
        return E.fresh(TSeq(Task), 'tasks')

    def scheduler(self, E):
        s = E.new_inst(Q + 'Scheduler')
        s.cls = E.global_value(E.repo.module('fbuild.sched'), 'Scheduler')
        q, lock = E.new_inst('ready'), E.new_inst('lock')
        q.attrs['put'] = Native(self.put, 'put')

        def release(E, a, k):
            if E.choose_free(2):
                E.raise_py(RuntimeError, 'release unlocked lock')
            self.released += 1

        def acquire(E, a, k):
            E.prove('the lock is only taken back', z3.BoolVal(self.released > 0))
            self.released -= 1
            return True
        lock.attrs.update(release=Native(release, 'release'), acquire=Native(acquire, 'acquire'))
        lock.attrs.update(__enter__=lock.attrs['acquire'], __exit__=lock.attrs['release'])
        s.attrs.update({'__ready_queue': q, '__controlling_lock': lock, '__threads': MList(E, items=[])})
        self.released = 0
        self.done = None
        self.failed = False
        return s

    def install(self, E):
        super().install(E)
        In = E.intrinsics
        In['queue.Queue'] = self.new_queue
        In['threading.current_thread'] = self.thread
        In['collections.defaultdict'] = self.new_children
        In['time.sleep'] = lambda E, a, k: None
        E.attrs_sym[(Task.key, 'dependencies')] = self.dependencies

    def thread(self, E, a, k):
        w = E.new_inst('current')
        if self.variant == 'worker thread':
            w.cls = E.global_value(E.repo.module('fbuild.sched'), 'WorkerThread')
            w.attrs.update(read_task=Native(self.read_task, 'read_task'), run_one=Native(self.run_one, 'run_one'))
        return w

    def read_task(self, E, a, k):
        b = k.get('block', a[0] if a else True)
        E.prove('a worker does not wait for other tasks', z3.BoolVal(b is False))
        if E.choose_free(2):
            import queue
            E.raise_py(queue.Empty)
        return self.other

    def run_one(self, E, a, k):
        E.prove('the task that was taken is run', z3.BoolVal(len(a) == 1 and a[0] is self.other))
        E.prove('a task runs under the lock', z3.BoolVal(self.released == 0))
        if E.choose_free(2):
            e = ExcVal(None, (), upper=BaseException, attrs={'of': 'worker'})
            raise PyExc(e)
        return E.fresh(TBool, 'ran')

    def dependencies(self, E, o):
        """The list of a task; what is appended to it stays."""
        ty = TSeq(Task)
        x = E.new_inst('dependencies')
        cell = lambda: z3.Select(E.heap['Task.dependencies'], o.t)

        def append(E, a, k):
            s = cell()
            n = S(ty).len(s)
            E.heap_set('Task.dependencies', z3.Store(E.heap['Task.dependencies'], o.t, S(ty).seq(
                n + 1, z3.Store(S(ty).arr(s), n, E.enc(a[0], Task)))))

        def segs(E):
            s = cell()
            self.owner = o.t
            E.assume(S(ty).len(s) >= 0)
            return [Seg('seq', seq=s, sty=ty, ety=Task, n=S(ty).len(s), at=lambda p: Sym(z3.Select(S(ty).arr(s), p), Task))]

        def contains(E, a, k):
            s, y = cell(), E.enc(a[0], Task)
            b, w = E.fresh_term(B, 'in'), E.fresh_term(I, 'w')
            E.assume(z3.Implies(b, z3.And(0 <= w, w < S(ty).len(s), z3.Select(S(ty).arr(s), w) == y)))
            E.assume(z3.Implies(z3.Not(b), fa([j], z3.Implies(z3.And(0 <= j, j < S(ty).len(s)),
                                                              z3.Select(S(ty).arr(s), j) != y), z3.Select(S(ty).arr(s), j))))
            return Sym(b, TBool)

        def length(E, a, k):
            n = S(ty).len(cell())
            E.assume(n >= 0)
            return Sym(n, TInt)
        x.attrs.update(append=Native(append, 'append'), __contains__=Native(contains, '__contains__'),
                       __len__=Native(length, '__len__'), __iter_segs__=segs)
        return x

    def new_children(self, E, a, k):
        c = E.new_inst('children')
        E.heap_set('ch', z3.K(S(Task), T.empty_set(Task)))

        def item(E, a, k):
            x = E.enc(a[0], Task)
            l = E.new_inst('childlist')

            def append(E, a2, k2):
                y = E.enc(a2[0], Task)
                ch = E.heap['ch']
                E.heap_set('ch', z3.Store(ch, x, z3.Store(z3.Select(ch, x), y, z3.BoolVal(True))))

            def segs(E):
                self.chowner = x
                return [Seg('coll', S=z3.Select(E.heap['ch'], x), ety=Task, elem=lambda u: Sym(u, Task))]
            l.attrs.update(append=Native(append, 'append'), __iter_segs__=segs)
            return l
        c.attrs['__getitem__'] = Native(item, '__getitem__')
        return c

    def new_queue(self, E, a, k):
        q = E.new_inst('done')
        self.done = q
        q.attrs['get'] = Native(self.get, 'get')
        return q

    def card(self, E, pos):
        v = View(E.heap)
        A, N = self.A, self.N
        E.assume(z3.And(E.heap['npend'] >= 0, E.heap['ngot'] <= N, E.heap['ngot'] >= 0))
        E.assume(z3.Implies(E.heap['npend'] == 0, fa([t], v.sub(t) == v.got(t), v.sub(t))))
        E.assume(z3.Implies(E.heap['ngot'] == N, fa([t], z3.Implies(self.mem(t), v.got(t)), v.got(t))))
        # one that is missing
        w = E.fresh_term(S(Task), 'missing')
        E.heap_set('miss', w)
        E.assume(z3.Implies(E.heap['ngot'] != N, z3.And(self.mem(w), z3.Not(v.got(w)))))

    def put(self, E, a, k):
        x = a[0] if a else None
        ok = isinstance(x, tuple) and len(x) == 2 and x[0] is self.done
        E.prove('a task is handed to the workers with the queue of its map', z3.BoolVal(ok))
        y = E.enc(x[1], Task)
        v = View(E.heap)
        E.prove('only a task of this map is run', self.mem(y))
        E.prove('no task is run twice', z3.Not(v.sub(y)))
        E.prove('a task is run after all its dependencies', fa([j], z3.Implies(v.isdep(y, j), v.got(v.dep(y, j))), v.dep(y, j)))
        E.heap_set('sub', z3.Store(E.heap['sub'], y, z3.BoolVal(True)))
        E.heap_set('npend', E.heap['npend'] + 1)
        self.card(E, None)

    def get(self, E, a, k):
        b = k.get('block', a[0] if a else True)
        E.prove('no wait while nothing is under way', E.heap['npend'] > 0)
        E.prove('the lock is held again', z3.BoolVal(self.released == 0))
        if self.variant == 'worker thread':
            E.prove('a worker does not block', z3.BoolVal(b is False))
        if b is not True and E.choose_free(2):
            import queue
            E.raise_py(queue.Empty)
        v = View(E.heap)
        y = E.fresh_term(S(Task), 'finished')
        E.assume(z3.And(v.sub(y), z3.Not(v.got(y))))
        for n in ('exc', 'result'):
            f = E.fresh_term(S(Task.fields[n]), n)
            if n == 'exc':
                E.assume(f != T.some(Exc, E.uconst(Exc, 'None')))
            E.heap_set('Task.' + n, z3.Store(E.heap['Task.' + n], y, f))
        E.heap_set('got', z3.Store(E.heap['got'], y, z3.BoolVal(True)))
        E.heap_set('gotat', z3.Store(E.heap['gotat'], y, E.heap['ngot']))
        E.heap_set('ngot', E.heap['ngot'] + 1)
        E.heap_set('npend', E.heap['npend'] - 1)
        self.card(E, None)
        return Sym(y, Task)

    def apply(self, E, a):
        c = E.cur
        self.bind(E, a)
        self.posf = c.positions(E, a)
        for n in ('sub', 'got'):
            E.heap_set(n, z3.K(S(Task), z3.BoolVal(False)))
        for n in ('npend', 'ngot'):
            E.heap_set(n, z3.IntVal(0))
        for n, f in enumerate(self.requires(E, a)):
            E.prove('%s: precondition %d at a call' % (self.label, n), f)
        pre = E.snapshot()
        self.released = 0
        w = E.choose_free(4)
        for n in self.modifies(E, a):
            E.havoc_name(n)
        if w == 0:
            out = ('return', E.fresh(TSeq(Task), 'finished'))
        elif w == 3:
            out = ('raise', ExcVal(E.global_value(E.repo.module('fbuild.sched'), 'DependencyLoop'), ()))
        else:
            out = ('raise', ExcVal(None, (), upper=BaseException, attrs={
                'of': 'worker' if w == 2 else E.fresh_term(S(Exc), 'raised')}))
        for n, f in self.ensures(E, a, pre, E.snapshot(), out):
            E.assume(f)
        E.assume_or_end(z3.BoolVal(True))
        E.pathnotes.append('_evaluate: %s' % out[0])
        c.evaluated(E, copy.copy(self), pre, out)
        if w:
            raise PyExc(out[1])
        return out[1]

    def modifies(self, E, a):
        return FIELDS + ('sub', 'got', 'gotat', 'ngot', 'npend', 'wit', 'ch', 'miss')

    # -- specification -------------------------------------------------------
    posf = None                # at a call: positions in the list of the caller

    def pos(self, x):
        return (self.posf or z3.Function('pos', S(Task), I))(x)

    def mem(self, x):
        p = self.pos(x)
        return z3.And(0 <= p, p < self.N, z3.Select(self.A, p) == x)

    def pre_formulas(self, h):
        v = View(h)
        A, N = self.A, self.N
        return [('distinct', fa([i], z3.Implies(z3.And(0 <= i, i < N), self.pos(z3.Select(A, i)) == i), z3.Select(A, i))),
                ('did not run', fa([t], z3.Implies(self.mem(t), z3.And(
                    z3.Not(v.f('running', t)), z3.Not(v.f('done', t)), v.f('exc', t) == T.none(Exc))), self.pos(t))),
                ('closed', fa([t, j], z3.Implies(z3.And(self.mem(t), v.isdep(t, j)), self.mem(v.dep(t, j))), v.dep(t, j)))]

    def bind(self, E, a):
        s = E.enc(a.tasks, TSeq(Task))
        self.A, self.N = S(TSeq(Task)).arr(s), S(TSeq(Task)).len(s)

    def requires(self, E, a):
        self.bind(E, a)
        v = View(E.heap)
        return [self.N >= 0] + [f for n, f in self.pre_formulas(E.heap)] + [
            fa([t], z3.Not(v.sub(t)), v.sub(t)), fa([t], z3.Not(v.got(t)), v.got(t)),
            E.heap['npend'] == 0, E.heap['ngot'] == 0, fa([t], v.dlen(t) >= 0, v.f('dependencies', t))]

    def begin(self, E, a):
        self.a, self.pre = a, dict(E.heap)
        self.other = E.new_inst('other')
        self.owner = self.chowner = None
        self.phase = 'start'
        self.tasks0 = a.tasks.read()
        self.card(E, None)

    def stuck(self, v, x):
        """x waits for a dependency that did not come back"""
        w = v.g('wit', x)
        return z3.And(v.isdep(x, w), z3.Not(v.got(v.dep(x, w))))

    def inv(self, E, L):
        if not hasattr(self, 'A'):
            return []
        if L.kind == 'while':
            self.phase = 'main'
        if L.kind == 'seq' and self.phase != 'start':
            return []
        h = E.heap
        v, u = View(h), View(self.pre)
        m = self.mem(t)
        out = [('running are submitted', fa([t], z3.Implies(m, v.f('running', t) == v.sub(t)), v.f('running', t))),
               ('done are back', fa([t], z3.Implies(m, v.f('done', t) == v.got(t)), v.f('done', t))),
               ('back were submitted', fa([t], z3.Implies(v.got(t), v.sub(t)), v.got(t))),
               ('only members', fa([t], z3.Implies(v.sub(t), m), v.sub(t))),
               ('after dependencies', fa([t, j], z3.Implies(z3.And(v.sub(t), v.isdep(t, j)), v.got(v.dep(t, j))), v.dep(t, j))),
               ('order of return', fa([t, j], z3.Implies(z3.And(v.got(t), v.isdep(t, j)), v.g('gotat', v.dep(t, j)) < v.g('gotat', t)),
                                      v.dep(t, j))),
               ('gotat', fa([t], z3.Implies(v.got(t), z3.And(0 <= v.g('gotat', t), v.g('gotat', t) < h['ngot'])), v.got(t))),
               ('none failed', fa([t], z3.Implies(v.got(t), v.f('exc', t) == T.none(Exc)), v.got(t))),
               ('children are members', fa([d, t], z3.Implies(z3.Select(z3.Select(h['ch'], d), t), m), z3.Select(z3.Select(h['ch'], d), t))),
               ('others unchanged', z3.And(*[fa([t], z3.Implies(z3.Not(m), z3.Select(h[n], t) == z3.Select(self.pre[n], t)),
                                                z3.Select(h[n], t)) for n in FIELDS])),
               ('none back', h['ngot'] == 0) if L.kind == 'seq' else ('-', z3.BoolVal(True)),
               ('pending', h['npend'] >= 0), ('back', z3.And(h['ngot'] >= 0, h['ngot'] <= self.N)),
               ('pending 0', z3.Implies(h['npend'] == 0, fa([t], v.sub(t) == v.got(t), v.sub(t)))),
               ('back all', z3.Implies(h['ngot'] == self.N, fa([t], z3.Implies(m, v.got(t)), v.got(t)))),
               ('one is missing', z3.Implies(h['ngot'] != self.N, z3.And(self.mem(h['miss']), z3.Not(v.got(h['miss']))))),
               ('lock', z3.BoolVal(self.released == 0))]
        # list of the tasks that came back, and counters
        st = S(TSeq(Task))
        for n, x in sorted(L.env.vars.items()):
            if isinstance(x, MList) and not x.coll and x.name != self.a.tasks.name and x is not self.a.tasks:
                try:
                    s = x.seq_term(TSeq(Task))
                except Unsupported:
                    continue
                R, rn = st.arr(s), st.len(s)
                out += [('%s: length' % n, rn == h['ngot']),
                        ('%s: in order' % n, fa([t], z3.Implies(v.got(t), z3.Select(R, v.g('gotat', t)) == t), v.g('gotat', t))),
                        ('%s: back' % n, fa([i], z3.Implies(z3.And(0 <= i, i < rn), z3.And(
                            v.got(z3.Select(R, i)), v.g('gotat', z3.Select(R, i)) == i)), z3.Select(R, i)))]
            elif isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Sym) and x.ty.key == 'Int':
                c = E.enc(x, TInt)
                out.append(('%s counts' % n, c == h['npend']))
        # which tasks may still have to be submitted
        def ready(*more):
            return fa([t], z3.Implies(m, z3.Or(v.sub(t), self.stuck(v, t), *more)), v.g('wit', t))

        def listed(x, j2):
            return z3.Select(z3.Select(h['ch'], v.dep(x, j2)), x)
        if L.kind == 'while':
            out.append(('nothing is ready', ready()))
        if L.kind != 'seq':
            out.append(('dependents are known', fa([t, j], z3.Implies(z3.And(m, v.isdep(t, j)), listed(t, j)), v.dep(t, j))))
        if L.kind == 'seq' and L.ety == Task:
            if L.seq is not None and z3.eq(z3.simplify(L.seq), z3.simplify(self.tasks0)):
                first = z3.And(m, self.pos(t) < L.i)
                out += [('first are known', fa([t, j], z3.Implies(z3.And(first, v.isdep(t, j)), listed(t, j)), v.dep(t, j))),
                        ('first are submitted or stuck', fa([t], z3.Implies(first, z3.Or(v.sub(t), self.stuck(v, t))), v.g('wit', t))),
                        ('later not submitted', fa([t], z3.Implies(v.sub(t), self.pos(t) < L.i), v.sub(t)))]
            elif self.owner is not None:
                o = self.owner
                out += [('more children', fa([d, t], z3.Implies(z3.Select(z3.Select(L.pre['ch'], d), t),
                                                                 z3.Select(z3.Select(h['ch'], d), t)),
                                             z3.Select(z3.Select(L.pre['ch'], d), t))),
                        ('listed so far', fa([j], z3.Implies(z3.And(0 <= j, j < L.i), listed(o, j)), v.dep(o, j)))]
        if L.kind in ('coll', 'set') and L.ety == Task and self.chowner is not None:
            x = self.chowner
            out.append(('ready are children', ready(z3.And(z3.Select(z3.Select(h['ch'], x), t), z3.Not(z3.Select(L.D, t))))))
        return out

    def ensures(self, E, a, pre, post, out):
        v, u = View(post), View(pre)
        A, N = self.A, self.N
        m = self.mem(t)
        unch = z3.And(*[fa([t], z3.Implies(z3.Not(m), z3.Select(post[n], t) == z3.Select(pre[n], t)), z3.Select(post[n], t))
                        for n in FIELDS] + [post['Task.dependencies'] == pre['Task.dependencies']])
        if out[0] == 'raise':
            e = out[1]
            of = e.attrs.get('of')
            fs = []
            if of is not None and not isinstance(of, str):
                x = z3.Const('x!e', S(Task))
                fs.append(('it raises what a task of this map raised', z3.Exists([x], z3.And(
                    v.got(x), v.f('exc', x) == T.some(Exc, of)))))
            elif of == 'worker':
                pass
            elif getattr(e.cls, 'qual', '') == Q + 'DependencyLoop':
                fs += [('something did not run', z3.And(self.mem(post['miss']), z3.Not(v.sub(post['miss'])))),
                       ('what did not run waits for something that did not run', fa([t], z3.Implies(
                           z3.And(m, z3.Not(v.sub(t))), z3.And(v.isdep(t, v.g('wit', t)), z3.Not(v.sub(v.dep(t, v.g('wit', t)))))),
                           v.g('wit', t))),
                       ('nothing that ran waits for something that did not', fa([t, j], z3.Implies(
                           z3.And(v.sub(t), v.isdep(t, j)), v.sub(v.dep(t, j))), v.dep(t, j)))]
            else:
                fs.append(('no other exception', z3.BoolVal(False)))
            return fs
        s = E.enc(out[1], TSeq(Task))
        R, rn = S(TSeq(Task)).arr(s), S(TSeq(Task)).len(s)
        at = lambda x: v.g('gotat', x)
        return [('every task was run', fa([t], z3.Implies(m, z3.And(v.sub(t), v.got(t))), self.pos(t))),
                ('no other task was run', fa([t], z3.Implies(v.sub(t), m), v.sub(t))),
                ('none failed', fa([t], z3.Implies(m, z3.And(v.got(t), v.f('exc', t) == T.none(Exc))), v.f('exc', t))),
                ('every task is returned', z3.And(rn == N, fa([t], z3.Implies(m, z3.And(
                    0 <= at(t), at(t) < rn, z3.Select(R, at(t)) == t)), self.pos(t)))),
                ('only tasks, each once', fa([i], z3.Implies(z3.And(0 <= i, i < rn), z3.And(
                    self.mem(z3.Select(R, i)), at(z3.Select(R, i)) == i)), z3.Select(R, i))),
                ('dependencies come back first', fa([t, j], z3.Implies(z3.And(m, v.isdep(t, j)), at(v.dep(t, j)) < at(t)), v.dep(t, j))),
                ('other tasks are left alone', unch),
                ('the lock is held again', z3.BoolVal(self.released == 0))]



DEPENDS, FUNCTION = 0, 1


def mk(s, p):
    """The task that a place of the program created as its p-th"""
    return z3.Function('new_task', I, I, S(Task))(s, p)


def mk_n(x):
    return z3.Function('new_task_number', S(Task), I)(x)


def kind_of(x):
    return z3.Function('task_kind', S(Task), I)(x)


class Mapper(Evaluate):
    """Callers of _evaluate."""
    props = ()
    inline_names = frozenset()
    variants = (None,)
    loops = (lambda c, E, L: c.inv2(E, L),)

    def world(self, E):
        super().world(E)
        E.heap_init('created', TInt, z3.IntVal(0))

    def install(self, E):
        super().install(E)
        E.intrinsics['new:' + Q + 'Task'] = self.new_task
        E.intrinsics['operator.attrgetter'] = lambda E, a, k: Native(lambda E, b, k2: E.getattr(b[0], a[0]), 'attrgetter')
        E.intrinsics['builtins.sorted'] = self.sorted
        for n in ('queue.Queue', 'threading.current_thread', 'collections.defaultdict'):
            del E.intrinsics[n]

    def requires(self, E, a):
        v, p, q = View(E.heap), z3.Int('p!n'), z3.Int('q!n')
        x = mk(p, q)
        return [fa([t], v.dlen(t) >= 0, v.f('dependencies', t)), fa([p, q], z3.And(mk_n(x) == q, z3.Not(v.f('running', x)), z3.Not(v.f('done', x)),
                                  v.f('exc', x) == T.none(Exc), v.dlen(x) == 0), x)]

    def begin(self, E, a):
        self.a, self.pre = a, dict(E.heap)
        self.owner = self.chowner = None
        self.evals = []
        self.raised = None
        self.other = None

    def fresh_param(self, E, p):
        if p == 'self':
            return self.scheduler(E)
        if p == 'srcs':
            return E.fresh(TSeq(Src), p)
        n = 1 if p == 'function' else 0
        return Native(lambda E, a, k: E.prove('functions are called by the workers', z3.BoolVal(False)), p)

    def new_task(self, E, cls, a, k):
        v = dict(zip(('function', 'src', 'index'), a), **k)
        fn = v.get('function')
        kind = FUNCTION if fn is self.a.function else DEPENDS if fn is getattr(self.a, 'depends', 0) else None
        E.prove('a task runs the function of the map', z3.BoolVal(kind is not None))
        if E.point:
            pos, dom, serial = E.point
            x = mk(serial, pos)
        else:
            pos, serial = E.heap['created'], 0
            x = mk(0, pos)
            E.heap_set('created', pos + 1)
        fs = [src_of(x) == E.enc(v['src'], Src), kind_of(x) == kind]
        if v.get('index') is not None:
            fs.append(index_of(x) == E.enc(v['index'], TInt))
        f = z3.And(*fs)
        if E.point:
            f = z3.ForAll([pos], z3.Implies(dom, f), patterns=[x])
        E.axiom(f)
        return Sym(x, Task)

    def sorted(self, E, a, k):
        """A permutation in the order of the keys."""
        l = E.as_list(a[0])
        ty = TSeq(Task)
        s = E.enc(l, ty)
        n, A = S(ty).len(s), S(ty).arr(s)
        x = z3.Const('x!k', S(Task))
        key = E.enc(E.call(k['key'], [Sym(x, Task)]), TInt)
        if set(k) != {'key'}:
            raise Unsupported('sorted with %s' % sorted(k))
        g = lambda y: z3.substitute(key, (x, y))
        R = E.fresh_term(z3.ArraySort(I, S(Task)), 'sorted')
        p, q = (z3.Function(E.fresh_term(I, nm).decl().name(), I, I) for nm in ('from', 'to'))
        r = lambda m: z3.Select(R, m)
        dom = lambda m: z3.And(0 <= m, m < n)
        E.assume(fa([i], z3.Implies(dom(i), z3.And(dom(p(i)), q(p(i)) == i, r(i) == z3.Select(A, p(i)))), r(i)))
        E.assume(fa([i], z3.Implies(dom(i), z3.And(dom(q(i)), p(q(i)) == i)), z3.Select(A, i)))
        E.assume(fa([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), g(r(i)) <= g(r(j))), z3.MultiPattern(r(i), r(j))))
        # lemma: if the keys are different numbers below n, they are 0, 1, 2, ...
        H = z3.And(fa([i], z3.Implies(dom(i), dom(g(r(i)))), r(i)),
                   fa([i, j], z3.Implies(z3.And(dom(i), dom(j), i != j), g(r(i)) != g(r(j))), z3.MultiPattern(r(i), r(j))))
        m = E.fresh_term(I, 'm')
        up = lambda m: g(r(m)) >= m
        down = lambda m: g(r(n - 1 - m)) <= n - 1 - m
        for nm, P in (('lower', up), ('upper', down)):
            E.prove('lemma: %s bound, base' % nm, z3.Implies(z3.And(H, n > 0), P(z3.IntVal(0))))
            E.prove('lemma: %s bound, step' % nm, z3.Implies(z3.And(H, dom(m), m + 1 < n, P(m)), P(m + 1)))
        E.assume(z3.Implies(H, fa([i], z3.Implies(dom(i), g(r(i)) == i), r(i))))
        return MList(E, Task, term=S(ty).seq(n, R))

    def positions(self, E, a):
        return mk_n

    def evaluated(self, E, c, pre, out):
        if out[0] == 'raise':
            self.raised = out[1]
        self.evals.append((c, pre, dict(E.heap), out))

    def inv2(self, E, L):
        return []

    def modifies(self, E, a):
        return Evaluate.modifies(self, E, a) + ('created', 'Task.dependencies')

    def ensures(self, E, a, pre, post, out):
        if out[0] == 'raise':
            return [('it raises what the evaluation raised', z3.BoolVal(out[1] is self.raised))]
        return self.returned(E, a, post, out[1])


class Map(Mapper):
    """Scheduler.map: one task for each element, the results in the order of the elements."""
    target = Q + 'Scheduler.map'
    props = ('C12',)
    params = ('self', 'function', 'srcs')

    def returned(self, E, a, post, res):
        if len(self.evals) != 1:
            return [('the tasks are evaluated once', z3.BoolVal(False))]
        c, pre, h, _ = self.evals[0]
        v = View(h)
        st, sv = S(TSeq(Src)), S(TSeq(Val))
        q, r = E.enc(a.srcs, TSeq(Src)), E.enc(res, TSeq(Val))
        src, x = lambda i: z3.Select(st.arr(q), i), lambda i: z3.Select(c.A, i)
        return [('a task for each element', z3.And(c.N == st.len(q), fa([i], z3.Implies(z3.And(0 <= i, i < c.N), z3.And(
                    src_of(x(i)) == src(i), kind_of(x(i)) == FUNCTION)), x(i)))),
                ('as many results as elements', sv.len(r) == st.len(q)),
                ('the results in the order of the elements', fa([i], z3.Implies(
                    z3.And(0 <= i, i < c.N), z3.Select(sv.arr(r), i) == v.f('result', x(i))), z3.Select(sv.arr(r), i)))]


CONTRACTS = [Init, CanRun, Run, RunOne, Evaluate, Map]
USED = [CanRun, Evaluate]
