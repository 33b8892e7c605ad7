"""Scheduler.map_with_dependencies (C13), over the contract of _evaluate.

Ghost state: which task was made a dependency of which (lk, at position dpos),
and of the final walk through the tasks: the task of each result (ord), which
tasks have a result (em) and where (rp), which were visited (the set of the code).
"""
import ast

import z3

from contracts.sched import *
from contracts.sched import View, Mapper, S, I, B, i, j, t, d, fa, mk, mk_n, kind_of, src_of, Src, Val, Task, FUNCTION, DEPENDS

s_, u_ = z3.Const('s!d', S(Src)), z3.Const('u!d', S(Src))
SeqS = TSeq(Src)


def listed_seq(v):
    """What the dependency function returned, as a list"""
    return z3.Function('listed', S(Val), S(SeqS))(v)


def depends_on(a, b):
    return z3.Function('depends_on', S(Src), S(Src), B)(a, b)


def keypos(x):
    return z3.Function('position_of_key', S(Src), I)(x)


def posof(x):
    return z3.Function('position_of_task', S(Task), I)(x)


class MapDeps(Mapper):
    target = Q + 'Scheduler.map_with_dependencies'
    props = ('C13',)
    params = ('self', 'depends', 'function', 'srcs')
    variants = ('tasks', 'visit')
    cand_timeout = 1500

    def world(self, E):
        super().world(E)
        for n, s in (('em', B), ('rp', I), ('lk', z3.ArraySort(S(Task), B)), ('dpos', z3.ArraySort(S(Task), I))):
            E.heap_init(n, TU('G' + n), E.fresh_term(z3.ArraySort(S(Task), s), n))
        E.heap_init('ord', TU('Gord'), E.fresh_term(z3.ArraySort(I, S(Task)), 'ord'))
        # values of the table of tasks, once they were listed
        E.heap_init('vals', TU('Gvals'), E.fresh_term(z3.ArraySort(I, S(Task)), 'vals'))
        E.heap_init('nvals', TInt)

    def install(self, E):
        super().install(E)
        E.methods[(Val.key, '__iter__')] = lambda E, v: MList(E, Src, term=listed_seq(v.t))
        E.methods[('dict', 'values')] = self.values

    def requires(self, E, a):
        v = View(E.heap)
        return super().requires(E, a) + [
            fa([t, d], z3.Not(z3.Select(z3.Select(E.heap['lk'], t), d)), z3.Select(z3.Select(E.heap['lk'], t), d)),
            fa([t], z3.Not(z3.Select(E.heap['em'], t)), z3.Select(E.heap['em'], t)),
            fa([z3.Const('v!d', S(Val))], S(SeqS).len(listed_seq(z3.Const('v!d', S(Val)))) >= 0, listed_seq(z3.Const('v!d', S(Val))))]

    def modifies(self, E, a):
        return tuple(E.heap)

    def begin(self, E, a):
        super().begin(E, a)
        self.body = False        # inside the visited function
        self.table = None

    def dependencies(self, E, o):
        x = super().dependencies(E, o)
        app = x.attrs['append'].fn

        def append(E, a, k):
            y = E.enc(a[0], Task)
            E.prove('a dependency is one that was listed', depends_on(src_of(o.t), src_of(y)))
            n = View(E.heap).dlen(o.t)
            app(E, a, k)
            for g, v in (('lk', z3.BoolVal(True)), ('dpos', n)):
                h = E.heap[g]
                E.heap_set(g, z3.Store(h, o.t, z3.Store(z3.Select(h, o.t), y, v)))
        x.attrs['append'] = Native(append, 'append')
        return x

    # -- the table from elements to tasks -------------------------------------
    def tables(self, L):
        return [x for n, x in sorted(L.env.vars.items()) if isinstance(x, MDict)]

    def values(self, E, o, a, k):
        if o.items is not None or o.v != Task:
            raise Unsupported('values of another dictionary')
        m = o.read()
        n = E.fresh_term(I, 'nvals')
        V = E.fresh_term(z3.ArraySort(I, S(Task)), 'vals')
        key = z3.Function(E.fresh_term(I, 'key_at').decl().name(), I, S(Src))
        has = lambda x: T.is_some(Task, z3.Select(m, x))
        get = lambda x: T.val(Task, z3.Select(m, x))
        at = lambda q: z3.Select(V, q)
        E.assume(n >= 0)
        E.assume(fa([s_], z3.Implies(has(s_), z3.And(0 <= keypos(s_), keypos(s_) < n, at(keypos(s_)) == get(s_))),
                    z3.Select(m, s_)))
        E.assume(fa([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(has(key(i)), keypos(key(i)) == i, at(i) == get(key(i)))), at(i)))
        E.assume(fa([t], posof(t) == keypos(src_of(t)), posof(t)))
        self.table = m
        E.heap_set('vals', V)
        E.heap_set('nvals', n)
        x = E.new_inst('values')
        x.attrs['__iter_segs__'] = lambda E: [Seg('seq', seq=S(TSeq(Task)).seq(n, V), sty=TSeq(Task), ety=Task, n=n,
                                                  at=lambda p: Sym(z3.Select(V, p), Task))]
        return x

    def positions(self, E, a):
        return mk_n if not self.evals else posof

    def evaluated(self, E, c, pre, out):
        if out[0] == 'return':
            v = View(dict(E.heap))
            if not self.evals:
                q = E.enc(self.a.srcs, SeqS)
                self.first(E, c, v)
            else:
                self.second(E, c, pre)
        super().evaluated(E, c, pre, out)

    def srcs(self, E):
        q = E.enc(self.a.srcs, SeqS)
        return S(SeqS).len(q), lambda k: z3.Select(S(SeqS).arr(q), k)

    def first(self, E, c, v):
        """The dependency function was called for each element."""
        n, src = self.srcs(E)
        x = lambda k: z3.Select(c.A, k)
        E.prove('the dependencies of each element are asked for', z3.And(c.N == n, fa([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            src_of(x(i)) == src(i), kind_of(x(i)) == DEPENDS)), x(i))))
        l = lambda y: listed_seq(v.f('result', y))
        self.l = l
        at = lambda y, k: z3.Select(S(SeqS).arr(l(y)), k)
        # the meaning of depends_on
        E.assume(fa([t, j], z3.Implies(z3.And(c.mem(t), 0 <= j, j < S(SeqS).len(l(t))), depends_on(src_of(t), at(t, j))), at(t, j)))

    def second(self, E, c, pre):
        """The tasks that were run are one for each distinct element, with all listed dependencies."""
        n, src = self.srcs(E)
        x = lambda k: z3.Select(c.A, k)
        e1 = self.evals[0]
        v = View(pre)
        E.prove('the tasks run the function of the map', fa([i], z3.Implies(z3.And(0 <= i, i < c.N), kind_of(x(i)) == FUNCTION), x(i)))
        E.prove('every element has a task', fa([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= keypos(src(i)), keypos(src(i)) < c.N, src_of(x(keypos(src(i)))) == src(i))), src(i)))
        w = mk_n
        E.prove('every task has an element, and another one each', fa([i], z3.Implies(z3.And(0 <= i, i < c.N), z3.And(
            keypos(src_of(x(i))) == i, 0 <= w(x(i)), w(x(i)) < n, src(w(x(i))) == src_of(x(i)))), x(i)))
        c1, h1 = e1[0], View(e1[2])
        l = self.l
        at = lambda y, k: z3.Select(S(SeqS).arr(l(y)), k)
        isel = lambda y: z3.And(0 <= keypos(y), keypos(y) < c.N, src_of(x(keypos(y))) == y)
        tk = lambda y: x(keypos(y))
        E.prove('a listed element comes first', fa([t, j], z3.Implies(
            z3.And(c1.mem(t), 0 <= j, j < S(SeqS).len(l(t)), isel(at(t, j))),
            self.linked(pre, tk(src_of(t)), tk(at(t, j)))), at(t, j)))
        E.prove('only listed elements come first', fa([t, j], z3.Implies(z3.And(c.mem(t), v.isdep(t, j)),
                                                                          depends_on(src_of(t), src_of(v.dep(t, j)))), v.dep(t, j)))

    def linked(self, h, x, y):
        v = View(h)
        p = z3.Select(z3.Select(h['dpos'], x), y)
        return z3.And(v.isdep(x, p), v.dep(x, p) == y)

    # -- invariants ------------------------------------------------------------
    def inv2(self, E, L):
        if not hasattr(self, 'evals'):
            return []
        h = E.heap
        v = View(h)
        n, src = self.srcs(E)
        out = []
        lk = lambda x, y: z3.Select(z3.Select(h['lk'], x), y)
        if self.body or len(self.evals) == 2:
            return self.walk_inv(E, L)
        for o in self.tables(L):
            if o.items is not None:
                m = T.empty_map(Src, Task)
            elif o.v == Task:
                m = o.read()
            else:
                continue
            has = lambda x: T.is_some(Task, z3.Select(m, x))
            get = lambda x: T.val(Task, z3.Select(m, x))
            p0 = z3.Select(m, s_)
            g = get(s_)
            if not self.evals:
                if L.kind == 'seq':
                    out += [('first have tasks', fa([i], z3.Implies(z3.And(0 <= i, i < L.i), has(src(i))), src(i))),
                            ('created', h['created'] == L.i)]
                out.append(('tasks of elements', fa([s_], z3.Implies(has(s_), z3.And(
                    g == mk(0, mk_n(g)), 0 <= mk_n(g), mk_n(g) < h['created'], src_of(g) == s_, src(mk_n(g)) == s_,
                    kind_of(g) == FUNCTION)), p0)))
                continue
            # the dependencies are entered
            l = self.l
            at = lambda y, k: z3.Select(S(SeqS).arr(l(y)), k)
            out += [('links', fa([t, d], z3.Implies(lk(t, d), self.linked(h, t, d)), lk(t, d))),
                    ('links to tasks', fa([t, j], z3.Implies(z3.And(has(src_of(t)), get(src_of(t)) == t, v.isdep(t, j)), z3.And(
                        has(src_of(v.dep(t, j))), get(src_of(v.dep(t, j))) == v.dep(t, j),
                        depends_on(src_of(t), src_of(v.dep(t, j))))), v.dep(t, j))),
                    ('lengths', fa([t], v.dlen(t) >= 0, v.f('dependencies', t))),
                    ('links stay', fa([t, d], z3.Implies(z3.Select(z3.Select(L.pre['lk'], t), d), lk(t, d)),
                                      z3.Select(z3.Select(L.pre['lk'], t), d)))]
            if L.kind == 'seq' and L.ety == Task:
                x = lambda k: L.at(k)
                out.append(('first are linked', fa([i, j], z3.Implies(
                    z3.And(0 <= i, i < L.i, 0 <= j, j < S(SeqS).len(l(x(i))), has(at(x(i), j)), has(src_of(x(i)))),
                    lk(get(src_of(x(i))), get(at(x(i), j)))), at(x(i), j))))
            if L.kind == 'seq' and L.ety == Src:
                # the dependencies of one element
                for nm, q in sorted(L.env.vars.items()):
                    if isinstance(q, Sym) and q.ty == Task and q.t.decl().name() not in ('select',):
                        out.append(('%s is linked so far' % nm, fa([j], z3.Implies(
                            z3.And(0 <= j, j < L.i, has(L.at(j))), lk(q.t, get(L.at(j)))), L.at(j))))
        return out

    # -- the walk --------------------------------------------------------------
    # f(task) appends the results of the task and of what it depends on, unless
    # it was visited; the tasks that are being visited all came back later.
    def cells(self, E, f):
        """The set and the list that the nested function changes."""
        names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        out = []
        for ty, k in ((MSet, Task), (MList, TSeq(Val))):
            l = [x for n, x in sorted(f.closure.vars.items()) if n in names and isinstance(x, ty)]
            if len(l) != 1:
                raise Unsupported('the walk has %d %ss' % (len(l), ty.py))
            l[0].symbolic(k)
            out.append(l[0])
        return out

    def state(self, E, cells):
        r = cells[1].read()
        return dict(E.heap, V=cells[0].read(), R=S(TSeq(Val)).arr(r), n=S(TSeq(Val)).len(r))

    def emitted(self, w):
        """The results so far, and their tasks."""
        c, v = self.evals[1][0], View(w)
        em, rp, od = lambda x: v.g('em', x), lambda x: v.g('rp', x), lambda k: z3.Select(w['ord'], k)
        return [('results have tasks', fa([t], z3.Implies(em(t), z3.And(0 <= rp(t), rp(t) < w['n'], od(rp(t)) == t,
                                                                       z3.Select(w['V'], t), c.mem(t))), em(t))),
                ('tasks have results', fa([i], z3.Implies(z3.And(0 <= i, i < w['n']), z3.And(
                    em(od(i)), rp(od(i)) == i, z3.Select(w['R'], i) == v.f('result', od(i)))), od(i), z3.Select(w['R'], i))),
                ('dependencies first', fa([t, j], z3.Implies(z3.And(em(t), v.isdep(t, j)), z3.And(
                    em(v.dep(t, j)), rp(v.dep(t, j)) < rp(t))), v.dep(t, j))),
                ('some', w['n'] >= 0)]

    def grey(self, w, x):
        return z3.And(z3.Select(w['V'], x), z3.Not(z3.Select(w['em'], x)))

    def walk_pre(self, w, x):
        g = lambda y: View(w).g('gotat', y)
        return self.emitted(w) + [('a task of this map', self.evals[1][0].mem(x)),
                                  ('what is being visited comes later', fa([t], z3.Implies(self.grey(w, t), g(x) < g(t)),
                                                                            z3.Select(w['V'], t)))]

    def walk_post(self, w0, w, x):
        em0, em = lambda y: z3.Select(w0['em'], y), lambda y: z3.Select(w['em'], y)
        return self.emitted(w) + [
            ('more results', z3.And(w['n'] >= w0['n'], fa([t], z3.Implies(em0(t), z3.And(
                em(t), z3.Select(w['rp'], t) == z3.Select(w0['rp'], t))), em0(t)))),
            ('others are still being visited', fa([t], self.grey(w, t) == self.grey(w0, t), z3.Select(w['V'], t))),
            ('the task has its result', em(x))]

    def nested(self, E, f, args, kw):
        if len(getattr(self, 'evals', ())) != 2 or len(args) != 1 or kw or not (
                isinstance(args[0], Sym) and args[0].ty == Task):
            return NotImplemented
        cells = self.cells(E, f)
        if self.variant == 'visit' and not self.body:
            self.check_body(E, f, cells)
            raise PathEnd()
        x = E.enc(args[0], Task)
        w0 = self.state(E, cells)
        for n, g in self.walk_pre(w0, x):
            E.prove('the walk: %s' % n, g)
        self.change(E, cells)
        for n, g in self.walk_post(w0, self.state(E, cells), x):
            E.assume(g)
        return None

    def change(self, E, cells):
        for n in ('em', 'rp', 'ord'):
            E.havoc_name(n)
        cells[0].touched()
        cells[0].write(E.fresh_term(z3.ArraySort(S(Task), B), 'visited'))
        cells[1].touched()
        cells[1].write(E.fresh_term(S(TSeq(Val)), 'results'))

    def check_body(self, E, f, cells):
        self.change(E, cells)
        x = E.fresh_term(S(Task), 'task')
        w0 = self.w0 = self.state(E, cells)
        self.x = x
        for n, g in self.walk_pre(w0, x):
            E.assume(g)
        self.body = True
        self.f = f
        try:
            E.call_body(f, [Sym(x, Task)], {})
        except PyExc as e:
            E.prove('the walk does not fail', z3.BoolVal(False))
        w = self.state(E, cells)
        old = z3.Select(w0['V'], x)
        last = w['n'] - 1
        if not E.branch(old):
            for n, k, y in (('em', x, z3.BoolVal(True)), ('rp', x, last), ('ord', last, x)):
                E.heap_set(n, z3.Store(E.heap[n], k, y))
        for n, g in self.walk_post(w0, self.state(E, cells), x):
            E.prove('the walk gives: %s' % n, g)

    def walk_inv(self, E, L):
        f = self.f if self.body else None
        for n, q in sorted(L.env.vars.items()):
            if isinstance(q, FuncVal) and '.<locals>.' in q.qual and not self.body:
                f = q
        if f is None or L.kind != 'seq':
            return []
        w = self.state(E, self.cells(E, f))
        out = self.emitted(w)
        em = lambda y: z3.Select(w['em'], y)
        if self.body and L.ety == Task:
            w0, x = self.w0, self.x
            em0 = lambda y: z3.Select(w0['em'], y)
            out += [('what is being visited', fa([t], self.grey(w, t) == z3.Or(self.grey(w0, t), t == x), z3.Select(w['V'], t))),
                    ('more results', z3.And(w['n'] >= w0['n'], fa([t], z3.Implies(em0(t), z3.And(
                        em(t), z3.Select(w['rp'], t) == z3.Select(w0['rp'], t))), em0(t)))),
                    ('not yet', z3.Not(em(x))),
                    ('first have results', fa([j], z3.Implies(z3.And(0 <= j, j < L.i), em(L.at(j))), L.at(j)))]
        elif not self.body and L.ety == Src:
            c = self.evals[1][0]
            out += [('nothing is being visited', fa([t], z3.Not(self.grey(w, t)), z3.Select(w['V'], t))),
                    ('first have results', fa([j], z3.Implies(z3.And(0 <= j, j < L.i), em(z3.Select(c.A, keypos(L.at(j))))), L.at(j)))]
        return [('walk: ' + n, g) for n, g in out]

    def returned(self, E, a, post, res):
        if len(self.evals) != 2:
            return [('the dependencies and the tasks are evaluated once', z3.BoolVal(False))]
        c = self.evals[1][0]
        r = E.enc(res, TSeq(Val))
        v = View(post)
        w = dict(post, V=self.evals[1][2]['sub'], R=S(TSeq(Val)).arr(r), n=S(TSeq(Val)).len(r))
        x = lambda k: z3.Select(c.A, k)
        return [('every task has a result', fa([i], z3.Implies(z3.And(0 <= i, i < c.N), v.g('em', x(i))), x(i)))] + [
            ('returned: ' + n, g) for n, g in self.emitted(w)]


CONTRACTS = [MapDeps]
USED = [CanRun, Evaluate]
