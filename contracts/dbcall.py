"""Database.call and what it rests on: hit or run, recording of called functions and of registered files.

Ghost state: parent (names appended to the list of the enclosing call), what is
the active call (ContextVar), and the log of what was asked of the backend.
"""
import z3

from pyvc import types as T
from pyvc.values import *
from pyvc.containers import *
from .dbmodel import *
from .dbcore import DirtyRec, DirtyRecOpt, install_fs

Q = 'fbuild.db.database.Database'
V = Val
CODE, OTHER = 'the code of call', 'the code of another function'


def names(v, E):
    return v.set_term(TStr)


class DatabaseCall(Contract):
    """Database.call, over what Backend.prepare answers and for any function that is called."""
    target = Q + '.call'
    props = ('C02', 'C03', 'C04', 'C06', 'C11')
    params = ('self', 'function')
    raises = (BaseException,)
    variants = ('function', 'explained', 'decorated', 'destination result', 'decorated with destination result')
    loops = (lambda c, E, L: c.inv(E, L),)
    assumptions = ('the called function changes the call stack only by further cached calls and by registering files',)

    def install(self, E):
        install_fs(E)
        gen = lambda E, a, k: E.bv(z3.Function('is_generator', S(V), z3.BoolSort())(E.enc(a[0], V)))
        E.intrinsics['inspect.isgenerator'] = gen
        E.intrinsics['fbuild.inspect.isgenerator'] = gen
        E.methods[(V.key, '__call__')] = lambda E, o, a, k: self.run(E, o, a, k)

    def world(self, E):
        # names appended to the list of the enclosing call
        E.heap_init('parent', TSeq(TStr))

    def setup(self, E):
        self.world(E)
        self.log = []
        a = Contract.setup(self, E)
        a.args.append(Star(E.fresh(TSeq(V, tup=True), 'args')))
        a.kw['**'] = E.fresh(TMap(TStr, V), 'kwargs')
        self.sent = (a.args[-1].v, a.kw['**'])
        return a

    def fresh_param(self, E, p):
        if p == 'function':
            self.inner = E.fresh(V, 'function')
            self.outer = E.new_inst('function')
            if 'decorated' in self.variant:
                self.outer.attrs['__fbuild_wrapped__'] = self.inner
                self.outer.attrs['__func__'] = Native(lambda E, a, k: self.run(E, self.outer, a, k), '__func__')
            return self.outer
        d = self.db = E.new_inst(Q)
        d.cls = E.global_value(E.repo.module('fbuild.db.database'), 'Database')
        ctx = d.attrs['_ctx'] = E.new_inst('ctx')
        lg = ctx.attrs['logger'] = E.new_inst('logger')
        lg.attrs['log'] = Native(lambda E, a, k: None, 'log')
        d.attrs['_explain'] = E.fresh(TBool, 'explain') if self.variant == 'explained' else False
        self.active0 = MSet(E, TStr, term=E.fresh_term(S(TSet(TStr)), 'active'))
        d.attrs['active_files'] = self.active0
        self.active_pre = self.active0.set_term(TStr)
        # the active call: none, or the list of what it called
        self.parent = self.current = None
        if E.choose_free(2):
            self.parent = self.current = MList(E, TStr, term=E.heap['parent'])
        v = d.attrs['_dependents'] = E.new_inst('ContextVar')
        v.attrs.update(get=Native(lambda E, a, k: self.current, 'get'), set=Native(self.set, 'set'),
                       reset=Native(self.reset, 'reset'))
        r = d.attrs['_rpc'] = E.new_inst('rpc')
        r.attrs['call'] = Native(self.rpc, 'call')
        b = d.attrs['_backend'] = E.new_inst('backend')
        b.attrs['prepare'] = Native(self.prepare, 'prepare')
        b.attrs['cache'] = Native(self.cache, 'cache')
        d.attrs['_find_function_name'] = Native(self.find_name, '_find_function_name')
        d.attrs['get_function_digest_from_map'] = Native(self.digest, 'get_function_digest_from_map')
        d.attrs['_find_call_filenames'] = Native(self.files, '_find_call_filenames')
        call = d.attrs['call'] = E.new_inst('method')
        call.attrs['__code__'] = self.callcode = E.new_inst('code')
        self.other = E.new_inst('code')
        self.tokens = []
        self.found = self.old = self.ran = self.stored = self.rt = self.raised = None
        self.runs = self.stores = self.asked = 0
        return d

    # -- the environment -------------------------------------------------------
    def set(self, E, a, k):
        t = E.new_inst('token')
        self.tokens.append((t, self.current))
        self.current = a[0]
        return t

    def reset(self, E, a, k):
        E.prove('a call stops being active before the one that it is in', z3.BoolVal(bool(self.tokens) and self.tokens[-1][0] is a[0]))
        self.current = self.tokens.pop()[1]

    def find_name(self, E, a, k):
        same = len(a) == 3 and not k and a[0] is self.outer
        E.prove('the called function is looked up', z3.BoolVal(same))
        if E.choose_free(2):
            raise PyExc(self.fail())
        self.found = E.fresh(TStr, 'fun_name')
        self.args = E.fresh(TSeq(V, tup=True), 'args2')
        self.kw = E.fresh(TMap(TStr, V), 'kwargs2')
        self.kw0 = self.kw.read()
        return (self.found, self.inner, self.args, self.kw)

    def fail(self):
        self.raised = ExcVal(None, (), upper=BaseException)
        return self.raised

    def digest(self, E, a, k):
        E.prove('the digest is that of the called function', E.enc(a[0], TStr) == self.found.t)
        if E.choose_free(2):
            raise PyExc(self.fail())
        self.dig = E.fresh(Digest, 'fun_digest')
        return self.dig

    def files(self, E, a, k):
        E.prove('the files are those of the bound arguments', z3.BoolVal(
            len(a) == 3 and a[0] is self.inner and a[1] is self.args and a[2] is self.kw))
        if E.choose_free(2):
            raise PyExc(self.fail())
        self.bound = E.fresh(Bound, 'bound')
        self.srcs, self.dsts = E.fresh(TSet(TStr), 'srcs'), E.fresh(TSet(TStr), 'dsts')
        self.srcs0, self.dsts0 = self.srcs.set_term(TStr), self.dsts.set_term(TStr)
        t = self.rt = ClassVal_dst(E) if 'result' in self.variant else None
        if t is None and E.choose_free(2):
            t = E.new_inst('class')
            t.attrs['__issubclass__'] = None
        return (self.bound, self.srcs, self.dsts, t)

    def rpc(self, E, a, k):
        return E.call(a[0], list(a[1:]), k)

    def prepare(self, E, a, k):
        self.asked += 1
        self.log.append('prepare')
        E.prove('the database is asked about this call', z3.And(z3.BoolVal(len(a) == 5), E.enc(a[0], TStr) == self.found.t,
                E.enc(a[1], Digest) == self.dig.t, E.enc(a[2], Bound) == self.bound.t,
                members(E, a[3], TStr) == self.srcs0, members(E, a[4], TStr) == self.dsts0))
        if E.choose_free(2):
            raise PyExc(self.fail())
        o = self.old = A(fd=E.fresh(TBool, 'fun_dirty'), fid=E.fresh(TOpt(FunId), 'fun_id'), cfd=E.fresh(TSet(DirtyRec), 'cfd'),
                         es=E.fresh(TSet(TStr), 'esrcs'), ed=E.fresh(TSet(TStr), 'edsts'))
        o.es0, o.ed0 = o.es.set_term(TStr), o.ed.set_term(TStr)
        if E.choose_free(2):
            o.cd, o.cid, o.result, o.xd = True, None, None, ()
        else:
            o.cd, o.cid, o.result, o.xd = (E.fresh(TBool, 'call_dirty'), E.fresh(CallId, 'call_id'), E.fresh(V, 'old'),
                                           E.fresh(TColl(DirtyRecOpt), 'edig'))
        return (o.fd, o.fid, o.cd, o.cid, o.result, o.cfd, o.es, o.ed, o.xd)

    def run(self, E, f, a, k):
        """The function itself runs: it calls other cached functions, registers files, and returns or raises."""
        self.runs += 1
        self.log.append('run')
        B = z3.BoolVal
        E.prove('the function that was called runs', B(f is (self.outer if 'decorated' in self.variant else self.inner)))
        E.prove('it runs with the arguments of the call', B(len(a) == 1 and isinstance(a[0], Star) and a[0].v is self.args
                                                            and set(k) == {'**'}))
        want = self.kw0
        if 'decorated' in self.variant:
            want = z3.Store(want, E.lit('__FBUILD_INNER'), T.some(V, self.inner.t))
        E.prove('and with its keywords', E.map_of(k['**'], TStr, V) == want if hasattr(E, 'map_of') else k['**'].read() == want)
        E.prove('what it calls is recorded for it alone', B(isinstance(self.current, MList) and self.current is not self.parent))
        E.prove('nothing that it did not call is recorded', E.enc(self.current, TSeq(TStr)) == E.enc(self.current, TSeq(TStr))
                if self.current.items is None else B(self.current.items == []))
        # calls of other cached functions
        mine = self.current
        self.called = E.fresh_term(S(TSeq(TStr)), 'called')
        E.assume(S(TSeq(TStr)).len(self.called) >= 0)
        mine.symbolic(TSeq(TStr))
        mine.write(self.called)
        self.register(E)
        w = E.choose_free(2)
        if w:
            raise PyExc(self.fail())
        self.ran = E.fresh(V, 'result')
        return self.ran

    def register(self, E):
        """Registration of files by the running function, through the code of add_external_dependencies_to_call."""
        frame = None
        for env in E.envstack:
            f = E.new_inst('frame')
            f.attrs.update(f_back=frame, f_code=self.callcode if env.func.qual == self.target else self.other,
                           f_locals=MDict(E, items=[[n, v] for n, v in sorted(env.vars.items())]))
            frame = f
        for n in ('function', 'add'):
            f = E.new_inst('frame')
            f.attrs.update(f_back=frame, f_code=self.other, f_locals=MDict(E, items=[]))
            frame = f
        E.call_frame = frame
        self.rs, self.rd = E.fresh(TSet(TStr), 'registered_srcs'), E.fresh(TSet(TStr), 'registered_dsts')
        E.call(E.getattr(self.db, 'add_external_dependencies_to_call'), [], {'srcs': self.rs, 'dsts': self.rd})

    def cache(self, E, a, k):
        self.stores += 1
        self.log.append('cache')
        B, o = z3.BoolVal, self.old
        E.prove('a result is stored after the run that gave it', B(self.ran is not None and self.stores == 1 and len(a) == 11))
        fd, fid, name, dig, deps, cid, bound, result, cfd, es, ed = a
        E.prove('it is stored for the function', z3.And(E.enc(name, TStr) == self.found.t, E.enc(dig, Digest) == self.dig.t,
                E.enc(fid, TOpt(FunId)) == E.enc(o.fid, TOpt(FunId)), E.enc(fd, TBool) == o.fd.t))
        E.prove('and for the call', z3.And(E.enc(cid, TOpt(CallId)) == E.enc(o.cid, TOpt(CallId)), E.enc(bound, Bound) == self.bound.t,
                members(E, cfd, DirtyRec) == members(E, o.cfd, DirtyRec)))
        E.prove('the stored result is that of the run', E.enc(result, V) == self.ran.t)
        n = z3.Const('n!c', S(TStr))
        j = z3.Const('j!c', z3.IntSort())
        D = members(E, deps, TStr)
        sq = S(TSeq(TStr))
        E.prove('the functions that it called are stored', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sq.len(self.called)),
                z3.Select(D, z3.Select(sq.arr(self.called), j)))))
        E.prove('the files that it registered are stored', z3.And(
            members(E, es, TStr) == self.rs.set_term(TStr), members(E, ed, TStr) == self.rd.set_term(TStr)))
        if E.choose_free(2):
            raise PyExc(self.fail())

    # -- the specification ---------------------------------------------------
    def inv(self, E, L):
        if L.kind not in ('set', 'coll') or L.ety != TStr or L.D is None:
            return []
        x = z3.Const('x!e', S(TStr))
        return [('first exist', z3.ForAll([x], z3.Implies(z3.Select(L.D, x), exists(x)), patterns=[z3.Select(L.D, x)]))]

    def dirty(self, E):
        o = self.old
        return z3.Or(o.fd.t, z3.BoolVal(o.cd) if isinstance(o.cd, bool) else o.cd.t,
                     members(E, o.cfd, DirtyRec) != T.empty_set(DirtyRec),
                     z3.BoolVal(False) if o.xd == () else members(E, o.xd, DirtyRecOpt) != T.empty_set(DirtyRecOpt))

    def results(self, E, v):
        return converted(v) if self.rt is not None else T.empty_set(TStr)

    def modifies(self, E, a):
        return tuple(E.heap)

    def ensures(self, E, a, pre, post, out):
        B = z3.BoolVal
        fs = []
        fs.append(('the enclosing call is active again', B(self.current is self.parent)))
        sq = S(TSeq(TStr))
        if self.parent is not None:
            p0 = pre['parent']
            p = self.parent.seq_term(TSeq(TStr)) if self.parent.items is None else None
            n0 = sq.len(p0)
            i = z3.Const('i!p', z3.IntSort())
            kept = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), z3.Select(sq.arr(p), i) == z3.Select(sq.arr(p0), i)))
            if self.found is not None:
                fs.append(('the enclosing call knows that it called this function', z3.And(
                    sq.len(p) == n0 + 1, kept, z3.Select(sq.arr(p), n0) == self.found.t)))
            else:
                fs.append(('nothing is recorded for an unknown function', z3.And(sq.len(p) == n0, kept)))
        if out[0] == 'raise':
            fs.append(('a failing call stores nothing', B(self.stores == 0 or self.log[-1] == 'cache')))
            e = out[1]
            fs.append(('only what failed is raised', B(e is self.raised or e.cls is AssertionError)))
            if e.cls is AssertionError:
                fs.append(('only generators are refused', z3.Or(self.generator(E))))
            return fs
        r = out[1]
        fs.append(('a result and its files', B(isinstance(r, tuple) and len(r) == 3 and self.asked == 1)))
        if not (isinstance(r, tuple) and len(r) == 3) or self.old is None:
            return fs
        o = self.old
        x = z3.Const('x!d', S(TStr))
        srcs, dsts = members(E, r[1], TStr), members(E, r[2], TStr)
        union = lambda *t: lambda y: z3.Or(*[z3.Select(s, y) for s in t])
        eq = lambda s, u: z3.ForAll([x], z3.Select(s, x) == u(x))
        if self.runs == 0:
            have = union(self.dsts0, o.ed0, self.results(E, o.result.t) if o.result is not None else T.empty_set(TStr))
            fs += [('it is answered from the database only if nothing changed', z3.Not(self.dirty(E))),
                   ('and if all its destinations exist', z3.ForAll([x], z3.Implies(have(x), exists(x)))),
                   ('the answer is the stored result', E.enc(r[0], V) == o.result.t if o.result is not None else B(False)),
                   ('nothing is stored again', B(self.stores == 0)),
                   ('its sources', eq(srcs, union(self.srcs0, o.es0))), ('its destinations', eq(dsts, have))]
        else:
            have = union(self.dsts0, o.ed0, self.results(E, o.result.t) if o.result is not None else T.empty_set(TStr))
            now = union(self.dsts0, self.rd.set_term(TStr), self.results(E, self.ran.t))
            fs += [('it runs once, only if something changed or a destination is missing', z3.And(B(self.runs == 1), z3.Or(
                self.dirty(E), z3.Exists([x], z3.And(have(x), z3.Not(exists(x))))))),
                ('the result is the one of the run', E.enc(r[0], V) == self.ran.t),
                ('its result is stored', B(self.stores == 1)),
                ('its sources', eq(srcs, union(self.srcs0, self.rs.set_term(TStr)))), ('its destinations', eq(dsts, now))]
        active = members(E, self.db.attrs['active_files'], TStr)
        fs.append(('its files are in use', z3.ForAll([x], z3.Select(active, x) == z3.Or(
            z3.Select(self.active_pre, x), z3.Select(srcs, x), z3.Select(dsts, x)))))
        return fs

    def generator(self, E):
        g = lambda t: z3.Function('is_generator', S(V), z3.BoolSort())(t)
        i = z3.Const('i!g', z3.IntSort())
        k = z3.Const('k!g', S(TStr))
        q, m = E.enc(self.sent[0], TSeq(V, tup=True)), self.sent[1].read()
        sq = S(TSeq(V, tup=True))
        return [z3.Exists([i], z3.And(0 <= i, i < sq.len(q), g(z3.Select(sq.arr(q), i)))),
                z3.Exists([k], z3.And(T.is_some(V, z3.Select(m, k)), g(T.val(V, z3.Select(m, k)))))] + (
                    [g(self.ran.t)] if self.ran is not None else [])


def converted(v):
    return z3.Function('converted', S(V), S(TSet(TStr)))(v)


def ClassVal_dst(E):
    """A subclass of DST; convert gives the names in a value."""
    c = E.global_value(E.repo.module('fbuild.db'), 'DST')
    x = E.new_inst('DST class')
    x.attrs['__issubclass__'] = c

    def convert(E, a, k):
        return MSet(E, TStr, term=converted(E.enc(a[0], V)))
    x.attrs['convert'] = Native(convert, 'convert')
    return x


Frame, Locals = TU('Frame', truthy=True), TU('Locals')
F, I = S(Frame), z3.IntSort()
SetS = S(TSet(TStr))


def depth(f):
    return z3.Function('depth', F, I)(f)


def frame_at(d):
    return z3.Function('frame_at', I, F)(d)


def is_call(d):
    return z3.Function('is_frame_of_call', I, z3.BoolSort())(d)


def frame_of(l):
    return z3.Function('frame_of', S(Locals), F)(l)


class AddExternal(Contract):
    """Registration reaches exactly the cached calls that enclose it on this thread.

    The frames are numbered from the outermost one, 0, to the caller, and the
    ghost arrays hold the registered sets of each.
    """
    target = Q + '.add_external_dependencies_to_call'
    props = ('C11',)
    params = ('self',)
    kwonly = ('srcs', 'dsts')
    types = {'srcs': TSet(TStr), 'dsts': TSet(TStr)}
    variants = ('frames', 'no frames')
    loops = (lambda c, E, L: c.inv(E, L),)

    def world(self, E):
        for n in ('srcs', 'dsts'):
            E.heap_init(n, TU('Sets'), E.fresh_term(z3.ArraySort(I, SetS), n))

    def install(self, E):
        E.intrinsics['inspect.currentframe'] = E.intrinsics['fbuild.inspect.currentframe'] = self.current
        E.attrs_sym[(Frame.key, 'f_back')] = self.back
        E.attrs_sym[(Frame.key, 'f_code')] = lambda E, v: self.code_of(E, v)
        E.attrs_sym[(Frame.key, 'f_locals')] = self.f_locals
        E.methods[(Locals.key, '__getitem__')] = self.local

    def current(self, E, a, k):
        if self.variant == 'no frames':
            return None
        E.assume(frame_at(self.n) != E.uconst(Frame, 'None'))
        return Sym(frame_at(self.n), Frame)

    def back(self, E, v):
        d = depth(v.t)
        if not E.branch(d > 0):
            return None
        E.assume(z3.And(depth(frame_at(d - 1)) == d - 1, frame_at(d - 1) != E.uconst(Frame, 'None')))
        return Sym(frame_at(d - 1), Frame)

    def code_of(self, E, v):
        return Sym(z3.Function('f_code', F, S(TU('Code')))(v.t), TU('Code'))

    def f_locals(self, E, v):
        l = E.fresh_term(S(Locals), 'locals')
        E.assume(frame_of(l) == v.t)
        return Sym(l, Locals)

    def local(self, E, o, a, k):
        n = a[0]
        f = frame_of(o.t)
        E.prove('only cached calls have registered files', is_call(depth(f)))
        if n not in ('external_srcs', 'external_dsts'):
            raise Unsupported('local variable %r of a frame' % (n,))
        n = n[9:]

        def update(E, a, k):
            h = E.heap[n]
            d = depth(f)
            x = z3.Const('x!u', S(TStr))
            new = E.fresh_term(SetS, 'updated')
            m = members(E, a[0], TStr)
            E.assume(z3.ForAll([x], z3.Select(new, x) == z3.Or(z3.Select(z3.Select(h, d), x), z3.Select(m, x)),
                               patterns=[z3.Select(new, x)]))
            E.heap_set(n, z3.Store(h, d, new))
        x = E.new_inst('set of registered files')
        x.attrs['update'] = Native(update, 'update')
        return x

    def fresh_param(self, E, p):
        if p != 'self':
            return super().fresh_param(E, p)
        d = E.new_inst(Q)
        d.cls = E.global_value(E.repo.module('fbuild.db.database'), 'Database')
        c = d.attrs['call'] = E.new_inst('method')
        self.callcode = E.fresh_term(S(TU('Code')), 'code_of_call')
        c.attrs['__code__'] = Sym(self.callcode, TU('Code'))
        self.n = E.fresh_term(I, 'n')            # depth of this function's frame
        return d

    def requires(self, E, a):
        i = z3.Const('i!f', I)
        f = frame_at(i)
        return [self.n >= 0, depth(frame_at(self.n)) == self.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= self.n), z3.And(
            depth(f) == i, is_call(i) == (z3.Function('f_code', F, S(TU('Code')))(f) == self.callcode))), patterns=[f]),
            z3.Not(is_call(self.n))]

    def modifies(self, E, a):
        return ('srcs', 'dsts')

    def changed(self, E, a, pre, post, lo):
        """The frames from lo on have the new files."""
        i, x = z3.Const('i!f', I), z3.Const('x!f', S(TStr))
        out = []
        for n in ('srcs', 'dsts'):
            m = members(E, getattr(a, n), TStr)
            s, s0 = z3.Select(z3.Select(post[n], i), x), z3.Select(z3.Select(pre[n], i), x)
            out.append(('registered %s of the enclosing calls and of no other' % n, z3.ForAll([i, x], s == z3.Or(
                s0, z3.And(lo <= i, i < self.n, is_call(i), z3.Select(m, x))), patterns=[s])))
        return out

    def begin(self, E, a):
        self.a = a
        self.pre = E.snapshot()

    def inv(self, E, L):
        out = []
        if self.variant == 'no frames':
            return out
        for n, v in sorted(L.env.vars.items()):
            if isinstance(v, Sym) and v.ty == Frame:
                d, g = depth(v.t) + 1, v.t
                out.append(('%s is a frame' % n, z3.And(0 <= depth(g), depth(g) < self.n, frame_at(depth(g)) == g,
                                                        g != E.uconst(Frame, 'None'))))
            elif v is None:
                d = z3.IntVal(0)
                out.append(('%s is a frame' % n, z3.BoolVal(True)))
            else:
                continue
            out += [('up to %s: %s' % (n, m), f) for m, f in self.changed(E, self.a, self.pre, E.heap, d)]
        return out

    def ensures(self, E, a, pre, post, out):
        if self.variant == 'no frames':
            return [('nothing changes', z3.And(post['srcs'] == pre['srcs'], post['dsts'] == pre['dsts']))]
        return self.changed(E, a, pre, post, z3.IntVal(0))

    # in DatabaseCall the frames are known
    def apply(self, E, a):
        f = E.call_frame
        while f is not None:
            if f.attrs['f_code'] is E.cur.callcode:
                for n, s in (('external_srcs', a.srcs), ('external_dsts', a.dsts)):
                    E.call(E.getattr(E.getitem(f.attrs['f_locals'], n), 'update'), [s])
            f = f.attrs['f_back']


Ann, Fun = TU('Annotation'), TU('Function')


class BindArgs(Contract):
    """functools.bind_args, proved in contracts/binding.py: every parameter has a value, or it is rejected."""
    target = 'fbuild.functools.bind_args'
    params = ('function', 'args', 'kwargs')
    trusted = True

    def apply(self, E, a):
        return E.cur.bind(E, [a.function, a.args_, a.kwargs], {})


class FindFiles(Contract):
    """The declared sources and destinations of a call: those in the arguments annotated so."""
    target = Q + '._find_call_filenames'
    props = ('C01', 'C03')
    params = ('self', 'function', 'args', 'kwargs')
    types = {'args': TSeq(V, tup=True), 'kwargs': TMap(TStr, V)}
    raises = (BaseException,)
    loops = (lambda c, E, L: c.inv(E, L),)
    assumptions = ('annotations are classes, of parameters or of the result',)

    def install(self, E):
        E.attrs_sym[(Fun.key, '__annotations__')] = lambda E, v: self.anns
        E.methods[(Ann.key, '__issubclass__')] = self.subclass
        E.methods[(Ann.key, 'convert')] = lambda E, o, a, k: MSet(E, TStr, term=self.conv(o.t, E.enc(a[0], V)))

    def conv(self, a, v):
        return z3.Function('convert', S(Ann), S(V), S(TSet(TStr)))(a, v)

    def is_(self, n, a):
        return z3.Function('is_' + n, S(Ann), z3.BoolSort())(a)

    def subclass(self, E, c, a, k):
        for n in ('SRC', 'DST'):
            if a[0] is E.global_value(E.repo.module('fbuild.db'), n):
                return E.bv(self.is_(n, c.t))
        raise Unsupported('subclass of %r' % (a[0],))

    def bind(self, E, a, k):
        E.prove('the arguments of the call are bound', z3.BoolVal(len(a) == 3 and not k and a[0] is self.a.function and a[1] is self.a.args_
                                                                   and a[2] is self.a.kwargs))
        if E.choose_free(2):
            raise PyExc(ExcVal(None, (), upper=Exception))
        self.bound = E.fresh(TMap(TStr, V), 'bound')
        self.bound0 = self.bound.read()
        n = z3.Const('n!b', S(TStr))
        E.assume(z3.ForAll([n], z3.Implies(z3.And(T.is_some(Ann, z3.Select(self.anns0, n)), n != E.lit('return')),
                                           T.is_some(V, z3.Select(self.bound0, n))), patterns=[z3.Select(self.anns0, n)]))
        return self.bound

    def begin(self, E, a):
        self.a = a
        self.bound = None

    def fresh_param(self, E, p):
        if p == 'self':
            d = E.new_inst(Q)
            d.cls = E.global_value(E.repo.module('fbuild.db.database'), 'Database')
            return d
        if p == 'function':
            self.anns = E.fresh(TMap(TStr, Ann), 'annotations')
            self.anns0 = self.anns.read()
            return E.fresh(Fun, 'function')
        return super().fresh_param(E, p)

    def has(self, n):
        return T.is_some(Ann, z3.Select(self.anns0, n))

    def ann(self, n):
        return T.val(Ann, z3.Select(self.anns0, n))

    def names(self, E, D, kind):
        """x -> is it in an argument (one of D) of this kind"""
        n = z3.Const('n!w', S(TStr))

        def f(n, x):
            t = self.ann(n)
            k = self.is_('SRC', t) if kind == 'SRC' else z3.And(self.is_('DST', t), z3.Not(self.is_('SRC', t)))
            return z3.And(D(n), self.has(n), n != E.lit('return'), k, z3.Select(self.conv(t, T.val(V, z3.Select(self.bound0, n))), x))
        return f

    def exactly(self, E, s, D, kind):
        f = self.names(E, D, kind)
        n, x = z3.Const('n!w', S(TStr)), z3.Const('x!w', S(TStr))
        return z3.And(z3.ForAll([n, x], z3.Implies(f(n, x), z3.Select(s, x))),
                      z3.ForAll([x], z3.Implies(z3.Select(s, x), z3.Exists([n], f(n, x))), patterns=[z3.Select(s, x)]))

    def inv(self, E, L):
        if self.bound is None or L.D is None:
            return []
        if L.ety == TStr:
            D = lambda n: z3.Select(L.D, n)
        else:
            D = lambda n: z3.Select(L.D, S(L.ety).mk(n, self.ann(n)))
        out = []
        for nm, v in sorted(L.env.vars.items()):
            if isinstance(v, MSet) and (v.items is not None or v.k == TStr):
                s = v.set_term(TStr)
                for kind in ('SRC', 'DST'):
                    out.append(('%s has the %s' % (nm, kind), self.exactly(E, s, D, kind)))
            elif nm not in self.params and (v is None or isinstance(v, Sym) and v.ty == Ann):
                r = E.lit('return')
                out.append(('%s is the type of the result' % nm, z3.If(z3.And(self.has(r), D(r)), z3.BoolVal(False) if v is None
                                                                     else v.t == self.ann(r), z3.BoolVal(v is None))))
        return out

    def ensures(self, E, a, pre, post, out):
        if out[0] != 'return':
            return [('it fails only if the arguments cannot be bound', z3.BoolVal(self.bound is None))]
        r = out[1]
        ok = isinstance(r, tuple) and len(r) == 4 and r[0] is self.bound
        fs = [('the bound arguments are returned', z3.BoolVal(ok))]
        if not ok:
            return fs
        x = z3.Const('x!b', S(TStr))
        t = lambda n: z3.BoolVal(True)
        rt = E.lit('return')
        fs += [('the bound arguments are unchanged', z3.ForAll([x], z3.Select(self.bound.read(), x) == z3.Select(self.bound0, x))),
               ('the sources are those declared', self.exactly(E, members(E, r[1], TStr), t, 'SRC')),
               ('the destinations are those declared', self.exactly(E, members(E, r[2], TStr), t, 'DST')),
               ('the type of the result', z3.Not(self.has(rt)) if r[3] is None else z3.And(self.has(rt), E.enc(r[3], Ann) == self.ann(rt)))]
        return fs


CONTRACTS = [DatabaseCall, AddExternal, FindFiles]
USED = [AddExternal, BindArgs]
