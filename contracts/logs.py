"""Logging (C24).

What one thread sees: its own buffer (a thread-local stack with at most one
list) and its own messages, in the order they are written out.  Other threads
write their messages between, under the lock, and change neither.
"""
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool, TOpt, TTup
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
Color = TU('Color')
Kw = TU('Kw')                  # the further arguments of a message
Msg = TTup(TStr, Kw)
OC = TOpt(Color)


def has(n, k):
    return z3.Function('has_' + n, S(Kw), z3.BoolSort())(k)


def level(k):
    return z3.Function('level', S(Kw), z3.IntSort())(k)


def color(k):
    return z3.Function('color', S(Kw), S(OC))(k)


def arr(ty):
    return z3.ArraySort(z3.IntSort(), S(ty))


class Logging(Contract):
    props = ('C24',)
    variants = ('file', 'no file')
    loops = (lambda c, E, L: c.inv(E, L),)
    assumptions = ('writing to the file and to the console does not fail', 'log_from_thread is not nested in itself',
                   'a threading.local value is seen by one thread only')

    # ghost state: what this thread has written, and the buffer
    def world(self, E):
        E.heap_init('wn', TInt)
        E.heap_init('wm', TU('ArrM'), E.fresh_term(arr(TStr), 'wm'))
        E.heap_init('wl', TU('ArrL'), E.fresh_term(arr(TInt), 'wl'))
        E.heap_init('wc', TU('ArrC'), E.fresh_term(arr(OC), 'wc'))
        E.heap_init('stk', TBool)

    GHOST = ('wn', 'wm', 'wl', 'wc', 'stk')

    def emit(self, E, m, l, c):
        n = E.heap['wn']
        E.heap_set('wm', z3.Store(E.heap['wm'], n, m))
        E.heap_set('wl', z3.Store(E.heap['wl'], n, l))
        E.heap_set('wc', z3.Store(E.heap['wc'], n, c))
        E.heap_set('wn', n + 1)

    def install(self, E):
        E.isinst[('can', 'Kw')] = lambda E, v: isinstance(v, MDict)
        E.isinst[('encc', 'Kw')] = self.enc_kw
        E.methods[(Kw.key, '__kwargs__')] = self.kwargs
        stdout = lambda E: self.stdout
        E.intrinsics['attr:sys.stdout'] = stdout

    def enc_kw(self, E, v):
        if not isinstance(v, MDict) or v.items is None:
            return None
        d = {k: x for k, x in v.items}
        if not set(d) <= {'color', 'verbose'}:
            raise Unsupported('message arguments ' + ', '.join(map(str, d)))
        k = E.fresh_term(S(Kw), 'kw')
        for n, ty, f in (('color', OC, color), ('verbose', TInt, level)):
            E.assume(has(n, k) == z3.BoolVal(n in d))
            if n in d:
                E.assume(f(k) == E.enc(d[n], ty))
        return k

    def kwargs(self, E, v):
        d = {}
        if E.branch(has('verbose', v.t)):
            d['verbose'] = Sym(level(v.t), TInt)
        if E.branch(has('color', v.t)):
            d['color'] = E.dec(color(v.t), OC)
        return d

    # level and colour of an element of the buffer
    def lvl(self, k):
        return z3.If(has('verbose', k), level(k), 0)

    def clr(self, k):
        return z3.If(has('color', k), color(k), T.none(Color))

    def fresh_param(self, E, p):
        if p == 'self':
            return self.log(E)
        if p == 'msg' or p == 'result':
            return E.fresh(TStr, p)
        raise Unsupported(p)

    def log(self, E):
        l = E.new_inst('fbuild.console.Log')
        l.cls = E.global_value(E.repo.module('fbuild.console'), 'Log')
        self.depth = 0
        con = self.stdout = E.new_inst('stdout')
        con.attrs.update(write=Native(lambda E, a, k: self.console(E, a), 'write'), flush=Native(lambda E, a, k: None, 'flush'))
        f = None
        if self.variant == 'file':
            f = E.new_inst('file')
            f.attrs.update(write=Native(lambda E, a, k: self.filed(E, a), 'write'), flush=Native(lambda E, a, k: None, 'flush'))
        lock = E.new_inst('lock')

        def enter(E, a, k):
            self.depth += 1
            return True

        def leave(E, a, k):
            E.prove('only a held lock is given back', z3.BoolVal(self.depth > 0))
            self.depth -= 1
            return None
        lock.attrs.update(__enter__=Native(enter, 'acquire'), __exit__=Native(leave, 'release'), acquire=Native(enter, 'acquire'),
                          release=Native(leave, 'release'))
        stack = E.new_inst('thread_stack')
        self.B = E.fresh(TSeq(Msg), 'buffer')

        def top(E, a, k):
            if a[0] not in (-1, 0):
                raise Unsupported('another element of the stack')
            if not E.branch(E.heap['stk']):
                E.raise_py(IndexError)
            return self.B

        def pop(E, a, k):
            r = top(E, [-1], {})
            E.heap_set('stk', z3.BoolVal(False))
            out = E.copy_cont(r)
            self.nothing(E)
            return out

        def push(E, a, k):
            E.prove('there is one buffer', z3.Not(E.heap['stk']))
            if not (isinstance(a[0], MList) and a[0].items == []):
                raise Unsupported('another list is pushed')
            self.nothing(E)
            E.heap_set('stk', z3.BoolVal(True))
        stack.attrs.update(append=Native(push, 'append'), pop=Native(pop, 'pop'), __getitem__=Native(top, '__getitem__'),
                           __bool__=Native(lambda E, a, k: Sym(E.heap['stk'], TBool), '__bool__'),
                           __len__=Native(lambda E, a, k: Sym(z3.If(E.heap['stk'], 1, 0), TInt), '__len__'))
        l.attrs.update(file=f, verbose=E.fresh(TInt, 'verbosity'), nocolor=E.fresh(TBool, 'nocolor'),
                       show_threads=E.fresh(TBool, 'show_threads'), maxlen=E.fresh(TInt, 'maxlen'), _lock=lock,
                       _threadcount=E.fresh(TInt, 'threadcount'), _thread_stack=stack)
        return l

    def nothing(self, E):
        s = S(TSeq(Msg))
        self.B.write(s.seq(z3.IntVal(0), s.arr(self.B.read())))

    def console(self, E, a):
        raise Unsupported('writing to the console')

    def filed(self, E, a):
        raise Unsupported('writing to the file')

    def requires(self, E, a):
        return self.valid(E)

    def valid(self, E):
        return [E.heap['wn'] >= 0, z3.Implies(z3.Not(E.heap['stk']), self.blen(self.B.read()) == 0)]

    def modifies(self, E, a):
        return self.GHOST + (self.B.name,)

    def blen(self, b):
        return S(TSeq(Msg)).len(b)

    def at(self, heap, b, i):
        """(message, level, colour) number i of what was logged by this thread: written or in the buffer"""
        n = heap['wn']
        x = z3.Select(S(TSeq(Msg)).arr(b), i - n)
        m, k = S(Msg).accessor(0, 0)(x), S(Msg).accessor(0, 1)(x)
        w = i < n
        return (z3.If(w, z3.Select(heap['wm'], i), m), z3.If(w, z3.Select(heap['wl'], i), self.lvl(k)),
                z3.If(w, z3.Select(heap['wc'], i), self.clr(k)))

    def total(self, heap, b):
        return heap['wn'] + self.blen(b)

    def bnow(self, heap):
        return heap['B']

    def snap(self, E):
        return dict({n: E.heap[n] for n in self.GHOST}, B=self.B.read())

    def begin(self, E, a):
        self.a, self.self_, self.pre = a, a.self, self.snap(E)

    def ensures(self, E, a, pre, post, out):
        return self.post(E, a, self.pre, self.snap(E), out)

    def kept(self, pre, post, more):
        """what was logged before, and more, in that order"""
        b0, b1 = self.bnow(pre), self.bnow(post)
        n0, n1 = self.total(pre, b0), self.total(post, b1)
        i = z3.Int('i!l')
        same = z3.And(*[x == y for x, y in zip(self.at(pre, b0, i), self.at(post, b1, i))])
        fs = [('every message is logged once', n1 == n0 + len(more)),
              ('messages stay in order', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), same))),
              ('what was written stays', post['wn'] >= pre['wn'])]
        for j, m in enumerate(more):
            g = self.at(post, b1, n0 + j)
            fs.append(('message %d is logged as given' % (j + 1), z3.And(*[x == y for x, y in zip(g, m)])))
        return fs + [('there is no list without the stack', z3.Implies(z3.Not(post['stk']), self.blen(b1) == 0))]

    def inv(self, E, L):
        return []

    def done_(self, out):
        return [('nothing is returned', z3.BoolVal(out[1] is None)), ('the lock is given back', z3.BoolVal(self.depth == 0))]

    # the same log at every call
    def bound(self, E, a):
        """use at a call: the ghost state belongs to the verified contract"""
        return E.cur


class Raw(Logging):
    """_write: one message to the file, and to the console exactly when its level says so."""
    target = 'fbuild.console.Log._write'
    params = ('self', 'msg', 'color', 'verbose')

    def fresh_param(self, E, p):
        if p == 'color':
            return E.fresh(OC, p)
        if p == 'verbose':
            return E.fresh(TInt, p)
        return super().fresh_param(E, p)

    def setup(self, E):
        self.lines, self.shown = [], []
        return super().setup(E)

    def requires(self, E, a):
        return super().requires(E, a) + [z3.Not(E.heap['stk'])]

    def console(self, E, a):
        self.shown.append(a[0])

    def filed(self, E, a):
        self.lines.append(a[0])

    def modifies(self, E, a):
        return self.GHOST

    def post(self, E, a, pre, post, out):
        from contracts.execs import mentions
        m = E.enc(a.msg, TStr)
        want = 1 if self.variant == 'file' else 0
        lv, lim = E.enc(a.verbose, TInt), E.enc(self.self_.attrs['verbose'], TInt)
        ok = len(self.shown) == 1 and E.is_str(self.shown[0]) and mentions(E.enc(self.shown[0], TStr), m)
        return [('the file gets the message once', z3.And(z3.BoolVal(len(self.lines) == want), *[E.enc(x, TStr) == m for x in self.lines])),
                ('the console gets the message exactly when its level says so', z3.If(
                    lv <= lim, z3.BoolVal(ok), z3.BoolVal(not self.shown))),
                ('the buffer stays', z3.And(post['stk'] == pre['stk'], post['wn'] == pre['wn']))]

    # at calls: one more message is written
    def apply(self, E, a):
        v = E.cur
        E.prove('a message is written while the lock is held', z3.BoolVal(v.depth > 0))
        E.prove('nothing that was logged before is left behind', z3.Not(E.heap['stk']))
        a = dict(zip(('self', 'msg', 'color', 'verbose'), a.args))
        v.emit(E, E.enc(a['msg'], TStr), E.enc(a['verbose'], TInt), E.enc(a['color'], OC))


class Flush(Logging):
    """flush: the buffer is written out, in order, and is gone."""
    target = 'fbuild.console.Log.flush'
    params = ('self',)

    def inv(self, E, L):
        if L.kind != 'seq' or L.seq is None:
            return []
        b, i = L.seq, z3.Int('i!v')
        p = self.pre
        h = self.snap(E)
        f = [('the buffer so far is written', E.heap['wn'] == p['wn'] + L.i), ('no stack', z3.Not(E.heap['stk'])),
             ('no list', self.blen(self.bnow(h)) == 0)]
        now = self.at(h, self.bnow(h), i)
        was = self.at(p, self.bnow(p), i)
        return f + [('in order', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p['wn'] + L.i), z3.And(
            *[x == y for x, y in zip(now, was)]))))]

    def post(self, E, a, pre, post, out):
        return self.kept(pre, post, []) + [('the buffer is written out', z3.And(
            z3.Not(post['stk']), post['wn'] == self.total(pre, self.bnow(pre))))] + self.done_(out)

    def apply(self, E, a):
        v = E.cur
        if E.must(z3.Not(E.heap['stk'])):
            return                      # nothing to write
        pre = v.snap(E)
        for n in v.GHOST + (v.B.name,):
            E.havoc_name(n)
        post = v.snap(E)
        for n, f in self.kept_of(v, pre, post):
            E.assume(f)

    def kept_of(self, v, pre, post):
        return v.kept(pre, post, []) + [('', z3.And(z3.Not(post['stk']), post['wn'] == v.total(pre, v.bnow(pre))))]


def level_of(E, v):
    return E.enc(v, TInt)


class Write(Logging):
    """write: one more message of this thread."""
    target = 'fbuild.console.Log.write'
    params = ('self', 'msg')
    kwonly = ('buffer',)

    def fresh_param(self, E, p):
        return E.fresh(TBool, p) if p == 'buffer' else super().fresh_param(E, p)

    def setup(self, E):
        a = super().setup(E)
        self.kw = Sym(z3.Const('kw', S(Kw)), Kw)
        a.kw['**'] = self.kw
        return a

    def post(self, E, a, pre, post, out):
        return self.kept(pre, post, [(E.enc(a.msg, TStr), self.lvl(self.kw.t), self.clr(self.kw.t))]) + self.done_(out)

    def actuals(self, E, vals, byname):
        return A_(byname)

    def apply(self, E, a):
        v = E.cur
        d = {k: x for k, x in a.p['kwargs'].items}
        if not set(d) <= {'color', 'verbose'}:
            raise Unsupported('message arguments')
        pre = v.snap(E)
        for n in v.GHOST + (v.B.name,):
            E.havoc_name(n)
        v.events.append(E.enc(a.p['msg'], TStr))
        for n, f in v.kept(pre, v.snap(E), [(E.enc(a.p['msg'], TStr), E.enc(d.get('verbose', 0), TInt), E.enc(d.get('color'), OC))]):
            E.assume(f)


class A_:
    def __init__(self, p):
        self.p = p


class Whole(Logging):
    """log and check: a few messages, one after the other."""
    def fresh_param(self, E, p):
        if p == 'verbose':
            return E.fresh(TInt, p)
        if p == 'color':
            return E.fresh(OC, p)
        return super().fresh_param(E, p)

    def setup(self, E):
        self.events = []
        return super().setup(E)

    def install(self, E):
        super().install(E)

        def thread(E, a, k):
            t = E.new_inst('thread')
            t.attrs['name'] = Sym(z3.Const('thread_name', S(TStr)), TStr)
            return t
        E.intrinsics['threading.current_thread'] = thread


class LogLine(Whole):
    target = 'fbuild.console.Log.log'
    params = ('self', 'msg', 'color', 'verbose')

    def post(self, E, a, pre, post, out):
        v = E.enc(a.verbose, TInt)
        return self.kept(pre, post, [(E.enc(a.msg, TStr), v, E.enc(a.color, OC)), (E.lit('\n'), v, T.none(Color))]) + self.done_(out)


class Passed(Whole):
    """passed and failed: log with a colour."""
    target = 'fbuild.console.Log.passed'
    params = ('self', 'msg', 'color')
    inline_names = frozenset(('fbuild.console.Log.log',))

    def setup(self, E):
        a = super().setup(E)
        a.kw['verbose'] = a.verbose = E.fresh(TInt, 'verbose')
        return a

    post = LogLine.post


class Failed(Passed):
    target = 'fbuild.console.Log.failed'


class Check(Whole):
    """check: the message, then the result if there is one, then the end of the line."""
    target = 'fbuild.console.Log.check'
    params = ('self', 'msg', 'result', 'color', 'verbose')
    variants = ('alone', 'result')

    def fresh_param(self, E, p):
        if p == 'result' and self.variant == 'alone':
            return None
        return super().fresh_param(E, p)

    def post(self, E, a, pre, post, out):
        from contracts.execs import mentions
        v, c = E.enc(a.verbose, TInt), E.enc(a.color, OC)
        m = self.events[0] if self.events else E.lit('')
        n, end = T.none(Color), E.lit('\n')
        if a.result is None:
            more = [(m, v, c), (end, v + 1, n)]
        else:
            more = [(m, v, n), (E.enc(a.result, TStr), v, c), (end, v, n)]
        return self.kept(pre, post, more) + self.done_(out) + [
            ('the message is part of what is logged', z3.BoolVal(mentions(m, E.enc(a.msg, TStr))))]


class Worker(Logging):
    """WorkerThread.run: what a task logs is written out when the task ends, also when it fails."""
    target = 'fbuild.sched.WorkerThread.run'
    params = ('self',)
    raises = (BaseException,)
    variants = (None,)
    inline_names = frozenset(('fbuild.console.Log.log_from_thread',))

    def fresh_param(self, E, p):
        l = self.log(E)
        w = E.new_inst('fbuild.sched.WorkerThread')
        w.cls = E.global_value(E.repo.module('fbuild.sched'), 'WorkerThread')
        q, lock = E.new_inst('queue'), E.new_inst('lock')
        q.attrs.update(put=Native(lambda E, a, k: None, 'put'))
        lock.attrs.update(__enter__=Native(lambda E, a, k: True, 'acquire'), __exit__=Native(lambda E, a, k: None, 'release'))
        w.attrs.update({'__logger': l, '__ready_queue': q, '__controlling_lock': lock,
                        '__finished': E.fresh(TBool, 'finished')})

        def read(E, a, k):
            if E.choose_free(2):
                raise PyExc(ExcVal(None, (), upper=BaseException))
            return E.new_inst('queue_task')

        def one(E, a, k):
            # a task logs whatever it likes
            pre = self.snap(E)
            for n in self.GHOST + (self.B.name,):
                E.havoc_name(n)
            now = self.snap(E)
            more = E.fresh_term(z3.IntSort(), 'logged')
            E.assume(z3.And(more >= 0, self.total(now, now['B']) == self.total(pre, pre['B']) + more, now['wn'] >= pre['wn']))
            E.assume(z3.Implies(z3.Not(now['stk']), self.blen(now['B']) == 0))
            E.assume(z3.Implies(now['stk'], pre['stk']))
            w.attrs['__finished'] = E.fresh(TBool, 'finished')
            if E.choose_free(2):
                raise PyExc(ExcVal(None, (), upper=BaseException))
            return E.fresh(TBool, 'ran')
        w.attrs.update(read_task=Native(read, 'read_task'), run_one=Native(one, 'run_one'))
        E.intrinsics['_thread.interrupt_main'] = lambda E, a, k: None
        self.self2 = w
        return w

    def requires(self, E, a):
        return self.valid(E) + [z3.Not(E.heap['stk'])]

    def begin(self, E, a):
        self.a, self.pre = a, self.snap(E)

    def inv(self, E, L):
        b = self.B.read()
        return [('nothing waits between tasks', z3.And(z3.Not(E.heap['stk']), self.blen(b) == 0)),
                ('ghost', E.heap['wn'] >= 0)]

    def post(self, E, a, pre, post, out):
        return [('everything is written out at the end', z3.And(z3.Not(post['stk']), self.blen(post['B']) == 0))]


CONTRACTS = [Raw, Flush, Write, LogLine, Passed, Failed, Check, Worker]
USED = [Raw, Flush, Write]
