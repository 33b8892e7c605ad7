"""The server thread of the database: one answer per request (C14)."""
import threading

import z3

from pyvc import types as T
from pyvc.types import TInt, TU, TBool, TSeq, TMap, TStr
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
V = TU('Value')
V.truthy = None
Q = 'fbuild.rpc.'


# what a thread keeps in itself
THREAD = sorted(vars(threading.Thread()))


def inc(E, n):
    E.heap_set(n, E.heap[n] + 1)


def tb(E, v):
    r = E.truth(v)
    return z3.BoolVal(r) if isinstance(r, bool) else r


class RPCCase(Contract):
    """An RPC object over ghost state: whether the server runs, whether the lock is held, how often things happened."""
    props = ('C14',)

    def world(self, E):
        for n in ('called', 'puts', 'nulls', 'sets', 'got', 'handled', 'acked'):
            E.heap_init(n, TInt)
        for n in ('locked', 'event'):
            E.heap_init(n, TBool)
        self.seen = []
        self.answer = None
        self.queue = []

    def handler(self, E, a, k):
        """The wrapped function: anything may come out of it."""
        inc(E, 'called')
        self.seen.append((list(a), dict(k)))
        w = E.choose_free(3)
        if w == 0:
            v = Sym(E.fresh_term(S(V), 'answer'), V)
            self.answer = ('value', v)
            return v
        e = ExcVal(None, (), upper=Exception) if w == 1 else ExcVal(KeyboardInterrupt, ())
        self.answer = ('raise', e)
        raise PyExc(e)

    def lock(self, E):
        l = E.new_inst('lock', 'lock')

        def enter(E, a, k):
            E.prove('the lock is not taken twice', z3.Not(E.heap['locked']))
            E.heap_set('locked', z3.BoolVal(True))
            return True

        def leave(E, a, k):
            E.prove('only a held lock is released', E.heap['locked'])
            E.heap_set('locked', z3.BoolVal(False))
            return False
        l.attrs.update(acquire=Native(enter, 'acquire'), __enter__=Native(enter, '__enter__'), __open__=True,
                       release=Native(leave, 'release'), __exit__=Native(leave, '__exit__'))
        return l

    def event(self, E):
        """The event of a thread: it may still be set from the thread's previous request."""
        ev = E.new_inst('event', 'event')

        def st(E, a, k):
            inc(E, 'sets')
            self.at_set(E)
            E.heap_set('event', z3.BoolVal(True))

        def clear(E, a, k):
            E.heap_set('event', z3.BoolVal(False))
        ev.attrs.update(set=Native(st, 'set'), clear=Native(clear, 'clear'), wait=Native(self.waits, 'wait'),
                        is_set=Native(lambda E, a, k: Sym(E.heap['event'], TBool), 'is_set'), __open__=True)
        return ev

    def waits(self, E, a, k):
        raise Unsupported('wait')

    def at_set(self, E):
        pass

    def rpc(self, E, running):
        """An object made by the real constructor, in an arbitrary later state."""
        i = self.inst = E.new_inst(E.repo.find(Q + 'RPC'), 'rpc')
        self.phase = 'init'
        E.call(E.getattr(i, '__init__'), [Native(self.handler, 'handler')])
        self.phase = 'run'
        if '_running' not in i.attrs:
            raise Unsupported('no attribute _running')
        i.attrs['_running'] = Sym(running, TBool) if not isinstance(running, bool) else running
        return i

    def started(self, E):
        s = E.new_inst('started', 'started')
        s.attrs.update(set=Native(self.started_set, 'set'), wait=Native(self.started_wait, 'wait'), __open__=True)
        return s

    def local(self, E, a, k):
        loc = E.new_inst('local', 'local')
        if self.variant == 'later request':
            loc.attrs['event'] = self.event(E)
        return loc

    def queue_(self, E, a, k):
        q = E.new_inst('queue', 'queue')
        q.attrs.update(put=Native(self.q_put, 'put'), get=Native(self.q_get, 'get'), __open__=True,
                       task_done=Native(self.q_done, 'task_done'), join=Native(self.q_join, 'join'))
        return q

    def install(self, E):
        I = E.intrinsics
        I['threading.Event'] = self.new_event
        I['threading.Lock'] = lambda E, a, k: self.lock(E)
        I['threading.local'] = self.local
        I['queue.Queue'] = self.queue_
        I['_thread.interrupt_main'] = lambda E, a, k: None
        I['sys.stdout.flush'] = lambda E, a, k: None

        def tinit(E, a, k):
            a[0].attrs.update({n: 'of the thread' for n in THREAD})
        I['threading.Thread.__init__'] = tinit

    def new_event(self, E, a, k):
        if self.phase == 'init':
            return self.started(E)
        E.heap_set('event', z3.BoolVal(False))
        return self.event(E)

    q_put = q_get = q_done = q_join = started_set = started_wait = lambda self, E, a, k: None

    def null(self, E, v):
        return v is E.getattr(E.repo.module('fbuild.rpc'), '_NULL')


class Init(RPCCase):
    """The constructor leaves the thread's own state alone: in particular its event is not that of the thread."""
    target = Q + 'RPC.__init__'
    params = ('self', 'handler')

    def fresh_param(self, E, p):
        self.phase = 'init'
        if p == 'self':
            self.inst = E.new_inst(E.repo.find(Q + 'RPC'), 'rpc')
            return self.inst
        self.h = Native(self.handler, 'handler')
        return self.h

    def ensures(self, E, a, pre, post, out):
        at = self.inst.attrs
        hit = [n for n in THREAD if n not in at or at[n] != 'of the thread']
        return [('the state of the thread is its own (%s)' % ', '.join(hit or ['all']), z3.BoolVal(not hit)),
                ('the server does not run yet', z3.Not(tb(E, at.get('_running', True)))),
                ('nothing is executed', post['called'] == pre['called'])]


class Call(RPCCase):
    """call() and _process() together: the server takes the message while the caller waits."""
    target = Q + 'RPC.call'
    variants = ('first request', 'later request')
    params = ('self',)
    raises = (BaseException,)

    def setup(self, E):
        self.world(E)
        self.run0 = E.fresh_term(z3.BoolSort(), 'running')
        a = Contract.setup(self, E)
        a.args.append(Star(E.fresh(TSeq(V, tup=True), 'args')))
        a.kw['**'] = E.fresh(TMap(TStr, V), 'kwargs')
        self.sent = (a.args[-1].v, a.kw['**'])
        return a

    def fresh_param(self, E, p):
        return self.rpc(E, self.run0)

    def requires(self, E, a):
        return [z3.Not(E.heap['locked'])] + [E.heap[n] == 0 for n in ('called', 'puts', 'nulls', 'sets', 'got', 'handled', 'acked')]

    def modifies(self, E, a):
        return tuple(E.heap)

    def q_put(self, E, a, k):
        E.prove('a request is sent only to a running server', tb(E, self.inst.attrs['_running']))
        E.prove('a request is sent only while the server cannot be told to stop', E.heap['locked'])
        E.prove('an event left over from an earlier request does not answer this one', z3.Not(E.heap['event']))
        inc(E, 'puts')
        self.queue.append(a[0])

    def waits(self, E, a, k):
        """The server takes the message; the caller goes on when its event is set."""
        E.prove('the lock is free while the caller waits', z3.Not(E.heap['locked']))
        E.prove('one request was sent', E.heap['puts'] == 1)
        if not E.must(E.heap['event']):
            msg = self.queue.pop()
            try:
                E.call(E.getattr(self.inst, '_process'), [msg])
            except PyExc:
                pass            # the server thread ends
        E.prove('the caller is woken', E.heap['event'])
        return True

    def at_set(self, E):
        E.prove('the caller is woken after the request was executed', E.heap['called'] == 1)

    def ensures(self, E, a, pre, post, out):
        B = z3.BoolVal
        free = ('the lock is free again', z3.Not(post['locked']))
        if self.answer is None:
            refused = out[0] == 'raise' and getattr(out[1].cls, 'name', '') == 'RPCNotRunning'
            return [free, ('a request is refused exactly when the server is not running', z3.And(B(refused), z3.Not(self.run0))),
                    ('a refused request is not sent', post['puts'] == 0)]
        (args, kw) = self.seen[0] if len(self.seen) == 1 else ([], {})
        same = len(args) == 1 and isinstance(args[0], Star) and args[0].v is self.sent[0] and set(kw) == {'**'} \
            and kw['**'] is self.sent[1]
        mine = ('the caller gets the value of its own request', z3.And(
            B(out[0] == 'return' and self.answer[0] == 'value'),
            E.enc(out[1], V) == self.answer[1].t if isinstance(out[1], Sym) and out[1].ty == V and self.answer[0] == 'value'
            else B(False))) if self.answer[0] == 'value' else \
            ('the caller gets the exception of its own request', B(out[0] == 'raise' and out[1] is self.answer[1]))
        return [free, mine, ('the request is executed exactly once', z3.And(post['called'] == 1, post['puts'] == 1)),
                ('it is executed with its own arguments', B(same)), ('a running server does not refuse', self.run0)]


class Run(RPCCase):
    """The server loop: every message taken is handled once and acknowledged, until the null message."""
    target = Q + 'RPC.run'
    variants = (None,)
    params = ('self',)
    raises = (BaseException,)
    loops = (lambda c, E, L: [('each message taken so far was handled and acknowledged',
                               z3.And(E.heap['got'] == E.heap['handled'], E.heap['got'] == E.heap['acked'],
                                      E.heap['nulls'] == 0, E.heap['sets'] == 1))],)

    def fresh_param(self, E, p):
        i = self.rpc(E, False)
        i.attrs['_process'] = Native(self.process, '_process')
        return i

    def requires(self, E, a):
        return [E.heap[n] == 0 for n in ('called', 'puts', 'nulls', 'sets', 'got', 'handled', 'acked')]

    def modifies(self, E, a):
        return tuple(E.heap)

    def started_set(self, E, a, k):
        E.prove('the server is running when it says it started', tb(E, self.inst.attrs['_running']))
        inc(E, 'sets')

    def q_get(self, E, a, k):
        E.prove('the server has started before it takes messages', E.heap['sets'] == 1)
        inc(E, 'got')
        if E.choose_free(2) == 0:
            inc(E, 'nulls')
            return E.getattr(E.repo.module('fbuild.rpc'), '_NULL')
        self.cur = ('msg', E.tick())
        return (E.new_inst('event'), E.new_inst('result'), E.fresh(TSeq(V, tup=True), 'args'), E.fresh(TMap(TStr, V), 'kwargs'))

    def process(self, E, a, k):
        E.prove('the null message is not handled as a request', z3.BoolVal(isinstance(a[0], tuple)))
        E.prove('a message is handled before the next one is taken', E.heap['handled'] == E.heap['got'] - 1)
        inc(E, 'handled')
        w = E.choose_free(2)
        if w == 1:
            raise PyExc(ExcVal(None, (), upper=BaseException))

    def q_done(self, E, a, k):
        E.prove('a request is acknowledged after it was handled',
                E.heap['handled'] + E.heap['nulls'] == E.heap['got'])
        inc(E, 'acked')

    def ensures(self, E, a, pre, post, out):
        r = self.inst.attrs['_running']
        fs = [('the server no longer claims to run', z3.Not(tb(E, r))),
              ('all messages taken were handled', z3.And(post['got'] == post['handled'] + post['nulls'], post['acked'] == post['got']))]
        if out[0] == 'return':
            fs.append(('the server stops only when told to', post['nulls'] == 1))
        return fs


class Start(RPCCase):
    target = Q + 'RPC.start'
    params = ('self',)
    raises = ()

    def fresh_param(self, E, p):
        return self.rpc(E, E.fresh_term(z3.BoolSort(), 'running'))

    def install(self, E):
        RPCCase.install(self, E)

        def st(E, a, k):
            inc(E, 'got')
        E.intrinsics['threading.Thread.start'] = st

    def started_wait(self, E, a, k):
        E.prove('the thread was started', E.heap['got'] == E.entry['got'] + 1)
        inc(E, 'sets')

    def modifies(self, E, a):
        return ('got', 'sets')

    def ensures(self, E, a, pre, post, out):
        return [('start returns after the server said it runs', z3.And(post['sets'] == pre['sets'] + 1, post['got'] == pre['got'] + 1))]


class Join(RPCCase):
    target = Q + 'RPC.join'
    params = ('self',)
    raises = ()

    def setup(self, E):
        self.world(E)
        self.run0 = E.fresh_term(z3.BoolSort(), 'running')
        return Contract.setup(self, E)

    def fresh_param(self, E, p):
        return self.rpc(E, self.run0)

    def install(self, E):
        RPCCase.install(self, E)

        def jn(E, a, k):
            E.prove('the thread is joined only after it was told to stop', E.heap['nulls'] == 1)
            E.prove('no request can be sent while the server stops', E.heap['locked'])
            inc(E, 'got')
            self.inst.attrs['_running'] = False
        E.intrinsics['threading.Thread.join'] = jn

    def q_put(self, E, a, k):
        E.prove('only the null message is sent', z3.BoolVal(self.null(E, a[0])))
        E.prove('no request can be sent while the server stops', E.heap['locked'])
        inc(E, 'nulls')

    def q_join(self, E, a, k):
        E.prove('the server was told to stop', E.heap['nulls'] == 1)

    def requires(self, E, a):
        return [z3.Not(E.heap['locked'])] + [E.heap[n] == 0 for n in ('nulls', 'got')]

    def modifies(self, E, a):
        return tuple(E.heap)

    def ensures(self, E, a, pre, post, out):
        return [('the lock is free again', z3.Not(post['locked'])),
                ('a running server is told to stop once and awaited', z3.Implies(self.run0, z3.And(post['nulls'] == 1, post['got'] == 1))),
                ('a stopped server is left alone', z3.Implies(z3.Not(self.run0), post['nulls'] == 0))]


CONTRACTS = [Init, Call, Run, Start, Join]
USED = []
