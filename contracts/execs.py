"""Running a command (C15)."""
import signal

import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool, TMap, TOpt, TReal
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract

S = T.sort
Bytes = TU('Bytes')            # what a command writes
Arg = TU('PopenArg')           # further arguments of Popen
Stream = TU('Stream')
Stream.truthy = True


def mentions(t, c):
    return t.eq(c) or any(mentions(x, c) for x in t.children())


class RuntimeLibpath(Contract):
    """The name of the variable, a string."""
    target = 'fbuild.builders.platform.runtime_env_libpath'
    trusted = True
    params = ('ctx',)

    def apply(self, E, a):
        return Sym(z3.Const('libpath_variable', S(TStr)), TStr)


class Execute(Contract):
    """What a command does is unknown: it may write anything, end with any status, or run until it is ended.

    The timer may go off at any moment between start and cancel: before the
    process was waited for, or after.
    """
    target = 'fbuild.context.Context.execute'
    props = ('C15',)
    params = ('self', 'cmd', 'msg1', 'msg2')
    kwonly = ('color', 'quieter', 'stdout_quieter', 'stderr_quieter', 'input', 'stdin', 'stdout', 'stderr', 'timeout', 'env',
              'runtime_libpaths', 'ignore_error')
    raises = (BaseException,)
    variants = ('plain', 'messages', 'list', 'environment', 'limit', 'output', 'limit and output')
    assumptions = ('a process is not ended by the limit between its own end and the moment that is noticed',
                   'Popen, communicate and wait work as documented')
    types = {'color': TOpt(TStr), 'quieter': TInt, 'stdin': Stream, 'stdout': Stream, 'stderr': Stream, 'ignore_error': TBool}

    def world(self, E):
        E.heap_init('refused', TBool, z3.BoolVal(False))

    def has(self, w):
        return w in self.variant

    def fresh_param(self, E, p):
        if p == 'self':
            return self.ctx(E)
        if p == 'cmd':
            return E.fresh(TSeq(TStr) if self.variant == 'list' else TStr, p)
        if p == 'msg1' or p == 'msg2':
            return E.fresh(TOpt(TStr), p) if self.variant == 'messages' else None
        if p in ('stdout_quieter', 'stderr_quieter'):
            return E.fresh(TOpt(TInt), p) if self.has('output') else None
        if p == 'input':
            return E.fresh(TOpt(Bytes), p) if self.variant == 'plain' else None
        if p == 'timeout':
            return E.fresh(TReal, p) if self.has('limit') else None
        if p == 'env':
            return E.fresh(TMap(TStr, TStr), p) if self.variant in ('environment', 'list') else None
        if p == 'runtime_libpaths':
            return E.fresh(TSeq(TStr), p) if self.variant == 'environment' else None
        return E.fresh(self.types[p], p)

    def setup(self, E):
        a = super().setup(E)
        self.more = E.fresh(TMap(TStr, Arg), 'more')
        self.more0 = self.more.read()
        a.kw['**'] = self.more
        return a

    def ctx(self, E):
        c = E.new_inst('fbuild.context.Context')
        c.cls = E.global_value(E.repo.module('fbuild.context'), 'Context')
        l = c.attrs['logger'] = E.new_inst('logger')
        self.logged = []
        self.proc = self.timer = None
        self.fired = self.killed = False
        self.ps = 0

        def log(E, a, k):
            v = dict(zip(('message', 'verbose'), a), **k)
            self.logged.append((v.get('message'), v.get('verbose', 0)))
        l.attrs['log'] = Native(log, 'log')
        for n in ('write', 'check', 'passed', 'failed', 'flush'):
            l.attrs[n] = Native(lambda E, a, k: None, n)
        s = c.attrs['scheduler'] = E.new_inst('scheduler')

        def interruptible(E, a, k):
            i = E.new_inst('interruptible')
            i.attrs['__enter__'] = Native(lambda E, a, k: None, '__enter__')
            i.attrs['__exit__'] = Native(lambda E, a, k: None, '__exit__')
            return i
        s.attrs['interruptible'] = Native(interruptible, 'interruptible')
        return c

    def install(self, E):
        I = E.intrinsics
        self.environ = None

        def environ(E):
            return self.environ
        I['attr:os.environ'] = environ
        I['attr:os.pathsep'] = lambda E: ':'
        for n in ('SIGINT', 'SIGTERM', 'SIGKILL'):
            I['attr:signal.' + n] = lambda E, n=n: int(getattr(signal, n))
        I['time.time'] = lambda E, a, k: E.fresh(TReal, 'time')
        th = lambda E, a, k: self.thread
        I['threading.current_thread'] = th
        I['threading.Timer'] = self.new_timer
        I['new:fbuild.subprocess.killableprocess.Popen'] = lambda E, c, a, k: self.popen(E, a, k)
        for n in ('attr:subprocess.PIPE', 'global:fbuild.subprocess.PIPE', 'global:subprocess.PIPE'):
            I[n] = lambda E: Sym(z3.Const('PIPE', S(Stream)), Stream)
        E.methods[(Bytes.key, 'rstrip')] = lambda E, o, a, k: Sym(z3.Function('rstrip', S(Bytes), S(Bytes))(o.t), Bytes)

        def decode(E, o, a, k):
            if self.variant == 'output' and E.choose_free(2):
                E.raise_py(UnicodeDecodeError)
            return Sym(z3.Function('decoded', S(Bytes), S(TStr))(o.t), TStr)
        E.methods[(Bytes.key, 'decode')] = decode

    def new_timer(self, E, a, k):
        v = dict(zip(('interval', 'function', 'args', 'kwargs'), a), **k)
        t = E.new_inst('timer')
        t.attrs.update(state='new', __open__=True)
        E.prove('the limit is the one given', E.enc(v['interval'], TReal) == E.enc(self.a.timeout, TReal))
        if self.timer is not None:
            raise Unsupported('several timers')
        self.timer, self.when = t, v

        def start(E, a, k):
            t.attrs['state'] = 'running'
            self.fire(E)

        def cancel(E, a, k):
            t.attrs['state'] = 'done'
        t.attrs['start'], t.attrs['cancel'] = Native(start, 'start'), Native(cancel, 'cancel')
        return t

    def fire(self, E):
        """The time may be over."""
        t = self.timer
        if t is None or t.attrs['state'] != 'running' or self.fired or not E.choose_free(2):
            return
        self.fired = True
        self.firing = True
        try:
            E.call(self.when['function'], E.list_items(self.when.get('args', ())) if not isinstance(
                self.when.get('args', ()), tuple) else list(self.when.get('args', ())))
        finally:
            self.firing = False

    firing = False

    def fails(self, E):
        if E.choose_free(2):
            E.heap_set('refused', z3.BoolVal(True))
            E.raise_py(OSError)

    def popen(self, E, a, k):
        A = self.a
        v = dict(zip(('cmd',), a), **k)
        self.ps += 1
        E.prove('one process is started', z3.BoolVal(self.ps == 1))
        E.prove('the command is the one given', z3.BoolVal(v.pop('cmd') is A.cmd))
        self.check_env(E, v.pop('env', None))
        inp = A.input
        piped = z3.BoolVal(False) if inp is None else E.enc(E.truth_sym(inp) if hasattr(E, 'truth_sym') else self.truth(E, inp), TBool)
        E.prove('input is read from where it was asked for', E.enc(v.pop('stdin'), Stream) == z3.If(
            piped, z3.Const('PIPE', S(Stream)), A.stdin.t))
        for n in ('stdout', 'stderr'):
            E.prove('output goes where it was asked for', E.enc(v.pop(n), Stream) == getattr(A, n).t)
        more = v.pop('**', None)
        x = z3.Const('x!m', S(TStr))
        E.prove('further arguments are passed on', z3.BoolVal(False) if more is None or v else z3.ForAll(
            [x], z3.Select(more.read(), x) == z3.Select(self.more0, x)))
        self.fails(E)
        p = self.proc = E.new_inst('process')
        p.attrs.update(returncode=None, __open__=True)

        def kill(E, a, k):
            if p.attrs['returncode'] is None and self.firing:
                self.killed = True

        def reap(E):
            if p.attrs['returncode'] is None:
                self.fire(E)
                p.attrs['returncode'] = E.fresh(TInt, 'status')
                self.fire(E)

        def communicate(E, a, k):
            E.prove('the command gets its input', z3.BoolVal(
                (a[0] if a else k.get('input')) is A.input))
            n = E.choose_free(3)
            if n == 1:
                E.heap_set('refused', z3.BoolVal(True))
                E.raise_py(KeyboardInterrupt)
            elif n == 2:
                self.fails(E)
            reap(E)
            self.out = E.fresh(TOpt(Bytes), 'out'), E.fresh(TOpt(Bytes), 'err')
            for o in self.out:
                if o is not None:
                    E.assume(o.t != E.uconst(Bytes, 'None'))
            return self.out

        def wait(E, a, k):
            reap(E)
            self.fire(E)
            return p.attrs['returncode']
        p.attrs.update(kill=Native(kill, 'kill'), communicate=Native(communicate, 'communicate'), wait=Native(wait, 'wait'))
        return p

    def truth(self, E, v):
        e = E.enc(v, TOpt(Bytes))
        return Sym(z3.And(T.is_some(Bytes, e), E.ufun('truthy_Bytes', [T.val(Bytes, e)], z3.BoolSort())), TBool)

    def check_env(self, E, env):
        if not isinstance(env, MDict):
            E.prove('the command gets an environment', z3.BoolVal(False))
            return
        A = self.a
        x, n = z3.Const('x!e', S(TStr)), z3.Const('libpath_variable', S(TStr))
        if env.items is not None:
            raise Unsupported('a fixed environment')
        base = z3.Select(self.environ0, x)
        if self.env0 is not None:
            o = z3.Select(self.env0, x)
            base = z3.If(T.is_some(TStr, o), o, base)
        if self.libs0 is not None:
            had = z3.substitute(base, (x, n))
            libs = E.enc(E.call(E.getattr(':', 'join'), [A.runtime_libpaths]), TStr)
            both = E.enc(E.strcat([Sym(T.val(TStr, had), TStr), ':', Sym(libs, TStr)]), TStr)
            new = z3.If(T.is_some(TStr, had), T.some(TStr, both), T.some(TStr, libs))
            base = z3.If(z3.And(x == n, S(TSeq(TStr)).len(self.libs0) > 0), new, base)
        E.prove('the command sees the environment asked for', z3.ForAll([x], z3.Select(env.read(), x) == base))

    def begin(self, E, a):
        self.a = a
        self.environ = E.fresh(TMap(TStr, TStr), 'environ')
        self.environ0 = self.environ.read()
        self.env0 = None if a.env is None else a.env.read()
        self.libs0 = None if a.runtime_libpaths is None else a.runtime_libpaths.read()
        self.thread = E.new_inst('thread')
        self.thread.attrs['name'] = E.fresh(TStr, 'thread')

    def modifies(self, E, a):
        return ('refused',)

    def ensures(self, E, a, pre, post, out):
        fs = []
        kind = out[0]
        c = getattr(out[1].cls, 'qual', '') if kind == 'raise' else ''
        fs.append(('the environment of this process stays', self.environ.read() == self.environ0))
        if self.env0 is not None:
            fs.append(('the given variables stay', a.env.read() == self.env0))
        if self.libs0 is not None:
            fs.append(('the given library paths stay', a.runtime_libpaths.read() == self.libs0))
        if self.timer is not None:
            fs.append(('the timer is stopped', z3.BoolVal(self.timer.attrs['state'] != 'running')))
        if kind == 'raise' and not c.startswith('fbuild.'):
            # an interrupted command is not reported otherwise
            intr = z3.BoolVal(False)
            if self.proc is not None and self.proc.attrs['returncode'] is not None:
                intr = E.enc(self.proc.attrs['returncode'], TInt) == -int(signal.SIGINT)
            return fs + [('only what the system reports is raised otherwise', z3.Or(post['refused'], intr))]
        fs.append(('a process ran', z3.BoolVal(self.proc is not None and self.proc.attrs['returncode'] is not None)))
        if self.proc is None or self.proc.attrs['returncode'] is None:
            return fs
        rc = E.enc(self.proc.attrs['returncode'], TInt)
        bad = z3.And(rc != 0, z3.Not(E.enc(a.ignore_error, TBool)))
        limit = z3.BoolVal(self.killed)
        same = lambda x, y: z3.BoolVal(x is y) if x is None or y is None else E.enc(x, TOpt(Bytes)) == E.enc(y, TOpt(Bytes))
        if kind == 'return':
            v = out[1]
            ok = isinstance(v, tuple) and len(v) == 2
            fs += [('it returns only when the command ended well', z3.And(z3.Not(limit), z3.Not(bad))),
                   ('the output is returned', z3.And(same(v[0], self.out[0]), same(v[1], self.out[1])) if ok else z3.BoolVal(False))]
        else:
            timed = c == 'fbuild.ExecutionTimedOut'
            fs += [('a command ended at its limit is reported as such', limit == z3.BoolVal(timed)),
                   ('an error is reported only for a failing command', z3.BoolVal(True) if timed else z3.And(
                       z3.BoolVal(c == 'fbuild.ExecutionError'), bad))]
            at = lambda n: E.getattr(out[1], n)
            fs += [('the error carries the command', z3.BoolVal(at('cmd') is a.cmd)),
                   ('the error carries the output', z3.And(same(at('stdout'), self.out[0]), same(at('stderr'), self.out[1]))),
                   ('the error carries the status', E.enc(at('returncode'), TInt) == rc)]
        if self.variant != 'list':
            cmd = E.enc(a.cmd, TStr)
            shown = [E.enc(v, TInt) for m, v in self.logged if E.is_str(m) and mentions(E.enc(m, TStr), cmd)]
            q = E.enc(a.quieter, TInt)
            fs.append(('the command is logged once', z3.BoolVal(len(shown) == 1)))
            if len(shown) == 1:
                fs.append(('a failing command is logged as asked for', z3.Implies(rc != 0, shown[0] == q)))
                fs.append(('a command that ended well is logged when verbose', z3.Implies(rc == 0, shown[0] == 1)))
            for i, n in enumerate(('stdout', 'stderr')):
                o = E.enc(self.out[i], TOpt(Bytes))
                lvl = getattr(a, n + '_quieter')
                lv = E.enc(lvl, TOpt(TInt)) if lvl is not None else T.none(TInt)
                want = z3.If(T.is_some(TInt, lv), T.val(TInt, lv), q)
                body = T.val(Bytes, o)
                raw = self.out[i]
                shown = [] if raw is None else [E.enc(v, TInt) for m, v in self.logged if E.is_str(m) and mentions(E.enc(m, TStr), raw.t)]
                some = z3.And(T.is_some(Bytes, o), E.ufun('truthy_Bytes', [body], z3.BoolSort()))
                fs.append(('output is logged once as asked for', z3.If(
                    some, z3.And(z3.BoolVal(len(shown) == 1), *[s == want for s in shown]), z3.BoolVal(not shown))))
        return fs


CONTRACTS = [Execute]
USED = [RuntimeLibpath]
