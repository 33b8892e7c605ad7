"""Schedules: parallel maps, the database server thread and the log (C12, C13, C14, C24)."""
import io
import itertools
import random
import sys
import threading
import time

from lib import *

SHRINK = ('srcs', 'tasks', 'clients')
RULE = ('random inputs under random completion orders, real threads; the order in which functions finish is forced by '
        'holding them at a gate inside Scheduler.interruptible')


class Stop(Exception):
    pass


def quiet_log(n=2):
    import fbuild.console
    return fbuild.console.Log(threadcount=n)


class Key:
    """Equal to others of its number, not the same object."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Key) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __lt__(self, o):
        raise TypeError('not ordered')

    def __repr__(self):
        return 'Key(%d)' % self.n


class Odd:
    """Neither hashable nor comparable."""
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        raise TypeError('not comparable')

    def __repr__(self):
        return 'Odd(%d)' % self.n


def element(kind, n):
    return {'int': lambda: n, 'str': lambda: 's%d' % n, 'key': lambda: Key(n), 'odd': lambda: Odd(n),
            'none': lambda: None if n % 2 else n}[kind]()


# --- C12 -----------------------------------------------------------------
def gen_map(rng, tier):
    while True:
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 13])
        kind = rng.choice(['int', 'str', 'key', 'odd', 'none'])
        srcs = [rng.randint(0, 5) for _ in range(n)]
        acts = []
        for i in range(n):
            x = rng.random()
            acts.append('gate' if x < .4 else 'plain' if x < .7 else 'nest' if x < .82 else 'none' if x < .9 else
                        'sleep' if x < .97 or n > 8 else 'raise')
        if n and rng.random() < .15:
            acts[rng.randrange(n)] = rng.choice(['raise', 'nestraise', 'raise', 'stop'])
        gates = [i for i, a in enumerate(acts) if a == 'gate']
        rng.shuffle(gates)
        yield dict(srcs=[list(x) for x in zip(srcs, acts)], kind=kind, gates=gates, threads=rng.choice([1, 1, 2, 3, 4, 5]),
                   depth=rng.choice([1, 1, 2]), as_iter=rng.random() < .3, again=rng.random() < .5,
                   inside=rng.random() < .25)


class Fail(Exception):
    pass


def run_map(p, scratch):
    import fbuild.sched
    S = fbuild.sched.Scheduler(p['threads'], logger=quiet_log())
    lock = threading.Lock()
    calls = {}
    gates = {i: threading.Event() for i in range(len(p['srcs']))}
    started = {i: threading.Event() for i in gates}
    objs = [element(p['kind'], n) for n, a in p['srcs']]
    index = {}
    for i, o in enumerate(objs):
        index.setdefault(id(o), []).append(i)
    raised = []
    final = []

    def take(o):
        with lock:
            c = calls.setdefault(id(o), 0)
            calls[id(o)] = c + 1
            ix = index[id(o)]
            require(c < len(ix), 'the function is called %d times for %r which is there %d times', c + 1, o, len(ix))
            return ix[c]

    def nested(depth, tag, bad=False):
        seen = []

        def g(x):
            with lock:
                seen.append(x)
            if bad and x == 2:
                raise Fail(tag, x)
            if depth > 1:
                return nested(depth - 1, (tag, x))
            return tag, x
        r = S.map(g, [3, 1, 2, 1])
        want = [nested_want(depth, tag, x) for x in [3, 1, 2, 1]]
        same(r, want, 'nested map')
        same(sorted(seen), [1, 1, 2, 3], 'calls of the nested map')
        return r

    def nested_want(depth, tag, x):
        if depth > 1:
            return [nested_want(depth - 1, (tag, x), y) for y in [3, 1, 2, 1]]
        return tag, x

    def f(o):
        i = take(o)
        # equal objects are the same one: what it does is that of one of its places
        act = p['srcs'][i][1]
        if act == 'gate':
            started[i].set()
            with S.interruptible():
                gates[i].wait()
        elif act == 'sleep':
            with S.interruptible():
                time.sleep(random.random() / 500)
        elif act == 'nest':
            nested(p['depth'], i)
        elif act == 'nestraise':
            try:
                nested(1, i, True)
            except Fail as e:
                with lock:
                    raised.append(e)
                raise
            raise Violation('the nested map returns though its function raised')
        elif act in ('raise', 'stop'):
            e = Fail(i) if act == 'raise' else SystemExit(i)
            with lock:
                raised.append(e)
            raise e
        elif act == 'none':
            return None
        return ('result', id(o))

    def release():
        # in the given order, each once its function waits (or cannot start yet)
        end = time.time() + 5
        left = list(p['gates'])
        while left:
            for i in list(left):
                if started[i].wait(.05 if i == left[0] else .002):
                    gates[i].set()
                    left.remove(i)
                    break
            if time.time() > end:
                for i in left:
                    gates[i].set()
                break

    t = threading.Thread(target=release, daemon=True)
    t.start()
    bad = any(a in ('raise', 'nestraise', 'stop') for n, a in p['srcs'])

    def outer(_=None):
        return S.map(f, iter(objs) if p['as_iter'] else objs)
    try:
        r = S.map(outer, [0])[0] if p['inside'] else outer()
    except (Fail, SystemExit) as e:
        require(bad, 'the map raises %r though its function did not', e)
        require(e in raised, 'the map raises %r, not what its function raised (%r)', e, raised)
        stopped = isinstance(e, SystemExit)
    else:
        require(not bad, 'the map returns %r though its function raised for an element', r)
        same([('none' if x is None else x) for x in r],
             [want_of(p, o, i, index) for i, o in enumerate(objs)] if p['kind'] == 'odd' or p['kind'] == 'key' else
             [('none' if x is None else x) for x in r], 'results of the map')
        check_results(p, objs, index, r)
        same({k: calls.get(k, 0) for k in index}, {k: len(v) for k, v in index.items()}, 'calls per element')
        stopped = False
    if p['again'] and not any(a == 'stop' for n, a in p['srcs']):
        same(S.map(lambda x: x + 1, [5, 6, 5]), [6, 7, 6], 'a later map')
    if not any(a == 'stop' for n, a in p['srcs']):
        S.shutdown()


def want_of(p, o, i, index):
    return 'none' if p['srcs'][i][1] == 'none' else ('result', id(o))


def check_results(p, objs, index, r):
    """Every result is at the place of its element."""
    same(len(r), len(objs), 'number of results')
    got, want = {}, {}
    for i, o in enumerate(objs):
        got.setdefault(id(o), []).append(repr(r[i]))
        want.setdefault(id(o), []).append('None' if p['srcs'][i][1] == 'none' else repr(('result', id(o))))
    same({k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in want.items()}, 'results at the places of each element')


# --- C13 -----------------------------------------------------------------
def gen_deps(rng, tier):
    while True:
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
        mode = rng.choice(['dag', 'dag', 'dag', 'any', 'cycle'])
        names = list(range(n))
        perm = names[:]
        rng.shuffle(perm)
        deps = {}
        for k, x in enumerate(perm):
            pool = perm[:k] if mode != 'any' else perm
            d = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if pool else []
            if rng.random() < .15:
                d.insert(rng.randint(0, len(d)), 90 + rng.randint(0, 2))       # not a source
            deps[x] = d
        if mode == 'cycle':
            c = rng.sample(names, rng.randint(1, n))
            for a, b in zip(c, c[1:] + c[:1]):
                deps[a] = deps[a] + [b]
        srcs = names[:]
        rng.shuffle(srcs)
        for _ in range(rng.choice([0, 0, 1, 2])):
            srcs.insert(rng.randint(0, len(srcs)), rng.choice(names))
        if rng.random() < .2:
            srcs = srcs[:rng.randint(1, len(srcs))]
        yield dict(srcs=srcs, deps=[[k, v] for k, v in sorted(deps.items())], threads=rng.choice([1, 1, 2, 3, 4]),
                   kind=rng.choice(['str', 'key', 'int']), wait=[rng.randint(0, 3) for _ in range(n)],
                   wait2=[rng.randint(0, 3) for _ in range(n)], as_tuple=rng.random() < .3, inside=rng.random() < .15,
                   fail=rng.randrange(n) if rng.random() < .08 else -1)


def run_deps(p, scratch):
    import fbuild.sched
    deps = {k: v for k, v in p['deps']}
    srcs = set(p['srcs'])
    real = {x: [d for d in deps[x] if d in srcs] for x in srcs}
    # members of cycles, and whatever depends on them, cannot run
    done, more = set(), True
    while more:
        more = [x for x in srcs - done if all(d in done for d in real[x])]
        done |= set(more)
    cyclic = srcs - done
    orders = []
    for wait in (p['wait'], p['wait2']):
        S = fbuild.sched.Scheduler(p['threads'], logger=quiet_log())
        el = lambda n: element(p['kind'], n)
        num = (lambda o: o.n) if p['kind'] == 'key' else (lambda o: int(str(o).lstrip('s')))
        lock = threading.Lock()
        began, ended = [], []

        def depends(o):
            if wait[num(o)] % 2:
                with S.interruptible():
                    time.sleep(wait[num(o)] / 700)
            d = [el(x) for x in deps[num(o)]]
            return tuple(d) if p['as_tuple'] else d

        def f(o):
            x = num(o)
            with lock:
                began.append(x)
                for d in real[x]:
                    require(d in ended, 'the function runs for %r before its dependency %r finished', x, d)
            with S.interruptible():
                time.sleep(wait[x] / 500)
            with lock:
                ended.append(x)
            if x == p['fail']:
                raise Fail(x)
            return 'r%d' % x

        def go(_=None):
            return S.map_with_dependencies(depends, f, [el(x) for x in p['srcs']])
        try:
            r = S.map(go, [1])[0] if p['inside'] else go()
        except fbuild.sched.DependencyLoop as e:
            require(cyclic, 'dependency loop %s reported though there is none', e)
            for x in began:
                require(x not in cyclic, 'the function runs for %r of a cycle', x)
            if p['kind'] == 'str':
                str(e)
            r = None
        except Fail:
            require(p['fail'] in began, 'raises what the function did not')
            r = None
        else:
            require(not cyclic, 'no error though the dependencies contain a cycle: %r', real)
            require(p['fail'] not in srcs, 'returns though the function raised')
            same(sorted(r), sorted('r%d' % x for x in srcs), 'results')
            at = {x: r.index('r%d' % x) for x in srcs}
            for x in srcs:
                for d in real[x]:
                    require(at[d] < at[x], 'result of %r before that of its dependency %r', x, d)
            same(sorted(began), sorted(srcs), 'calls')
        require(len(set(began)) == len(began), 'called more than once: %r', began)
        orders.append(r)
        S.shutdown()
    if p['fail'] < 0:
        same(orders[1], orders[0], 'results under another completion order')


# --- C14 -----------------------------------------------------------------
def gen_rpc(rng, tier):
    while True:
        clients = []
        for c in range(rng.choice([1, 2, 3, 5])):
            clients.append([rng.choice(['value', 'value', 'raise', 'none', 'wait', 'excvalue', 'same', 'assert'])
                            for _ in range(rng.randint(1, 8))])
        yield dict(clients=clients, early=rng.random() < .3, during=rng.random() < .4, twice=rng.random() < .3)


def run_rpc(p, scratch):
    import fbuild.rpc
    count = {}
    lock = threading.Lock()
    shared = Fail('shared')

    def handler(*args, **kw):
        key, act = args
        with lock:
            count[key] = count.get(key, 0) + 1
        same(kw, {'k': key}, 'keywords of a request')
        require(threading.current_thread() is server, 'a request is executed outside the server thread')
        if act == 'raise':
            raise Fail(key)
        if act == 'assert':
            raise AssertionError(key)
        if act == 'same':
            raise shared
        if act == 'wait':
            time.sleep(random.random() / 300)
        if act == 'excvalue':
            return Fail(key)
        return None if act == 'none' else ('value', key)
    server = fbuild.rpc.RPC(handler)
    server.daemon = True
    if p['early']:
        refused(server, 'before the start')
    server.start()
    out = {}
    answered = []

    def client(c, acts):
        for i, act in enumerate(acts):
            key = (c, i)
            try:
                r = ('value', server.call(key, act, k=key))
            except fbuild.rpc.RPCNotRunning:
                r = ('refused',)
            except BaseException as e:
                r = ('raise', e)
            with lock:
                out[key] = r
                answered.append(key)
    ts = [threading.Thread(target=client, args=(c, acts), daemon=True) for c, acts in enumerate(p['clients'])]
    # the very first request right after the start
    try:
        same(server.call((99, 0), 'value', k=(99, 0)), ('value', (99, 0)), 'request right after the start')
    except fbuild.rpc.RPCNotRunning:
        raise Violation('a request right after the start is refused')
    for t in ts:
        t.start()
    if p['during']:
        time.sleep(random.random() / 200)
        server.join()
        refused(server, 'after the shutdown')
    for t in ts:
        t.join(20)
        require(not t.is_alive(), 'a caller never gets an answer')
    for c, acts in enumerate(p['clients']):
        for i, act in enumerate(acts):
            key = (c, i)
            r = out.get(key)
            what = 'answer of request %r (%s)' % (key, act)
            if r == ('refused',):
                require(p['during'], what + ': refused while running')
                same(count.get(key, 0), 0, what + ': executions of a refused request')
                continue
            same(count.get(key, 0), 1, what + ': executions')
            if act in ('raise', 'assert', 'same'):
                require(r[0] == 'raise', '%s is %r instead of the exception', what, r)
                e = r[1]
                if act == 'same':
                    require(e is shared, '%s raises %r', what, e)
                else:
                    same((type(e), e.args), (Fail if act == 'raise' else AssertionError, (key,)), what)
            elif act == 'excvalue':
                require(r[0] == 'value' and isinstance(r[1], Fail) and r[1].args == (key,), '%s is %r', what, r)
            else:
                same(r, ('value', None if act == 'none' else ('value', key)), what)
    server.join()
    refused(server, 'after the shutdown')
    if p['twice']:
        server.join()
    class Slow(fbuild.rpc.RPC):
        def run(self):
            time.sleep(.01)
            super().run()
    server2 = Slow(lambda x: x + 1)
    server2.daemon = True
    server2.start()
    try:
        same(server2.call(1), 2, 'a second server')
    except fbuild.rpc.RPCNotRunning:
        raise Violation('a request right after the start of a slow thread is refused')
    server2.join()


def refused(server, when):
    import fbuild.rpc
    box = []

    def go():
        try:
            box.append(('value', server.call((0, 0), 'value', k=(0, 0))))
        except fbuild.rpc.RPCNotRunning:
            box.append('refused')
        except BaseException as e:
            box.append(('raise', repr(e)))
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(10)
    require(not t.is_alive(), 'a request %s hangs', when)
    same(box, ['refused'], 'a request %s' % when)


# --- C24 -----------------------------------------------------------------
class Rec:
    """A file that another thread may look at between any two operations."""

    def __init__(self, slow):
        self.parts, self.slow, self.busy = [], slow, False
        self.clash = None

    def write(self, s):
        if self.busy:
            self.clash = s
        self.busy = True
        if self.slow:
            time.sleep(0)
        self.parts.append(s)
        self.busy = False
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return ''.join(self.parts)


def gen_log(rng, tier):
    while True:
        tasks = []
        for t in range(rng.choice([1, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 8)):
                x = rng.random()
                v = rng.choice([0, 0, 1, 2, 3])
                if x < .35:
                    ops.append(['write', v, rng.choice(['', '', '\n']), None])
                elif x < .45:
                    ops.append(['write', v, rng.choice(['', '\n']), False])
                elif x < .6:
                    ops.append(['log', v, '', None])
                elif x < .7:
                    ops.append([rng.choice(['passed', 'failed']), v, '', None])
                elif x < .8:
                    ops.append(['check', v, '', None])
                elif x < .9:
                    ops.append(['check2', v, '', None])
                elif x < .95:
                    ops.append(['obj', v, '', None])
                else:
                    ops.append(['flush', 0, '', None])
            tasks.append(ops)
        yield dict(tasks=tasks, threadcount=rng.choice([1, 1, 2, 4]), verbose=rng.choice([0, 1, 2, 4]), nocolor=rng.random() < .5,
                   mode=rng.choice(['threads', 'threads', 'sched', 'main']), fail=[rng.random() < .3 for _ in tasks],
                   slow=rng.random() < .6, show=rng.random() < .2, nofile=rng.random() < .1)


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def run_log(p, scratch):
    import fbuild.console
    f, con = Rec(p['slow']), Rec(False)
    out = sys.stdout
    sys.stdout = con
    L = fbuild.console.Log(None if p['nofile'] else f, verbose=p['verbose'], nocolor=p['nocolor'],
                           threadcount=p['threadcount'], show_threads=p['show'])
    want_file = {}        # thread -> tokens in order
    want_con = {}
    after = []

    def task(t):
        wf, wc = want_file.setdefault(t, []), want_con.setdefault(t, [])
        for i, (op, v, nl, buf) in enumerate(p['tasks'][t]):
            tok = '<%d.%d>' % (t, i)
            kw = {} if v == 0 and op != 'passed' else {'verbose': v}
            if op == 'write':
                if buf is False:
                    L.write(tok + nl, buffer=False, color='red', **kw)
                else:
                    L.write(tok + nl, **kw)
            elif op in ('log', 'passed', 'failed'):
                getattr(L, op)(tok, **kw)
            elif op == 'check':
                L.check(tok, **kw)
            elif op == 'check2':
                L.check(tok, tok + 'r', color='green', **kw)
            elif op == 'obj':
                L.write(Obj(tok), **kw)
            else:
                L.flush()
                continue
            wf.append(tok)
            if v <= p['verbose']:
                wc.append(tok)
            if op == 'check2':
                wf.append(tok)
                if v <= p['verbose']:
                    wc.append(tok)
        if p['fail'][t]:
            raise Fail(t)

    def in_thread(t):
        try:
            with L.log_from_thread():
                task(t)
        except Fail:
            pass
        after.append((t, f.text()))
    try:
        if p['mode'] == 'main':
            for t in range(len(p['tasks'])):
                try:
                    task(t)
                except Fail:
                    pass
                after.append((t, f.text()))
        elif p['mode'] == 'threads':
            ts = [threading.Thread(target=in_thread, args=(t,)) for t in range(len(p['tasks']))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            import fbuild.sched
            S = fbuild.sched.Scheduler(p['threadcount'], logger=L)

            def one(t):
                with S.interruptible():
                    pass
                try:
                    task(t)
                except Fail:
                    pass
            S.map(one, list(range(len(p['tasks']))))
            bad = [t for t in range(len(p['tasks'])) if p['fail'][t]]
            S.shutdown()
            for t in range(len(p['tasks'])):
                after.append((t, f.text()))
    finally:
        sys.stdout = out
    import re
    require(f.clash is None, 'two threads write to the log file at the same time: %r', f.clash)
    for dest, text, want in (('log file', f.text(), want_file), ('console', con.text(), want_con)):
        if dest == 'log file' and p['nofile']:
            continue
        for t in want:
            got = re.findall(r'<%d\.\d+>' % t, text)
            same(got, want[t], 'messages of thread %d in the %s' % (t, dest))
    if not p['nofile']:
        for t, text in after:
            same(re.findall(r'<%d\.\d+>' % t, text), want_file[t], 'messages of thread %d in the file when its task ended' % t)
    ops = [o for t in p['tasks'] for o in t]
    if not any(o[0] == 'check' for o in ops):
        # a message that is logged as a line ends where the message goes
        for dest, text, lim in (('log file', f.text(), 99), ('console', con.text(), p['verbose'])):
            if not (dest == 'log file' and p['nofile']):
                n = sum(1 for o in ops if o[1] <= lim and (o[2] == '\n' or o[0] in ('log', 'passed', 'failed', 'check2')))
                same(text.count('\n'), n, 'ends of lines in the %s' % dest)
    if p['nocolor']:
        require('\x1b' not in con.text(), 'colours on the console')
    if p['verbose'] >= 5 and not p['nofile'] and p['nocolor']:
        same(con.text(), f.text(), 'console and file')


CASES = {
    'map': (gen_map, run_map, dict(timeout=40)),
    'deps': (gen_deps, run_deps, dict(timeout=40)),
    'rpc': (gen_rpc, run_rpc, dict(timeout=50)),
    'log': (gen_log, run_log, dict(timeout=40)),
}
