"""Histories for the properties of the cache (C01-C04, C06, C08, C11)."""
import random
import world
from lib import *

SHRINK = ('ops', 'sessions')
ENGINES = ('cache', 'pickle', 'sqlite')


def make_world(rng, focus, engine):
    nf = rng.randint(2, 4)
    W = 'w/'
    files = {W + n: 'text %d' % i for i, n in enumerate(rng.sample(
        ['a.c', 'b.c', 'c d.h', 'é.h', 'e.h', 'long-name.x', 'Z', 'y.y'], rng.randint(3, 5)))}
    srcs = sorted(files)
    funs = []
    for i in range(nf):
        params = []
        if focus in ('src', 'mixed', 'hit', 'fail', 'ext', 'del') and rng.random() < .7:
            params.append(('p', rng.choice(['SRC', 'SRC', 'SRCS', 'OPTIONAL_SRC'])))
        if focus in ('dst', 'mixed', 'hit') and rng.random() < .6:
            params.append(('q', rng.choice(['DST', 'DSTS', 'OPTIONAL_DST'])))
        ret = rng.choice(['DST', 'DSTS', 'OPTIONAL_DST']) if focus in ('dst', 'mixed', 'hit') and rng.random() < .5 else None
        kind = 'method' if rng.random() < .2 else 'caches'
        funs.append(dict(name='f%d' % i, kind=kind, params=params, ret=ret))
    w = dict(engine=engine, functions=funs, files=files, tables=[{}], sessions=[], mtime_step=rng.choice([1, 7, 1000]),
             fraction=rng.random() < .3)
    ks = list(range(rng.randint(2, 3)))

    def call(f, k):
        r = random.Random('%s/%s/%d' % (w['seed'], f['name'], k))
        fs = {}
        for p, ann in f['params']:
            pool = srcs if 'SRC' in ann else [W + 'd%d' % j for j in range(3)]
            if ann in ('SRCS', 'DSTS'):
                fs[p] = [r.choice(pool) for _ in range(r.randint(0, 3))]
            elif ann.startswith('OPTIONAL') and r.random() < .4:
                fs[p] = None
            else:
                fs[p] = r.choice(pool)
        return dict(f=f['name'], k=k, files=fs)
    w['seed'] = rng.random()
    cyc = focus == 'fun' and rng.random() < .4

    def behaviours():
        t = {}
        for i, f in enumerate(funs):
            for k in ks:
                b = {}
                if focus in ('fun', 'mixed', 'ext', 'fail', 'hit'):
                    cs = []
                    for _ in range(rng.randint(0, 2)):
                        if cyc and k > 0:
                            cs.append(call(rng.choice(funs), k - 1))
                        elif not cyc and i + 1 < nf:
                            cs.append(call(rng.choice(funs[i + 1:]), rng.choice(ks)))
                    if cs:
                        b['calls'] = cs
                if focus in ('src', 'ext', 'mixed', 'fail', 'del') and rng.random() < .6:
                    b['ext_srcs'] = rng.sample(srcs, rng.randint(1, 2))
                if focus in ('dst', 'ext', 'mixed') and rng.random() < .5:
                    b['ext_dsts'] = [W + 'x%d' % rng.randint(0, 3) for _ in range(rng.randint(1, 2))]
                if b.get('ext_srcs') or b.get('ext_dsts'):
                    b['reg_at'] = rng.randint(0, 1)
                if focus == 'fail' and rng.random() < .35:
                    b['fail'] = True
                if focus == 'fail' and rng.random() < .5:
                    b['catch'] = True
                if f['ret']:
                    n = 1 if f['ret'] != 'DSTS' else rng.randint(0, 3)
                    if f['ret'] == 'OPTIONAL_DST' and rng.random() < .4:
                        n = 0
                    b['ret_dsts'] = [W + 'r%d' % rng.randint(0, 4) for _ in range(n)]
                if b:
                    t['%s/%d' % (f['name'], k)] = b
        return t
    table = behaviours()
    w['tables'] = [table]
    fresh = [0]
    for si in range(1 if engine == 'cache' else rng.randint(2, 4)):
        s = dict(ops=[], versions={})
        if si and focus in ('fun', 'mixed', 'fail') and rng.random() < .8:
            for f in rng.sample(funs, rng.randint(1, 2)):
                s['versions'][f['name']] = si + 1
            if focus == 'fun' and rng.random() < .25:
                table = behaviours()
                s['table'] = dict(table)
                for f in funs:
                    for k in ks:
                        s['table'].setdefault('%s/%d' % (f['name'], k), {})
        if focus == 'fail' and rng.random() < .7:
            # the same functions, failing elsewhere
            t2 = {}
            for key, b in table.items():
                b = dict(b)
                b['fail'] = rng.random() < .3
                t2[key] = b
            s['table'] = t2
        elif si and focus == 'ext' and rng.random() < .5:
            s['table'] = dict(table)
            for key, b in list(s['table'].items()):
                if rng.random() < .5:
                    b = dict(b)
                    b['ext_srcs'] = rng.sample(srcs, rng.randint(0, 2))
                    s['table'][key] = b
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            if x < .62 or focus == 'fun' or focus == 'del' and x < .95:
                s['ops'].append(['call', call(rng.choice(funs), rng.choice(ks))])
            elif x < .88 and focus in ('src', 'mixed', 'ext', 'hit', 'fail'):
                y = rng.random()
                if focus == 'hit' and y < .4:
                    s['ops'].append(['touch', rng.choice(srcs)])
                elif focus == 'hit':
                    # a call stored again after a change is found again
                    c = call(rng.choice(funs), rng.choice(ks))
                    mine = [f for p, a in next(f for f in funs if f['name'] == c['f'])['params'] if 'SRC' in a
                            for f in (c['files'][p] if isinstance(c['files'][p], list) else [c['files'][p]]) if f]
                    fresh[0] += 1
                    s['ops'] += [['call', c], ['write', rng.choice(mine or srcs), 'new %d' % fresh[0]], ['call', c]]
                    if engine != 'cache' and rng.random() < .4:
                        s['ops'].append(['reopen'])
                    s['ops'].append(['call', c])
                elif y < .7:
                    fresh[0] += 1
                    s['ops'].append(['write', rng.choice(srcs), 'new %d' % fresh[0]])
                elif y < .8:
                    s['ops'].append(['touch', rng.choice(srcs)])
                else:
                    f = rng.choice(srcs)
                    s['ops'].append(['remove', f])
                    s['ops'].append(['call', call(rng.choice(funs), rng.choice(ks))])
                    # never the contents of an earlier version: a file that changed and changed back
                    # has changed, and the calls that read it may run again
                    fresh[0] += 1
                    s['ops'].append(rng.choice([['write', f, 'new %d' % fresh[0]], ['restore', f]]))
            elif focus in ('dst', 'mixed', 'ext') and x < .95:
                s['ops'].append(['remove', W + rng.choice(['d0', 'd1', 'd2', 'x0', 'x1', 'x2', 'x3', 'r0', 'r1', 'r2', 'r3'])])
            elif engine != 'cache':
                s['ops'].append(['reopen'])
        if focus == 'del' or focus == 'mixed':
            for _ in range(rng.randint(1, 2)):
                i = rng.randint(min(1, len(s['ops'])), len(s['ops']))
                if rng.random() < .6:
                    cs = [f['name'] for f in funs if f['kind'] == 'caches']
                    if cs:
                        s['ops'].insert(i, ['delfun', rng.choice(cs)])
                elif focus == 'del':
                    s['ops'].insert(i, ['delfile', rng.choice(srcs)])
        w['sessions'].append(s)
    return w


def gen(focus):
    def g(rng, tier):
        while True:
            for e in ENGINES:
                yield make_world(rng, focus, e)
    return g


def run(w, scratch):
    world.run_history(w, scratch)


def parallel_enclosing(rng, tier):
    for e in ENGINES:
        yield dict(engine=e, n=rng.randint(2, 4))


def run_parallel(p, scratch):
    """Files registered on a worker thread do not reach the call waiting for it on another thread."""
    import fbuild.db, threading
    ctx = world.new_ctx(scratch, p['engine'], threads=4)
    for n in 'ab':
        world.write(n, n)
    m = write_module(scratch, 'pmod', '''
import fbuild.db, threading
@fbuild.db.caches
def inner(ctx, i):
    ctx.db.add_external_dependencies_to_call(srcs=['a'], dsts=[])
    return i
@fbuild.db.caches
def outer(ctx):
    t = threading.Thread(target=lambda: inner(ctx, 1))
    t.start(); t.join()
    ctx.db.add_external_dependencies_to_call(srcs=['b'])
    return 0
@fbuild.db.caches
def other(ctx):
    return 5
''')
    r = m.outer.call(ctx)
    same(sorted(r[1]), ['b'], 'sources of the call waiting for another thread')
    same(sorted(m.inner.call(ctx, 1)[1]), ['a'], 'sources of the call on the worker thread')
    same(sorted(m.other.call(ctx)[1]), [], 'sources of a call made later')
    world.end_ctx(ctx)


def parallel_fun(rng, tier):
    while True:
        nf, nh = rng.randint(2, 3), rng.randint(1, 3)
        funs = []
        for i in range(nf):
            funs.append([dict(h=rng.randrange(nh), how=rng.choice(['call', 'call', 'map'])) for _ in range(rng.randint(0, 2))])
        turns = [i for i in range(nf) for _ in range(len(funs[i]) + 1)]
        rng.shuffle(turns)
        yield dict(engine=rng.choice(ENGINES[1:]), nh=nh, funs=funs, turns=turns, threads=rng.randint(nf, 4), changed=rng.randrange(nh))


PAR_HEAD = '''
import fbuild.db, threading
cond = threading.Condition()
turns = []
RAN = []
def turn(i):
    with cond:
        cond.wait_for(lambda: not turns or turns[0] == i, .5)
def done(i):
    with cond:
        if turns and turns[0] == i:
            turns.pop(0)
        cond.notify_all()
'''


def run_parallel_fun(p, scratch):
    """Cached functions that run at the same time depend on what they called, whatever the schedule."""
    def text(ver):
        t = [PAR_HEAD]
        for h in range(p['nh']):
            t += ['@fbuild.db.caches', 'def h%d(ctx):' % h, '    RAN.append("h%d")' % h,
                  '    return %d' % (ver if h == p['changed'] else 0), '']
        for i, cs in enumerate(p['funs']):
            t += ['@fbuild.db.caches', 'def f%d(ctx):' % i, '    RAN.append("f%d")' % i, '    r = []']
            for c in cs:
                t += ['    turn(%d)' % i,
                      '    r.append(%s)' % ('h%d(ctx)' % c['h'] if c['how'] == 'call' else
                                            'ctx.scheduler.map(h%d, [ctx])[0]' % c['h']),
                      '    done(%d)' % i]
            t += ['    turn(%d)' % i, '    done(%d)' % i, '    return r', '']
        return '\n'.join(t)

    def session(ver, parallel):
        def go():
            import fbuild.db
            m = write_module(os.path.join(scratch, str(ver)), 'pfmod', text(ver))
            ctx = world.new_ctx(scratch, p['engine'], threads=p['threads'])
            n = range(len(p['funs']))
            if parallel:
                m.turns.extend(p['turns'])
                got = ctx.scheduler.map(lambda i: getattr(m, 'f%d' % i)(ctx), list(n))
            else:
                got = [getattr(m, 'f%d' % i)(ctx) for i in n]
            same(got, [[ver if c['h'] == p['changed'] else 0 for c in cs] for cs in p['funs']],
                 'results in %s' % ('the first run' if ver == 1 else 'a run after h%d changed' % p['changed']))
            if not parallel:
                want = ['f%d' % i for i in n if any(c['h'] == p['changed'] for c in p['funs'][i])]
                same([r for r in m.RAN if r[0] == 'f'], want, 'functions that ran after h%d changed' % p['changed'])
            ctx.save_configuration()
            ctx.db.shutdown()
            ctx.scheduler.shutdown()
        kind, v = in_child(go, 30)
        if kind != 'ok':
            raise Violation('%s %s' % (kind if kind != 'bad' else '', v))
    session(1, True)
    session(2, False)


def write_module(scratch, name, text):
    d = os.path.join(scratch, 'mods')
    os.makedirs(d, exist_ok=True)
    world.write(os.path.join(d, name + '.py'), text)
    if d not in sys.path:
        sys.path.insert(0, d)
    return __import__(name)


CASES = {
    'src': (gen('src'), run), 'fun': (gen('fun'), run), 'dst': (gen('dst'), run), 'hit': (gen('hit'), run),
    'fail': (gen('fail'), run), 'del': (gen('del'), run), 'ext': (gen('ext'), run), 'mixed': (gen('mixed'), run),
    'parallel_fun': (parallel_fun, run_parallel_fun),
    'parallel_enclosing': (parallel_enclosing, run_parallel),
}
