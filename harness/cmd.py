"""Commands and command lines: execution, targets, compiler settings (C15, C18, C21)."""
import io
import itertools
import os
import random
import signal
import sys
import time

from lib import *

SHRINK = ('inputs', 'targets', 'libs')
RULE = 'random settings and commands, compared to an independent oracle'


class Con:
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return ''.join(self.parts)


def context(verbose=0, threads=1):
    import fbuild.context
    ctx = fbuild.context.make_default_context(['--buildroot=BUILD', '--state-file=state', '-j%d' % threads, '--nocolor'] + ['-v'] * verbose)
    ctx.create_buildroot()
    ctx.load_configuration()
    return ctx


# --- C15 -----------------------------------------------------------------
CHILD = ('import sys,os,json,signal,time\n'
         'p=json.loads(sys.argv[1])\n'
         'if p.get("env"):\n'
         '    os.write(1,json.dumps({k:os.environ.get(k) for k in p["env"]}).encode())\n'
         'if p.get("cat"): os.write(1,sys.stdin.buffer.read())\n'
         'os.write(1,bytes.fromhex(p["out"])*p["n"]); os.write(2,bytes.fromhex(p["err"]))\n'
         'if p.get("cwd"): os.write(1,os.getcwd().encode())\n'
         'if p.get("sleep"): time.sleep(p["sleep"])\n'
         'if p.get("kill"): os.kill(os.getpid(),p["kill"])\n'
         'sys.stdout.flush(); os._exit(p["code"])\n')


def gen_exec(rng, tier):
    while True:
        inputs = []
        for i in range(5):
            outs = ['', '', 'hello\n', 'a\n\nb', 'é€', ' x ', '\n']
            p = dict(code=rng.choice([0, 0, 0, 1, 2, 3, 127, 255]),
                     out=rng.choice([s.encode().hex() for s in outs] + ['ff00fe', '80']),
                     err=rng.choice([s.encode().hex() for s in outs] + ['fffe0a']), n=rng.choice([1, 1, 1, 70000]))
            if rng.random() < .12:
                p['kill'] = rng.choice([signal.SIGTERM, signal.SIGKILL, signal.SIGABRT])
            if rng.random() < .3:
                p['env'] = ['A1', 'B2', 'HOME', 'LD_LIBRARY_PATH', 'PATH', 'NEW']
            if rng.random() < .2:
                p['cat'] = True
            if rng.random() < .15:
                p['cwd'] = True
            how = rng.choice(['list', 'list', 'list', 'tuple', 'shell', 'missing', 'noaccess']) if rng.random() < .5 else 'list'
            t = rng.choice([None, None, None, None, 30, 30, .4])
            if t == .4:
                p['sleep'] = rng.choice([25, 25, 0])
            inputs.append(dict(p=p, how=how, timeout=t, ignore=rng.random() < .25, quieter=rng.choice([0, 0, 1, 2]),
                               oq=rng.choice([None, None, 0, 2]), eq=rng.choice([None, None, 0, 2]),
                               env=rng.choice([None, None, {}, {'A1': 'x', 'NEW': 'n w'}, {'LD_LIBRARY_PATH': '/given'}, {'B2': ''}]),
                               lp=rng.choice([None, None, [], ['/l1'], ['/l1', 'rel/l2'], ['l 3']]),
                               environ=rng.choice([{}, {'A1': 'outer'}, {'LD_LIBRARY_PATH': '/outer'}, {'LD_LIBRARY_PATH': ''}]),
                               input=rng.choice([None, None, 'text in', '']), msg=rng.choice([0, 1, 2]),
                               sep=rng.choice(['pipe', 'pipe', 'pipe', 'none', 'merge'])))
        yield dict(inputs=inputs, verbose=rng.choice([0, 1, 2]), worker=rng.random() < .2)


def run_exec(p, scratch):
    import fbuild
    import fbuild.subprocess
    for x in p['inputs']:
        ctx = context(p['verbose'], 2 if p['worker'] else 1)
        try:
            if p['worker']:
                ctx.scheduler.map(lambda y: one_exec(ctx, x, p['verbose'], scratch), [1])
            else:
                one_exec(ctx, x, p['verbose'], scratch)
        finally:
            ctx.db.shutdown()
            ctx.scheduler.shutdown()


def one_exec(ctx, x, verbose, scratch):
    import fbuild
    import fbuild.subprocess
    import json
    q = dict(x['p'])
    if x['input'] is None:
        q['cat'] = False
    token = 'tok%d' % random.randrange(10 ** 9)
    cmd = ['/usr/bin/python3', '-S', '-c', CHILD, json.dumps(q), token]
    how = x['how']
    kw = {}
    if how == 'shell':
        import shlex
        cmd, kw = 'exec ' + ' '.join(map(shlex.quote, cmd)), {'shell': True}
    elif how == 'tuple':
        cmd = tuple(cmd)
    elif how == 'missing':
        cmd = ['./no-such-program', token]
    elif how == 'noaccess':
        with open('plain', 'w') as f:
            f.write('x')
        os.chmod('plain', 0o644)
        cmd = ['./plain', token]
    for k in ('env', 'timeout'):
        if x[k] is not None:
            kw[k] = x[k]
    if x['lp'] is not None:
        kw['runtime_libpaths'] = x['lp']
    if x['ignore']:
        kw['ignore_error'] = True
    if x['quieter']:
        kw['quieter'] = x['quieter']
    if x['oq'] is not None:
        kw['stdout_quieter'] = x['oq']
    if x['eq'] is not None:
        kw['stderr_quieter'] = x['eq']
    if x['input'] is not None:
        kw['input'] = x['input'].encode()
    if x['sep'] == 'none':
        kw['stdout'] = kw['stderr'] = None
    elif x['sep'] == 'merge':
        kw['stderr'] = fbuild.subprocess.STDOUT
    args = ['m1', 'm2'][:x['msg']]
    old = dict(os.environ)
    os.environ.update(x['environ'])
    outer = dict(os.environ)
    given = None if x['env'] is None else dict(x['env'])
    con, out = Con(), sys.stdout
    sys.stdout = con
    t0 = time.time()
    try:
        try:
            r = ('return', ctx.execute(cmd, *args, **kw))
        except fbuild.ExecutionTimedOut as e:
            r = ('timeout', e)
        except fbuild.ExecutionError as e:
            r = ('error', e)
        except OSError as e:
            r = ('os', e)
    finally:
        sys.stdout = out
        after = dict(os.environ)
        os.environ.clear()
        os.environ.update(old)
    took = time.time() - t0
    short = {k: v for k, v in x.items() if k != 'p'}
    what = 'command %s%r' % (short, {k: (v if len(str(v)) < 99 else '...') for k, v in q.items()})
    same(after, outer, what + ': environment of this process afterwards')
    same(x['env'], given, what + ': the given variables afterwards')
    if how in ('missing', 'noaccess'):
        same(r[0], 'os', what + ': outcome')
        return
    # what the command writes
    env = dict(outer, **(x['env'] or {}))
    if x['lp']:
        had = env.get('LD_LIBRARY_PATH')
        env['LD_LIBRARY_PATH'] = ':'.join(([had] if had is not None else []) + x['lp'])
    o = b''
    if q.get('env'):
        o += json.dumps({k: env.get(k) for k in q['env']}).encode()
    if q.get('cat'):
        o += (x['input'] or '').encode()
    body, e = bytes.fromhex(q['out']) * q['n'], bytes.fromhex(q['err'])
    tail = scratch.encode() if q.get('cwd') else b''
    tail = os.path.realpath(scratch).encode() if q.get('cwd') else b''
    if x['sep'] == 'merge':
        o, e = o + body + e + tail, None
    else:
        o += body + tail
    if x['sep'] == 'none':
        o = e = None
    slept = x['timeout'] == .4
    code = -q['kill'] if q.get('kill') else q['code']
    if slept and q['sleep']:
        same(r[0], 'timeout', what + ': outcome')
        require(took < 20, '%s: was not ended at its limit', what)
    elif slept and r[0] == 'timeout' and took >= .39:
        pass                # too slow on this machine
    elif code and not x['ignore']:
        if how == 'shell' and code < 0:
            code = 128 - code if r[0] == 'error' and r[1].returncode > 0 else code
        same(r[0], 'error', what + ': outcome')
        same(r[1].returncode, code, what + ': status of the error')
    else:
        same(r[0], 'return', what + ': outcome')
        require(isinstance(r[1], tuple) and len(r[1]) == 2, '%s returns %r', what, r[1])
        same(r[1], (o, e), what + ': output')
    if r[0] in ('error', 'timeout'):
        same(r[1].cmd, cmd, what + ': command of the error')
        if not (slept and r[0] == 'timeout'):
            same((r[1].stdout, r[1].stderr), (o, e), what + ': output of the error')
        str(r[1])
    # logging
    failed = r[0] != 'return' or code != 0
    level = x['quieter'] if failed else 1
    shown = token in con.text()
    same(shown, level <= verbose, what + ': the command is shown on the console at verbosity %d' % verbose)


# --- C18 -----------------------------------------------------------------
def gen_targets(rng, tier):
    pool = ['configure', 'build', 'install', 'docs', 'check', 'nope']
    while True:
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        t = [rng.choice(pool[:5] if rng.random() < .93 else pool) for _ in range(n)]
        if rng.random() < .45:
            t = [x for x in t if x != 'install'] + ['install']
        yield dict(targets=t, registered=[x for x in ('configure', 'build', 'docs', 'check') if rng.random() < .85],
                   hooks=[h for h in ('pre_install', 'post_install') if rng.random() < .6], via=rng.choice(['build', 'build', 'main']),
                   raises=rng.choice(t) if t and rng.random() < .1 else None, decorated=rng.random() < .5)


def run_targets(p, scratch):
    import types
    sys.path.insert(0, scratch)
    import fbuild
    import fbuild.main
    import fbuild.target
    import fbuild.console
    from fbuild.path import Path
    os.makedirs('files')
    for n in ('one', 'two'):
        with open('files/' + n, 'w') as f:
            f.write(n)
    trace = []
    root = types.ModuleType('fbuildroot')
    stage = os.path.join(scratch, 'stage')

    def there():
        return sorted(os.listdir(stage + '/bin')) if os.path.isdir(stage + '/bin') else []

    def mk(name):
        def f(ctx):
            trace.append((name, there()))
            if p['raises'] == name:
                raise fbuild.Error('raised by ' + name)
        f.__name__ = name
        return f
    for t in p['registered']:
        f = mk(t)
        if t in ('configure', 'build'):
            setattr(root, t, f)
        elif p['decorated']:
            fbuild.target.register()(f)
        else:
            g = mk(t)
            g.__name__ = 'other_' + t
            fbuild.target.register(name=t, help='x')(g)
    for h in p['hooks']:
        setattr(root, h, mk(h))
    def post_arguments(parser, args):
        return args
    fbuild.main.fbuildroot = root
    req = list(p['targets'])
    via_main = p['via'] == 'main'

    def prepare(ctx):
        ctx.install_destdir = Path(stage)
        ctx.install_prefix = Path('/')
        ctx.install('files/one', 'bin')
        ctx.install('files/two', 'bin')
    if via_main:
        import fbuild.context
        init = fbuild.context.Context.create_buildroot

        def patched(self):
            init(self)
            prepare(self)
        fbuild.context.Context.create_buildroot = patched
        try:
            r = ('return', fbuild.main.main(['fbuild', '--buildroot=BUILD'] + req))
        except SystemExit as e:
            r = ('error', e.code)
        if not req:
            req = ['build']
    else:
        for t in ('configure', 'build'):
            if hasattr(root, t):
                fbuild.target.register(name=t)(getattr(root, t))
        ctx = context()
        prepare(ctx)
        ctx.options.targets = list(req)
        try:
            r = ('return', fbuild.main.build(ctx))
        except fbuild.Error as e:
            r = ('error', e)
        finally:
            ctx.db.shutdown()
            ctx.scheduler.shutdown()
    what = 'targets %r with %r registered and hooks %r' % (req, p['registered'], p['hooks'])
    # the oracle
    if 'install' in req[:-1]:
        require(r[0] == 'error', '%s: install is not refused though it is not last', what)
        same(trace, [], what + ': targets run')
        return
    plan = req[:]
    if 'install' in plan and all(t in ('configure', 'install') for t in plan):
        plan.insert(plan.index('install'), 'build')
    want, err = [], False
    for t in plan:
        if t == 'install':
            if 'pre_install' in p['hooks']:
                want.append(('pre_install', []))
            if 'post_install' in p['hooks']:
                want.append(('post_install', ['one', 'two']))
        elif t not in p['registered']:
            err = True
            break
        else:
            want.append((t, []))
        if p['raises'] == t and t != 'install':
            err = True
            break
    same(trace, want, what + ': targets and hooks run')
    same(r[0], 'error' if err else 'return', what + ': outcome')
    if not err:
        same(there(), ['one', 'two'] if 'install' in plan else [], what + ': installed files')
        same(r[1], 0, what + ': status')


# --- C21 -----------------------------------------------------------------
def gen_gcc(rng, tier):
    while True:
        n = rng.choice([0, 0, 1, 2, 3, 5, 7])
        libs = []
        for i in range(n):
            libs.append(dict(name='%s/lib%s%d%s' % (rng.choice(['b', 'b/sub', 'c', '/abs']), rng.choice(['x', 'y', 'z', 'lib']), i,
                                                   rng.choice(['.a', '.so', '.1.so'])),
                             deps=rng.sample(range(i), rng.randint(0, min(i, 3))), lp=rng.sample(['lp1', 'lp2', 'lp3', '/lp4'], rng.randint(0, 2)),
                             ext=rng.sample(['m', 'dl', 'z', 'pthread'], rng.randint(0, 2)), plain=rng.random() < .15))
        def some(pool, k=3):
            return [rng.choice(pool) for _ in range(rng.randint(0, k))]
        def both(pool):
            return [some(pool), some(pool)]
        top = rng.sample(range(n), rng.randint(0, n)) if n else []
        k = rng.randint(0, len(top))
        yield dict(libs=libs, mine=top[:k], given=top[k:] + ([rng.choice(top)] if top and rng.random() < .3 else []),
                   includes=both(['i1', 'i2', '/i3', 'i 4', '', 'src']), macros=both(['A', 'B=1', 'C="x y"', 'D']),
                   warnings=both(['all', 'error', 'no-x']), libpaths=both(['lp1', 'q1', 'q2', '']), machine=both(['32', '64', 'arch=x', '']),
                   ext=both(['m', 'ssl', 'crypto']), ldlibs=both(['-lspecial', '-Wl,x']), flags=both(['-fPIC', '-std=c99', '-c', '-s']),
                   pre=both(['-c', '-shared', '-v'])
                   , debug=[rng.random() < .3, rng.choice([None, None, True, False])],
                   opt=[rng.random() < .3, rng.choice([None, None, True, False])],
                   prof=[rng.random() < .3, rng.choice([None, None, True, False])], arch=[rng.choice([None, None, 'ppc']), rng.choice([None, None, 'arm'])],
                   srcs=[rng.choice(['src/b.c', 'src/a.c', 'x.c', 'd/e f.c', '/abs/g.o', 'é.c', 'src/b2.c']) for _ in range(rng.randint(1, 4))],
                   dst=rng.choice([None, 'out', 'build/out.o']), isd=rng.choice([None, True, False]), cls=rng.choice(['gcc', 'gcc', 'clang']))


def once(seq):
    out = []
    for x in seq:
        if x not in out:
            out.append(x)
    return out


def gen_gccs(rng, tier):
    g = gen_gcc(rng, tier)
    while True:
        yield dict(inputs=[next(g) for _ in range(25)])


def run_gccs(p, scratch):
    for x in p['inputs']:
        run_gcc(x, scratch)


def run_gcc(p, scratch):
    import fbuild.builders.c as C
    import fbuild.builders.c.gcc as G
    import fbuild.builders.c.clang
    from fbuild.path import Path
    objs = []
    for l in p['libs']:
        if l['plain']:
            objs.append(l['name'])
        else:
            objs.append(C.Library(l['name'], libpaths=l['lp'], libs=[objs[d] for d in l['deps']], external_libs=l['ext']))
    cls = G.Gcc if p['cls'] == 'gcc' else fbuild.builders.c.clang.Clang
    b = object.__new__(cls)
    box = {}

    class Ctx:
        def execute(self, cmd, *a, **k):
            require('cmd' not in box, 'two commands')
            box.update(cmd=list(cmd), k=k)
            return b'out', b'err'
    d = b.__dict__
    d.update(ctx=Ctx(), exe=Path('/usr/bin/gcc'), src_suffix='.c', pre_flags=tuple(p['pre'][0]), flags=tuple(p['flags'][0]),
             includes=tuple(p['includes'][0]), macros=tuple(p['macros'][0]), warnings=tuple(p['warnings'][0]),
             libpaths=tuple(p['libpaths'][0]), libs=tuple(objs[i] for i in p['mine']), ldlibs=tuple(p['ldlibs'][0]),
             external_libs=tuple(p['ext'][0]), debug=p['debug'][0], profile=p['prof'][0], optimize=p['opt'][0],
             debug_flags=('-g',), profile_flags=('-pg',), optimize_flags=('-O2', '-O9'), arch=p['arch'][0], machine_flags=tuple(p['machine'][0]))
    kw = dict(pre_flags=p['pre'][1], flags=p['flags'][1], includes=p['includes'][1], macros=p['macros'][1], warnings=p['warnings'][1],
              libpaths=p['libpaths'][1], libs=[objs[i] for i in p['given']], ldlibs=p['ldlibs'][1], external_libs=p['ext'][1],
              debug=p['debug'][1], profile=p['prof'][1], optimize=p['opt'][1], arch=p['arch'][1], machine_flags=p['machine'][1])
    import copy
    kw0 = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    if p['isd'] is not None:
        kw['include_source_dirs'] = p['isd']
    box0 = {k: v for k, v in d.items()}
    same(b(list(p['srcs']), p['dst'], quieter=1, **kw), (b'out', b'err'), 'value')
    what = 'command of %r' % (p,)
    cmd = [str(c) for c in box['cmd']]
    same(box['k'].get('quieter'), 1, what + ': other options')
    same({k: v for k, v in kw.items() if k in kw0}, kw0, what + ': the given settings afterwards')
    same({k: v for k, v in d.items()}, box0, what + ': the builder afterwards')
    # which libraries are needed
    need = []

    def walk(i):
        if i in need:
            return
        if not p['libs'][i]['plain']:
            for x in p['libs'][i]['deps']:
                walk(x)
        need.append(i)
    for i in p['mine'] + p['given']:
        walk(i)
    real = [p['libs'][i] for i in need]
    lps = set(p['libpaths'][0] + p['libpaths'][1])
    ext = set(p['ext'][0] + p['ext'][1])
    for l in real:
        lps.add(os.path.dirname(l['name']))
        if not l['plain']:
            lps |= set(l['lp'])
            ext |= set(l['ext'])
    inc = set(p['includes'][0] + p['includes'][1])
    if p['isd'] is not False:
        inc |= {os.path.dirname(s) for s in p['srcs']}
    same(cmd[0], '/usr/bin/gcc', what + ': program')
    # the sources, in order and together
    n = len(p['srcs'])
    at = [i for i in range(len(cmd) - n + 1) if cmd[i:i + n] == p['srcs']]
    require(at, '%s: the sources are not there in order: %r', what, cmd)
    at = at[-1]
    opts, tail = cmd[1:at], cmd[at + n:]

    special = {'-s', '-shared', '-std=c99', '-v', '-c', '-fPIC', '-g', '-pg', '-O2', '-O9', '-lspecial', '-Wl,x', '-arch', '-o'}

    def settings(prefix):
        out = []
        for c in cmd[1:at] + tail:
            if c.startswith(prefix) and c not in special:
                out.append(c[len(prefix):])
        return sorted(out)
    same(settings('-I'), sorted(x for x in inc if x), what + ': include paths of %r' % cmd)
    same(settings('-D'), sorted(set(p['macros'][0] + p['macros'][1])), what + ': macros of %r' % cmd)
    same(settings('-W'), sorted(set(p['warnings'][0] + p['warnings'][1])), what + ': warnings of %r' % cmd)
    same(settings('-L'), sorted(x for x in lps if x), what + ': library paths of %r' % cmd)
    same(settings('-m'), sorted(x for x in set(p['machine'][0] + p['machine'][1]) if x), what + ': machine flags of %r' % cmd)
    for f in set(p['flags'][0] + p['flags'][1]) | set(p['pre'][0] + p['pre'][1]):
        require(f in opts, '%s: %s is missing in %r', what, f, cmd)
    for i, key, fl in ((0, 'debug', ['-g']), (1, 'prof', ['-pg']), (2, 'opt', ['-O2', '-O9'])):
        on = p[key][0] if p[key][1] is None else p[key][1]
        for f in fl:
            same(opts.count(f), 1 if on else 0, '%s: %s of %r' % (what, f, cmd))
    if p['dst'] is not None:
        same(opts.count('-o'), 1, '%s: output options of %r' % (what, cmd))
        same(opts[opts.index('-o') + 1], p['dst'], '%s: output of %r' % (what, cmd))
    else:
        require('-o' not in cmd, '%s: an output is named in %r', what, cmd)
    names = [os.path.basename(l['name'])[3:].rsplit('.', 1)[0] for l in real]
    want_ld = p['ldlibs'][0] + p['ldlibs'][1]
    require(not [c for c in opts if c.startswith('-l')], '%s: a library before the sources in %r', what, cmd)
    if '-c' in opts:
        same(tail, [], '%s: after the sources when only compiling' % what)
        return
    got = [c[2:] for c in tail if c.startswith('-l') and c != '-lspecial']
    same(sorted(got), sorted(names + sorted(ext)), '%s: libraries of %r' % (what, cmd))
    same([c for c in tail if c in ('-lspecial', '-Wl,x')], want_ld, what + ': linker options of %r' % cmd)
    pos = {x: got.index(x) for x in names}
    byid = dict(zip(need, names))
    for i in need:
        if not p['libs'][i]['plain']:
            for x in p['libs'][i]['deps']:
                require(pos[byid[i]] < pos[byid[x]], '%s: library %s after %s which it depends on, in %r', what, byid[i], byid[x], cmd)
    for i in need:
        for x in (p['libs'][i]['ext'] if not p['libs'][i]['plain'] else []):
            require(pos[byid[i]] < got.index(x), '%s: library %s after the external %s which it depends on, in %r', what, byid[i], x, cmd)


CASES = {
    'exec': (gen_exec, run_exec, dict(timeout=120)),
    'targets': (gen_targets, run_targets),
    'gcc': (gen_gccs, run_gccs),
}
