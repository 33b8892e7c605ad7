"""Files on disk: crash-safe saving, installing, templates, program lookup (C09, C17, C22, C23)."""
import builtins
import io
import json
import os
import random
import re
import resource
import shutil
import signal
import stat
import string
import sys

from lib import *
import store

SHRINK = ('ops1', 'ops2', 'items', 'inputs')
RULE = 'random histories and files in a scratch directory, compared to an independent oracle'


# --- C09 -----------------------------------------------------------------
def gen_save(rng, tier):
    g = store.gen('store')(rng, tier)
    while True:
        a, b = next(g), next(g)
        ops = [o for o in a['ops'] + b['ops'] if o[0] in ('fun', 'call', 'cfile', 'ext', 'file', 'delfun', 'delfile')]
        k = rng.randint(1, max(1, len(ops) - 1))
        yield dict(ops1=ops[:k], ops2=ops[k:], big=rng.choice([0, 0, 10, 3000, 200000]), first=rng.random() < .2,
                   left=rng.choice(['', '', 'tmp', 'old', 'both', 'oldonly']), name=rng.choice(['state', 'sub/state.db', 'st ate', 'state.tmp']),
                   fail=rng.random() < .25)


def apply_ops(db, ops, M, tag):
    import fbuild.path
    Path = fbuild.path.Path
    B = store.bounds()
    for op in ops:
        k = op[0]
        if k == 'fun':
            fid = db.find_function(op[1])[0]
            db.save_function(fid, op[1], op[2], tuple(op[3]))
            M.funs[op[1]] = (op[2], sorted(set(op[3])))
        elif k in ('call', 'cfile', 'ext'):
            fid = db.find_function(op[1])[0]
            if fid is None:
                continue
            dirty, cid, _ = db.find_call(fid, B[op[2]])
            key = (op[1], op[2])
            if k == 'call':
                db.save_call(cid, fid, B[op[2]], {'result': op[3]})
                M.calls[key] = op[3]
            elif cid is None:
                continue
            elif k == 'cfile':
                fi = db.add_file(op[3])[1]
                M.files[op[3]] = store.real(Path, op[3])
                db.save_call_file(cid, fi, op[4])
                M.cfiles[key + (op[3],)] = op[4]
            else:
                db.save_external_files(cid, set(op[3]), set(op[4]))
                M.exts[key] = (sorted(op[3]), sorted(op[4]))
                for x in op[3]:
                    M.files[x] = store.real(Path, x)
                    M.cfiles[key + (x,)] = M.files[x][1]
        elif k == 'file':
            fid = db.find_file(op[1])[0]
            db.save_file(fid, op[1], op[2], op[3])
            M.files[op[1]] = (op[2], op[3])
        elif k == 'delfun':
            db.delete_function(op[1])
            M.funs.pop(op[1], None)
            for d in (M.calls, M.cfiles, M.exts):
                for key in [x for x in d if x[0] == op[1]]:
                    del d[key]
        elif k == 'delfile':
            db.delete_file(op[1])
            M.files.pop(op[1], None)
            for key in [x for x in M.cfiles if x[2] == op[1]]:
                del M.cfiles[key]


class Died(BaseException):
    pass


def guarded(n, action, fail):
    """Run action in a child that dies (or meets an error) before its n-th change of the file system, or
    inside the write that would exceed a size (n < 0).  Returns the number of operations it reached, or None
    when it died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            count = [0]

            def step():
                count[0] += 1
                if count[0] == n:
                    if fail:
                        raise OSError(28, 'No space left on device')
                    os._exit(9)
            for name in ('rename', 'replace', 'remove', 'unlink', 'link', 'symlink', 'truncate', 'rmdir', 'mkdir', 'open',
                         'renames', 'fsync', 'ftruncate'):
                if hasattr(os, name):
                    def wrap(f=getattr(os, name)):
                        def g(*a, **k):
                            step()
                            return f(*a, **k)
                        return g
                    setattr(os, name, wrap())
            ropen = builtins.open

            def opn(file, mode='r', *a, **k):
                if set(mode) & set('wax+'):
                    step()
                    h = ropen(file, mode, *a, **k)
                    return Slow(h, step)
                return ropen(file, mode, *a, **k)
            builtins.open = io.open = opn
            if n < 0:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if fail else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (-n - 1, -n - 1))
            try:
                action()
            except Exception:
                if n < 0:
                    os._exit(8)
                os.write(w, b'x')
                os._exit(7)
            os.write(w, str(count[0]).encode())
            os._exit(0)
        except BaseException:
            os._exit(6)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 100)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 6:
        raise RuntimeError('harness child failed')
    return int(data) if data and data != b'x' else None


class Slow:
    """A file being written: also dies before and halfway through a write, and before it is closed."""

    def __init__(self, h, step):
        self.h, self.step = h, step

    def write(self, b):
        self.step()
        k = len(b) // 2
        self.h.write(b[:k])
        self.h.flush()
        self.step()
        self.h.write(b[k:])
        self.h.flush()
        return len(b)

    def close(self):
        if not self.h.closed:
            self.step()
        return self.h.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self.h, n)


def tree(d):
    out = {}
    for x, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(x, f)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, d)] = (oct(os.stat(p).st_mode & 0o7777), h.read())
        for e in ds:
            p = os.path.join(x, e)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ('link', os.readlink(p))
    return out


def run_save(p, scratch):
    os.makedirs('dir')
    os.makedirs('sub')
    for n, f in enumerate(store.FILES):
        with open(f, 'w') as g:
            g.write('contents %d' % n)
        os.utime(f, (1000000000, 1000000000))
    ctx = store.Ctx()
    name = p['name']
    B = store.bounds()

    def load(path):
        db = store.make('pickle', ctx)
        db.connect(path)
        return db

    def check(path, Ms, where):
        """What loads from this file is one of the states."""
        db = store.make('pickle', ctx)
        try:
            db.connect(path)
        except BaseException as e:
            raise Violation('%s: %s cannot be loaded: %r' % (where, path, e))
        bad = []
        for what, M in Ms:
            try:
                store.compare(db, M, B, '%s: %s' % (where, path))
                return what
            except Violation as e:
                bad.append('not the %s state: %s' % (what, e))
        raise Violation('; '.join(bad))
    import copy
    M0 = store.Model()
    db = load(name)
    apply_ops(db, p['ops1'], M0, 1)
    before = None
    if not p['first']:
        db.close()
        check(name, [('saved', M0)], 'after the first save')
        require(not os.path.exists(name + '.tmp') and not os.path.exists(name + '.old'), 'leftovers after a completed save')
        db = load(name)
        before = M0
    M1 = copy.deepcopy(M0)
    apply_ops(db, p['ops2'], M1, 2)
    if p['big']:
        fid = db.find_function('m.big')[0]
        # not looked up by the model
        db.save_function(fid, 'm.F', 'D' * p['big'], ())
        M1.funs['m.F'] = ('D' * p['big'], [])
        db.delete_function('m.big') if fid is not None else None
    if 'tmp' in p['left'] or p['left'] == 'both':
        with open(name + '.tmp', 'wb') as f:
            f.write(b'\x80\x03half a pick')
    if p['left'] in ('old', 'both', 'oldonly') and not p['first']:
        shutil.copy(name, name + '.old')
    if p['left'] == 'oldonly' and not p['first']:
        os.remove(name)       # an earlier run died between the two renames
    snap = tree('.')
    others = {k: v for k, v in snap.items() if k not in (name, name + '.tmp', name + '.old')}

    def restore():
        for k in (name, name + '.tmp', name + '.old'):
            if os.path.exists(k):
                os.remove(k)
            if k in snap:
                with open(k, 'wb') as f:
                    f.write(snap[k][1])
    states = [('new', M1)] + ([('previous', before)] if before is not None else [])
    total = guarded(0, db.close, False)
    require(total is not None, 'saving fails')
    check(name, [('new', M1)], 'after a completed save')
    require(not os.path.exists(name + '.tmp') and not os.path.exists(name + '.old'),
            'leftovers after a completed save: %r', sorted(k for k in tree('.') if k not in others and k != name))
    size = os.path.getsize(name)
    points = list(range(1, total + 1)) + [-1, -2, -size // 2 - 1, -size]
    for n in points:
        for fail in ((False, True) if p['fail'] else (False,)):
            restore()
            r = guarded(n, db.close, fail)
            where = 'saving %s %s' % ('fails' if fail else 'ends', 'at operation %d of %d' % (n, total) if n > 0 else
                                      'after %d bytes of %d' % (-n - 1, size))
            here, old = os.path.exists(name), os.path.exists(name + '.old')
            if here:
                check(name, states, where)
            elif old:
                check(name + '.old', states, where)
            else:
                require(before is None, '%s: neither the state file nor its backup is there', where)
            now = tree('.')
            same({k: v for k, v in now.items() if k not in (name, name + '.tmp', name + '.old')}, others,
                 where + ': other files')
            if r is not None:
                check(name, [('new', M1)], where + ' (completed)')
    # later saves complete again
    db.close()
    check(name, [('new', M1)], 'a save after an interrupted one')


# --- C17 -----------------------------------------------------------------
NAMES = ['a', 'b.txt', 'sp ace', 'é', '.hid', 'x.so.1', 'lib']


def gen_install(rng, tier):
    while True:
        items = []
        for i in range(rng.randint(1, 5)):
            items.append(dict(
                name=rng.choice(NAMES), dir=rng.choice(['', 'build', 'build/sub', 'src']),
                kind=rng.choice(['file', 'file', 'file', 'link', 'dangling', 'dirlink', 'linkchain']),
                sub=rng.choice(['bin', 'lib/x', '', '/etc', '/etc/é', '/', 'share/../doc', './lib', 'bin/', '//etc', '///']),
                rename=rng.choice([None, None, None, 'new', 'new.x', 'é ü']),
                perms=rng.choice([None, None, 0o755, 0o600, 0o444, 0o4755, 0o777]), mode=rng.choice([0o644, 0o755, 0o600, 0o444]),
                rel=rng.random() < .5, ro=rng.random() < .2))
        yield dict(items=items, destdir=rng.choice(['stage', 'stage/deep', 'st age', 'stage/']), abs=rng.random() < .7,
                   prefix=rng.choice(['/usr/local', '/usr', 'usr', '/', '', '/opt/é', 'opt/x/', '//usr', '//']),
                   exists=[rng.choice(['', '', '', 'file', 'link', 'linkfile', 'dangling']) for _ in items],
                   cwd=rng.random() < .2, as_path=rng.random() < .5)


def run_install(p, scratch):
    from fbuild.path import Path
    from fbuild.context import Context
    import fbuild.install
    import fbuild.console
    import collections
    # never outside the scratch directory, whatever the code does
    escape_guard(scratch)
    for d in ('build/sub', 'src', 'other', 'outside'):
        os.makedirs(d)
    with open('outside/precious', 'w') as f:
        f.write('precious')
    want = {}
    destdir = os.path.join(scratch, p['destdir']) if p['abs'] else p['destdir']
    ctx = object.__new__(Context)
    ctx.logger = fbuild.console.Log()
    ctx.install_destdir = Path(destdir) if p['as_path'] else destdir
    ctx.install_prefix = Path(p['prefix']) if p['as_path'] else p['prefix']
    ctx.to_install = []
    plan = []
    for i, it in enumerate(p['items']):
        src = os.path.join(it['dir'], '%d%s' % (i, it['name'])) if it['rename'] is None else \
            os.path.join(it['dir'], '%d%s' % (i, it['name']))
        if it['kind'] == 'file':
            with open(src, 'w') as f:
                f.write('contents %d' % i)
            os.chmod(src, it['mode'])
        else:
            to = {'link': os.path.relpath('target%d' % i, it['dir'] or '.'), 'dangling': 'nowhere%d' % i,
                  'dirlink': os.path.relpath('other', it['dir'] or '.'), 'linkchain': 'chain%d' % i}[it['kind']]
            if it['kind'] == 'link':
                with open('target%d' % i, 'w') as f:
                    f.write('target %d' % i)
            if it['kind'] == 'linkchain':
                os.symlink('nowhere', os.path.join(it['dir'], to))
            os.symlink(to, src)
        sub = it['sub']
        given = src if it['rel'] else os.path.join(scratch, src)
        ren = None if it['rename'] is None else '%s%d' % (it['rename'], i)
        root = destdir.rstrip('/') + '/'
        mid = sub.lstrip('/') if sub.startswith('/') else os.path.join(p['prefix'].lstrip('/'), sub)
        target = os.path.normpath(os.path.join(scratch, root, mid, ren or os.path.basename(src)))
        plan.append((it, src, target, given, sub, ren))
        want[target] = i
    before = tree('.')
    for it, src, target, given, sub, ren in plan:
        n = len(ctx.to_install)
        ctx.install(Path(given) if p['as_path'] else given, sub, rename=ren, perms=it['perms'])
        same(len(ctx.to_install), n + 1, 'registrations after install()')
    same(tree('.'), before, 'files after registering')
    # what is in the way of the targets already
    for (it, src, target, given, sub, ren), x in zip(plan, p['exists']):
        if not x:
            continue
        os.makedirs(os.path.dirname(target), exist_ok=True)
        if x == 'file':
            with open(target, 'w') as f:
                f.write('old')
        elif not os.path.lexists(target):
            os.symlink({'link': os.path.join(scratch, 'outside', 'precious'), 'dangling': 'nix',
                        'linkfile': os.path.join(scratch, src)}[x], target)
    stage = os.path.normpath(os.path.join(scratch, destdir))
    before = {k: v for k, v in tree('.').items() if not os.path.join(scratch, k).startswith(stage + '/')}
    had = {k for k in tree('.') if os.path.join(scratch, k).startswith(stage + '/')}
    if p['cwd']:
        os.chdir('src')
        if not p['abs']:
            os.chdir('..')
    fbuild.install.Installer(ctx).install()
    os.chdir(scratch)
    now = tree('.')
    same({k: v for k, v in now.items() if not os.path.join(scratch, k).startswith(stage + '/')}, before,
         'files outside the destination root')
    targets = set()
    for i, (it, src, target, given, sub, ren) in enumerate(plan):
        what = 'installed file %r of %r' % (os.path.relpath(target, scratch), src)
        k = os.path.relpath(target, scratch)
        targets.add(k)
        require(k in now, '%s is missing', what)
        if it['kind'] == 'file':
            require(now[k][0] != 'link', '%s is a link', what)
            same(now[k][1], ('contents %d' % i).encode(), 'contents of ' + what)
            perms = it['perms'] if it['perms'] is not None else it['mode']
            same(now[k][0], oct(perms), 'permissions of ' + what)
        else:
            same(now[k], ('link', os.readlink(src)), what)
    extra = {k for k in now if os.path.join(scratch, k).startswith(stage + '/')} - targets - had
    same(extra, set(), 'other files under the destination root')


class Escape(BaseException):
    pass


def escape_guard(scratch):
    """Replace what could write outside the scratch directory by checks of the target."""
    real = os.path.realpath(scratch)

    def ok(x):
        if isinstance(x, int):
            return
        d = os.path.realpath(os.path.dirname(os.path.abspath(str(os.fsdecode(x)))))
        if not (d + '/').startswith(real + '/'):
            raise Violation('writes outside the destination root: %r' % (x,))
    for name, idx in (('rename', (0, 1)), ('replace', (0, 1)), ('remove', (0,)), ('unlink', (0,)), ('link', (1,)), ('symlink', (1,)),
                      ('mkdir', (0,)), ('chmod', (0,)), ('lchmod', (0,)), ('chown', (0,)), ('truncate', (0,)), ('utime', (0,)),
                      ('rmdir', (0,))):
        if hasattr(os, name):
            def wrap(f=getattr(os, name), idx=idx, name=name):
                def g(*a, **k):
                    for i in idx:
                        if i < len(a):
                            ok(a[i])
                            if name in ('chmod', 'truncate', 'utime'):
                                ok(os.path.realpath(str(os.fsdecode(a[i]))) if not isinstance(a[i], int) else a[i])
                    return f(*a, **k)
                return g
            setattr(os, name, wrap())
    ropen = builtins.open

    def opn(file, mode='r', *a, **k):
        if set(mode) & set('wax+') and not isinstance(file, int):
            ok(file)
            ok(os.path.realpath(str(os.fsdecode(file))))
        return ropen(file, mode, *a, **k)
    builtins.open = io.open = opn


# --- C22 -----------------------------------------------------------------
WORDS = ['foo', 'bar', 'HAVE_X', 'VERSION', 'x', 'é', 'A_B', '_u', 'N1', 'prefix']


def gen_text(rng, tier):
    while True:
        inputs = []
        for _ in range(6):
            kind = rng.choice(['substitute', 'regex', 'format', 'config', 'header', 'header'])
            inputs.append(dict(kind=kind, text=make_text(rng, kind), pats=make_pats(rng, kind), dst=rng.choice(
                ['out.h', 'sub/out.h', 'a/b/c.txt', 'BUILD/x.h', 'é.h', 'ABS']), root=rng.choice([None, None, 'other']),
                drop=rng.random() < .2, old=rng.random() < .3, subst_in_order=rng.random() < .5))
        yield dict(inputs=inputs)


def make_text(rng, kind):
    out = []
    for _ in range(rng.randint(0, 8)):
        w = rng.choice(WORDS)
        x = rng.random()
        if kind == 'format':
            out.append(rng.choice(['plain é ', '{%s}' % w, '{{%s}}' % w, '{%s!r}' % w, '{%s:>8}' % w, '\n', '@%s@' % w]))
        elif kind in ('config', 'header') and x < .6:
            out.append(rng.choice(['@%s@' % w, ' @%s@ ' % w, '#undef %s\n' % w, '\n#undef %s\n' % w, '\n#undef   %s\n' % w,
                                   '\n #undef %s\n' % w, '\n#undef %s /* no */\n' % w, '\n#define %s 1\n' % w, '@@', '@%s' % w, '@a b@',
                                   '@%s@%s@' % (w, w), '\n/* #undef %s */\n' % w, '\n#undef %s' % w]))
        else:
            out.append(rng.choice([w, w + w, ' ', '\n', 'plain text\n', '@%s@' % w, '\\1', '\t', 'ä€', '$&', w[:1], '%s']))
    return ''.join(out)


def make_pats(rng, kind):
    if kind == 'substitute':
        n = rng.randint(0, 4)
        return [[rng.choice(WORDS + ['\n', 'o', 'oo', '@foo@', 'plain']), rng.choice(WORDS + ['', 'foo', 'oo', '\\1', '$&', 'a\nb'])] for _ in range(n)]
    if kind == 'regex':
        out = []
        for _ in range(rng.randint(0, 4)):
            p = rng.choice(['fo+', '^foo', 'foo$', '(b)(a)r', '[A-Z]+', r'@(\w+)@', '^$', 'FOO', '.'])
            t = rng.choice(['X', '', r'<\g<0>>', 'foo', 'A\nB'])
            f = rng.choice([None, None, 0, int(re.I), int(re.M | re.I), int(re.S)])
            out.append([p, t] if f is None else [p, t, f])
        return out
    vals = ['1', '', 'text', 'a b', 0, 1, 42, None, True, False, ['a', 'b'], [], ['x'], 1.5, '0']
    if kind == 'format':
        vals = ['1', '', 'text', 'a b', 42, '{foo}']
    return [[w, rng.choice(vals)] for w in WORDS if rng.random() < .8]


def header_value(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (list, tuple)):
        v = ' '.join(str(x) for x in v)
    return v


def plain_value(v):
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return ' '.join(str(x) for x in v)
    return str(v)


WORD = re.compile(r'\w')


def word_at(s, i):
    j = i
    while j < len(s) and (s[j] == '_' or s[j].isalnum()):
        j += 1
    return s[i:j]


def sub_at(s, i):
    """A @word@ at i: the word or None."""
    if s[i] != '@':
        return None
    w = word_at(s, i + 1)
    return w if w and s[i + 1 + len(w):i + 2 + len(w)] == '@' else None


def config_oracle(text, d):
    out, i = '', 0
    while i < len(text):
        w = sub_at(text, i)
        if w is not None:
            if w not in d:
                return None
            out += plain_value(d[w])
            i += len(w) + 2
        else:
            out += text[i]
            i += 1
    return out


def header_oracle(text, d):
    lines = text.split('\n')
    out, missing = [], False
    for ln in lines:
        m = None
        if ln.startswith('#undef '):
            w = ln[7:].lstrip(' ')
            if w and word_at(w, 0) == w:
                m = w
        if m is not None:
            if m not in d:
                missing = True
                out.append('')
                continue
            v = header_value(d[m])
            out.append('#define %s %s' % (m, v) if v else '/* #undef %s */' % m)
            continue
        x = config_oracle(ln, d)
        if x is None:
            return None
        out.append(x)
    return None if missing else '\n'.join(out)


def text_oracle(x):
    t, pats = x['text'], x['pats']
    if x['kind'] == 'substitute':
        d = {}
        for a, b in pats:
            d[a] = b
        for a, b in d.items():
            t = b.join(t.split(a)) if a else t.replace(a, b)
        return t
    if x['kind'] == 'regex':
        for q in pats:
            t = re.compile(q[0], q[2] if len(q) > 2 else re.M).sub(q[1], t)
        return t
    d = {a: b for a, b in pats}
    if x['kind'] == 'format':
        try:
            return string.Formatter().vformat(t, (), d)
        except (KeyError, ValueError, IndexError):
            return None
    return config_oracle(t, d) if x['kind'] == 'config' else header_oracle(t, d)


def run_text(p, scratch):
    import fbuild.context
    from fbuild.path import Path
    import fbuild.builders.text as X
    import warnings
    warnings.simplefilter('ignore')
    ctx = fbuild.context.make_default_context(['--buildroot=BUILD', '--state-file=state'])
    ctx.create_buildroot()
    ctx.load_configuration()
    try:
        for i, x in enumerate(p['inputs']):
            src = 's%d.in' % i
            with open(src, 'w') as f:
                f.write(x['text'])
            root = x['root'] or 'BUILD'
            dst = x['dst'].replace('ABS', '/nonsense/abs.h')
            path = dst if dst.startswith(root) else os.path.join(root, os.path.basename(dst) if dst.startswith('/') else dst)
            if x['old'] and os.path.isdir(os.path.dirname(path)):
                with open(path, 'w') as f:
                    f.write('something old that is longer than what will be written now ' * 3)
            elif os.path.exists(path):
                os.remove(path)
            pats = [tuple(q) for q in x['pats']] if x['kind'] == 'regex' else dict(map(tuple, x['pats']))
            want = text_oracle(x)
            fn = {'substitute': X.substitute, 'regex': X.regex_substitute, 'format': X.format_substitute,
                  'config': X.autoconf_config_file, 'header': X.autoconf_config_header}[x['kind']]
            kw = {'buildroot': x['root']} if x['root'] else {}
            skip = lambda t: {k: v for k, v in t.items() if 'fbuild.log' not in k and not k.startswith('state')}
            before = skip(tree('.'))
            what = '%s of %r with %r to %s' % (x['kind'], x['text'], x['pats'], dst)
            for turn in (1, 2):
                try:
                    got = fn(ctx, dst, src, pats, **kw)
                except Exception as e:
                    require(want is None, '%s raises %r', what, e)
                    if x['kind'] == 'header':
                        require(isinstance(e, (fbuild.Error, KeyError)), '%s raises %r', what, e)
                    now = skip(tree('.'))
                    same(now, before, what + ': files after a failure')
                    continue
                require(want is not None, '%s succeeds, turn %d, though a name has no value', what, turn)
                same(str(got), path, what + ': returned path')
                now = skip(tree('.'))
                require(path in now, '%s: nothing was written', what)
                same(now[path][1].decode(), want, what + ': contents, turn %d' % turn)
                same({k: v for k, v in now.items() if k != path}, {k: v for k, v in before.items() if k != path},
                     what + ': other files')
                if turn == 1 and x['drop']:
                    os.remove(path)
    finally:
        ctx.db.shutdown()
        ctx.scheduler.shutdown()


# --- C23 -----------------------------------------------------------------
def gen_find(rng, tier):
    while True:
        inputs = []
        for _ in range(8):
            names = [rng.choice(['gcc', 'cc', 'a b', 'clang', 'dir/gcc', './cc', '/nonexistent/x', 'ABS/cc', 'é'])
                     for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
            dirs = [rng.choice(['p1', 'p2', 'p3', 'p 4', '', '.', 'missing', 'p1/']) for _ in range(rng.randint(0, 4))]
            files = []
            for _ in range(rng.randint(0, 6)):
                d = rng.choice(['p1', 'p2', 'p3', 'p 4', '.', 'p1/dir', 'dir', 'abs'])
                files.append([d, rng.choice(['gcc', 'cc', 'a b', 'clang', 'é']), rng.choice(['file', 'file', 'file', 'dir', 'link', 'dangling', 'dirlink', 'noexec'])])
            inputs.append(dict(names=names, dirs=dirs, files=files, env=rng.random() < .4, as_tuple=rng.random() < .3))
        yield dict(inputs=inputs)


def run_find(p, scratch):
    import fbuild.context
    import fbuild.builders as B
    ctx = fbuild.context.make_default_context(['--buildroot=BUILD', '--state-file=state'])
    ctx.create_buildroot()
    ctx.load_configuration()
    top = os.getcwd()
    try:
        for i, x in enumerate(p['inputs']):
            d = os.path.join(top, 'w%d' % i)
            for s in ('p1', 'p2', 'p3', 'p 4', 'dir', 'p1/dir', 'abs'):
                os.makedirs(os.path.join(d, s))
            os.chdir(d)
            have = {}
            for a, b, k in x['files']:
                q = os.path.join(a, b)
                if os.path.lexists(q):
                    continue
                if k in ('file', 'noexec'):
                    open(q, 'w').close()
                    os.chmod(q, 0o755 if k == 'file' else 0o644)
                elif k == 'dir':
                    os.mkdir(q)
                elif k == 'link':
                    open(q + '.real', 'w').close()
                    os.symlink(os.path.abspath(q + '.real'), q)
                elif k == 'dangling':
                    os.symlink('nowhere', q)
                else:
                    os.symlink(d, q)
            names = [n.replace('ABS', os.path.join(d, 'abs')) for n in x['names']]
            # the call must not be one that was cached before
            names = names + ['never%d' % i]
            want = None
            for n in names:
                for c in [n] + [n if n.startswith('/') else (q + ('' if q.endswith('/') or not q else '/') + n) for q in x['dirs']]:
                    if want is None and os.path.exists(c) and stat.S_ISREG(os.stat(c).st_mode):
                        want = c
            what = 'program %r in %r with %r' % (names, x['dirs'], x['files'])
            arg = tuple(names) if x['as_tuple'] else list(names)
            old = os.environ['PATH']
            try:
                if x['env']:
                    os.environ['PATH'] = os.pathsep.join(x['dirs'])
                    if not x['dirs']:
                        os.environ['PATH'] = 'none-such'
                    else:
                        pass
                    got = B.find_program(ctx, arg)
                else:
                    got = B.find_program(ctx, arg, x['dirs'])
            except B.MissingProgram as e:
                require(want is None, '%s is reported missing, expected %r', what, want)
                same(list(e.programs), names, what + ': programs of the error')
                str(e)
            else:
                same(str(got), want, what)
            finally:
                os.environ['PATH'] = old
                os.chdir(top)
    finally:
        ctx.db.shutdown()
        ctx.scheduler.shutdown()


def gen_version(rng, tier):
    while True:
        inputs = []
        for _ in range(40):
            def ver(alpha):
                return [rng.choice([0, 1, 2, 3, 9, 10, 11, 100] if not alpha or rng.random() < .8 else ['rc1', 'a', '1b'])
                        for _ in range(rng.randint(1, 4))]
            v = ver(rng.random() < .2)
            near = lambda: rng.choice([v[:], v[:-1], v + [0], v + [rng.randint(0, 9)], ver(False),
                                       v[:-1] + [v[-1] + rng.choice([-1, 1])] if isinstance(v[-1], int) else v[:]])
            req = {}
            for k in ('requires_version', 'requires_at_least_version', 'requires_at_most_version'):
                if rng.random() < .5:
                    req[k] = near() or [0]
            inputs.append(dict(v=v, req=req, zeros=rng.random() < .15))
        yield dict(inputs=inputs)


def cmp(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, int) != isinstance(y, int):
                return None
            return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def run_version(p, scratch):
    import fbuild
    import fbuild.builders as B
    import fbuild.console
    ctx = store.Ctx()
    ctx.logger = fbuild.console.Log()
    for x in p['inputs']:
        s = '.'.join(('0%d' % c if x['zeros'] and isinstance(c, int) else str(c)) for c in x['v'])
        req = {k: tuple(v) for k, v in x['req'].items()}
        calls = []

        def vf():
            calls.append(1)
            return s
        cs = {k: cmp(x['v'], r) for k, r in req.items()}
        if None in cs.values():
            continue
        ok = all({'requires_version': c == 0, 'requires_at_least_version': c >= 0, 'requires_at_most_version': c <= 0}[k]
                 for k, c in cs.items())
        what = 'version %r with %r' % (s, req)
        try:
            r = B.check_version(ctx, 'tool', vf, **req)
        except fbuild.ConfigFailed:
            require(not ok, '%s is refused', what)
        else:
            require(ok, '%s is accepted', what)
        same(len(calls), 1 if req else 0, what + ': questions for the version')


CASES = {
    'save': (gen_save, run_save, dict(timeout=90)),
    'install': (gen_install, run_install),
    'text': (gen_text, run_text),
    'find': (gen_find, run_find),
    'version': (gen_version, run_version),
}
