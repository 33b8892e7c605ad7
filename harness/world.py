"""Random histories of cached calls against an independent oracle.

A world has cached functions whose source text holds a version number and
whose behaviour (calls, registered files, failures) is given by a table that
is not part of the source.  A history is a list of sessions (one process and
one open database each) of operations.  The oracle predicts for every call
whether the function has to run, its value and its files.
"""
import hashlib
import json
import os
import sys
import types

from lib import *


def new_ctx(scratch, engine, threads=1, extra=()):
    import fbuild, fbuild.context, fbuild.db
    os.chdir(scratch)
    ctx = fbuild.context.make_default_context(['--database-engine=' + engine, '--nocolor', '-j', str(threads),
                                               '--buildroot=' + os.path.join(scratch, 'build')] + list(extra))
    ctx.create_buildroot()
    ctx.load_configuration()
    return ctx


def end_ctx(ctx):
    ctx.save_configuration()
    ctx.db.shutdown()
    ctx.scheduler.shutdown()


ANN = {'SRC': 1, 'SRCS': 2, 'OPTIONAL_SRC': 3, 'DST': 1, 'DSTS': 2, 'OPTIONAL_DST': 3}


def source_text(w, ver):
    """Text of the module with the functions at their versions."""
    out = ['import fbuild, fbuild.db', 'H = None', '']
    for f in w['functions']:
        if ver.get(f['name']) is None:
            continue
        ps = ['ctx', 'k'] if f['kind'] == 'caches' else ['self', 'k']
        for p, ann in f['params']:
            ps.append('%s:fbuild.db.%s' % (p, ann))
        ret = ' -> fbuild.db.%s' % f['ret'] if f['ret'] else ''
        c = 'ctx' if f['kind'] == 'caches' else 'self.ctx'
        args = ', '.join('%s=%s' % (p, p) for p, _ in f['params'])
        body = 'return H.body(%r, %d, %s, k, dict(%s))' % (f['name'], ver[f['name']], c, args)
        if f['kind'] == 'caches':
            out += ['@fbuild.db.caches', 'def %s(%s)%s:' % (f['name'], ', '.join(ps), ret), '    ' + body, '']
        else:
            out += ['class C_%s(fbuild.db.PersistentObject):' % f['name'], '    def __init__(self, ctx):',
                    '        super().__init__(ctx)', '    @fbuild.db.cachemethod',
                    '    def %s(%s)%s:' % (f['name'], ', '.join(ps), ret), '        ' + body, '']
    return '\n'.join(out) + '\n'


class Fail(Exception):
    pass


def as_files(ann, v):
    if v is None:
        return []
    return list(v) if ann.endswith('S') and ann != 'OPTIONAL_SRC' and ann != 'OPTIONAL_DST' and ann in ('SRCS', 'DSTS') \
        else [v]


def content(p):
    try:
        with open(p) as f:
            return f.read()
    except FileNotFoundError:
        return None


def digest(*parts):
    return hashlib.md5(repr(parts).encode()).hexdigest()


class Host:
    """What the generated functions do when they run."""

    def __init__(self, w, mod, table):
        self.w, self.mod, self.table = w, mod, table
        self.events = []

    def behaviour(self, name, k):
        return self.table.get('%s/%s' % (name, k)) or {}

    def body(self, name, ver, ctx, k, files):
        b = self.behaviour(name, k)
        self.events.append([name, k])
        f = [g for g in self.w['functions'] if g['name'] == name][0]
        vals = []
        for when in (0, 1):
            if b.get('reg_at', 0) == when:
                self.register(ctx, b)
            if when == 0:
                for c in b.get('calls', ()):
                    try:
                        vals.append(invoke(self.mod, self.w, ctx, c)[0])
                    except Fail:
                        if not b.get('catch'):
                            raise
                        vals.append('failed')
        if b.get('fail'):
            raise Fail(name)
        seen = []
        for p, ann in f['params']:
            for x in as_files(ann, files[p]):
                if 'SRC' in ann:
                    seen.append((p, content(x)))
                else:
                    write(x, 'made by %s' % name)
        for x in b.get('ext_srcs', ()):
            seen.append(content(x))
        for x in b.get('ext_dsts', ()):
            write(x, 'external')
        return result_of(f, b, name, ver, k, seen, vals)

    def register(self, ctx, b):
        if b.get('ext_srcs') or b.get('ext_dsts'):
            ctx.db.add_external_dependencies_to_call(srcs=present(b.get('ext_srcs', ())), dsts=b.get('ext_dsts', ()))


def present(files):
    return [x for x in files if os.path.exists(x)]


def result_of(f, b, name, ver, k, seen, vals):
    if f['ret']:
        ds = b.get('ret_dsts', [])
        for x in ds:
            write(x, 'returned')
        if f['ret'] == 'DSTS':
            return ds
        return ds[0] if ds else None
    return digest(name, ver, k, seen, vals)


def write(p, text):
    with open(p, 'w') as f:
        f.write(text)


def invoke(mod, w, ctx, c):
    """Call function c['f'] and return (value, srcs, dsts)."""
    f = [g for g in w['functions'] if g['name'] == c['f']][0]
    if f['kind'] == 'caches':
        r = getattr(mod, c['f']).call(ctx, c['k'], **c['files'])
    else:
        o = getattr(mod, 'C_' + c['f'])(ctx)
        r = getattr(o, c['f']).call(c['k'], **c['files'])
    return r


# ---------------------------------------------------------------------------
# oracle

class Oracle:
    """Functions, calls and the file contents they saw."""

    def __init__(self, w):
        self.w = w
        self.funs = {}              # name -> [version, set of called names]
        self.calls = {}             # (name, args) -> record
        self.order = {}

    def session(self, ver, table):
        self.ver, self.table = ver, table

    def fun(self, n):
        return [g for g in self.w['functions'] if g['name'] == n][0]

    def fname(self, n):
        return n

    def closure(self, n):
        seen, todo = set(), [n]
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            if m in self.funs:
                todo += self.funs[m][1]
        return seen

    def dirty(self, n):
        return any(self.ver.get(m, 1 if m.startswith('C_') else None) is None or m not in self.funs or
                   self.funs[m][0] != self.ver.get(m, 1) for m in self.closure(n))

    def drop_dependents(self, n):
        """Forget every function that reaches n, and n."""
        for m in [m for m in self.funs if n in self.closure(m)]:
            self.forget(m)
        self.forget(n)

    def forget(self, n):
        self.funs.pop(n, None)
        for k in [k for k in self.calls if k[0] == n]:
            del self.calls[k]

    def forget_file(self, path):
        """delete_file: no call has seen it."""
        for r in self.calls.values():
            for d in ('srcs', 'esrcs'):
                if path in r[d]:
                    r[d][path] = ('deleted',)

    def key(self, c):
        return (c['f'], json.dumps([c['k'], c['files']], sort_keys=True))

    def call(self, c, events, stack):
        """Returns ('value', v, srcs, dsts) | ('fail',) | ('missing',); appends to events what must run."""
        f = self.fun(c['f'])
        name = c['f']
        if f['kind'] == 'method':
            # the creation of the object is a cached call of its own
            if stack:
                stack[-1]['called'].add('C_' + name)
            self.creation('C_' + name)
        if stack:
            stack[-1]['called'].add(name)
        srcs, dsts = [], []
        for p, ann in f['params']:
            (srcs if 'SRC' in ann else dsts).extend(as_files(ann, c['files'][p]))
        key = self.key(c)
        rec = self.calls.get(key) if not self.dirty(name) else None
        if any(content(s) is None for s in srcs):
            return ('missing',)
        why = None
        if rec is None:
            why = 'no record' if key not in self.calls else 'function changed'
        elif any(content(s) != rec['srcs'].get(s) for s in srcs) or any(content(s) is None or content(s) != t
                                                               for s, t in rec['esrcs'].items()):
            why = 'source changed'
        elif any(not os.path.exists(d) for d in list(dsts) + rec['edsts'] + rec['rdsts']):
            why = 'destination missing'
        if why is None:
            return ('value', rec['value'], sorted(set(srcs) | set(rec['esrcs'])),
                    sorted(set(dsts) | set(rec['edsts']) | set(rec['rdsts'])))
        b = self.table.get('%s/%s' % (name, c['k'])) or {}
        me = dict(called=set(), es=set(), ed=set())
        events.append([name, c['k']])
        self.why.append((name, c['k'], why))
        stack.append(me)
        vals = []

        def register():
            for fr in stack:
                fr['es'].update(present(b.get('ext_srcs', ())))
                fr['ed'].update(b.get('ext_dsts', ()))
        try:
            for when in (0, 1):
                if b.get('reg_at', 0) == when:
                    register()
                if when == 0:
                    for cc in b.get('calls', ()):
                        r = self.call(cc, events, stack)
                        if r[0] == 'fail':
                            if not b.get('catch'):
                                return r
                            vals.append('failed')
                        elif r[0] != 'value':
                            return r
                        else:
                            vals.append(r[1])
            if b.get('fail'):
                return ('fail',)
        finally:
            stack.pop()
        seen = []
        for p, ann in f['params']:
            for x in as_files(ann, c['files'][p]):
                if 'SRC' in ann:
                    seen.append((p, content(x)))
                else:
                    self.writes.append((x, 'made by %s' % name))
                    write(x, 'made by %s' % name)
        for x in b.get('ext_srcs', ()):
            seen.append(content(x))
        for x in b.get('ext_dsts', ()):
            write(x, 'external')
        v = result_of(f, b, name, self.ver[name], c['k'], seen, vals)
        rd = as_files(f['ret'], v) if f['ret'] else []
        # store
        if self.dirty(name):
            old = set()
            self.drop_dependents(name)
        else:
            old = self.funs[name][1]
        self.funs[name] = [self.ver[name], set(old) | me['called']]
        self.calls[key] = dict(value=v, srcs={s: content(s) for s in srcs}, esrcs={s: content(s) for s in me['es']},
                               edsts=sorted(me['ed']), rdsts=list(rd))
        return ('value', v, sorted(set(srcs) | me['es']), sorted(set(dsts) | me['ed'] | set(rd)))

    def creation(self, n):
        if self.dirty(n):
            self.drop_dependents(n)
            self.funs[n] = [1, set()]


def run_history(w, scratch):
    """Both sides see the same scratch files: the oracle predicts first, on a
    copy of the directory, then the real code runs and is compared."""
    src = os.path.join(scratch, 'w')
    os.makedirs(src)
    os.chdir(scratch)
    oracle = Oracle(w)
    n = [0]

    def stamp(p):
        n[0] += 1
        t = 1000000000 + n[0] * w.get('mtime_step', 7) + (0.25 if w.get('fraction') else 0)
        os.utime(p, (t, t))
    for p, t in w['files'].items():
        write(p, t)
        stamp(p)
    vers = {f['name']: 1 for f in w['functions']}
    for si, s in enumerate(w['sessions']):
        vers.update(s.get('versions', {}))
        table = {}
        for t in w['tables'][:1] + [s.get('table', {})]:
            table.update(t)
        # the oracle plans with the real files: do it op by op inside the child
        st = dict(vers=dict(vers), table=table, ops=s['ops'], idx=si, n=n[0], state=dump_oracle(oracle))

        def go():
            return session_child(w, scratch, st, oracle)
        kind, v = in_child(go, 50)
        if kind == 'bad':
            raise Violation('session %d: %s' % (si, v))
        if kind != 'ok':
            raise Violation('session %d %s: %s' % (si, kind, v))
        n[0] = v['n']
        load_oracle(oracle, v['state'])
    return True


def dump_oracle(o):
    return dict(funs={k: [v[0], sorted(v[1])] for k, v in o.funs.items()},
                calls=[[list(k), r] for k, r in o.calls.items()])


def load_oracle(o, d):
    o.funs = {k: [v[0], set(v[1])] for k, v in d['funs'].items()}
    o.calls = {tuple(k): r for k, r in d['calls']}


def session_child(w, scratch, st, oracle):
    import fbuild, fbuild.context, fbuild.db
    name = 'wmod'
    path = os.path.join(scratch, 'src%d' % st['idx'])
    os.makedirs(path)
    write(os.path.join(path, name + '.py'), source_text(w, st['vers']))
    sys.path.insert(0, path)
    mod = __import__(name)
    mod.H = host = Host(w, mod, st['table'])
    oracle.session(st['vers'], st['table'])
    oracle.why, oracle.writes = [], []
    ctx = new_ctx(scratch, w['engine'])
    n = st['n']
    step = w.get('mtime_step', 7)
    snap = {}
    for oi, op in enumerate(st['ops']):
        what = op[0]
        if what == 'write':
            write(op[1], op[2])
        if what == 'touch' and not os.path.exists(op[1]):
            continue
        if what == 'restore' and not os.path.exists(op[1]):
            write(op[1], snap.get(op[1], 'lost'))
        if what in ('write', 'touch', 'restore'):
            n += 1
            t = 1000000000 + n * step + (0.25 if w.get('fraction') else 0)
            os.utime(op[1], (t, t))
        elif what == 'remove':
            if os.path.exists(op[1]):
                snap[op[1]] = content(op[1])
                os.remove(op[1])
        elif what == 'delfile':
            ctx.db.delete_file(op[1])
            oracle.forget_file(op[1])
        elif what == 'delfun':
            got = ctx.db.delete_function('wmod.' + op[1])
            want = op[1] in oracle.funs
            same(got, want, 'delete_function(%s) says' % op[1])
            oracle.forget(op[1])
        elif what == 'reopen':
            ctx.save_configuration()
            ctx.load_configuration()
        elif what == 'call':
            events = []
            before = save_files(scratch)
            oracle.why = []
            want = oracle.call(op[1], events, [])
            restore_files(scratch, before)
            host.events = []
            try:
                r = invoke(mod, w, ctx, op[1])
                got = ('value', r[0], sorted(r[1]), sorted(r[2]))
            except Fail:
                got = ('fail',)
            except FileNotFoundError:
                got = ('missing',)
            where = 'session %d, operation %d, call of %s(%s)' % (st['idx'], oi, op[1]['f'], op[1]['k'])
            if host.events != events:
                raise Violation('%s: ran %r, expected %r because %r' % (where, host.events, events, oracle.why))
            if got[0] != want[0] or (len(got) > 1 and got[1] != want[1]):
                raise Violation('%s: got %r, expected %r' % (where, got, want))
            if len(got) > 1 and (got[2:] != want[2:]):
                raise Violation('%s: sources and destinations %r, expected %r' % (where, got[2:], want[2:]))
    ctx.save_configuration()
    ctx.db.shutdown()
    ctx.scheduler.shutdown()
    return dict(n=n, state=dump_oracle(oracle))


def save_files(scratch):
    d = os.path.join(scratch, 'w')
    out = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        s = os.stat(p)
        out[p] = (open(p).read(), s.st_mtime)
    return out


def restore_files(scratch, saved):
    d = os.path.join(scratch, 'w')
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if p not in saved:
            os.remove(p)
    for p, (t, m) in saved.items():
        if content(p) != t or os.stat(p).st_mtime != m:
            write(p, t)
            os.utime(p, (m, m))
