"""Functions without state, against independent oracles (C05, C16, C19, C20)."""
import copy
import inspect
import itertools
import os
from lib import *

SHRINK = ('inputs',)


def chunks(make, size):
    def gen(rng, tier):
        while True:
            yield dict(inputs=[make(rng) for _ in range(size)])
    return gen


def each(fn):
    def run(p, scratch):
        for x in p['inputs']:
            fn(x)
    return run


# --- C05 -----------------------------------------------------------------
NAMES = ['a', 'b', 'c', 'args', 'kwargs', 'kw', 'function', 'self', 'key', 'value', 'i', 'bound', 'd']


def make_binding(rng):
    ns = rng.sample(NAMES, len(NAMES))
    np, nk = rng.choice([0, 0, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2, 3])
    pos, kwo = ns[:np], ns[np:np + nk]
    var, varkw = rng.random() < .4, rng.random() < .4
    rest = ns[np + nk:]
    nd = rng.randint(0, np)
    sig = dict(pos=pos, posonly=rng.randint(1, np) if np and rng.random() < .25 else 0, nd=nd, kwo=kwo,
               kd=[k for k in kwo if rng.random() < .5], var=rest[0] if var else None,
               varkw=rest[1] if varkw else None, kind=rng.choice(['function', 'function', 'method', 'lambda', 'wrapped']))
    na = max(0, rng.choice([np, np - 1, np - nd, rng.randint(0, 5)]))
    pool = pos[na:] + kwo
    keys = [k for k in pool if rng.random() < .7]
    if rng.random() < .25:
        keys.append(rng.choice(NAMES + ['zz']))
    return dict(sig, na=na, keys=sorted(set(keys)))


def make_function(s):
    pos = list(s['pos'])
    ps = []
    for i, n in enumerate(pos):
        d = '=("default", %r)' % n if i >= len(pos) - s['nd'] else ''
        ps.append(n + d)
        if i + 1 == s['posonly']:
            ps.append('/')
    if s['var']:
        ps.append('*' + s['var'])
    elif s['kwo']:
        ps.append('*')
    for n in s['kwo']:
        ps.append(n + ('=("default", %r)' % n if n in s['kd'] else ''))
    if s['varkw']:
        ps.append('**' + s['varkw'])
    env = {}
    if s['kind'] == 'method':
        exec('class C:\n    def f(this, %s):\n        return dict(locals())\no = C()' % ', '.join(ps), env)
        return env['o'].f
    if s['kind'] == 'lambda':
        exec('f = lambda %s: dict(locals())' % ', '.join(ps), env)
    else:
        exec('def f(%s):\n    return dict(locals())' % ', '.join(ps), env)
    f = env['f']
    if s['kind'] == 'wrapped':
        import fbuild.functools
        inner = f

        @fbuild.functools.wraps(inner)
        def f(*args, **kw):
            return kw.pop('__FBUILD_INNER')(*args, **kw)
    return f


def check_binding(s):
    import fbuild.functools
    f = make_function(s)
    args = tuple(('arg', i) for i in range(s['na']))
    kw = {k: ('kw', k) for k in s['keys']}
    kw0 = dict(kw)
    try:
        want = f(*args, **kw)
        want.pop('this', None)
    except TypeError:
        want = TypeError
    try:
        got = fbuild.functools.bind_args(f, args, kw)
    except TypeError:
        got = TypeError
    what = 'binding of %r: args %r, kw %r' % (s, args, kw0)
    same(got, want, what)
    same(kw, kw0, what + ': the given keywords')
    if got is TypeError:
        return
    # the normalised arguments make the same call
    g = fbuild.functools.unwrap(f)
    a, k = fbuild.functools.normalize_args(g, args, kw)
    again = g(*a, **k)
    again.pop('this', None)
    same(again, want, what + ': call with the normalised arguments')


# --- C16 -----------------------------------------------------------------
PLATFORMS = [['posix', 'linux'], ['windows', 'win32'], ['posix', 'bsd', 'darwin'], ['posix', 'mingw', 'windows'], []]
FLAGS = ['posix', 'linux', 'windows', 'bsd', 'mingw', '']


def make_value(rng, kind=None):
    kind = kind or rng.choice(['str', 'list', 'tuple', 'set'])
    items = [rng.choice('abcd') for _ in range(rng.randint(0, 4))]
    return dict(kind=kind, items=items)


def value(v):
    if v is None:
        return None
    return {'str': ''.join, 'list': list, 'tuple': tuple, 'set': set}[v['kind']](v['items'])


def make_platform(rng):
    keys = ['k', 'long', 'z', 'plat']
    kinds = {k: rng.choice(['str', 'list', 'tuple', 'set']) for k in keys}
    kw = {k: (make_value(rng, kinds[k]) if rng.random() < .8 else None) for k in keys if rng.random() < .6}
    opts = []
    for _ in range(rng.randint(0, 4)):
        m = [rng.choice(['', '!']) + rng.choice(FLAGS) for _ in range(rng.randint(0, 3))]
        o = []
        for _ in range(rng.randint(0, 3)):
            k = rng.choice(keys)
            o.append([k + rng.choice(['', '+', '-']), make_value(rng, kinds[k])])
        opts.append([m, o])
    return dict(platform=rng.choice(PLATFORMS), kw=kw, options=opts, mode=rng.choice(['ctx', 'method', 'second', 'parse']),
                pass_platform=rng.random() < .5, matcher=rng.choice(['set', 'list', 'frozenset']))


def platform_oracle(plat, opts, kw):
    for m, o in opts:
        if not all((x[1:] not in plat) if x[:1] == '!' else x in plat for x in m):
            continue
        for k, v in o.items():
            if k[-1] not in '+-':
                kw[k] = v
                continue
            old = kw.get(k[:-1])
            if old is None:
                old = type(v)()
            if k[-1] == '+':
                new = (old | v) if isinstance(old, set) else old + v
            elif isinstance(old, str):
                new = ''.join([c for c in old if c not in v])
            else:
                new = type(old)([c for c in old if c not in v])
            kw[k[:-1]] = new
    return kw


class Obj:
    pass


def check_platform(p):
    import fbuild.builders.platform as P
    from fbuild.context import Context
    plat = frozenset(p['platform'])
    mk = {'set': set, 'list': list, 'frozenset': frozenset}[p['matcher']]
    opts = [(mk(m), {k: value(v) for k, v in o}) for m, o in p['options']]
    kw = {k: value(v) for k, v in p['kw'].items()}
    want = platform_oracle(plat, copy.deepcopy(opts), copy.deepcopy(kw))
    for m, _ in opts:
        same(bool(P.platform_match(plat, m)), all((x[1:] not in plat) if x[:1] == '!' else x in plat for x in m),
             'platform_match(%r, %r)' % (plat, m))
    opts0, kw0 = copy.deepcopy(opts), copy.deepcopy(kw)
    for turn in (1, 2):
        what = 'options of %r with %r, turn %d' % (kw0, opts0, turn)
        if p['mode'] == 'parse':
            # the keywords given to this function are its to change
            got = copy.deepcopy(kw)
            P.parse_platform_options(None, plat, opts, got)
        else:
            box = {}
            ctx = object.__new__(Context)

            def rec(*a, **k):
                box['a'], box['k'] = a, k
                return 'result'
            rec.__name__ = 'rec'
            f = P.auto_platform_options(p['pass_platform'])(rec)
            if p['mode'] == 'ctx':
                a = (ctx, 1)
            elif p['mode'] == 'method':
                o = Obj()
                o.ctx = ctx
                a = (o, 1)
            else:
                a = (Obj(), ctx, 1)
            same(f(*a, platform=plat, platform_options=opts, **kw), 'result', what + ': value')
            same(box['a'], a, what + ': positional arguments')
            got = box['k']
            same(got.pop('platform', None), plat if p['pass_platform'] else None, what + ': platform')
        same(got, want, what)
        same({k: type(v) for k, v in got.items()}, {k: type(v) for k, v in want.items()}, what + ': types')
        same(opts, opts0, what + ': the given options afterwards')
        same(kw, kw0, what + ': the given keywords afterwards')


# --- C19 -----------------------------------------------------------------
def parse(pat):
    """An independent reading of a pattern: list of nodes."""
    def bracket(i):
        j = i + 1
        neg = j < len(pat) and pat[j] == '!'
        if neg:
            j += 1
        start = j
        if j < len(pat) and pat[j] == ']':
            j += 1
        while j < len(pat) and pat[j] != ']':
            j += 1
        if j >= len(pat):
            return None
        body, items, k = pat[start:j], [], 0
        while k < len(body):
            if k + 2 < len(body) and body[k + 1] == '-':
                items.append((body[k], body[k + 2]))
                k += 3
            else:
                items.append((body[k], body[k]))
                k += 1
        return ('set', neg, items), j + 1

    def seq(i, stop):
        out = []
        while i < len(pat):
            c = pat[i]
            if c in stop:
                return out, i
            if c == '*':
                out.append(('star',))
            elif c == '?':
                out.append(('any',))
            elif c == '[':
                b = bracket(i)
                if b is not None:
                    out.append(b[0])
                    i = b[1]
                    continue
                out.append(('lit', c))
            elif c == '{':
                alts, j = [], i + 1
                while True:
                    a, j = seq(j, ',}')
                    alts.append(a)
                    if j >= len(pat) or pat[j] == '}':
                        break
                    j += 1
                if j < len(pat):
                    out.append(('alt', alts))
                else:
                    # never closed: the brace and the commas are themselves
                    out.append(('lit', '{'))
                    for n, a in enumerate(alts):
                        out += ([('lit', ',')] if n else []) + a
                i = j + 1
                continue
            else:
                out.append(('lit', c))
            i += 1
        return out, i
    return seq(0, '')[0]


def ends(nodes, s, i):
    """Positions at which a match of nodes from i may end."""
    at = {i}
    for n in nodes:
        new = set()
        for p in at:
            if n[0] == 'star':
                new.update(range(p, len(s) + 1))
            elif n[0] == 'alt':
                for a in n[1]:
                    new |= ends(a, s, p)
            elif p < len(s):
                c = s[p]
                if n[0] == 'any' or n[0] == 'lit' and n[1] == c or \
                        n[0] == 'set' and any(lo <= c <= hi for lo, hi in n[2]) != n[1]:
                    new.add(p + 1)
        at = new
    return at


def bad_range(nodes):
    return any(n[0] == 'set' and any(lo > hi for lo, hi in n[2]) or n[0] == 'alt' and any(bad_range(a) for a in n[1])
               for n in nodes)


ALPHA = 'ab.*?[]{},!^-\\|()+$\n/é\'"d1'


def make_pattern(rng):
    while True:
        x = rng.random()
        if x < .5:
            pat = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(0, 9)))
        else:
            pat = grow(rng, 0)
        if not bad_range(parse(pat)):
            break
    names = set()
    for _ in range(6):
        names.add(sample(parse(pat), rng))
    for n in list(names):
        if n:
            i = rng.randrange(len(n))
            names.add(n[:i] + rng.choice(ALPHA) + n[i + 1:])
            names.add(n[:i] + n[i + 1:])
        names.add(n + rng.choice(ALPHA))
    names |= {'', 'a', pat, pat + '\n', 'A'}
    return dict(pat=pat, names=sorted(names), bytes=rng.random() < .15)


def grow(rng, depth):
    out = ''
    for _ in range(rng.randint(0, 4)):
        x = rng.random()
        if x < .35:
            out += rng.choice('ab.d1/+^')
        elif x < .5:
            out += rng.choice('*?')
        elif x < .7:
            out += '[' + rng.choice(['', '!', '^']) + rng.choice(['', ']', '-', 'a-c', '!', '\\', ',', '{', '}', '[']) + \
                ''.join(rng.choice(['a', 'b', '1-9', '.', '}', ',']) for _ in range(rng.randint(0, 2))) + ']'
        elif depth < 3:
            out += '{' + ','.join(grow(rng, depth + 1) for _ in range(rng.randint(1, 3))) + rng.choice(['}', '}', '}', ''])
    return out


def sample(nodes, rng):
    out = ''
    for n in nodes:
        if n[0] == 'star':
            out += ''.join(rng.choice(ALPHA) for _ in range(rng.randint(0, 3)))
        elif n[0] == 'any':
            out += rng.choice(ALPHA)
        elif n[0] == 'lit':
            out += n[1]
        elif n[0] == 'set':
            out += rng.choice(ALPHA) if n[1] else chr(rng.randint(*map(ord, rng.choice(n[2])))) if n[2] else ''
        else:
            out += sample(rng.choice(n[1]), rng)
    return out


def check_pattern(x):
    import fbuild.fnmatch as F
    import warnings
    warnings.simplefilter('ignore')
    nodes = parse(x['pat'])
    pat, names = x['pat'], x['names']
    want = [len(s) in ends(nodes, s, 0) for s in names]
    if x['bytes']:
        try:
            pat, names = pat.encode('latin-1'), [n.encode('latin-1') for n in names]
        except UnicodeEncodeError:
            pass
    for n, w in zip(names, want):
        same(F.fnmatchcase(n, pat), w, 'fnmatchcase(%r, %r)' % (n, pat))
        same(F.fnmatch(n, pat), w, 'fnmatch(%r, %r)' % (n, pat))
    same(F.filter(names, pat), [n for n, w in zip(names, want) if w], 'filter(%r, %r)' % (names, pat))
    twice = list(reversed(names)) + names
    w2 = list(reversed(want)) + want
    same(F.filter(twice, pat), [n for n, w in zip(twice, w2) if w], 'filter(%r, %r)' % (twice, pat))


# --- C20 -----------------------------------------------------------------
PARTS = ['a', 'foo', 'b.c', '.hid', 'x.tar.gz', 'sp ace', 'é', '..', '.', 'foobar', 'a.', 'ab', '.a.b', '...', '-']


def make_path(rng):
    n = rng.randint(0, 5)
    parts = [rng.choice(PARTS) for _ in range(n)]
    p = rng.choice(['', '', '', '/']) + rng.choice(['/', '/', '/', '//']).join(parts) + rng.choice(['', '', '', '/'])
    root = rng.choice(['', 'build', 'a', 'foo', 'foo/', 'a/b.c', '/abs', '/abs/', 'a.', '/', p[:rng.randint(0, len(p))]])
    return dict(path=p, root=root, ext=rng.choice(['.o', '', '.tar.gz', 'x', '.']), prefix=rng.choice(['lib', '', '.', 'a b']),
                exts={rng.choice(['.c', '.gz', '', '.hid', '.']): rng.choice(['.o', '', '.x.y']) for _ in range(2)},
                as_path=rng.random() < .7, others=[rng.choice(PARTS) for _ in range(rng.randint(0, 3))])


def last(p):
    i = p.rfind('/') + 1
    return p[:i], p[i:]


def ext_of(p):
    """(everything before the extension, extension)"""
    d, b = last(p)
    k = len(b) - len(b.lstrip('.'))
    i = b.rfind('.')
    if i < k:
        return p, ''
    return d + b[:i], b[i:]


def joined(a, b):
    if b.startswith('/'):
        return b
    return a + b if a == '' or a.endswith('/') else a + '/' + b


def squeeze(p):
    """The same path without repeated separators after the start."""
    lead = len(p) - len(p.lstrip('/'))
    body = '/'.join(x for x in p.split('/') if x)
    return '/' * lead + body + ('/' if body and p.endswith('/') else '')


def check_path(x):
    from fbuild.path import Path
    s = x['path']
    P = Path(s) if x['as_path'] else s

    def same_path(got, want, what):
        same(str(got), want, what)
        require(isinstance(got, Path), '%s is not a Path', what)
    same_path(Path(s), s, 'Path(%r)' % s)
    what = 'of %r' % s
    root = x['root']
    added = Path.addroot(P, root)
    if s.startswith(root):
        same_path(added, s, 'addroot(%r) %s' % (root, what))
    elif not s.startswith('/'):
        same_path(added, joined(root, s), 'addroot(%r) %s' % (root, what))
        r = root if root.endswith('/') or root == '' else root + '/'
        same_path(Path.removeroot(added, r), s, 'removeroot(%r) after addroot %s' % (r, what))
        same_path(Path.addroot(added, root), str(added), 'addroot(%r) twice %s' % (root, what))
    same_path(Path.removeroot(P, root), s[len(root):] if s[:len(root)] == root else s, 'removeroot(%r) %s' % (root, what))
    b, e = ext_of(s)
    same_path(Path.replaceext(P, x['ext']), b + x['ext'], 'replaceext(%r) %s' % (x['ext'], what))
    same_path(Path.replaceexts(P, x['exts']), b + x['exts'][e] if e in x['exts'] else s, 'replaceexts(%r) %s' % (x['exts'], what))
    d, n = last(s)
    got = Path.addprefix(P, x['prefix'])
    require(isinstance(got, Path), 'addprefix %s is not a Path', what)
    same(squeeze(str(got)), squeeze(d + x['prefix'] + n), 'addprefix(%r) %s' % (x['prefix'], what))
    parts = Path.splitall(P)
    same(squeeze(str(Path(*parts)) if parts else ''), squeeze(s), 'splitall %s gives %r, joined' % (what, parts))
    for i, q in enumerate(parts):
        require('/' not in q or i == 0 and not q.strip('/'), 'component %r of splitall %s', q, what)
    want = [c for c in s.split('/') if c]
    same([str(c) for c in parts if c.strip('/')], want, 'components of splitall %s' % what)
    want = s
    for o in x['others']:
        want = joined(want, o)
    same_path(Path(s, *x['others']), want, 'Path of %r and %r' % (s, x['others']))
    same_path(Path([s] + x['others']), want, 'Path of a list of %r and %r' % (s, x['others']))
    if x['others']:
        same_path(Path(s) / x['others'][0], joined(s, x['others'][0]), '%r / %r' % (s, x['others'][0]))
        same_path(s / Path(x['others'][0]), joined(s, x['others'][0]), '%r / Path %r' % (s, x['others'][0]))


CASES = {
    'binding': (chunks(make_binding, 150), each(check_binding)),
    'platform': (chunks(make_platform, 60), each(check_platform)),
    'pattern': (chunks(make_pattern, 60), each(check_pattern)),
    'path': (chunks(make_path, 150), each(check_path)),
}
