"""Sequences of backend operations against a dictionary model of the records (C07, C08, C10)."""
import json
import os
import random

from lib import *

SHRINK = ('ops',)
ENGINES = ('cache', 'pickle', 'sqlite')
RULE = ('random sequences of store, delete and look-up operations on the records of one database engine, with every '
        'look-up compared to a dictionary model after every operation; non-trivial: at least one store')

FUNS = ['m.f', 'm.g', 'm.f2', 'pkg.m.C.meth', 'é.ü', 'm.F']
FILES = ['a', 'b', 'a.c', 'dir/a', 'é', 'A']


def bounds():
    # argument values that are easy to confuse
    return [dict(x=1), dict(x=2), dict(x='1'), dict(y=1), dict(x=[1, 2]), dict(x=(1, 2)), dict(x=None), dict(),
            dict(x=1, y=2), dict(x=''), dict(x={'k': [1]}), dict(x=frozenset(['a', 'b']))]


NB = len(bounds())


def gen(focus):
    def g(rng, tier):
        while True:
            for e in ENGINES:
                ops = []
                funs = rng.sample(FUNS, rng.randint(2, 4))
                files = rng.sample(FILES, rng.randint(2, 4))
                bs = rng.sample(range(NB), rng.randint(2, 5))
                for _ in range(rng.randint(8, 30)):
                    x = rng.random()
                    f, b, n = rng.choice(funs), rng.choice(bs), rng.choice(files)
                    if x < .2:
                        ops.append(['fun', f, 'd%d' % rng.randint(0, 9), rng.sample(FUNS, rng.randint(0, 3))])
                    elif x < .45:
                        ops.append(['call', f, b, rng.randint(0, 99)])
                    elif x < .6:
                        ops.append(['cfile', f, b, n, 'g%d' % rng.randint(0, 9)])
                    elif x < .72:
                        ops.append(['ext', f, b, rng.sample(files, rng.randint(0, 2)), rng.sample(files, rng.randint(0, 2))])
                    elif x < .85:
                        ops.append(['file', n, rng.randint(1, 99) + .5, 'h%d' % rng.randint(0, 9)])
                    elif x < .9:
                        ops.append(['reopen'])
                    elif focus == 'delete' or rng.random() < .3:
                        ops.append(rng.choice([['delfun', f], ['delfun', f], ['delfile', n], ['delfile', n]]))
                    else:
                        ops.append(['touch', n, rng.randint(0, 9)])
                yield dict(engine=e, ops=ops)
    return g


class Model:
    def __init__(self):
        self.funs, self.calls, self.cfiles, self.exts, self.files = {}, {}, {}, {}, {}


def make(engine, ctx):
    import fbuild.db.cache_backend, fbuild.db.pickle_backend, fbuild.db.sqlite_backend
    return {'cache': fbuild.db.cache_backend.CacheBackend, 'pickle': fbuild.db.pickle_backend.PickleBackend,
            'sqlite': fbuild.db.sqlite_backend.SqliteBackend}[engine](ctx)


class Ctx:
    pass


def run(p, scratch):
    import fbuild.db, fbuild.path
    Path = fbuild.path.Path
    os.makedirs('dir')
    B = bounds()
    for n, f in enumerate(FILES):
        with open(f, 'w') as g:
            g.write('contents %d' % n)
        os.utime(f, (1000000000, 1000000000))
    ctx = Ctx()
    db = make(p['engine'], ctx)

    def conn():
        if p['engine'] == 'cache':
            db.connect()
        else:
            db.connect('state')
    conn()
    M = Model()
    for oi, op in enumerate(p['ops']):
        where = 'operation %d %r' % (oi, op)
        k = op[0]
        if k == 'fun':
            fid = db.find_function(op[1])[0]
            db.save_function(fid, op[1], op[2], tuple(op[3]))
            M.funs[op[1]] = (op[2], sorted(set(op[3])))
        elif k in ('call', 'cfile', 'ext'):
            fid = db.find_function(op[1])[0]
            if fid is None:
                continue
            b = B[op[2]]
            dirty, cid, _ = db.find_call(fid, b)
            key = (op[1], op[2])
            if k == 'call':
                cid2 = db.save_call(cid, fid, b, {'result': op[3]})
                require(cid is None or cid2 == cid, '%s: the call got another id', where)
                M.calls[key] = op[3]
            elif cid is None:
                continue
            elif k == 'cfile':
                fi = db.add_file(op[3])[1]
                M.files[op[3]] = real(Path, op[3])
                db.save_call_file(cid, fi, op[4])
                M.cfiles[key + (op[3],)] = op[4]
            else:
                db.save_external_files(cid, set(op[3]), set(op[4]))
                M.exts[key] = (sorted(op[3]), sorted(op[4]))
                for x in op[3]:
                    M.files[x] = real(Path, x)
                    M.cfiles[key + (x,)] = M.files[x][1]
                if p['engine'] == 'sqlite':
                    for x in op[4]:
                        M.files[x] = real(Path, x)      # this engine refers to destinations by their record
        elif k == 'file':
            fid = db.find_file(op[1])[0]
            db.save_file(fid, op[1], op[2], op[3])
            M.files[op[1]] = (op[2], op[3])
        elif k == 'touch':
            with open(op[1], 'w') as g:
                g.write('changed %d' % op[2])
            os.utime(op[1], (1000000000 + oi, 1000000000 + oi))
            r = db.add_file(op[1])
            was = M.files.get(op[1])
            M.files[op[1]] = real(Path, op[1])
            same(r[0], was is None or was[1] != M.files[op[1]][1], where + ': dirty')
        elif k == 'reopen':
            if p['engine'] != 'cache':
                db.close()
                db = make(p['engine'], ctx)
                conn()
        elif k == 'delfun':
            want = op[1] in M.funs
            got = db.delete_function(op[1])
            same(got, want, where + ' says')
            M.funs.pop(op[1], None)
            for d in (M.calls, M.cfiles, M.exts):
                for key in [x for x in d if x[0] == op[1]]:
                    del d[key]
        elif k == 'delfile':
            want = op[1] in M.files
            same(db.delete_file(op[1]), want, where + ' says')
            M.files.pop(op[1], None)
            for key in [x for x in M.cfiles if x[2] == op[1]]:
                del M.cfiles[key]
        compare(db, M, B, where)
    if p['engine'] != 'cache':
        db.close()
    return True


def real(Path, n):
    return (Path(n).getmtime(), Path(n).digest())


def compare(db, M, B, where):
    same(sorted((n, sorted(set(d))) for n, d in db.find_function_dependents()),
         sorted((n, v[1]) for n, v in M.funs.items()), where + ': stored functions')
    seen = {}
    for f in FUNS:
        fid, dig, deps = db.find_function(f)
        if f not in M.funs:
            same(dig, None, where + ': digest of the missing function ' + f)
            continue
        same((dig, sorted(set(deps))), M.funs[f], where + ': function ' + f)
        for bi, b in enumerate(B):
            # equal argument values are one call
            dirty, cid, res = db.find_call(fid, b)
            if (f, bi) not in M.calls:
                require(dirty and cid is None, '%s: a call of %s with %r appeared: %r', where, f, b, res)
                continue
            require(not dirty and cid is not None, '%s: the call of %s with %r is gone', where, f, b)
            same(res, {'result': M.calls[f, bi]}, '%s: result of %s with %r' % (where, f, b))
            require(cid not in seen, '%s: two calls share the id %r', where, cid)
            seen[cid] = 1
            es, ed = M.exts.get((f, bi), ([], []))
            same(sorted(db.find_external_srcs(cid)), es, '%s: registered sources of %s with %r' % (where, f, b))
            same(sorted(db.find_external_dsts(cid)), ed, '%s: registered destinations of %s with %r' % (where, f, b))
            for n in FILES:
                fi = db.find_file(n)[0]
                got = db.find_call_file(cid, fi) if fi is not None else None
                same(got, M.cfiles.get((f, bi, n)), '%s: digest of %s for %s with %r' % (where, n, f, b))
    for n in FILES:
        _, mtime, dig = db.find_file(n)
        same((mtime, dig), M.files.get(n, (None, None)), where + ': record of file ' + n)


def versions(rng, tier):
    """Histories that end in another format version (C10)."""
    while True:
        for e in ('pickle', 'sqlite'):
            for how in ('current', 'current', 'older', 'newer', 'odd', 'before'):
                g = next(gen('store')(rng, tier))
                yield dict(engine=e, how=how, ops=g['ops'][:20], version=rng.choice(['1', '0', '3', '10', 'x', '22', '']))


def run_versions(p, scratch):
    import fbuild.db, pickle, sqlite3
    os.makedirs('dir')
    B = bounds()
    for n, f in enumerate(FILES):
        with open(f, 'w') as g:
            g.write('contents %d' % n)
    ctx = Ctx()
    db = make(p['engine'], ctx)
    cur = db.latest_version()
    db.connect('state')
    fid = db.save_function(None, 'm.f', 'd1', ('m.g',))
    cid = db.save_call(None, fid, B[0], 'old result')
    for x in ('a', 'b'):
        db.save_call_file(cid, db.add_file(x)[1], 'dig')
    db.save_external_files(cid, {'a'}, {'b'})
    db.close()
    how = p['how']
    ver = {'current': cur, 'older': '1', 'newer': '3', 'odd': p['version'], 'before': None}[how]
    if ver == cur and how != 'current':
        return True
    if how != 'current':
        if p['engine'] == 'pickle':
            with open('state', 'rb') as f:
                data = fbuild.db.backend.Unpickler(ctx, f).load()
            data = data[1:] if ver is None else (ver,) + data[1:]
            if how == 'odd':
                data = (ver,) + tuple({'junk': 1} for _ in data[1:])    # other layouts of the records
            with open('state', 'wb') as f:
                fbuild.db.backend.Pickler(ctx, f).dump(data)
        else:
            c = sqlite3.connect('state')
            if ver is None:
                c.execute('DELETE FROM Version')
            else:
                c.execute('UPDATE Version SET version=?', (ver,))
            c.commit()
            c.close()
    db = make(p['engine'], ctx)
    db.connect('state')
    if p['engine'] == 'pickle' or how == 'current':
        same(db.version(), cur, 'version after connecting')   # sqlite writes it when it closes
    got = db.find_function('m.f')
    if how == 'current':
        same(got[1], 'd1', 'digest kept')
        d, cid, res = db.find_call(got[0], B[0])
        same((d, res), (False, 'old result'), 'call kept')
        same(sorted(db.find_external_srcs(cid)), ['a'], 'registered sources kept')
        same(sorted(db.find_external_dsts(cid)), ['b'], 'registered destinations kept')
    else:
        require(got[1] is None, 'a function of version %r was kept: %r', ver, got)
        same(list(db.find_function_dependents()), [], 'functions after connecting')
        for x in ('a', 'b'):
            same(db.find_file(x)[1:], (None, None), 'file records after connecting')
        fid = db.save_function(None, 'm.f', 'd2', ())
        d, cid, res = db.find_call(fid, B[0])
        require(d and cid is None, 'a call of version %r was kept', ver)
    # what is written now is of the current version and stays
    fid = db.find_function('m.new')[0]
    fid = db.save_function(fid, 'm.new', 'dn', ())
    db.save_call(None, fid, B[1], 'new result')
    db.close()
    db = make(p['engine'], ctx)
    db.connect('state')
    same(db.version(), cur, 'version after reconnecting')
    got = db.find_function('m.new')
    same(got[1], 'dn', 'digest after reconnecting')
    same(db.find_call(got[0], B[1])[2], 'new result', 'result after reconnecting')
    same(db.find_function('m.f')[1], 'd1' if how == 'current' else 'd2', 'record after reconnecting')
    db.close()
    return True


CASES = {'store': (gen('store'), run), 'delete': (gen('delete'), run), 'versions': (versions, run_versions)}
