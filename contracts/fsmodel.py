"""A file system for contracts: names to contents, changed one operation at a time.

Ghost state `fs` maps the name of each regular file to its contents.  A hook
of the contract runs after every single change (a point where the process may
die).  Assumed of the operating system: rename replaces the target in one
step, opening for writing truncates, written data appears in order.
"""
import z3

from pyvc import types as T
from pyvc.types import TStr, TMap
from pyvc.values import *
from pyvc.containers import *

S = T.sort


class FS:
    def __init__(self, E, ty, on_change=None, may_fail=False):
        self.E, self.ty, self.on_change, self.may_fail = E, ty, on_change, may_fail
        self.mty = TMap(TStr, ty)

    # the ghost map
    def now(self):
        return self.E.heap['fs']

    def opt(self, name, fs=None):
        return z3.Select(self.now() if fs is None else fs, name)

    def has(self, name, fs=None):
        return T.is_some(self.ty, self.opt(name, fs))

    def get(self, name, fs=None):
        return T.val(self.ty, self.opt(name, fs))

    def set(self, E, name, content):
        v = T.none(self.ty) if content is None else T.some(self.ty, content)
        E.heap_set('fs', z3.Store(E.heap['fs'], name, v))
        if self.on_change:
            self.on_change(E)

    def fails(self, E, cls=OSError):
        if self.may_fail and E.choose_free(2) == 1:
            E.raise_py(cls)

    def part(self, E, name):
        """Contents while a write is not finished."""
        t = E.fresh_term(S(self.ty), 'partial')
        E.assume(E.ufun('whole', [t], z3.BoolSort()) == False)
        self.set(E, name, t)

    def world(self, E):
        E.heap_init('fs', self.mty)

    def install(self, E):
        I = E.intrinsics
        fs = self

        def name(x):
            return E.enc(x, TStr)

        def opn(E, a, k):
            n = name(a[0])
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            if not isinstance(mode, str):
                raise Unsupported('open with a symbolic mode')
            for x in k:
                if x not in ('mode', 'encoding', 'newline', 'buffering', 'errors'):
                    raise Unsupported('open with ' + x)
            if 'r' in mode and '+' not in mode:
                if not E.branch(fs.has(n)):
                    E.raise_py(FileNotFoundError)
                h = 'r'
            elif ('w' in mode or 'x' in mode) and '+' not in mode:
                fs.fails(E)
                if 'x' in mode and E.branch(fs.has(n)):
                    E.raise_py(FileExistsError)
                fs.part(E, n)
                h = 'w'
            else:
                raise Unsupported('open mode ' + mode)
            i = E.new_inst('file')
            i.attrs.update(__file__=Sym(n, TStr), __mode__=h, __bin__='b' in mode, __done__=None, __open__=True)
            i.attrs['__enter__'] = Native(lambda E, a, k: i, '__enter__')

            def close(E, a, k):
                # what was written is complete only now
                d = i.attrs['__done__']
                if h == 'w' and not i.attrs.get('__closed__'):
                    i.attrs['__closed__'] = True
                    fs.set(E, n, E.enc(d, fs.ty) if d is not None else fs.empty(E))
                return None
            i.attrs['__exit__'] = Native(close, '__exit__')
            i.attrs['close'] = Native(close, 'close')

            def read(E, a, k):
                if h != 'r':
                    E.raise_py(OSError)
                if a or k:
                    raise Unsupported('read of a part')
                return E.dec(fs.get(n), fs.ty)
            i.attrs['read'] = Native(read, 'read')

            def write(E, a, k):
                if h != 'w':
                    E.raise_py(OSError)
                fs.fails(E)
                if i.attrs['__done__'] is not None:
                    raise Unsupported('several writes to one file')
                fs.part(E, n)
                i.attrs['__done__'] = a[0]
                return None
            i.attrs['write'] = Native(write, 'write')
            i.attrs['flush'] = Native(lambda E, a, k: None, 'flush')
            return i
        I['builtins.open'] = opn

        def exists(E, a, k):
            return E.bv(fs.has(name(a[0])))
        I['os.path.exists'] = I['os.path.isfile'] = I['os.path.lexists'] = exists

        def rename(E, a, k):
            x, y = name(a[0]), name(a[1])
            if not E.branch(fs.has(x)):
                E.raise_py(FileNotFoundError)
            fs.fails(E)
            c = fs.get(x)
            m = z3.Store(z3.Store(E.heap['fs'], x, T.none(fs.ty)), y, T.some(fs.ty, c))
            E.heap_set('fs', m)
            if fs.on_change:
                fs.on_change(E)
        I['os.rename'] = I['os.replace'] = rename

        def remove(E, a, k):
            x = name(a[0])
            if not E.branch(fs.has(x)):
                E.raise_py(FileNotFoundError)
            fs.fails(E)
            fs.set(E, x, None)
        I['os.remove'] = I['os.unlink'] = remove

        def copy(E, a, k):
            x, y = name(a[0]), name(a[1])
            if not E.branch(fs.has(x)):
                E.raise_py(FileNotFoundError)
            fs.fails(E)
            c = fs.get(x)
            fs.part(E, y)
            fs.set(E, y, c)
            return a[1]
        I['shutil.copy'] = I['shutil.copyfile'] = I['shutil.copy2'] = copy

        def new_path(E, cls, args, kw):
            if len(args) == 1 and E.is_str(args[0]):
                return Sym(E.enc(args[0], TStr), TStr, cls=cls)
            t = E.fmt_opaque('join', list(args))
            return Sym(t.t, TStr, cls=cls)
        I['new:fbuild.path.Path'] = new_path

    def empty(self, E):
        return z3.Const('empty_contents', S(self.ty))
