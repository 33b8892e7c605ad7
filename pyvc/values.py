"""Values of the symbolic interpreter."""
import z3
from . import types as T


class Unsupported(Exception):
    """A construct outside the verified subset: the function stays undecided."""


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class PyExc(Exception):
    def __init__(self, exc):
        self.exc = exc


class Sym:
    __slots__ = ('t', 'ty', 'cls')

    def __init__(self, t, ty, cls=None):
        self.t, self.ty, self.cls = t, ty, cls

    def __repr__(self):
        return 'Sym(%s:%s)' % (self.t, self.ty)


class Undef:
    """Local variable whose value after a loop is not tracked."""

    def __init__(self, why):
        self.why = why


class NotImpl:
    pass


class ModVal:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = None

    def __repr__(self):
        return '<mod %s>' % self.name


class Ext:
    """Something outside the repository, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class FuncVal:
    def __init__(self, node, mod, closure, qual, cls=None, decos=()):
        self.node, self.mod, self.closure, self.qual, self.cls = node, mod, closure, qual, cls
        self.decos = decos
        self.attrs = {}

    def __repr__(self):
        return '<fn %s>' % self.qual


class Native:
    """A Python-level function of the checker used as a callable value."""

    def __init__(self, fn, name='native'):
        self.fn, self.name = fn, name

    def __repr__(self):
        return '<native %s>' % self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class ClassVal:
    def __init__(self, name, mod, node, bases, qual):
        self.name, self.mod, self.node, self.bases, self.qual = name, mod, node, bases, qual
        self.ns = {}
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassVal) else [b]):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def __repr__(self):
        return '<class %s>' % self.qual


class Inst:
    def __init__(self, cls, name, attrs=None, stamp=0):
        self.cls, self.name, self.attrs, self.stamp = cls, name, dict(attrs or {}), stamp

    def __repr__(self):
        return '<inst %s:%s>' % (self.name, self.cls)


class ExcVal:
    """cls: builtin exception class, ClassVal, or None for an unknown exception."""

    def __init__(self, cls, args=(), attrs=None, upper=None, tag=None):
        self.cls, self.args, self.attrs, self.tag = cls, args, attrs or {}, tag
        self.upper = upper       # for unknown exceptions: the known base class
        self.excluded = []

    def __repr__(self):
        return '<exc %s%s>' % (getattr(self.cls, '__name__', getattr(self.cls, 'qual', self.cls)),
                               ' ' + str(self.tag) if self.tag else '')


class Star:
    """An opaque *args / **kwargs."""

    def __init__(self, v):
        self.v = v


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterSpec:
    """A lazily consumed iterable: list of segments."""

    def __init__(self, segs):
        self.segs = segs


class Seg:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Mixed:
    """Class of a string that is of one class or another."""
    qual = name = 'one of several string classes'


MIXED = Mixed()
