"""Types of symbolic values and their SMT sorts."""
import z3

MODE = {'str': 'U'}          # 'U': uninterpreted strings, 'S': z3 sequences
_memo = {}


class Ty:
    key = '?'

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class _Prim(Ty):
    def __init__(self, key):
        self.key = key


TInt, TBool, TReal, TStr = _Prim('Int'), _Prim('Bool'), _Prim('Real'), _Prim('Str')
TNone = _Prim('None')


class TU(Ty):
    """Uninterpreted sort; `py` names the Python types its values have."""

    def __init__(self, name, py=None, truthy=None):
        self.name, self.py, self.truthy = name, py, truthy
        self.key = 'U' + name


class TObj(Ty):
    """References to objects whose fields live in heap arrays."""

    def __init__(self, name, cls=None, fields=None):
        self.name, self.cls = name, cls
        self.fields = fields or {}
        self.key = 'Ref' + name


class TOpt(Ty):
    def __init__(self, a):
        self.a = a
        self.key = 'Opt<%s>' % a.key


class TTup(Ty):
    def __init__(self, *items):
        self.items = items
        self.key = 'Tup<%s>' % ','.join(i.key for i in items)


class TSet(Ty):
    def __init__(self, k):
        self.k = k
        self.key = 'Set<%s>' % k.key


class TMap(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.key = 'Map<%s,%s>' % (k.key, v.key)


class TSeq(Ty):
    """A list or tuple: length and elements."""

    def __init__(self, a, tup=False):
        self.a, self.tup = a, tup
        self.key = 'Seq<%s>' % a.key


class TColl(Ty):
    """A list or tuple of which only the membership is tracked."""

    def __init__(self, k, tup=False):
        self.k, self.tup = k, tup
        self.key = 'Coll<%s>' % k.key


def _nm(key):
    out = []
    for c in key:
        out.append(c if c.isalnum() else {'<': '_', '>': 'E', ',': '_'}.get(c, '_'))
    return ''.join(out)


def sort(ty):
    k = (ty.key, MODE['str'])
    s = _memo.get(k)
    if s is None:
        s = _memo[k] = _sort(ty)
    return s


def _sort(ty):
    if ty is TInt or ty.key == 'Int':
        return z3.IntSort()
    if ty.key == 'Bool':
        return z3.BoolSort()
    if ty.key == 'Real':
        return z3.RealSort()
    if ty.key == 'Str':
        return z3.StringSort() if MODE['str'] == 'S' else z3.DeclareSort('Str')
    if isinstance(ty, TU):
        return z3.DeclareSort(ty.name)
    if isinstance(ty, TObj):
        return z3.DeclareSort(ty.key)
    if isinstance(ty, TOpt):
        d = z3.Datatype(_nm(ty.key))
        d.declare('none')
        d.declare('some', ('val', sort(ty.a)))
        return d.create()
    if isinstance(ty, TTup):
        d = z3.Datatype(_nm(ty.key))
        d.declare('mk', *[('f%d' % i, sort(t)) for i, t in enumerate(ty.items)])
        return d.create()
    if isinstance(ty, (TSet, TColl)):
        return z3.ArraySort(sort(ty.k), z3.BoolSort())
    if isinstance(ty, TMap):
        return z3.ArraySort(sort(ty.k), sort(TOpt(ty.v)))
    if isinstance(ty, TSeq):
        d = z3.Datatype(_nm(ty.key))
        d.declare('seq', ('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), sort(ty.a))))
        return d.create()
    raise TypeError(ty)


def none(ty):
    return sort(TOpt(ty)).none


def some(ty, t):
    return sort(TOpt(ty)).some(t)


def is_some(ty, t):
    return sort(TOpt(ty)).is_some(t)


def is_none(ty, t):
    return sort(TOpt(ty)).is_none(t)


def val(ty, t):
    return sort(TOpt(ty)).val(t)


def empty_set(k):
    return z3.K(sort(k), z3.BoolVal(False))


def empty_map(k, v):
    return z3.K(sort(k), none(v))
