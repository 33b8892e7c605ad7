"""Mutable containers: concrete while their shape is known, symbolic otherwise."""
import z3
from . import types as T
from .values import *


class Cont:
    def __init__(self, E, name=None, parent=None):
        self.E = E
        self.parent = parent            # (container, key term) for write-through views
        self.stale = False
        self.views = []
        self.stamp = E.tick()
        self.name = name or E.cont_name()
        self.root = parent[0].root if parent else self
        self.frozen = False
        self.sealed = False              # kept as an opaque value somewhere
        E.conts[self.name] = self
        if parent:
            parent[0].views.append((parent[1], self))

    # -- symbolic storage -------------------------------------------------
    def read(self):
        if self.stale:
            raise Unsupported('use of a container detached from its parent')
        if self.parent:
            p, k = self.parent
            return p.elem_term(k)
        return self.term

    def write(self, t):
        if self.stale:
            raise Unsupported('write to a container detached from its parent')
        if self.frozen:
            raise Unsupported('write to a container while it is iterated: size may change')
        if self.parent:
            p, k = self.parent
            p.put_elem(k, t)
        else:
            self.term = t
            self.E.note_write(self.stamp, ('C', self.name))

    def touched(self):
        if self.root.sealed:
            raise Unsupported('change of a container that was stored as an opaque value')
        self.E.note_write(self.root.stamp, ('C', self.root.name))

    def kill_views(self, key=None):
        for k, v in self.views:
            if key is None or not self.E.definitely_ne(k, key):
                v.stale = True
                v.kill_views()


class MSet(Cont):
    py = 'set'

    def __init__(self, E, k=None, term=None, items=None, name=None, parent=None, froz=False):
        super().__init__(E, name, parent)
        self.k, self.term = k, term
        self.items = items if term is None and parent is None else None
        if self.items is None and term is None and parent is None:
            self.items = []
        self.froz = froz
        if froz:
            self.py = 'frozenset'

    def ty(self):
        k = self.k
        if k is None and self.items:
            k = self.E.elem_type(self.items)
        if k is None:
            k = self.E.learned_elem.get(self.name)
        return T.TSet(k) if k is not None else None

    def set_term(self, k=None):
        """The SMT term of the set (making it symbolic)."""
        if self.items is None:
            return self.read()
        ty = self.ty()
        if k is None:
            if ty is None:
                raise Unsupported('element type of an empty set is unknown')
            k = ty.k
        t = T.empty_set(k)
        for i in self.items:
            t = z3.Store(t, self.E.enc(i, k), z3.BoolVal(True))
        return t

    def symbolic(self, k=None):
        if self.items is not None:
            t = self.set_term(k)
            self.k = k or self.ty().k
            self.term, self.items = t, None
        return self

    def add(self, v):
        E = self.E
        self.touched()
        if self.items is not None:
            k = self.k or E.elem_type([v])
            if k is not None and not isinstance(v, str):
                self.k = k
                E.learned_elem[self.name] = k
                self.symbolic(k)
            else:
                if not any(E.eq(v, i) is True for i in self.items):
                    self.items.append(v)
                return
        self.write(z3.Store(self.read(), E.enc(v, self.k), z3.BoolVal(True)))

    def contains(self, v):
        E = self.E
        if self.items is not None:
            return E.or_([E.eq(v, i) for i in self.items])
        if not E.can_enc(v, self.k):
            return False
        return z3.Select(self.read(), E.enc(v, self.k))

    def nonempty(self):
        if self.items is not None:
            return len(self.items) > 0
        return self.read() != T.empty_set(self.k)


class MDict(Cont):
    py = 'dict'

    def __init__(self, E, k=None, v=None, term=None, items=None, name=None, parent=None, cls=None):
        super().__init__(E, name, parent)
        self.k, self.v, self.term = k, v, term
        self.items = None
        if term is None and parent is None:
            self.items = items if items is not None else []    # list of [key, value]
        self.cls = cls

    def ty(self):
        if self.k is not None and self.v is not None:
            return T.TMap(self.k, self.v)
        if self.items:
            k, v = self.E.elem_type([i[0] for i in self.items]), self.E.elem_type([i[1] for i in self.items])
            return T.TMap(k, v) if k is not None and v is not None else None
        l = self.E.learned_elem.get(self.name)
        return l

    def map_term(self, ty=None):
        if self.items is None:
            return self.read()
        ty = ty or self.ty()
        if ty is None:
            raise Unsupported('type of an empty dict is unknown')
        t = T.empty_map(ty.k, ty.v)
        for k, v in self.items:
            t = z3.Store(t, self.E.enc(k, ty.k), T.some(ty.v, self.E.enc(v, ty.v)))
        return t

    def symbolic(self, ty=None):
        if self.items is not None:
            ty = ty or self.ty()
            t = self.map_term(ty)
            self.k, self.v = ty.k, ty.v
            self.term, self.items = t, None
        return self

    # parent protocol for views
    def elem_term(self, key):
        return T.val(self.v, z3.Select(self.read(), key))

    def put_elem(self, key, t):
        # the slot exists, so the size of the dict does not change
        self.write_nf(z3.Store(self.read(), key, T.some(self.v, t)))

    def find(self, key):
        """Concrete lookup: index into items, None, or 'unknown'."""
        for i, (k, _) in enumerate(self.items):
            e = self.E.eq(k, key)
            if e is True:
                return i
            if e is not False and not (z3.is_false(e)):
                return 'unknown'
        return None

    def has(self, key):
        E = self.E
        if self.items is not None:
            i = self.find(key)
            if i == 'unknown':
                return E.or_([E.eq(k, key) for k, _ in self.items])
            return i is not None
        if not E.can_enc(key, self.k):
            return False
        return T.is_some(self.v, z3.Select(self.read(), E.enc(key, self.k)))

    def get(self, key):
        """Value of a key known to be present."""
        E = self.E
        if self.items is not None:
            i = self.find(key)
            if i == 'unknown':
                for k, v in self.items:
                    if E.branch(E.eq(k, key)):
                        return v
                raise PathEnd()
            return self.items[i][1]
        kt = E.enc(key, self.k)
        return E.dec(T.val(self.v, z3.Select(self.read(), kt)), self.v, parent=(self, kt))

    def put(self, key, v):
        E = self.E
        self.touched()
        if self.frozen and not E.must(self.has(key)):
            raise Unsupported('a dict may grow while it is iterated')
        if self.items is not None:
            if self.k is not None and self.v is not None:
                self.symbolic()
            else:
                kt = E.type_of(key)
                i = self.find(key)
                if i == 'unknown':
                    self.symbolic(T.TMap(kt, E.type_of(v)))
                elif i is None:
                    self.items.append([key, v])
                    vt = E.type_of(v)
                    if kt is not None and vt is not None:
                        E.learned_elem[self.name] = T.TMap(kt, vt)
                    return
                else:
                    self.items[i][1] = v
                    return
        kt = E.enc(key, self.k)
        self.kill_views(kt)
        vt = E.enc(v, self.v)
        self.write_nf(z3.Store(self.read(), kt, T.some(self.v, vt)))
        if isinstance(v, Cont) and isinstance(self.v, T.TU):
            v.sealed = True
        elif isinstance(v, Cont) and v.parent is None:
            v.make_view(self, kt)

    def write_nf(self, t):
        f, self.frozen = self.frozen, False
        self.write(t)
        self.frozen = f

    def make_view(self, parent, kt):
        pass

    def delete(self, key):
        E = self.E
        self.touched()
        if self.frozen:
            raise Unsupported('a dict may shrink while it is iterated')
        if self.items is not None:
            i = self.find(key)
            if i == 'unknown':
                raise Unsupported('deletion of a symbolic key from a concrete dict')
            del self.items[i]
            return
        kt = E.enc(key, self.k)
        self.kill_views(kt)
        self.write(z3.Store(self.read(), kt, T.none(self.v)))

    def nonempty(self):
        if self.items is not None:
            return len(self.items) > 0
        return self.read() != T.empty_map(self.k, self.v)


def _make_view(self, parent, kt):
    """A container stored into a dict is from now on a view of its slot."""
    if isinstance(self, MDict) and self.items is not None:
        self.symbolic(parent.v)
    elif isinstance(self, MSet) and self.items is not None:
        self.symbolic(parent.v.k)
    elif isinstance(self, MList) and self.items is not None:
        self.symbolic(parent.v)
    self.parent = (parent, kt)
    self.term = None
    self.root = parent.root
    parent.views.append((kt, self))


Cont.make_view = _make_view
MDict.make_view = _make_view


class MList(Cont):
    py = 'list'

    def __init__(self, E, a=None, term=None, items=None, name=None, parent=None, coll=False, tup=False):
        super().__init__(E, name, parent)
        self.a, self.term, self.coll = a, term, coll
        self.items = None
        if term is None and parent is None:
            self.items = items if items is not None else []
        if tup:
            self.py = 'tuple'

    def ty(self):
        a = self.a
        if a is None and self.items:
            a = self.E.elem_type(self.items)
        if a is None:
            l = self.E.learned_elem.get(self.name)
            a = l
        if a is None:
            return None
        if self.coll or (self.items is not None and a in getattr(self.E.cur, 'colls', ())):
            return T.TColl(a)
        return T.TSeq(a)

    def seq_term(self, ty=None):
        if self.items is None:
            return self.read()
        E = self.E
        ty = ty or self.ty()
        if ty is None:
            raise Unsupported('element type of an empty list is unknown')
        if isinstance(ty, T.TColl):
            t = T.empty_set(ty.k)
            for i in self.items:
                t = z3.Store(t, E.enc(i, ty.k), z3.BoolVal(True))
            return t
        arr = E.default_arr(ty.a)
        for n, i in enumerate(self.items):
            arr = z3.Store(arr, n, E.enc(i, ty.a))
        return T.sort(ty).seq(z3.IntVal(len(self.items)), arr)

    def symbolic(self, ty=None):
        if self.items is not None:
            ty = ty or self.ty()
            t = self.seq_term(ty)
            if isinstance(ty, T.TColl):
                self.a, self.coll = ty.k, True
            else:
                self.a = ty.a
            self.term, self.items = t, None
        return self

    def sort(self):
        return T.sort(T.TSeq(self.a))

    def length(self):
        if self.items is not None:
            return len(self.items)
        if self.coll:
            raise Unsupported('length of a collection tracked by membership only')
        return Sym(z3.simplify(self.sort().len(self.read())), T.TInt)

    def arr(self):
        return self.sort().arr(self.read())

    def append(self, v):
        E = self.E
        self.touched()
        if self.items is not None:
            self.items.append(v)
            t = E.elem_type([v])
            if t is not None and not self.coll:
                E.learned_elem.setdefault(self.name, t)
            return
        if self.coll:
            self.write(z3.Store(self.read(), E.enc(v, self.a), z3.BoolVal(True)))
            return
        s, t = self.sort(), self.read()
        self.write(s.seq(s.len(t) + 1, z3.Store(s.arr(t), s.len(t), E.enc(v, self.a))))

    def get(self, idx):
        E = self.E
        if self.items is not None:
            if isinstance(idx, int):
                if -len(self.items) <= idx < len(self.items):
                    return self.items[idx]
                E.raise_py(IndexError, 'list index out of range')
            if not self.items:
                E.raise_py(IndexError, 'list index out of range')
            for n, i in enumerate(self.items):
                if E.branch(z3.Or(E.enc(idx, T.TInt) == n, E.enc(idx, T.TInt) == n - len(self.items))):
                    return i
            E.raise_py(IndexError, 'list index out of range')
        n, i = E.enc(self.length(), T.TInt), E.enc(idx, T.TInt)
        if not E.branch(z3.And(i < n, i >= -n)):
            E.raise_py(IndexError, 'list index out of range')
        i = z3.simplify(z3.If(i < 0, i + n, i))
        return E.dec(z3.Select(self.arr(), i), self.a, parent=(self, i))

    def elem_term(self, key):
        return z3.Select(self.arr(), key)

    def put_elem(self, key, t):
        s, c = self.sort(), self.read()
        self.write(s.seq(s.len(c), z3.Store(s.arr(c), key, t)))

    def put(self, idx, v):
        E = self.E
        self.touched()
        if self.items is not None:
            if isinstance(idx, int):
                if -len(self.items) <= idx < len(self.items):
                    self.items[idx] = v
                    return
                E.raise_py(IndexError, 'list assignment index out of range')
            self.symbolic()
        n, i = E.enc(self.length(), T.TInt), E.enc(idx, T.TInt)
        if not E.branch(z3.And(i < n, i >= -n)):
            E.raise_py(IndexError, 'list assignment index out of range')
        i = z3.simplify(z3.If(i < 0, i + n, i))
        self.kill_views(i)
        self.put_elem(i, E.enc(v, self.a))

    def contains(self, v):
        E = self.E
        if self.items is not None:
            return E.or_([E.eq(v, i) for i in self.items])
        if self.coll:
            return z3.Select(self.read(), E.enc(v, self.a)) if E.can_enc(v, self.a) else False
        if not E.can_enc(v, self.a):
            return False
        j = z3.Int('j!in')
        return z3.Exists([j], z3.And(0 <= j, j < self.sort().len(self.read()),
                                     z3.Select(self.arr(), j) == E.enc(v, self.a)))

    def nonempty(self):
        if self.items is not None:
            return len(self.items) > 0
        if self.coll:
            return self.read() != T.empty_set(self.a)
        return self.sort().len(self.read()) > 0
