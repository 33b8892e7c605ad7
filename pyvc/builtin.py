"""Semantics of the Python built-ins used by the code under contract."""
import ast
import builtins
import z3

from . import types as T
from .values import *
from .containers import *
from .interp import GenVal, NOTHING


def install(E):
    I, M = E.intrinsics, E.methods

    def bi(name):
        def d(fn):
            I['builtins.' + name] = fn
            return fn
        return d

    def ext(name):
        def d(fn):
            I[name] = fn
            return fn
        return d

    def meth(*kinds):
        def d(fn):
            n = fn.__name__.split('__', 1)[1] if '__' in fn.__name__[1:] else fn.__name__
            for k in kinds:
                M[(k, n)] = fn
            return fn
        return d

    def S():
        return T.MODE['str'] == 'S'

    # -- builtins ----------------------------------------------------------
    @bi('len')
    def _(E, a, k):
        v = a[0]
        if isinstance(v, (str, tuple, bytes)) and not (isinstance(v, tuple) and v and v[0] in ('generator', 'ctxmgr')):
            return len(v)
        if isinstance(v, MList):
            return v.length()
        if isinstance(v, (MDict, MSet)):
            if v.items is not None:
                if isinstance(v, MDict) or all(isinstance(i, str) for i in v.items) or len(v.items) <= 1:
                    return len(v.items)
            n = E.ufun('card_' + T._nm(v.ty().key), [E.enc(v, v.ty())], z3.IntSort())
            ne = v.nonempty()
            E.assume(z3.And(n >= 0, (n > 0) == ne))
            return Sym(n, T.TInt)
        if E.is_str(v):
            if S():
                return Sym(z3.Length(v.t), T.TInt)
            n = E.ufun('strlen', [v.t], z3.IntSort())
            E.assume(z3.And(n >= 0, (n == 0) == (v.t == E.lit(''))))
            return Sym(n, T.TInt)
        if isinstance(v, Sym):
            h = M.get((v.ty.key, '__len__'))
            if h:
                return h(E, v, [], {})
        if v is None or isinstance(v, (int, bool)):
            E.raise_py(TypeError, 'no len')
        if isinstance(v, Inst):
            return E.call(E.getattr(v, '__len__'), [])
        raise Unsupported('len of %r' % (v,))

    PYT = {'Int': int, 'Str': str, 'Bool': bool, 'Real': float}

    def isinst(E, v, c):
        if isinstance(c, tuple):
            return E.or_([isinst(E, v, x) for x in c])
        h = None
        if isinstance(v, Sym):
            h = E.isinst.get(v.ty.key)
            if h:
                r = h(E, v, c)
                if r is not None:
                    return r
            if v.cls is MIXED and c is not str:
                raise Unsupported('class of a string of unknown class')
            if v.cls is not None and isinstance(v.cls, ClassVal):
                return c in E.real_bases(v.cls.mro())
            if v.ty.key in PYT:
                return isinstance(c, type) and issubclass(PYT[v.ty.key], c)
            if isinstance(v.ty, T.TU) and v.ty.py is not None:
                n = c.__name__ if isinstance(c, type) else getattr(c, 'qual', getattr(c, 'name', '?'))
                return n in v.ty.py
            cls = getattr(v.ty, 'cls', None)
            if isinstance(cls, ClassVal):
                return c in E.real_bases(cls.mro())
            n = c.__name__ if isinstance(c, type) else getattr(c, 'qual', getattr(c, 'name', '?'))
            return E.ufun('isinstance_%s_%s' % (v.ty.key, n), [v.t], z3.BoolSort())
        if isinstance(v, Cont):
            if isinstance(v, MDict) and v.cls is not None:
                return c in E.real_bases(v.cls.mro()) or c is dict
            return isinstance(c, type) and issubclass({'list': list, 'tuple': tuple, 'set': set, 'dict': dict,
                                                       'frozenset': frozenset}[v.py], c)
        if isinstance(v, Inst):
            if isinstance(v.cls, ClassVal):
                return c in E.real_bases(v.cls.mro()) or c is object
            return v.cls is c or (isinstance(v.cls, Ext) and isinstance(c, Ext) and v.cls.name == c.name)
        if isinstance(v, ExcVal):
            return E.exc_match(v, c)
        if isinstance(v, (FuncVal, Native, Bound, GenVal, IterSpec, Ext)):
            if c in (str, int, list, tuple, dict, set, frozenset, type):
                return False
            raise Unsupported('isinstance of %r' % (v,))
        if isinstance(v, ClassVal):
            return c is type or c is object
        if isinstance(v, ModVal):
            return c is object or False
        if isinstance(c, type):
            return isinstance(v, c)
        return False

    @bi('isinstance')
    def _(E, a, k):
        return E.bv(isinst(E, a[0], a[1]))

    @bi('issubclass')
    def _(E, a, k):
        c, d = a
        if isinstance(c, Sym):
            h = M.get((c.ty.key, '__issubclass__'))
            if h:
                return h(E, c, [d], {})
        if isinstance(d, tuple):
            return any(E.is_subclass(c, x) for x in d)
        return E.is_subclass(c, d)

    @bi('hasattr')
    def _(E, a, k):
        o, n = a
        if isinstance(o, Sym):
            h = M.get((o.ty.key, '__hasattr__'))
            if h:
                return h(E, o, [n], {})
        try:
            E.getattr_(o, n)
            return True
        except PyExc as e:
            if e.exc.cls is AttributeError:
                return False
            raise

    @bi('getattr')
    def _(E, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('getattr with a symbolic name')
        if isinstance(a[0], Sym):
            h = M.get((a[0].ty.key, '__getattr__'))
            if h:
                return h(E, a[0], a[1:], {})
        if len(a) == 3:
            try:
                return E.getattr_(a[0], a[1])
            except PyExc as e:
                if e.exc.cls is AttributeError:
                    return a[2]
                raise
        return E.getattr_(a[0], a[1])

    @bi('setattr')
    def _(E, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('setattr with a symbolic name')
        E.setattr(a[0], a[1], a[2])

    @bi('callable')
    def _(E, a, k):
        v = a[0]
        if isinstance(v, (FuncVal, ClassVal, Bound, Native, Partial)):
            return True
        if isinstance(v, Inst) and isinstance(v.cls, ClassVal):
            return E.class_attr(v.cls, '__call__') is not None
        if isinstance(v, Sym):
            return E.bv(E.ufun('callable_' + v.ty.key, [v.t], z3.BoolSort()))
        if isinstance(v, Ext):
            raise Unsupported('callable of %r' % v)
        return False

    @bi('bool')
    def _(E, a, k):
        return E.bv(E.truth(a[0])) if a else False

    @bi('str')
    def _(E, a, k):
        if not a:
            return ''
        return E.to_str(a[0])

    @bi('repr')
    def _(E, a, k):
        v = a[0]
        if isinstance(v, (str, int, float, type(None))):
            return repr(v)
        return E.fmt_opaque('repr', [v])

    @bi('int')
    def _(E, a, k):
        v = a[0] if a else 0
        if isinstance(v, (int, float)):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                E.raise_py(ValueError)
        if isinstance(v, Sym) and v.ty.key in ('Int', 'Bool'):
            return Sym(E.enc(v, T.TInt), T.TInt)
        if E.is_str(v):
            if not E.branch(E.ufun('is_int', [v.t], z3.BoolSort())):
                E.raise_py(ValueError)
            return Sym(E.ufun('int_of', [v.t], z3.IntSort()), T.TInt)
        raise Unsupported('int of %r' % (v,))

    @bi('float')
    def _(E, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return float(v)
        return Sym(E.enc(v, T.TReal), T.TReal)

    @bi('list')
    def _(E, a, k):
        if not a:
            return MList(E, items=[])
        r = E.as_list(a[0])
        r.py = 'list'
        return r

    @bi('tuple')
    def _(E, a, k):
        if not a:
            return ()
        if isinstance(a[0], tuple):
            return a[0]
        if isinstance(a[0], MList) and a[0].py == 'tuple':
            return a[0]
        r = E.as_list(a[0])
        if r.items is not None:
            return tuple(r.items)
        r.py = 'tuple'
        return r

    @bi('set')
    def _(E, a, k):
        return E.as_set(a[0]) if a else MSet(E, items=[])

    @bi('frozenset')
    def _(E, a, k):
        return E.as_set(a[0], True) if a else MSet(E, items=[], froz=True)

    @bi('dict')
    def _(E, a, k):
        d = MDict(E, items=[])
        if a:
            if isinstance(a[0], MDict):
                d = E.copy_cont(a[0])
                d.cls = None
            else:
                upd(E, d, [a[0]], {})
        for n, v in k.items():
            if n == '**':
                upd(E, d, [v], {})
            else:
                d.put(n, v)
        return d

    @bi('range')
    def _(E, a, k):
        if all(isinstance(x, int) for x in a):
            return IterSpec([Seg('concrete', items=list(range(*a)))])
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) == 3 and a[2] != 1:
            raise Unsupported('range step')
        lo, hi = E.enc(lo, T.TInt), E.enc(hi, T.TInt)
        n = z3.simplify(z3.If(hi > lo, hi - lo, 0))
        return IterSpec([Seg('seq', seq=None, ety=T.TInt, n=n, at=lambda i: Sym(z3.simplify(i + lo), T.TInt))])

    def one_seg(E, v, why):
        v = E.iter_value(v)
        segs = E.iter_spec(v)
        if all(s.kind == 'concrete' for s in segs):
            return Seg('concrete', items=[x for s in segs for x in s.items])
        if len(segs) != 1:
            raise Unsupported(why + ' over a chained symbolic iterable')
        return segs[0]

    @bi('enumerate')
    def _(E, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        s = one_seg(E, a[0], 'enumerate')
        if s.kind == 'concrete':
            return IterSpec([Seg('concrete', items=[(E.binop(ast.Add(), start, i), x)
                                                    for i, x in enumerate(s.items)])])
        if s.kind != 'seq':
            raise Unsupported('enumerate of an unordered collection')
        ety = T.TTup(T.TInt, s.ety)
        st = E.enc(start, T.TInt)
        return IterSpec([Seg('seq', seq=None, ety=ety, n=s.n, cont=getattr(s, 'cont', None),
                             at=lambda i: (Sym(z3.simplify(i + st), T.TInt), s.at(i)))])

    @bi('zip')
    def _(E, a, k):
        segs = [one_seg(E, x, 'zip') for x in a]
        if all(s.kind == 'concrete' for s in segs):
            return IterSpec([Seg('concrete', items=[t for t in zip(*[s.items for s in segs])])])
        out = []
        for s in segs:
            if s.kind == 'concrete':
                l = MList(E, items=list(s.items))
                out.append(('c', l, z3.IntVal(len(s.items))))
            elif s.kind == 'seq':
                out.append(('s', s, s.n))
            else:
                raise Unsupported('zip of an unordered collection')
        n = out[0][2]
        for o in out[1:]:
            n = z3.If(o[2] < n, o[2], n)
        n = z3.simplify(n)
        ets = [o[1].ety if o[0] == 's' else o[1].ty().a for o in out]
        for o in out:
            if o[0] == 'c':
                o[1].symbolic()

        def at(i):
            return tuple(o[1].at(i) if o[0] == 's' else o[1].get(Sym(i, T.TInt)) for o in out)
        seg = Seg('seq', seq=None, ety=T.TTup(*ets), n=n, at=at)
        its = []
        for j, o in enumerate(out):
            for it, base, extra in (getattr(o[1], 'iters', ()) if o[0] == 's' else ()):
                # an iterator ahead of one that ends first has given one more element
                e = z3.BoolVal(False) if j == len(out) - 1 else z3.Or(*[x[2] == n for x in out[j + 1:]] or [z3.BoolVal(False)])
                its.append((it, base, z3.simplify(z3.If(z3.And(o[2] > n, e), 1, 0))))
        if its:
            seg.iters = its
        return IterSpec([seg])

    @ext('itertools.chain')
    def _(E, a, k):
        segs = []
        for x in a:
            segs += E.iter_spec(E.iter_value(x))
        return IterSpec(segs)

    @ext('itertools.chain.from_iterable')
    def _(E, a, k):
        s = one_seg(E, a[0], 'chain')
        if s.kind != 'concrete':
            raise Unsupported('chain of a symbolic collection')
        segs = []
        for x in s.items:
            segs += E.iter_spec(E.iter_value(x))
        return IterSpec(segs)

    @bi('iter')
    def _(E, a, k):
        v = E.iter_value(a[0])
        if isinstance(v, Inst):
            return v
        segs = E.iter_spec(v)
        if len(segs) == 1 and segs[0].kind == 'seq':
            it = E.new_inst('iterator')
            it.attrs['__seg__'] = segs[0]
            it.attrs['__pos__'] = Sym(z3.IntVal(0), T.TInt)
            return it
        r = IterSpec(segs)
        r.once = True
        return r

    @bi('reversed')
    def _(E, a, k):
        s = one_seg(E, a[0], 'reversed')
        if s.kind == 'concrete':
            return IterSpec([Seg('concrete', items=s.items[::-1])])
        if s.kind != 'seq':
            raise Unsupported('reversed')
        return IterSpec([Seg('seq', seq=None, ety=s.ety, n=s.n, at=lambda i: s.at(z3.simplify(s.n - 1 - i)))])

    @bi('sorted')
    def _(E, a, k):
        s = one_seg(E, a[0], 'sorted')
        if s.kind == 'concrete' and not k and all(isinstance(i, str) for i in s.items):
            return MList(E, items=sorted(s.items))
        if s.kind == 'concrete' and len(s.items) <= 1:
            return MList(E, items=list(s.items))
        # same elements in some order
        l = E.as_list(a[0])
        ty = l.ty()
        if ty is None:
            raise Unsupported('sorted of values without a type')
        ety = ty.k if isinstance(ty, T.TColl) else ty.a
        src = E.as_set(a[0])
        n = l.length() if not l.coll else None
        r = MList(E, ety, term=E.fresh_term(T.sort(T.TSeq(ety)), 'sorted'))
        st = T.sort(T.TSeq(ety))
        E.assume(st.len(r.term) >= 0)
        if n is not None:
            E.assume(st.len(r.term) == E.enc(n, T.TInt))
        elif isinstance(E.iter_value(a[0]), (MSet, MDict)):
            c = E.iter_value(a[0])
            E.assume(st.len(r.term) == E.enc(I['builtins.len'](E, [c], {}), T.TInt))
        seg = E.iter_spec(r)[0]
        mem = E.seq_members(seg)
        E.assume(mem == src.set_term(ety))
        return r

    @bi('any')
    def _(E, a, k):
        if isinstance(a[0], GenVal):
            return E.quantify(a[0], True)
        for s in E.iter_spec(a[0]):
            if s.kind != 'concrete':
                raise Unsupported('any of a symbolic collection')
            for x in s.items:
                if E.branch(E.truth(x)):
                    return True
        return False

    @bi('all')
    def _(E, a, k):
        if isinstance(a[0], GenVal):
            return E.quantify(a[0], False)
        for s in E.iter_spec(a[0]):
            if s.kind != 'concrete':
                raise Unsupported('all of a symbolic collection')
            for x in s.items:
                if not E.branch(E.truth(x)):
                    return False
        return True

    @bi('map')
    def _(E, a, k):
        s = one_seg(E, a[1], 'map')
        if s.kind != 'concrete':
            raise Unsupported('map of a symbolic collection')
        return IterSpec([Seg('concrete', items=[E.call(a[0], [x]) for x in s.items])])

    @bi('sum')
    def _(E, a, k):
        s = one_seg(E, a[0], 'sum')
        if s.kind != 'concrete':
            raise Unsupported('sum of a symbolic collection')
        acc = a[1] if len(a) > 1 else 0
        for x in s.items:
            acc = E.binop(ast.Add(), acc, x)
        return acc

    def minmax(lt):
        def f(E, a, k):
            xs = a if len(a) > 1 else one_seg(E, a[0], 'min').items
            if not xs:
                E.raise_py(ValueError)
            acc = xs[0]
            for x in xs[1:]:
                if E.branch(E.order(ast.Lt() if lt else ast.Gt(), x, acc)):
                    acc = x
            return acc
        return f
    I['builtins.min'] = minmax(True)
    I['builtins.max'] = minmax(False)

    @bi('print')
    def _(E, a, k):
        return None

    @bi('type')
    def _(E, a, k):
        v = a[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Sym) and isinstance(v.cls, ClassVal):
            return v.cls
        if isinstance(v, (str, int, tuple, float, bool)) or v is None:
            return type(v)
        if isinstance(v, Sym) and v.ty.key in PYT:
            return PYT[v.ty.key]
        if isinstance(v, Cont) and not (isinstance(v, MDict) and v.cls):
            return {'list': list, 'tuple': tuple, 'set': set, 'dict': dict, 'frozenset': frozenset}[v.py]
        raise Unsupported('type of %r' % (v,))

    @bi('hash')
    def _(E, a, k):
        return Sym(E.ufun('hash', [E.opaque_term(a[0])], z3.IntSort()), T.TInt)

    @bi('id')
    def _(E, a, k):
        raise Unsupported('id')

    @bi('next')
    def _(E, a, k):
        if isinstance(a[0], Inst) and '__seg__' in a[0].attrs:
            sg, p = a[0].attrs['__seg__'], E.iter_pos(a[0])
            if E.branch(p < sg.n):
                E.set_iter_pos(a[0], p + 1)
                return sg.at(p)
            if len(a) > 1:
                return a[1]
            E.raise_py(StopIteration)
        if isinstance(a[0], Inst):
            return E.call(E.getattr(a[0], '__next__'), [])
        raise Unsupported('next')

    @ext('functools.partial')
    def _(E, a, k):
        return Partial(a[0], a[1:], k)

    @ext('functools.wraps')
    def _(E, a, k):
        return Native(lambda E, a2, k2: a2[0], 'wraps')

    @ext('copy.copy')
    def _(E, a, k):
        if isinstance(a[0], Cont):
            return E.copy_cont(a[0])
        raise Unsupported('copy of %r' % (a[0],))

    # -- list --------------------------------------------------------------
    @meth('list')
    def list__append(E, l, a, k):
        l.append(a[0])

    @meth('list')
    def list__extend(E, l, a, k):
        v = E.iter_value(a[0])
        for seg in E.iter_spec(v):
            if seg.kind == 'concrete':
                for x in list(seg.items):
                    l.append(x)
            else:
                l.touched()
                o = E.as_list(IterSpec([seg]))
                r = E.concat(l, o)
                if l.items is not None:
                    l.a, l.coll, l.items = r.a, r.coll, None
                    l.term = r.read() if r.items is None else r.seq_term(o.ty())
                    E.learned_elem.setdefault(l.name, l.a)
                    l.write(l.term)
                else:
                    if r.coll != l.coll:
                        if l.parent:
                            raise Unsupported('list becomes membership-only inside a container')
                        l.coll = r.coll
                    l.write(r.seq_term() if r.items is None else r.seq_term(l.ty()))

    @meth('list')
    def list__insert(E, l, a, k):
        l.touched()
        if l.items is not None and isinstance(a[0], int):
            l.items.insert(a[0], a[1])
            return
        if a[0] == 0 and l.items is None and not l.coll:
            r = E.concat(MList(E, items=[a[1]]).symbolic(T.TSeq(l.a)), l)
            l.write(r.read())
            return
        if l.coll:
            raise Unsupported('list.insert')
        l.symbolic()
        l.kill_views()
        s, t = l.sort(), l.read()
        n, i, old = s.len(t), E.enc(a[0], T.TInt), s.arr(t)
        p = E.fresh_term(z3.IntSort(), 'at')
        E.assume(p == z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i)))
        new = E.fresh_term(old.sort(), 'inserted')
        j = z3.Int('j!ins')
        E.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(j < p, z3.Select(old, j), z3.If(
            j == p, E.enc(a[1], l.a), z3.Select(old, j - 1))), patterns=[z3.Select(new, j)]))
        l.write(s.seq(n + 1, new))

    @meth('list', 'tuple')
    def list__index(E, l, a, k):
        if isinstance(l, tuple):
            l = MList(E, items=list(l), tup=True)
        if len(a) != 1 or l.coll:
            raise Unsupported('list.index')
        if l.items is not None:
            for n, x in enumerate(l.items):
                if E.branch(E.eq(x, a[0])):
                    return n
            E.raise_py(ValueError, 'not in list')
        if not E.branch(l.contains(a[0])):
            E.raise_py(ValueError, 'not in list')
        x = E.enc(a[0], l.a)
        p, j = E.fresh_term(z3.IntSort(), 'index'), z3.Int('j!idx')
        E.assume(z3.And(0 <= p, p < l.sort().len(l.read()), z3.Select(l.arr(), p) == x,
                        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.Select(l.arr(), j) != x),
                                  patterns=[z3.Select(l.arr(), j)])))
        return Sym(p, T.TInt)

    @meth('list', 'tuple')
    def list__count(E, l, a, k):
        if isinstance(l, tuple):
            l = MList(E, items=list(l), tup=True)
        if l.coll or l.items is not None:
            raise Unsupported('list.count')
        x = E.enc(a[0], l.a)
        c, i, j = E.fresh_term(z3.IntSort(), 'count'), z3.Int('i!cnt'), z3.Int('j!cnt')
        A, n = l.arr(), l.sort().len(l.read())
        E.assume(z3.And(0 <= c, c <= n, (c > 0) == l.contains(a[0]),
                        (c <= 1) == z3.ForAll([i, j], z3.Implies(z3.And(
                            0 <= i, i < j, j < n), z3.Or(z3.Select(A, i) != x, z3.Select(A, j) != x)),
                            patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))])))
        return Sym(c, T.TInt)

    @meth('list')
    def list__pop(E, l, a, k):
        l.touched()
        if l.items is not None and (not a or isinstance(a[0], int)):
            i = a[0] if a else -1
            if not -len(l.items) <= i < len(l.items):
                E.raise_py(IndexError, 'pop')
            return l.items.pop(i)
        if l.coll:
            raise Unsupported('pop from a collection tracked by membership')
        s, t = l.sort(), l.read()
        n = s.len(t)
        if not E.branch(n > 0):
            E.raise_py(IndexError, 'pop from empty list')
        if not a or a[0] == -1:
            v = E.dec(z3.Select(s.arr(t), n - 1), l.a)
            l.write(s.seq(n - 1, s.arr(t)))
            return v
        if a[0] == 0:
            v = E.dec(z3.Select(s.arr(t), 0), l.a)
            r = E.slice_list(l, Slice(1, None, None), 'list')
            l.write(r.read())
            return v
        raise Unsupported('list.pop(i)')

    @meth('list')
    def list__remove(E, l, a, k):
        l.touched()
        if l.items is not None:
            for n, i in enumerate(l.items):
                if E.branch(E.eq(i, a[0])):
                    del l.items[n]
                    return
            E.raise_py(ValueError)
        raise Unsupported('list.remove')

    @meth('list')
    def list__clear(E, l, a, k):
        l.touched()
        if l.items is not None:
            l.items = []
        else:
            l.write(MList(E, items=[]).seq_term(l.ty()))

    @meth('list')
    def list__sort(E, l, a, k):
        l.touched()
        r = I['builtins.sorted'](E, [l], k)
        if r.items is not None:
            l.items = r.items
        else:
            if l.items is not None:
                l.symbolic(T.TSeq(r.a))
            l.coll = False
            l.write(r.read())

    @meth('list')
    def list__reverse(E, l, a, k):
        l.touched()
        if l.items is None:
            l.write(E.reverse_list(l).read())
        else:
            l.items.reverse()

    @meth('list')
    def list__copy(E, l, a, k):
        return E.copy_cont(l)

    @meth('list', 'tuple')
    def list__index(E, l, a, k):
        items = l if isinstance(l, tuple) else l.items
        if items is None:
            j = E.fresh_term(z3.IntSort(), 'idx')
            if not E.branch(l.contains(a[0])):
                E.raise_py(ValueError)
            arr, v = l.arr(), E.enc(a[0], l.a)
            q = z3.Int('j!ix')
            E.assume(z3.And(0 <= j, j < l.sort().len(l.read()), z3.Select(arr, j) == v,
                            z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < j), z3.Select(arr, q) != v))))
            return Sym(j, T.TInt)
        for n, i in enumerate(items):
            if E.branch(E.eq(i, a[0])):
                return n
        E.raise_py(ValueError)

    # -- set ---------------------------------------------------------------
    @meth('set')
    def set__add(E, s, a, k):
        s.add(a[0])

    @meth('set')
    def set__update(E, s, a, k):
        for x in a:
            x = E.iter_value(x)
            for seg in E.iter_spec(x):
                if seg.kind == 'concrete':
                    for i in list(seg.items):
                        s.add(i)
                else:
                    E.set_absorb(s, seg)

    @meth('set')
    def set__discard(E, s, a, k):
        s.touched()
        if s.items is not None:
            s.items = [i for i in s.items if not E.branch(E.eq(i, a[0]))]
        else:
            s.write(z3.Store(s.read(), E.enc(a[0], s.k), z3.BoolVal(False)))

    @meth('set')
    def set__remove(E, s, a, k):
        if not E.branch(s.contains(a[0])):
            E.raise_py(KeyError)
        M[('set', 'discard')](E, s, a, k)

    @meth('set')
    def set__clear(E, s, a, k):
        s.touched()
        if s.items is not None:
            s.items = []
        else:
            s.write(T.empty_set(s.k))

    @meth('set', 'frozenset')
    def set__copy(E, s, a, k):
        return E.copy_cont(s)

    def sop(name):
        def f(E, s, a, k):
            r = E.copy_cont(s)
            for x in a:
                o = x if isinstance(x, MSet) else E.as_set(x)
                r = E.setop(name, r, o)
            if s.py == 'frozenset':
                r.py = 'frozenset'
            return r
        return f
    for n, o in (('union', 'BitOr'), ('intersection', 'BitAnd'), ('difference', 'Sub'),
                 ('symmetric_difference', 'BitXor')):
        M[('set', n)] = M[('frozenset', n)] = sop(o)

    def sopu(name):
        def f(E, s, a, k):
            s.touched()
            r = s
            for x in a:
                o = x if isinstance(x, MSet) else E.as_set(x)
                r = E.setop(name, r, o)
            if r.items is not None and s.items is not None:
                s.items = r.items
            else:
                if s.items is not None:
                    s.symbolic(r.k)
                s.write(r.set_term(s.k))
        return f
    M[('set', 'difference_update')] = sopu('Sub')
    M[('set', 'intersection_update')] = sopu('BitAnd')

    @meth('set', 'frozenset')
    def set__isdisjoint(E, s, a, k):
        o = a[0] if isinstance(a[0], MSet) else E.as_set(a[0])
        if s.items is not None and o.items is not None:
            return E.bv(E.not_(E.or_([E.eq(x, y) for x in s.items for y in o.items])))
        kk = (s.ty() or o.ty()).k
        x = E.fresh_term(T.sort(kk), 'k')
        return E.bv(z3.Not(z3.Exists([x], z3.And(z3.Select(s.set_term(kk), x), z3.Select(o.set_term(kk), x)))))

    @meth('set', 'frozenset')
    def set__issubset(E, s, a, k):
        o = a[0] if isinstance(a[0], MSet) else E.as_set(a[0])
        return E.bv(E.order(ast.LtE(), s, o))

    @meth('set')
    def set__pop(E, s, a, k):
        s.touched()
        if s.items is not None and len(s.items) == 1:
            return s.items.pop()
        if not E.branch(s.nonempty()):
            E.raise_py(KeyError)
        s.symbolic()
        x = E.fresh_term(T.sort(s.k), 'popped')
        E.assume(z3.Select(s.read(), x))
        s.write(z3.Store(s.read(), x, z3.BoolVal(False)))
        return E.dec(x, s.k)

    # -- dict --------------------------------------------------------------
    @meth('dict')
    def dict__get(E, d, a, k):
        if E.branch(d.has(a[0])):
            return d.get(a[0])
        return a[1] if len(a) > 1 else None

    @meth('dict')
    def dict__pop(E, d, a, k):
        if E.branch(d.has(a[0])):
            v = d.get(a[0])
            if isinstance(v, Cont) and v.parent is not None:
                v = E.copy_cont(v)
            d.delete(a[0])
            return v
        if len(a) > 1:
            return a[1]
        E.raise_py(KeyError)

    @meth('dict')
    def dict__setdefault(E, d, a, k):
        if E.branch(d.has(a[0])):
            return d.get(a[0])
        v = a[1] if len(a) > 1 else None
        d.put(a[0], v)
        return d.get(a[0]) if isinstance(v, Cont) else v

    @meth('dict')
    def dict__items(E, d, a, k):
        return IterSpec(E.dict_segs(d, 'items'))

    @meth('dict')
    def dict__keys(E, d, a, k):
        return IterSpec(E.dict_segs(d, 'keys'))

    @meth('dict')
    def dict__values(E, d, a, k):
        return IterSpec(E.dict_segs(d, 'values'))

    @meth('dict')
    def dict__copy(E, d, a, k):
        return E.copy_cont(d)

    @meth('dict')
    def dict__clear(E, d, a, k):
        d.touched()
        d.kill_views()
        if d.items is not None:
            d.items = []
        else:
            d.write(T.empty_map(d.k, d.v))

    def upd(E, d, a, k):
        for o in a:
            if isinstance(o, MDict):
                if o.items is not None:
                    for kk, v in list(o.items):
                        d.put(kk, v)
                else:
                    d.touched()
                    d.kill_views()
                    ty = o.ty()
                    new = o.read()
                    if d.items is not None and not d.items:
                        d.k, d.v, d.items, d.term = ty.k, ty.v, None, new
                        d.write(new)
                    else:
                        if d.items is not None:
                            d.symbolic(ty)
                        x = E.fresh_term(T.sort(d.k), 'k')
                        m = E.fresh_term(T.sort(d.ty()), 'upd')
                        old = d.read()
                        E.assume(z3.ForAll([x], z3.Select(m, x) == z3.If(
                            T.is_some(d.v, z3.Select(new, x)), z3.Select(new, x), z3.Select(old, x)),
                            patterns=[z3.Select(m, x)]))
                        d.write(m)
            else:
                s = E.iter_spec(E.iter_value(o))
                for seg in s:
                    if seg.kind != 'concrete':
                        raise Unsupported('dict.update with a symbolic iterable')
                    for x in seg.items:
                        kk, v = E.unpack(x, 2)
                        d.put(kk, v)
        for n, v in k.items():
            if n == '**':
                upd(E, d, [v], {})
            else:
                d.put(n, v)

    @meth('dict')
    def dict__update(E, d, a, k):
        upd(E, d, a, k)

    @bi('dict.fromkeys')
    def _(E, a, k):
        v = a[1] if len(a) > 1 else None
        d = MDict(E, items=[])
        it = E.iter_value(a[0])
        for seg in E.iter_spec(it):
            if seg.kind == 'concrete':
                for x in seg.items:
                    i = d.find(x) if d.items is not None else 0
                    if i == 'unknown' or d.items is None:
                        break
                    d.put(x, v)
                else:
                    continue
            # only the keys matter
            return E.as_set(it)
        return d

    # -- str ---------------------------------------------------------------
    def conc(o, a):
        return isinstance(o, str) and all(isinstance(x, (str, int, type(None))) or
                                          (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a)

    def strm(name, sym):
        def f(E, o, a, k):
            if conc(o, a) and not k:
                r = getattr(o, name)(*a)
                return MList(E, items=list(r)) if isinstance(r, list) else r
            return sym(E, o, a, k)
        M[('str', name)] = f

    def pre(E, o, a, k):
        if isinstance(a[0], tuple):
            return E.bv(E.or_([E.truth(pre(E, o, [x], k)) for x in a[0]]))
        if S():
            return E.bv(z3.PrefixOf(E.enc(a[0], T.TStr), E.enc(o, T.TStr)))
        return E.bv(E.ufun('startswith', [E.enc(o, T.TStr), E.enc(a[0], T.TStr)], z3.BoolSort()))
    strm('startswith', pre)

    def suf(E, o, a, k):
        if isinstance(a[0], tuple):
            return E.bv(E.or_([E.truth(suf(E, o, [x], k)) for x in a[0]]))
        if S():
            return E.bv(z3.SuffixOf(E.enc(a[0], T.TStr), E.enc(o, T.TStr)))
        return E.bv(E.ufun('endswith', [E.enc(o, T.TStr), E.enc(a[0], T.TStr)], z3.BoolSort()))
    strm('endswith', suf)

    def ostr(name):
        def f(E, o, a, k):
            return E.fmt_opaque('str.' + name, [o] + list(a))
        return f
    for n in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'ljust', 'rjust', 'center', 'title', 'encode', 'decode',
              'expandtabs', 'zfill', 'capitalize'):
        strm(n, ostr(n))

    M[('str', '__add__')] = lambda E, o, a, k: E.strcat([o, a[0]])

    def repl(E, o, a, k):
        if len(a) == 2 and isinstance(a[0], str) and a[0] == a[1]:
            return Sym(E.enc(o, T.TStr), T.TStr)
        return E.fmt_opaque('str.replace', [o] + list(a))
    strm('replace', repl)

    def obool(name):
        def f(E, o, a, k):
            return E.bv(E.ufun('str.' + name, [E.enc(o, T.TStr)] + [E.enc(x, T.TStr) for x in a], z3.BoolSort()))
        return f
    for n in ('isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isalnum', 'isidentifier'):
        strm(n, obool(n))

    def oseq(name):
        def f(E, o, a, k):
            t = E.ufun('str.' + name, [E.enc(o, T.TStr)] + [E.opaque_term(x) for x in a], T.sort(T.TSeq(T.TStr)))
            E.assume(T.sort(T.TSeq(T.TStr)).len(t) >= (1 if a and a[0] is not None and name in ('split', 'rsplit') else 0))
            return MList(E, T.TStr, term=t)
        return f
    for n in ('split', 'rsplit', 'splitlines'):
        strm(n, oseq(n))

    def opart(name):
        def f(E, o, a, k):
            return tuple(E.fmt_opaque('str.%s.%d' % (name, i), [o] + list(a)) for i in range(3))
        return f
    for n in ('partition', 'rpartition'):
        strm(n, opart(n))

    def find(E, o, a, k):
        if S():
            return Sym(z3.IndexOf(E.enc(o, T.TStr), E.enc(a[0], T.TStr), z3.IntVal(0)), T.TInt)
        return Sym(E.ufun('str.find', [E.enc(o, T.TStr), E.enc(a[0], T.TStr)], z3.IntSort()), T.TInt)
    strm('find', find)
    strm('count', lambda E, o, a, k: Sym(E.ufun('str.count', [E.enc(o, T.TStr), E.enc(a[0], T.TStr)], z3.IntSort()), T.TInt))

    def join(E, o, a, k):
        v = E.iter_value(a[0])
        segs = E.iter_spec(v)
        if all(s.kind == 'concrete' for s in segs):
            xs = [x for s in segs for x in s.items]
            parts = []
            for i, x in enumerate(xs):
                if not E.is_str(x):
                    E.raise_py(TypeError, 'join')
                if i:
                    parts.append(o)
                parts.append(x)
            return E.strcat(parts)
        l = E.as_list(v)
        return E.fmt_opaque('str.join', [o, l])
    M[('str', 'join')] = join

    def fmt(E, o, a, k):
        vals = list(a) + [k[n] for n in sorted(k)]
        if isinstance(o, str) and all(isinstance(v, (str, int)) for v in vals):
            return o.format(*a, **k)
        if isinstance(o, str) and S():
            import string
            parts, auto = [], 0
            for litt, field, spec, conv in string.Formatter().parse(o):
                parts.append(litt)
                if field is None:
                    continue
                if spec or conv:
                    raise Unsupported('format spec')
                if field == '':
                    parts.append(E.to_str(a[auto]))
                    auto += 1
                elif field.isdigit():
                    parts.append(E.to_str(a[int(field)]))
                else:
                    parts.append(E.to_str(k[field]))
            return E.strcat(parts)
        return E.fmt_opaque('format:' + ','.join(sorted(k)), [o] + [x if E.type_of(x) else E.to_str(x) for x in vals])
    M[('str', 'format')] = fmt
