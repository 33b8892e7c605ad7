"""Operators and conversions."""
import ast
import z3

from . import types as T
from .values import *
from .containers import *


def has_quantifier(t, memo=None):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


class Ops:
    # -- strings -----------------------------------------------------------
    def fmt_opaque(self, tag, vals):
        """An unspecified string that depends on the tag and the values only."""
        ts = []
        for v in vals:
            t = self.opaque_term(v)
            if t is not None:
                ts.append(t)
        if not ts:
            return Sym(z3.Const('str:' + tag, T.sort(T.TStr)), T.TStr)
        return Sym(self.ufun('str:' + tag, ts, T.sort(T.TStr)), T.TStr)

    def opaque_term(self, v):
        if isinstance(v, Undef):
            raise Unsupported(v.why)
        t = self.type_of(v)
        if t is not None:
            return self.enc(v, t)
        if v is None:
            return self.lit('None')
        if isinstance(v, (ClassVal, FuncVal)):
            return self.lit(v.qual)
        if isinstance(v, Ext):
            return self.lit(v.name)
        if isinstance(v, type):
            return self.lit(v.__name__)
        return self.fresh_term(T.sort(T.TStr), 'opaque')

    def is_str(self, v):
        return isinstance(v, str) or (isinstance(v, Sym) and v.ty.key == 'Str')

    def to_str(self, v):
        """str(v)"""
        if self.is_str(v):
            cls = v.cls if isinstance(v, Sym) else None
            if isinstance(cls, ClassVal):
                m = self.class_attr(cls, '__str__')
                if isinstance(m, FuncVal):
                    return self.call_func(m, [v], {})
                return Sym(v.t, T.TStr)
            return v
        if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
            return str(v)
        if isinstance(v, Inst) and isinstance(v.cls, ClassVal):
            m = self.class_attr(v.cls, '__str__')
            if isinstance(m, FuncVal):
                return self.call_func(m, [v], {})
        if isinstance(v, Sym):
            if v.ty.key == 'Int' and T.MODE['str'] == 'S':
                return Sym(z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t))), T.TStr)
            h = self.methods.get((v.ty.key, '__str__'))
            if h:
                return h(self, v, [], {})
            return Sym(self.ufun('str_of_' + v.ty.key, [v.t], T.sort(T.TStr)), T.TStr)
        return self.fmt_opaque('str()', [v])

    def strcat(self, parts, merge=True):
        parts = [p for p in parts if p != '' or not isinstance(p, str)]
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        if len(parts) == 1:
            return Sym(parts[0].t, T.TStr)
        ts = []
        for p in parts:
            ts.append(self.enc(p, T.TStr))
        if T.MODE['str'] == 'S':
            return Sym(z3.Concat(*ts), T.TStr)
        # concatenation is associative: nested to the left, literals together
        flat = []
        for t in ts:
            flat.extend(self.str_parts(t))
        names = {v.get_id(): k for k, v in self.lits.items() if isinstance(k, str)}
        parts = []
        for t in flat:
            if merge and parts and t.get_id() in names and parts[-1].get_id() in names:
                n = names[parts.pop().get_id()] + names[t.get_id()]
                t = self.lit(n)
                names[t.get_id()] = n
            parts.append(t)
        def nest(parts):
            t = parts[0]
            for u in parts[1:]:
                t = self.ufun('strcat', [t, u], T.sort(T.TStr))
            return t
        t = nest(parts)
        if len(parts) != len(flat):
            self.assume(nest(flat) == t)
        return Sym(t, T.TStr)

    def str_parts(self, t):
        out = []
        while z3.is_app(t) and t.decl().name() == 'strcat' and t.num_args() == 2:
            out.append(t.arg(1))
            t = t.arg(0)
        out.append(t)
        return out[::-1]

    def percent(self, f, v):
        """f % v"""
        if isinstance(v, MDict):
            if all(isinstance(k, str) and not isinstance(x, (Sym, Cont)) for k, x in (v.items or [('', v)])):
                return f % {k: x for k, x in v.items}
            raise Unsupported('%-formatting with a mapping')
        vals = list(v) if isinstance(v, tuple) else [v]
        if isinstance(v, MList) and v.py == 'tuple':
            raise Unsupported('%-formatting with a symbolic tuple')
        if isinstance(f, str):
            parts, i, n, simple = [], 0, 0, True
            cur = ''
            while i < len(f):
                c = f[i]
                if c == '%':
                    if f[i + 1:i + 2] == '%':
                        cur += '%'
                        i += 2
                        continue
                    if f[i + 1:i + 2] in ('s', 'd'):
                        if n >= len(vals):
                            self.raise_py(TypeError, 'not enough arguments for format string')
                        parts.append(cur)
                        cur = ''
                        parts.append(('v', vals[n], f[i + 1]))
                        n += 1
                        i += 2
                        continue
                    simple = False
                    break
                cur += c
                i += 1
            parts.append(cur)
            if simple:
                if n < len(vals):
                    self.raise_py(TypeError, 'not all arguments converted')
                out = []
                for p in parts:
                    if isinstance(p, tuple):
                        out.append(self.to_str(p[1]))
                    else:
                        out.append(p)
                if all(isinstance(p, str) for p in out):
                    return ''.join(out)
                return self.strcat(out)
            return self.fmt_opaque('%:' + f, vals)
        return self.fmt_opaque('%', [f] + vals)

    # -- operators ---------------------------------------------------------
    OPNAMES = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Mod': '__mod__',
               'BitOr': '__or__', 'BitAnd': '__and__', 'BitXor': '__xor__', 'FloorDiv': '__floordiv__',
               'Pow': '__pow__', 'LShift': '__lshift__', 'RShift': '__rshift__'}

    def binop(self, op, a, b):
        n = type(op).__name__
        for x, y, nm in ((a, b, self.OPNAMES[n]), (b, a, '__r' + self.OPNAMES[n][2:])):
            cls = x.cls if isinstance(x, (Inst, Sym)) else None
            if cls is MIXED:
                raise Unsupported('operator on a string of unknown class')
            if isinstance(cls, ClassVal):
                m = self.class_attr(cls, nm)
                if isinstance(m, FuncVal):
                    return self.call_func(m, [x, y], {})
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('arithmetic on an untracked value')
        if n == 'Mod' and (self.is_str(a)):
            return self.percent(a, b)
        if n == 'Add' and self.is_str(a) and self.is_str(b):
            return self.strcat([a, b])
        if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)):
            return self.concrete_op(n, a, b)
        if n == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if n == 'Add' and isinstance(a, (MList, tuple)) and isinstance(b, (MList, tuple)):
            ta = 'tuple' if isinstance(a, tuple) else a.py
            tb = 'tuple' if isinstance(b, tuple) else b.py
            if ta != tb:
                self.raise_py(TypeError, 'can only concatenate like sequences')
            r = self.concat(self.as_list(a), self.as_list(b))
            r.py = ta
            return r
        if isinstance(a, MSet) and isinstance(b, MSet):
            return self.setop(n, a, b)
        ka, kb = self.type_of(a), self.type_of(b)
        if ka is not None and kb is not None and {ka.key, kb.key} <= {'Int', 'Real', 'Bool'}:
            ty = T.TReal if 'Real' in (ka.key, kb.key) else T.TInt
            x, y = self.enc(a, ty), self.enc(b, ty)
            if n == 'Add':
                return Sym(x + y, ty)
            if n == 'Sub':
                return Sym(x - y, ty)
            if n == 'Mult':
                return Sym(x * y, ty)
            if n == 'Div':
                if not self.branch(y != 0):
                    self.raise_py(ZeroDivisionError)
                return Sym(z3.ToReal(x) / z3.ToReal(y) if ty is T.TInt else x / y, T.TReal)
            if n in ('Mod', 'FloorDiv') and isinstance(b, int) and b > 0 and ty is T.TInt:
                return Sym(x % y if n == 'Mod' else x / y, T.TInt)
            if ka.key == kb.key == 'Bool' and n in ('BitOr', 'BitAnd'):
                x, y = self.enc(a, T.TBool), self.enc(b, T.TBool)
                return self.bv(z3.Or(x, y) if n == 'BitOr' else z3.And(x, y))
        if n == 'Mult' and isinstance(b, int) and (isinstance(a, tuple) or isinstance(a, MList) and a.items is not None):
            return a * b if isinstance(a, tuple) else MList(self, items=a.items * b)
        if ka is not None:
            h = self.methods.get((ka.key, self.OPNAMES[n]))
            if h:
                return h(self, a, [b], {})
        if isinstance(a, (MList, tuple, str, int, type(None), MDict)) or isinstance(b, (MList, tuple, str, int, type(None), MDict)):
            both = [x for x in (a, b) if isinstance(x, Sym) and isinstance(x.ty, (T.TU, T.TObj))]
            if not both:
                self.raise_py(TypeError, 'unsupported operand types')
        raise Unsupported('%s of %r and %r' % (n, a, b))

    def concrete_op(self, n, a, b):
        import operator as o
        f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'Mod': o.mod, 'FloorDiv': o.floordiv,
             'BitOr': o.or_, 'BitAnd': o.and_, 'BitXor': o.xor, 'Pow': o.pow, 'LShift': o.lshift,
             'RShift': o.rshift}[n]
        try:
            return f(a, b)
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args))

    def setop(self, n, a, b):
        if n not in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            self.raise_py(TypeError)
        if a.items is not None and b.items is not None and all(isinstance(i, str) for i in a.items + b.items):
            sa, sb = a.items, b.items
            r = {'BitOr': sa + [i for i in sb if i not in sa], 'BitAnd': [i for i in sa if i in sb],
                 'Sub': [i for i in sa if i not in sb],
                 'BitXor': [i for i in sa if i not in sb] + [i for i in sb if i not in sa]}[n]
            return MSet(self, items=list(r))
        k = a.k or b.k or (a.ty() or b.ty() or T.TSet(None)).k
        if k is None:
            return MSet(self, items=[])
        x, y = a.set_term(k), b.set_term(k)
        return MSet(self, k, term=self.set_expr(n, k, x, y))

    def set_expr(self, n, k, x, y):
        if n == 'BitOr':
            return z3.SetUnion(x, y)
        if n == 'BitAnd':
            return z3.SetIntersect(x, y)
        if n == 'Sub':
            return z3.SetDifference(x, y)
        return z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))

    # -- sequences ---------------------------------------------------------
    def as_list(self, v):
        """Any finite iterable as an MList (a copy)."""
        v = self.iter_value(v)
        if isinstance(v, tuple) and not (len(v) == 4 and v[0] == 'generator'):
            return MList(self, items=list(v))
        if isinstance(v, MList):
            return self.copy_cont(v)
        if isinstance(v, str):
            return MList(self, items=list(v))
        acc = MList(self, items=[])
        for seg in self.iter_spec(v):
            if seg.kind == 'concrete':
                for x in seg.items:
                    acc.append(x)
            else:
                if seg.kind == 'seq':
                    if getattr(seg, 'seq', None) is not None:
                        acc = self.concat(acc, MList(self, seg.ety, term=seg.seq))
                    else:
                        arr = self.fresh_term(z3.ArraySort(z3.IntSort(), T.sort(seg.ety)), 'al')
                        j = z3.Int('j!al')
                        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < seg.n), z3.Select(
                            arr, j) == self.enc(seg.at(j), seg.ety)), patterns=[z3.Select(arr, j)]))
                        acc = self.concat(acc, MList(self, seg.ety, term=T.sort(T.TSeq(seg.ety)).seq(seg.n, arr)))
                    self.seg_used(seg)
                else:
                    # order and multiplicity are unknown: membership only
                    old = None if acc.items == [] else acc.seq_term(T.TColl(seg.ety))
                    t = self.coll_of(seg)
                    acc = MList(self, seg.ety, term=t if old is None else z3.SetUnion(old, t), coll=True)
        return acc

    def coll_of(self, seg):
        """The set of the elements of a 'set' or 'coll' segment, as values."""
        e = self.fresh_term(T.sort(seg.ety), 'k')
        v = seg.elem(e)
        ty = self.type_of(v)
        t = self.enc(v, ty)
        if t.eq(e):
            return seg.S
        R = self.fresh_term(z3.ArraySort(T.sort(ty), z3.BoolSort()), 'img')
        y = self.fresh_term(T.sort(ty), 'k')
        self.assume(z3.ForAll([e], z3.Implies(z3.Select(seg.S, e), z3.Select(R, t))))
        self.assume(z3.ForAll([y], z3.Implies(z3.Select(R, y), z3.Exists([e], z3.And(z3.Select(seg.S, e), y == t)))))
        seg.ety = ty
        return R

    def as_set(self, v, froz=False):
        v = self.iter_value(v)
        s = MSet(self, items=[], froz=froz)
        for seg in self.iter_spec(v):
            if seg.kind == 'concrete':
                for x in seg.items:
                    s.add(x)
            else:
                self.set_absorb(s, seg)
        return s

    def set_absorb(self, s, seg):
        if seg.kind == 'seq':
            t = self.seq_members(seg)
            k = seg.ety
            self.seg_used(seg)
        else:
            t = self.coll_of(seg)
            k = seg.ety
        s.touched()
        if s.items is not None:
            if s.items:
                s.symbolic(k)
                s.write(z3.SetUnion(s.read(), t))
            else:
                s.k, s.term, s.items = k, t, None
                self.learned_elem[s.name] = k
                s.write(t)
        else:
            if s.k != k:
                raise Unsupported('set of mixed types')
            s.write(z3.SetUnion(s.read(), t))

    def seq_members(self, seg):
        j = self.fresh_term(z3.IntSort(), 'k')
        e = self.enc(seg.at(j), seg.ety)
        R = self.fresh_term(z3.ArraySort(T.sort(seg.ety), z3.BoolSort()), 'mem')
        y = self.fresh_term(T.sort(seg.ety), 'k')
        w = self.ufun('idx_' + str(R), [y], z3.IntSort())
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < seg.n), z3.Select(R, e))))
        self.assume(z3.ForAll([y], z3.Implies(z3.Select(R, y), z3.And(
            0 <= w, w < seg.n, y == z3.substitute(e, (j, w)))), patterns=[z3.Select(R, y)]))
        return R

    def concat(self, a, b):
        if a.items is not None and b.items is not None:
            return MList(self, items=a.items + b.items)
        if a.items == []:
            return self.copy_cont(b)
        if b.items == []:
            return self.copy_cont(a)
        if a.coll or b.coll:
            k = a.a or b.a
            return MList(self, k, term=z3.SetUnion(self.coll_term(a, k), self.coll_term(b, k)), coll=True)
        ty = a.ty() if a.items is None else b.ty()
        x = a.seq_term(ty)
        s = T.sort(ty)
        if b.items is not None:
            for i in b.items:
                x = s.seq(s.len(x) + 1, z3.Store(s.arr(x), s.len(x), self.enc(i, ty.a)))
            return MList(self, ty.a, term=x)
        y = self.named(b.seq_term(ty))
        x = self.named(x)
        arr = self.fresh_term(z3.ArraySort(z3.IntSort(), T.sort(ty.a)), 'cat')
        j = z3.Int('j!cat')
        n = s.len(x)
        self.assume(z3.ForAll([j], z3.Select(arr, j) == z3.If(j < n, z3.Select(s.arr(x), j),
                                                             z3.Select(s.arr(y), j - n)),
                              patterns=[z3.Select(arr, j)]))
        self.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.Select(arr, j + n) == z3.Select(s.arr(y), j)),
                              patterns=[z3.Select(s.arr(y), j)]))
        return MList(self, ty.a, term=s.seq(n + s.len(y), arr))

    def coll_term(self, l, k):
        if l.items is not None or l.coll:
            return l.seq_term(T.TColl(k))
        seg = self.iter_spec(l)[0]
        return self.seq_members(seg)

    def copy_cont(self, v):
        if isinstance(v, MSet):
            r = MSet(self, v.k, term=None if v.items is not None else v.read(),
                     items=list(v.items) if v.items is not None else None)
        elif isinstance(v, MDict):
            r = MDict(self, v.k, v.v, term=None if v.items is not None else v.read(),
                      items=[list(i) for i in v.items] if v.items is not None else None, cls=v.cls)
        else:
            r = MList(self, v.a, term=None if v.items is not None else v.read(),
                      items=list(v.items) if v.items is not None else None, coll=v.coll)
        return r

    # -- subscripts --------------------------------------------------------
    def getitem(self, o, i):
        if isinstance(o, tuple) and not (o and o[0] in ('generator', 'ctxmgr')):
            if isinstance(i, Slice):
                if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                    return o[i.lo:i.hi:i.step]
                return self.slice_list(MList(self, items=list(o)), i, 'tuple')
            if isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                self.raise_py(IndexError)
            return MList(self, items=list(o)).get(i)
        if isinstance(o, MList):
            if isinstance(i, Slice):
                return self.slice_list(o, i, o.py)
            if o.coll:
                raise Unsupported('index into a collection tracked by membership')
            return o.get(i)
        if isinstance(o, MDict):
            h = o.has(i)
            if not self.branch(h):
                if o.cls is not None:
                    m = self.class_attr(o.cls, '__missing__')
                    if isinstance(m, FuncVal):
                        return self.call_func(m, [o, i], {})
                self.raise_py(KeyError)
            return o.get(i)
        if self.is_str(o):
            return self.str_item(o, i)
        if isinstance(o, Sym):
            h = self.methods.get((o.ty.key, '__getitem__'))
            if h:
                return h(self, o, [i], {})
        if isinstance(o, Inst):
            return self.call(self.getattr(o, '__getitem__'), [i])
        if o is None:
            self.raise_py(TypeError, 'None is not subscriptable')
        if isinstance(o, Ext) or isinstance(o, type):
            return o
        raise Unsupported('subscript of %r' % (o,))

    def reverse_list(self, o):
        if o.coll:
            raise Unsupported('reverse of a collection tracked by membership')
        ty = o.ty()
        t, s = o.seq_term(ty), T.sort(ty)
        arr = self.fresh_term(z3.ArraySort(z3.IntSort(), T.sort(ty.a)), 'rev')
        j = z3.Int('j!rev')
        self.assume(z3.ForAll([j], z3.Select(arr, j) == z3.Select(s.arr(t), s.len(t) - 1 - j), patterns=[z3.Select(arr, j)]))
        r = MList(self, ty.a, term=s.seq(s.len(t), arr))
        r.py = o.py
        return r

    def slice_list(self, o, sl, py):
        if sl.step == -1 and sl.lo is None and sl.hi is None:
            if o.items is not None:
                r = MList(self, items=o.items[::-1])
                r.py = py
                return tuple(r.items) if py == 'tuple' else r
            return self.reverse_list(o)
        if sl.step is not None and sl.step != 1:
            raise Unsupported('slice step')
        if o.items is not None and all(x is None or isinstance(x, int) for x in (sl.lo, sl.hi)):
            r = MList(self, items=o.items[sl.lo:sl.hi])
            r.py = py
            return tuple(r.items) if py == 'tuple' else r
        if o.coll:
            raise Unsupported('slice of a collection tracked by membership')
        ty = o.ty()
        t = o.seq_term(ty)
        s = T.sort(ty)
        n = s.len(t)

        def clip(x, d):
            if x is None:
                return d
            x = self.enc(x, T.TInt)
            return z3.simplify(z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x)))
        lo, hi = clip(sl.lo, z3.IntVal(0)), clip(sl.hi, n)
        ln = z3.simplify(z3.If(hi > lo, hi - lo, 0))
        arr = self.fresh_term(z3.ArraySort(z3.IntSort(), T.sort(ty.a)), 'sl')
        j = z3.Int('j!sl')
        self.assume(z3.ForAll([j], z3.Select(arr, j) == z3.Select(s.arr(t), j + lo), patterns=[z3.Select(arr, j)]))
        r = MList(self, ty.a, term=s.seq(ln, arr))
        r.py = py
        return r

    def named(self, t):
        """The same value under a name that can occur in a trigger."""
        if z3.is_const(t):
            return t
        c = self.fresh_term(t.sort(), 'nm')
        self.assume(c == t)
        return c

    def str_item(self, o, i):
        if isinstance(o, str):
            if isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return o[i.lo:i.hi:i.step]
            if isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                self.raise_py(IndexError)
        if T.MODE['str'] != 'S':
            if isinstance(i, Slice):
                return self.fmt_opaque('slice:%s' % ','.join('' if x is None else str(x) if isinstance(x, int) else '?'
                                                             for x in (i.lo, i.hi, i.step)),
                                       [o] + [x for x in (i.lo, i.hi, i.step) if isinstance(x, Sym)])
            raise Unsupported('character of a symbolic string')
        t = self.enc(o, T.TStr)
        n = z3.Length(t)
        if isinstance(i, Slice):
            if i.step is not None:
                raise Unsupported('string slice step')

            def clip(x, d):
                if x is None:
                    return d
                x = self.enc(x, T.TInt)
                return z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            lo, hi = clip(i.lo, z3.IntVal(0)), clip(i.hi, n)
            return Sym(z3.If(hi > lo, z3.SubString(t, lo, hi - lo), z3.StringVal('')), T.TStr)
        x = self.enc(i, T.TInt)
        if not self.branch(z3.And(x < n, x >= -n)):
            self.raise_py(IndexError)
        return Sym(z3.SubString(t, z3.If(x < 0, x + n, x), 1), T.TStr)

    def setitem(self, o, i, v):
        if isinstance(o, MDict):
            return o.put(i, v)
        if isinstance(o, MList):
            if isinstance(i, Slice):
                if i.lo is None and i.hi is None:
                    new = self.as_list(v)
                    o.touched()
                    if new.items is not None and o.items is not None:
                        o.items = list(new.items)
                    else:
                        t = new.ty()
                        o.symbolic(t.k if isinstance(o, MSet) and t is not None else t) if o.items is not None and o.ty() else None
                        o.a, o.coll, o.items = (t.k if new.coll else t.a), new.coll, None
                        o.term = new.seq_term(t)
                        o.write(o.term)
                    return
                raise Unsupported('slice assignment')
            return o.put(i, v)
        if isinstance(o, Inst):
            return self.call(self.getattr(o, '__setitem__'), [i, v])
        if isinstance(o, Sym):
            h = self.methods.get((o.ty.key, '__setitem__'))
            if h:
                return h(self, o, [i, v], {})
        raise Unsupported('item assignment to %r' % (o,))

    def delitem(self, o, i):
        if isinstance(o, MDict):
            if not self.branch(o.has(i)):
                self.raise_py(KeyError)
            return o.delete(i)
        if isinstance(o, MList) and o.items is not None and isinstance(i, int):
            o.touched()
            if not -len(o.items) <= i < len(o.items):
                self.raise_py(IndexError)
            del o.items[i]
            return
        if isinstance(o, Inst):
            return self.call(self.getattr(o, '__delitem__'), [i])
        if isinstance(o, Sym):
            h = self.methods.get((o.ty.key, '__delitem__'))
            if h:
                return h(self, o, [i], {})
        raise Unsupported('item deletion from %r' % (o,))
