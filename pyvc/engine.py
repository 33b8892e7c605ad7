"""Verification-condition generator for a subset of Python.

A function is executed symbolically along every path (one re-execution per
decision trace).  Calls to functions under contract are replaced by the
contract; loops are cut by inductive invariants; every assertion, possible
exception, precondition and postcondition becomes an obligation for the SMT
solver.
"""
import ast
import builtins
import itertools
import time
import z3

from . import types as T
from .values import *
from .containers import *
from .repo import Repo
from .interp import Interp
from .ops import Ops

TIMEOUT = 10000          # ms per obligation
CVC5_LIMIT = 8000
FEAS_TIMEOUT = 400       # ms per feasibility question


class Env:
    def __init__(self, E, parent, func, name):
        self.vars = {}
        self.parent = parent
        self.func = func
        self.name = name
        self.nonlocals = set()
        self.comp = False
        self.globals = set()
        self.stamp = E.tick()
        self.cls = None


class LoopInfo:
    def __init__(self):
        self.mod = set()
        self.dropped = set()
        self.types = {}


class LoopCtx:
    """What loop templates of a contract may talk about."""

    def __init__(self, E, key, kind, env):
        self.E, self.key, self.kind, self.env = E, key, kind, env
        self.D = self.S = self.i = self.seq = self.ety = None
        self.pre = None
        self.locals = {}
        self.pre_locals = {}


class Obligation:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.failed = []          # (reason, model text)
        self.time = 0.0


class Engine(Interp, Ops):
    trace = False

    def __init__(self, repo, contracts=None, budget=600):
        self.repo = repo
        self.contracts = contracts or {}
        self.obls = {}
        self.linfo = {}
        self.learned_elem = {}
        self.learned_local = {}
        self.stats = dict(paths=0, restarts=0, checks=0, solver_time=0.0)
        self.assumptions = set()
        self.intrinsics = {}
        self.methods = {}
        self.isinst = {}
        self.attrs_sym = {}
        self.cur = None               # contract under verification
        self.deadline = time.time() + budget
        self.inlined = set()
        self.used_contracts = set()
        self.collecting = True
        self.reached = False
        self.exits = 0                # exits not shown to be unreachable
        self.assumptions = set()      # made while executing
        self.unsure = False           # an invariant candidate was dropped without a counterexample
        from .builtin import install
        install(self)

    # ------------------------------------------------------------------
    # exploration
    dry = False

    def tick(self):
        self.clock += 1
        return self.clock

    def reset(self, prefix):
        self.decisions = list(prefix)
        self.pos = 0
        self.clock = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', TIMEOUT)
        self.solver.set('smt.mbqi', False)
        self.nfresh = {}
        self.conts = {}
        self.contn = {}
        self.heap = {}
        self.heap_stamp = {}
        self.heap_ty = {}
        self.loops = []
        self.callpath = []
        self.envstack = []           # of the active functions
        self.lits = {}
        self.pure = 0
        self.curnode = None
        self.env_n = 0
        self.insts = {}
        self.exc_stack = []
        self.pathnotes = []
        self.ghost = {}
        self.npure = 0
        self.yields = []
        self.envs = {}
        self.envn = {}
        self.modvals = {}
        self.cond_depth = 0
        self.deferred = []
        self.npoints = 0
        self.point = None

    def explore(self, run):
        """Run over all decision traces, restarting when loop invariants change."""
        while True:
            try:
                self._explore(run)
                if not self.dry:
                    return
                self.dry = False
            except Restart:
                # find the loop invariants first, then check the obligations
                self.dry = True
                self.stats['restarts'] += 1
                if self.stats['restarts'] > 400:
                    raise Unsupported('loop invariants did not stabilise')

    def _explore(self, run):
        self.obls = {}
        self.exits = 0
        self.pending = [[]]
        n = 0
        while self.pending:
            if time.time() > self.deadline:
                raise Unsupported('time budget exceeded')
            prefix = self.pending.pop()
            self.reset(prefix)
            n += 1
            self.stats['paths'] += 1
            if n > 4000:
                raise Unsupported('too many paths')
            try:
                run()
            except PathEnd:
                pass

    def choose(self, conds, note=None):
        """Take one of the alternatives; the others are explored later."""
        if self.pos < len(self.decisions):
            i = self.decisions[self.pos]
            self.pos += 1
            c = conds[i]
            if c is not True:
                self.assume(c)
            return i
        feas = []
        for i, c in enumerate(conds):
            if c is False or (z3.is_expr(c) and z3.is_false(z3.simplify(c))):
                continue
            if c is True or self.feasible(c):
                feas.append(i)
        if not feas:
            raise PathEnd()
        for i in feas[1:]:
            self.pending.append(self.decisions + [i])
        self.decisions.append(feas[0])
        self.pos += 1
        c = conds[feas[0]]
        if c is not True:
            self.assume(c)
        return feas[0]

    def choose_free(self, n):
        return self.choose([True] * n)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, Sym):
            c = self.truth(c)
            if isinstance(c, bool):
                return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.npure:
            return self.pure_branch(s)
        return self.choose([s, z3.Not(s)]) == 0

    def check(self, *extra, timeout=None):
        t0 = time.time()
        self.stats['checks'] += 1
        self.solver.set('timeout', timeout or TIMEOUT)
        r = self.solver.check(*extra)
        dt = time.time() - t0
        self.stats['solver_time'] += dt
        if self.trace and dt > 1:
            import sys
            f = sys._getframe(1)
            print('slow %.1f %s %s %s | %s' % (dt, r, f.f_code.co_name, f.f_locals.get('name', f.f_locals.get('cid', '')),
                                            ' / '.join(self.pathnotes[-4:])), flush=True)
        return r

    def feasible(self, c):
        return self.check(c, timeout=FEAS_TIMEOUT) != z3.unsat

    def must(self, c):
        if isinstance(c, bool):
            return c
        return self.check(z3.Not(c), timeout=2000) == z3.unsat

    def valid(self, c, hard=False):
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        r = self.check(z3.Not(s), timeout=getattr(self.cur, 'cand_timeout', 4000) if T.MODE['str'] != 'S' else 1500)
        if r == z3.unknown and hard:
            r = self.second_opinion(s, r)
        if r == z3.unknown:
            self.unsure = True
        return r == z3.unsat

    def definitely_ne(self, a, b):
        e = z3.simplify(a == b)
        if z3.is_true(e):
            return False
        return z3.is_false(e) or self.must(a != b)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.solver.add(c)

    def assume_or_end(self, c):
        self.assume(c)
        if self.check(timeout=FEAS_TIMEOUT) == z3.unsat:
            raise PathEnd()

    def prove(self, name, c, assume=True):
        """An obligation."""
        if self.dry:
            if assume and not isinstance(c, bool):
                self.assume(c)
            elif c is False:
                raise PathEnd()
            return
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obligation(name)
        o.paths += 1
        if isinstance(c, bool):
            ok, why, model = c, ('' if c else 'false on a feasible path'), None
            if not c:
                r = self.check(timeout=TIMEOUT)
                if r == z3.unsat:
                    ok = True
                else:
                    why = 'reachable' if r == z3.sat else 'solver: unknown'
                    model = self.model_text() if r == z3.sat else None
        else:
            t0 = time.time()
            r = self.check(z3.Not(c), timeout=TIMEOUT if T.MODE['str'] != 'S' else 1000)
            if r == z3.unknown:
                r = self.second_opinion(c, r)
            o.time += time.time() - t0
            ok = r == z3.unsat
            why, model = '', None
            if not ok:
                if r == z3.sat:
                    why = 'sat'
                    model = self.model_text()
                else:
                    why = 'unknown: ' + self.solver.reason_unknown()
        if not ok:
            o.failed.append((why, (model or '') + '\n  path: ' + ' / '.join(self.pathnotes[-12:])))
        if assume and not isinstance(c, bool):
            self.assume(c)
        elif c is False:
            raise PathEnd()

    def second_opinion(self, c, r):
        """Other solvers: cvc5 for strings, other z3 configurations."""
        if T.MODE['str'] == 'S':
            return self.ask_cvc5(c, r)
        for mk in (z3.Solver, z3.SimpleSolver):
            s = mk()
            s.set('timeout', TIMEOUT)
            s.add(*self.solver.assertions())
            s.add(z3.Not(c))
            t0 = time.time()
            r2 = s.check()
            self.stats['solver_time'] += time.time() - t0
            if r2 == z3.unsat:
                return r2
        return r

    def ask_cvc5(self, c, r):
        """Is it unsatisfiable together with the assumptions (those without quantifiers first)?"""
        import subprocess
        from .ops import has_quantifier
        all_ = list(self.solver.assertions())
        free = [a for a in all_ if not has_quantifier(a)]
        for some, args in (([] if has_quantifier(c) else [free]) and [(free, [])] or []) + (
                [(all_, []), (all_, ['--enum-inst'])] if len(free) < len(all_) or has_quantifier(c) else []):
            s = z3.Solver()
            s.add(*some)
            s.add(z3.Not(c))
            text = '(set-logic ALL)\n' + s.to_smt2()
            t0 = time.time()
            try:
                p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % CVC5_LIMIT] + args, input=text, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, universal_newlines=True, timeout=CVC5_LIMIT / 1000 + 5)
                out = p.stdout.strip().splitlines()[:1]
            except (OSError, subprocess.TimeoutExpired):
                out = []
            self.stats['solver_time'] += time.time() - t0
            self.stats['cvc5'] = self.stats.get('cvc5', 0) + 1
            if out == ['unsat']:
                return z3.unsat
            if out and out[0] not in ('sat', 'unknown') and 'interrupted' not in out[0]:
                self.cvc5_error = out[0]
        return r

    def model_text(self):
        try:
            m = self.solver.model()
            out = []
            for d in m.decls():
                if d.arity() == 0 and '!' not in d.name()[:1]:
                    out.append('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:120]))
            return '  model: ' + '; '.join(sorted(out)[:40])
        except z3.Z3Exception:
            return None

    # ------------------------------------------------------------------
    # symbols
    def fresh_term(self, srt, hint='v'):
        n = self.nfresh.get(hint, 0)
        self.nfresh[hint] = n + 1
        return z3.Const('%s!%d' % (hint, n), srt)

    def fresh(self, ty, hint='v', name=None):
        """A fresh value of a type; options and tuples are split."""
        if isinstance(ty, T.TOpt):
            if self.choose_free(2) == 0:
                return None
            return self.fresh(ty.a, hint)
        if isinstance(ty, T.TTup):
            return tuple(self.fresh(t, hint) for t in ty.items)
        if ty is T.TNone:
            return None
        t = self.fresh_term(T.sort(ty), hint)
        return self.dec(t, ty, name=name, fresh=True)

    def cont_name(self):
        base = '%s@%s' % ('/'.join(self.callpath[-6:]), getattr(self.curnode, 'lineno', 0) and
                          '%d:%d' % (self.curnode.lineno, self.curnode.col_offset))
        n = self.contn.get(base, 0)
        self.contn[base] = n + 1
        return base + '#%d' % n

    def lit(self, s):
        """Term of a string literal."""
        if T.MODE['str'] == 'S':
            return z3.StringVal(s)
        t = self.lits.get(s)
        if t is None:
            t = z3.Const('lit:' + repr(s), T.sort(T.TStr))
            for k, o in self.lits.items():
                if isinstance(k, str):
                    self.axiom(t != o)
            self.lits[s] = t
        return t

    def axiom(self, f):
        """A fact that holds on every path."""
        self.solver.add(f)
        if self.npure:
            self.deferred.append(f)

    def uconst(self, ty, tag):
        """Distinct constant of an uninterpreted sort."""
        k = (ty.key, tag)
        t = self.lits.get(k)
        if t is None:
            t = z3.Const('%s:%s' % (ty.name, tag), T.sort(ty))
            for o, v in self.lits.items():
                if isinstance(o, tuple) and o[0] == ty.key:
                    self.axiom(t != v)
            self.lits[k] = t
        return t

    def default_arr(self, ty):
        return self.fresh_term(z3.ArraySort(z3.IntSort(), T.sort(ty)), 'arr0')

    def ufun(self, name, args, srt):
        f = z3.Function(name, *[a.sort() for a in args], srt)
        return f(*args)

    # ------------------------------------------------------------------
    # values <-> terms
    def type_of(self, v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, bool):
            return T.TBool
        if isinstance(v, int):
            return T.TInt
        if isinstance(v, float):
            return T.TReal
        if isinstance(v, str):
            return T.TStr
        if isinstance(v, tuple):
            ts = [self.type_of(i) for i in v]
            return None if any(t is None for t in ts) else T.TTup(*ts)
        if isinstance(v, Cont):
            return v.ty()
        return None

    def can_enc(self, v, ty):
        if isinstance(ty, T.TOpt):
            return v is None or self.can_enc(v, ty.a)
        if isinstance(ty, T.TU) and ('can', ty.name) in self.isinst and self.isinst[('can', ty.name)](self, v):
            return True
        if isinstance(v, Sym):
            return v.ty == ty or (isinstance(ty, T.TU) and v.t.sort() == T.sort(ty)) or (ty.key == 'Real' and v.ty.key == 'Int') or \
                (isinstance(ty, T.TOpt) and v.ty == ty.a)
        if isinstance(v, bool):
            return ty.key in ('Bool', 'Int')
        if isinstance(v, int):
            return ty.key in ('Int', 'Real')
        if isinstance(v, float):
            return ty.key == 'Real'
        if isinstance(v, str):
            return ty.key == 'Str'
        if isinstance(v, tuple):
            if isinstance(ty, T.TTup):
                return len(v) == len(ty.items) and all(self.can_enc(a, b) for a, b in zip(v, ty.items))
            if isinstance(ty, T.TSeq):
                return all(self.can_enc(a, ty.a) for a in v)
            if isinstance(ty, T.TColl):
                return all(self.can_enc(a, ty.k) for a in v)
            return False
        if isinstance(v, Cont):
            if isinstance(v, MSet):
                return isinstance(ty, T.TSet)
            if isinstance(v, MDict):
                return isinstance(ty, T.TMap)
            return isinstance(ty, (T.TSeq, T.TColl))
        return False

    def enc(self, v, ty):
        if isinstance(ty, T.TOpt):
            return T.none(ty.a) if v is None else T.some(ty.a, self.enc(v, ty.a))
        if isinstance(v, Sym):
            if v.ty == ty:
                return v.t
            if ty.key == 'Real' and v.ty.key == 'Int':
                return z3.ToReal(v.t)
            if ty.key == 'Int' and v.ty.key == 'Bool':
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if isinstance(ty, T.TU) and v.t.sort() == T.sort(ty):
                return v.t
        elif isinstance(v, bool):
            if ty.key == 'Bool':
                return z3.BoolVal(v)
            if ty.key == 'Int':
                return z3.IntVal(int(v))
        elif isinstance(v, int):
            if ty.key == 'Int':
                return z3.IntVal(v)
            if ty.key == 'Real':
                return z3.RealVal(v)
        elif isinstance(v, float):
            if ty.key == 'Real':
                return z3.RealVal(repr(v))
        elif isinstance(v, str):
            if ty.key == 'Str':
                return self.lit(v)
        elif isinstance(v, tuple):
            if isinstance(ty, T.TTup) and len(v) == len(ty.items):
                return T.sort(ty).mk(*[self.enc(a, b) for a, b in zip(v, ty.items)])
            if isinstance(ty, T.TSeq):
                arr = self.default_arr(ty.a)
                for n, i in enumerate(v):
                    arr = z3.Store(arr, n, self.enc(i, ty.a))
                return T.sort(ty).seq(z3.IntVal(len(v)), arr)
            if isinstance(ty, T.TColl):
                t = T.empty_set(ty.k)
                for i in v:
                    t = z3.Store(t, self.enc(i, ty.k), z3.BoolVal(True))
                return t
        elif isinstance(v, MSet):
            if isinstance(ty, (T.TSet, T.TColl)):
                return v.set_term(ty.k)
        elif isinstance(v, MDict):
            if isinstance(ty, T.TMap):
                return v.map_term(ty)
        elif isinstance(v, MList):
            if isinstance(ty, T.TColl) and (v.coll or v.items is not None):
                return v.seq_term(ty)
            if isinstance(ty, T.TSeq) and not v.coll:
                return v.seq_term(ty)
        if isinstance(ty, T.TU) and ('encc', ty.name) in self.isinst:
            t = self.isinst[('encc', ty.name)](self, v)
            if t is not None:
                return t
        if isinstance(ty, T.TU) and not isinstance(v, (Cont, Sym)):
            h = self.isinst.get(('enc', ty.name))
            if h:
                return h(self, v)
            if v is None or isinstance(v, (str, int, tuple, ClassVal, FuncVal)):
                return self.uconst(ty, repr(v))
        raise Unsupported('cannot represent %r as %s' % (v, ty))

    def dec(self, t, ty, parent=None, name=None, fresh=False):
        if isinstance(ty, T.TOpt):
            if self.branch(T.is_some(ty.a, t)):
                return self.dec(T.val(ty.a, t), ty.a, parent=None)
            return None
        if isinstance(ty, T.TTup):
            s = T.sort(ty)
            return tuple(self.dec(z3.simplify(s.accessor(0, i)(t)), it) for i, it in enumerate(ty.items))
        if isinstance(ty, T.TSet):
            if parent:
                return MSet(self, ty.k, parent=parent, name=name)
            return MSet(self, ty.k, term=t, name=name)
        if isinstance(ty, T.TMap):
            if parent:
                return MDict(self, ty.k, ty.v, parent=parent, name=name)
            return MDict(self, ty.k, ty.v, term=t, name=name)
        if isinstance(ty, T.TSeq):
            if fresh:
                self.assume(T.sort(ty).len(t) >= 0)
            if parent and not ty.tup:
                return MList(self, ty.a, parent=parent, name=name)
            return MList(self, ty.a, term=t, name=name, tup=ty.tup)
        if isinstance(ty, T.TColl):
            if parent and not ty.tup:
                return MList(self, ty.k, parent=parent, coll=True, name=name)
            return MList(self, ty.k, term=t, coll=True, name=name, tup=ty.tup)
        if ty.key == 'Bool':
            s = z3.simplify(t)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
        return Sym(t, ty)

    # ------------------------------------------------------------------
    # logic on values
    def and_(self, xs):
        xs = [x for x in xs if x is not True]
        if any(x is False for x in xs):
            return False
        return True if not xs else z3.And(*xs)

    def or_(self, xs):
        xs = [x for x in xs if x is not False]
        if any(x is True for x in xs):
            return True
        return False if not xs else z3.Or(*xs)

    def not_(self, x):
        return (not x) if isinstance(x, bool) else z3.Not(x)

    def bv(self, x):
        """bool or z3 Bool -> value"""
        if isinstance(x, bool):
            return x
        s = z3.simplify(x)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return Sym(s, T.TBool)

    def truth(self, v):
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, (int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Sym):
            k = v.ty.key
            if k == 'Bool':
                return v.t
            if k == 'Int':
                return v.t != 0
            if k == 'Real':
                return v.t != 0
            if k == 'Str':
                return v.t != self.lit('')
            if isinstance(v.ty, T.TU):
                if v.ty.truthy is not None:
                    return v.ty.truthy
                return self.ufun('truthy_' + v.ty.name, [v.t], z3.BoolSort())
            return True
        if isinstance(v, Cont):
            return v.nonempty()
        if isinstance(v, IterSpec):
            raise Unsupported('truth value of an iterator')
        if isinstance(v, Inst):
            for n in ('__bool__', '__len__'):
                if n in v.attrs:
                    return self.truth(self.call(v.attrs[n], []))
            if isinstance(v.cls, ClassVal) and (self.class_attr(v.cls, '__bool__') or
                                                self.class_attr(v.cls, '__len__')):
                raise Unsupported('__bool__ on %r' % v)
            return True
        return True

    def eq(self, a, b):
        """a == b as bool or z3 Bool"""
        if a is b and not isinstance(a, Undef):
            return True
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('comparison of an untracked value')
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, Sym) and isinstance(x.ty, T.TU) and ('enc', x.ty.name) not in self.isinst \
                    and x.ty.py is None:
                return x.t == self.uconst(x.ty, 'None')
            return False
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.ty == b.ty:
                return a.t == b.t
            ks = {a.ty.key, b.ty.key}
            if ks == {'Int', 'Real'}:
                return self.enc(a, T.TReal) == self.enc(b, T.TReal)
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(o, Cont) and isinstance(s.ty, T.TU):
                raise Unsupported('comparison of %r with %r' % (s, o))
            if self.can_enc(o, s.ty):
                return s.t == self.enc(o, s.ty)
            if isinstance(s.ty, T.TU) and isinstance(o, (str, int, tuple)) and s.ty.py is None:
                return s.t == self.uconst(s.ty, repr(o))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Cont) and isinstance(b, Cont):
            return self.eq_cont(a, b)
        if isinstance(a, Cont) or isinstance(b, Cont):
            c, o = (a, b) if isinstance(a, Cont) else (b, a)
            if isinstance(o, tuple) and isinstance(c, MList) and c.py == 'tuple':
                return self.eq_cont(c, MList(self, items=list(o)))
            return False
        if isinstance(a, (int, float, str, bytes, bool)) and isinstance(b, (int, float, str, bytes, bool)):
            return a == b
        if isinstance(a, Inst) or isinstance(b, Inst):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst) and isinstance(x.cls, ClassVal):
                    m = self.class_attr(x.cls, '__eq__')
                    if m is not None:
                        raise Unsupported('__eq__ of %r' % x.cls)
            return False
        if isinstance(a, (ClassVal, FuncVal, Ext, ModVal)) or isinstance(b, (ClassVal, FuncVal, Ext, ModVal)):
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a.name == b.name
            return a is b
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        if isinstance(a, (Sym,)) or type(a) is not type(b):
            return False
        raise Unsupported('comparison of %r and %r' % (a, b))

    def eq_cont(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, MSet):
            if a.items is not None and b.items is not None:
                return self.and_([b.contains(i) for i in a.items] + [a.contains(i) for i in b.items])
            k = a.k or b.k
            return a.set_term(k) == b.set_term(k)
        if isinstance(a, MDict):
            if a.items is not None and b.items is not None:
                if all(isinstance(k, str) for k, _ in a.items + b.items):
                    da, db = dict((k, v) for k, v in a.items), dict((k, v) for k, v in b.items)
                    if set(da) != set(db):
                        return False
                    return self.and_([self.eq(da[k], db[k]) for k in da])
            ty = a.ty() or b.ty()
            if ty is None:
                return not a.items and not b.items
            return a.map_term(ty) == b.map_term(ty)
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if a.coll or b.coll:
            raise Unsupported('equality of collections tracked by membership only')
        ty = a.ty() or b.ty()
        x, y = a.seq_term(ty), b.seq_term(ty)
        return self.seq_eq(ty, x, y)

    def seq_eq(self, ty, x, y):
        s = T.sort(ty)
        j = z3.Int('j!eq')
        return z3.And(s.len(x) == s.len(y),
                      z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.len(x)),
                                                z3.Select(s.arr(x), j) == z3.Select(s.arr(y), j))))

    # ------------------------------------------------------------------
    # exceptions
    def raise_py(self, cls, msg=None):
        raise PyExc(ExcVal(cls, (msg,) if msg is not None else ()))

    def exc_classes(self, cls):
        if isinstance(cls, ClassVal):
            return cls.mro()
        if isinstance(cls, type):
            return list(cls.__mro__)
        return [cls]

    def exc_match(self, e, cls):
        """Does exception e match `except cls`?"""
        if isinstance(cls, tuple):
            return any(self.exc_match(e, c) for c in cls)
        if isinstance(cls, Ext):
            cls = self.ext_exc(cls)
        if e.cls is None:
            up = self.exc_classes(e.upper)
            if cls in self.real_bases(up):
                return True
            if cls in e.excluded:
                return False
            # an unknown exception may or may not be of this class
            if isinstance(cls, type) and isinstance(e.upper, type) and not issubclass(cls, e.upper):
                return False
            if self.choose_free(2) == 0:
                e.cls = cls
                return True
            e.excluded.append(cls)
            return False
        return cls in self.real_bases(self.exc_classes(e.cls))

    def real_bases(self, cs):
        out = []
        for c in cs:
            if isinstance(c, type):
                out.extend(c.__mro__)
            elif isinstance(c, Ext):
                r = self.ext_exc(c)
                out.extend(r.__mro__ if isinstance(r, type) else [r])
            else:
                out.append(c)
        return out

    def ext_exc(self, ext):
        import importlib
        m, _, n = ext.name.rpartition('.')
        try:
            r = getattr(importlib.import_module(m), n) if m else getattr(builtins, n)
            if isinstance(r, type):
                return r
        except Exception:
            pass
        return ext

    # ------------------------------------------------------------------
    # heap (ghost state and object fields)
    def heap_init(self, name, ty, term=None):
        self.heap[name] = term if term is not None else self.fresh_term(T.sort(ty), name)
        self.heap_ty[name] = ty
        self.heap_stamp[name] = self.tick()

    def heap_set(self, name, term):
        self.note_write(self.heap_stamp[name], ('H', name))
        self.heap[name] = term

    def havoc_name(self, n):
        if n in self.heap:
            self.heap_set(n, self.fresh_term(self.heap[n].sort(), n))
            return
        c = self.conts.get(n)
        if c is None or c.items is not None:
            raise Unsupported('cannot havoc ' + n)
        c.kill_views()
        c.touched()
        c.write(self.fresh_term(c.term.sort(), n))
        if isinstance(c, MList) and not c.coll:
            self.assume(T.sort(T.TSeq(c.a)).len(c.term) >= 0)

    def elem_type(self, vs):
        """The common type of some values."""
        for h in getattr(self.cur, 'hints', ()):
            if vs and all(self.can_enc(v, h) for v in vs):
                return h
        ts = [self.type_of(v) for v in vs]
        if ts and ts[0] is not None and all(t == ts[0] for t in ts):
            return ts[0]
        return None

    def note_write(self, stamp, key):
        if self.npure:
            if stamp < self.pure_stamp:
                raise Unsupported('side effect in a summarised expression')
        for l in self.loops:
            if stamp < l[0]:
                l[1].add(key)

    def snapshot(self):
        """Terms of the heap and of the named root containers."""
        s = dict(self.heap)
        for n, c in self.conts.items():
            if c.parent is None and n.startswith('.'):
                if c.items is None:
                    s[n] = c.term
                else:
                    t = c.ty()
                    if t is not None:
                        s[n] = self.enc(c, t)
        return s

    # ------------------------------------------------------------------
    # pure summaries: all paths of an expression that changes nothing
    def pure_branch(self, c):
        if self.ppos < len(self.pdec):
            w = self.pdec[self.ppos]
            self.ppos += 1
        else:
            f1 = self.check(c, timeout=FEAS_TIMEOUT) != z3.unsat
            f2 = self.check(z3.Not(c), timeout=FEAS_TIMEOUT) != z3.unsat
            if not f1 and not f2:
                raise PathEnd()
            if f1 and f2:
                self.ppend.append(self.pdec + [False])
                w = True
            else:
                w = f1
            self.pdec.append(w)
            self.ppos += 1
        self.solver.add(c if w else z3.Not(c))
        self.pcond.append(c if w else z3.Not(c))
        return w

    def summarise(self, thunk):
        """[(condition, value or PyExc)] of a side-effect free thunk."""
        if self.npure:
            saved = (self.pdec, self.ppos, self.ppend, self.pcond, self.pure_stamp)
        out = []
        pend = [[]]
        self.npure += 1
        nf, cn, cl, lv = dict(self.nfresh), dict(self.contn), self.clock, None
        try:
            while pend:
                self.nfresh, self.contn = dict(nf), dict(cn)
                self.pdec, self.ppos, self.ppend, self.pcond = pend.pop(), 0, pend, []
                self.pure_stamp = self.tick()
                self.solver.push()
                try:
                    try:
                        v = thunk()
                    except PyExc as e:
                        v = e
                    out.append((z3.And(*self.pcond) if self.pcond else z3.BoolVal(True), v))
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                if len(out) > 64:
                    raise Unsupported('too many cases in a summarised expression')
        finally:
            self.npure -= 1
            for f in self.deferred:
                self.solver.add(f)
            if not self.npure:
                self.deferred = []
            if self.npure:
                self.pdec, self.ppos, self.ppend, self.pcond, self.pure_stamp = saved
        return out

    # ------------------------------------------------------------------
    # loops
    def loop_key(self, node, extra=''):
        return '%s@%d:%d%s' % ('/'.join(self.callpath[-6:]), node.lineno, node.col_offset, extra)

    def iter_spec(self, v):
        """Segments of an iterable value."""
        if isinstance(v, IterSpec):
            if getattr(v, 'once', False):
                if getattr(v, 'used', False):
                    raise Unsupported('an iterator consumed in parts')
                v.used = True
            return v.segs
        if isinstance(v, Inst) and '__seg__' in v.attrs:
            sg, p = v.attrs['__seg__'], self.iter_pos(v)
            self.set_iter_pos(v, None)
            return [Seg('seq', seq=None, ety=sg.ety, n=z3.simplify(sg.n - p), cont=getattr(sg, 'cont', None),
                        at=lambda i: sg.at(z3.simplify(i + p)), iters=[(v, p, z3.IntVal(0))])]
        if isinstance(v, tuple):
            return [Seg('concrete', items=list(v))]
        if isinstance(v, str):
            return [Seg('concrete', items=list(v))]
        if isinstance(v, range):
            return [Seg('concrete', items=list(v))]
        if isinstance(v, MList):
            if v.items is not None:
                return [Seg('concrete', items=list(v.items), live=v)]
            if v.coll:
                return [Seg('coll', S=v.read(), ety=v.a, elem=lambda t: self.dec(t, v.a), cont=v)]
            ty = T.TSeq(v.a)
            return [Seg('seq', seq=v.read(), sty=ty, ety=v.a, cont=v,
                        n=T.sort(ty).len(v.read()),
                        at=lambda i: self.dec(z3.Select(v.arr(), i), v.a, parent=(v, i)))]
        if isinstance(v, MSet):
            if v.items is not None:
                if len(v.items) <= 1 or all(isinstance(i, str) for i in v.items):
                    return [Seg('concrete', items=list(v.items))]
                v.symbolic()
            return [Seg('set', S=v.read(), ety=v.k, elem=lambda t: self.dec(t, v.k), cont=v)]
        if isinstance(v, MDict):
            return self.dict_segs(v, 'keys')
        if isinstance(v, Inst):
            h = v.attrs.get('__iter_segs__')
            if h:
                return h(self)
        if isinstance(v, Sym):
            h = self.methods.get((v.ty.key, '__iter__'))
            if h:
                return self.iter_spec(h(self, v))
            if v.ty.key == 'Str' and T.MODE['str'] == 'S':
                raise Unsupported('iteration over the characters of a string')
        raise Unsupported('iteration over %r' % (v,))

    def iter_pos(self, it):
        p = it.attrs['__pos__']
        if not isinstance(p, Sym):
            raise Unsupported('an iterator consumed in parts')
        return p.t

    def set_iter_pos(self, it, p):
        self.note_write(it.stamp, ('A', it.name, '__pos__'))
        it.attrs['__pos__'] = Undef('iterator being consumed') if p is None else Sym(z3.simplify(p), T.TInt)

    def seg_used(self, seg):
        """All elements of the segment were taken from its iterators."""
        for it, base, extra in getattr(seg, 'iters', ()):
            self.set_iter_pos(it, base + seg.n + extra)

    def dict_segs(self, d, what):
        if d.items is not None:
            sel = {'keys': lambda kv: kv[0], 'values': lambda kv: kv[1],
                   'items': lambda kv: (kv[0], kv[1])}[what]
            return [Seg('concrete', items=[sel(kv) for kv in d.items])]
        m = d.read()
        k = self.fresh_term(T.sort(d.k), 'k')
        S = z3.Lambda([k], T.is_some(d.v, z3.Select(m, k)))
        # a set constant with a definition is kinder to the solver than a lambda
        D = self.fresh_term(z3.ArraySort(T.sort(d.k), z3.BoolSort()), 'keys')
        self.assume(z3.ForAll([k], z3.Select(D, k) == T.is_some(d.v, z3.Select(m, k)),
                              patterns=[z3.Select(D, k)] ))
        self.assume(z3.ForAll([k], z3.Select(D, k) == T.is_some(d.v, z3.Select(m, k)),
                              patterns=[z3.Select(m, k)]))

        def elem(t):
            key = self.dec(t, d.k)
            if what == 'keys':
                return key
            v = d.get(key)
            return v if what == 'values' else (key, v)
        return [Seg('set', S=D, ety=d.k, elem=elem, cont=d)]

    def run_for(self, node, it, env, assign, body):
        """Executes a for loop; returns True if it was left by break."""
        for si, seg in enumerate(self.iter_spec(it)):
            if seg.kind == 'concrete':
                i = 0
                items = seg.items
                live = getattr(seg, 'live', None)
                while True:
                    if live is not None and live.items is not None:
                        items = live.items
                    if i >= len(items):
                        break
                    x = items[i]
                    i += 1
                    assign(x)
                    try:
                        body()
                    except Brk:
                        return True
                    except Cnt:
                        continue
                continue
            if self.run_seg(node, seg, si, env, assign, body):
                return True
        return False

    def run_seg(self, node, seg, si, env, assign, body):
        if self.npure:
            raise Unsupported('loop inside a summarised expression')
        key = self.loop_key(node, '/%d' % si)
        info = self.linfo.setdefault(key, LoopInfo())
        L = LoopCtx(self, key, seg.kind, env)
        for it, base, extra in getattr(seg, 'iters', ()):
            self.set_iter_pos(it, base)
        L.pre = self.snapshot()
        L.ety = seg.ety
        L.pre_locals = self.mod_values(info)
        pred = [None]
        if seg.kind in ('set', 'coll'):
            L.S = seg.S
            zero = T.empty_set(seg.ety)
        elif seg.kind == 'seq':
            L.seq, L.n = seg.seq, seg.n
            zero = z3.IntVal(0)
        else:
            raise Unsupported(seg.kind)

        def setpos(p):
            if seg.kind == 'seq':
                L.i = p
                L.at = lambda j: z3.Select(T.sort(T.TSeq(seg.ety)).arr(seg.seq), j) if seg.seq is not None else seg.at(j)
            else:
                L.D = p
        setpos(zero)
        self.init_check(L, info)
        self.havoc(info, L)
        if seg.kind == 'seq':
            p = self.fresh_term(z3.IntSort(), 'i')
            self.assume(z3.And(0 <= p, p <= seg.n))
        else:
            p = self.fresh_term(zero.sort(), 'done')
            e = self.fresh_term(T.sort(seg.ety), 'e')
            self.assume(z3.ForAll([e], z3.Implies(z3.Select(p, e), z3.Select(seg.S, e)),
                                  patterns=[z3.Select(p, e)]))
        setpos(p)
        self.assume_cands(L, info)
        more = True
        if self.choose_free(2) == 0:
            self.pathnotes.append('%s:iterate' % node.lineno)
            if seg.kind == 'seq':
                self.assume_or_end(p < seg.n)
                x = None
            else:
                x = self.fresh_term(T.sort(seg.ety), 'x')
                self.assume_or_end(z3.And(z3.Select(seg.S, x), z3.Not(z3.Select(p, x)))
                                   if seg.kind == 'set' else z3.Select(seg.S, x))
            cont = getattr(seg, 'cont', None)
            rec = (self.tick(), set(), cont)
            self.loops.append(rec)
            wasf = cont.frozen if cont is not None else False
            if cont is not None and cont.root is cont:
                cont.frozen = True
            try:
                for it, base, extra in getattr(seg, 'iters', ()):
                    self.set_iter_pos(it, base + p + 1)
                assign(seg.at(p) if seg.kind == 'seq' else seg.elem(x))
                try:
                    body()
                except Cnt:
                    pass
            except Brk:
                return True
            finally:
                self.loops.pop()
                if cont is not None:
                    cont.frozen = wasf
            self.end_iteration(L, info, rec)
            setpos(p + 1 if seg.kind == 'seq' else z3.Store(p, x, z3.BoolVal(True)))
            self.keep_check(L, info)
            raise PathEnd()
        self.pathnotes.append('%s:done' % node.lineno)
        if seg.kind == 'seq':
            self.assume(p == seg.n)
            self.seg_used(seg)
        else:
            self.assume(p == seg.S)
            e = self.fresh_term(T.sort(seg.ety), 'e')
            self.assume(z3.ForAll([e], z3.Select(p, e) == z3.Select(seg.S, e),
                                  patterns=[z3.Select(seg.S, e)]))
        return False

    def run_while(self, node, env, test, body):
        """Returns True when left by break."""
        # unroll while the condition stays concrete
        n = 0
        key = self.loop_key(node)
        info = self.linfo.get(key)
        if info is None:
            info = self.linfo[key] = LoopInfo()
        if self.npure:
            raise Unsupported('loop inside a summarised expression')
        L = LoopCtx(self, key, 'while', env)
        L.pre = self.snapshot()
        L.pre_locals = self.mod_values(info)
        self.init_check(L, info)
        self.havoc(info, L)
        self.assume_cands(L, info)
        c = self.truth(test())
        if self.branch(c):
            self.pathnotes.append('%s:iterate' % node.lineno)
            rec = (self.tick(), set(), None)
            self.loops.append(rec)
            try:
                try:
                    body()
                except Cnt:
                    pass
            except Brk:
                return True
            finally:
                self.loops.pop()
            self.end_iteration(L, info, rec)
            self.keep_check(L, info)
            raise PathEnd()
        self.pathnotes.append('%s:done' % node.lineno)
        return False

    def loc_get(self, key):
        """Current value at a modification key."""
        k = key[0]
        if k == 'L':
            env = self.env_by_name(key[1])
            return env.vars.get(key[2]) if env else None
        if k == 'C':
            return self.conts.get(key[1])
        if k == 'H':
            return Sym(self.heap[key[1]], self.heap_ty[key[1]]) if key[1] in self.heap else None
        if k == 'A':
            i = self.insts.get(key[1])
            return i.attrs.get(key[2]) if i else None

    def env_by_name(self, name):
        return self.envs.get(name)

    def freeze(self, v):
        """A value that later writes do not change."""
        if isinstance(v, Cont):
            t = v.ty()
            if t is None:
                return ('empty', v.py)
            return Sym(self.enc(v, t), t)
        return v

    def mod_values(self, info):
        return {k: self.freeze(self.loc_get(k)) for k in info.mod}

    def end_iteration(self, L, info, rec):
        new = rec[1] - info.mod
        # only locations that exist before the loop matter
        new = {k for k in new if k[0] != 'L' or True}
        changed = bool(new)
        info.mod |= new
        for k in info.mod:
            if k[0] in 'LA':
                v = self.loc_get(k)
                t = self.value_type(v)
                old = info.types.get(k)
                j = self.join(old, t) if old is not None else t
                if j != old:
                    info.types[k] = j
                    changed = True
            elif k[0] == 'C':
                c = self.conts.get(k[1])
                t = c.ty() if c is not None else None
                if t is not None and info.types.get(k) != t:
                    info.types[k] = t
                    changed = True
        if changed:
            raise Restart()

    def value_type(self, v):
        if v is None:
            return T.TNone
        t = self.type_of(v)
        if t is not None:
            return ('val', t, isinstance(v, Cont), getattr(v, 'cls', None))
        return ('opaque',)

    def join(self, a, b):
        if a == b:
            return a
        if a is T.TNone and isinstance(b, tuple) and b[0] == 'val':
            return ('val', T.TOpt(b[1]), b[2], b[3]) if not isinstance(b[1], T.TOpt) else b
        if b is T.TNone:
            return self.join(b, a) if not (isinstance(a, tuple) and a[0] == 'val' and isinstance(a[1], T.TOpt)) else a
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'val':
            if isinstance(a[1], T.TOpt) and a[1].a == b[1]:
                return a
            if isinstance(b[1], T.TOpt) and b[1].a == a[1]:
                return b
            if a[1] == b[1] and a[1].key == 'Str' and a[2] == b[2]:
                return ('val', a[1], a[2], MIXED)
        return ('opaque',)

    def havoc(self, info, L):
        for k in sorted(info.mod, key=repr):
            if k[0] == 'L':
                env = self.env_by_name(k[1])
                if env is None:
                    continue
                had = k[2] in env.vars
                self.note_write(env.stamp, k)
                cur = env.vars.get(k[2])
                t = info.types.get(k)
                if had and not isinstance(cur, Undef):
                    t = self.join(t, self.value_type(cur)) if t is not None else self.value_type(cur)
                if t is T.TNone:
                    env.vars[k[2]] = None if had else Undef('assigned in a loop')
                elif isinstance(t, tuple) and t[0] == 'val' and not t[2] and had and not isinstance(cur, Undef):
                    v = self.fresh(t[1], k[2])
                    if t[3] is not None and isinstance(v, Sym):
                        v.cls = t[3]
                    env.vars[k[2]] = v
                else:
                    env.vars[k[2]] = Undef('assigned in a loop: ' + k[2])
            elif k[0] == 'C':
                c = self.conts.get(k[1])
                if c is None or c.parent is not None:
                    continue
                self.note_write(c.stamp, k)
                t = c.ty() or info.types.get(k)
                if t is None:
                    # nothing of known type was ever added
                    continue
                if c.items is not None:
                    c.symbolic(t.k if isinstance(c, MSet) else t)
                c.kill_views()
                c.term = self.fresh_term(c.term.sort(), 'h_' + k[1].split('@')[-1].split('#')[0].replace(':', '_'))
                if isinstance(c, MList) and not c.coll:
                    self.assume(T.sort(T.TSeq(c.a)).len(c.term) >= 0)
            elif k[0] == 'H':
                if k[1] in self.heap:
                    self.heap_set(k[1], self.fresh_term(self.heap[k[1]].sort(), k[1]))
            elif k[0] == 'A':
                i = self.insts.get(k[1])
                if i is None or k[2] not in i.attrs:
                    continue
                self.note_write(i.stamp, k)
                cur = i.attrs[k[2]]
                t = info.types.get(k)
                t = self.join(t, self.value_type(cur)) if t is not None else self.value_type(cur)
                if isinstance(t, tuple) and t[0] == 'val' and not t[2]:
                    i.attrs[k[2]] = self.fresh(t[1], k[2])
                elif t is T.TNone:
                    pass
                else:
                    i.attrs[k[2]] = Undef('assigned in a loop')

    def cands(self, L, info, all_=False):
        """Candidate invariants at the current position: [(id, formula)]."""
        out = []
        L.locals, L.now = {}, self.snapshot()
        for k in sorted(info.mod, key=repr):
            v = self.loc_get(k)
            if isinstance(v, Undef) or v is None:
                pass
            else:
                L.locals[k] = v
            pre = L.pre_locals.get(k)
            f = self.unchanged(v, pre)
            if f is not None:
                out.append(('unch:%r' % (k,), f))
            isint = isinstance(v, Sym) and v.ty.key == 'Int' or isinstance(v, int) and not isinstance(v, bool)
            if isint and not isinstance(pre, Undef) and pre is not None:
                try:
                    out.append(('mono:%r' % (k,), self.enc(v, T.TInt) >= self.enc(pre, T.TInt)))
                except Unsupported:
                    pass
            if isinstance(v, MList) and v.items is None and not v.coll:
                n = T.sort(T.TSeq(v.a)).len(v.read())
                if L.kind == 'seq':
                    base = 0
                    out.append(('len:%r' % (k,), n == L.i + self.pre_len(pre)))
                out.append(('len0:%r' % (k,), n >= self.pre_len(pre)))
            if isint and L.kind == 'seq' and not isinstance(pre, (Undef, type(None))):
                try:
                    out.append(('ctr:%r' % (k,), self.enc(v, T.TInt) == self.enc(pre, T.TInt) + L.i))
                except Unsupported:
                    pass
        c = self.cur
        if c is not None:
            for n, tmpl in enumerate(getattr(c, 'loops', ())):
                fs = tmpl(c, self, L) or []
                for m, f in enumerate(fs):
                    if isinstance(f, tuple):
                        name, f = f
                    else:
                        name = str(m)
                    out.append(('tmpl%d:%s' % (n, name), f))
        res = []
        for cid, f in out:
            if cid in info.dropped:
                continue
            if f is False:
                f = z3.BoolVal(False)
            res.append((cid, f))
        return res

    def pre_len(self, pre):
        if isinstance(pre, Sym):
            return T.sort(pre.ty).len(pre.t)
        return z3.IntVal(0)

    def unchanged(self, v, pre):
        if isinstance(v, Undef) or isinstance(pre, Undef):
            return None
        if isinstance(v, Cont):
            if isinstance(pre, Sym):
                return self.enc(v, pre.ty) == pre.t
            if isinstance(pre, tuple) and pre and pre[0] == 'empty':
                f = v.nonempty()
                return (not f) if isinstance(f, bool) else z3.Not(f)
            return None
        if v is None or pre is None:
            if v is None and pre is None:
                return None
            return z3.BoolVal(False)
        try:
            f = self.eq(v, pre)
        except Unsupported:
            return None
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def drop(self, info, bad):
        if self.trace:
            print('drop', bad)
        info.dropped.update(bad)
        raise Restart()

    def init_check(self, L, info):
        """Establish the candidates on entry; only these are assumed later."""
        for k in info.mod:
            if k[0] == 'C':
                c = self.conts.get(k[1])
                t = (c.ty() or info.types.get(k)) if c is not None and c.parent is None else None
                if t is not None and c.items is not None:
                    c.symbolic(t.k if isinstance(c, MSet) else t)
        cs = self.cands(L, info)
        bad = [cid for cid, f in cs if f is not True and not self.valid(f, hard=cid.startswith('tmpl'))]
        if bad:
            # at loop entry nothing is havocked yet, so the candidate is wrong
            self.drop(info, bad)
        L.ids = {cid for cid, f in cs}

    def assume_cands(self, L, info):
        L.assumed = set()
        for cid, f in self.cands(L, info):
            if cid in L.ids:
                L.assumed.add(cid)
                if f is not True:
                    self.assume(f)

    def keep_check(self, L, info):
        """The assumed candidates hold again after an iteration."""
        cs = [(cid, f) for cid, f in self.cands(L, info) if cid in L.assumed]
        gone = L.assumed - {cid for cid, _ in cs}
        fs = [f for _, f in cs if f is not True]
        if not gone and (not fs or self.valid(z3.And(*fs))):
            return
        # a template may be undecided only because of a wrong automatic candidate
        auto = list(gone) + [cid for cid, f in cs if f is not True and not cid.startswith('tmpl') and not self.valid(f)]
        if auto:
            self.drop(info, auto)
        bad = [cid for cid, f in cs if f is not True and cid.startswith('tmpl') and not self.valid(f, hard=True)]
        if bad:
            self.drop(info, bad)

    # ------------------------------------------------------------------
    # classes and attributes
    def class_attr(self, cls, name, after=None):
        seen = after is None
        for c in cls.mro():
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassVal):
                if name in c.attrs:
                    return c.attrs[name]
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, tuple) and v[0] == 'expr':
                        v = self.eval_const(c.mod, v[1], c)
                    return v
        return None

    def is_subclass(self, c, d):
        if isinstance(c, ClassVal):
            return d in self.real_bases(c.mro())
        if isinstance(c, type) and isinstance(d, type):
            return issubclass(c, d)
        if isinstance(c, Inst) and '__issubclass__' in c.attrs:
            return c.attrs['__issubclass__'] is d
        return c is d

    def new_inst(self, cls, name=None, **attrs):
        name = name or self.cont_name()
        i = Inst(cls, name, attrs, self.tick())
        self.insts[name] = i
        return i

    def run_contract(self, contract):
        """Verify one function against its contract."""
        self.cur = contract
        f = self.repo.find(contract.target)
        if f is None:
            raise Unsupported('%s does not exist' % contract.target)
        if isinstance(f, tuple):
            raise Unsupported('%s is not a function' % contract.target)
        self.repo.note(f)

        def run():
            a = contract.setup(self)
            for r in contract.requires(self, a):
                self.assume(r)
            pre = self.snapshot()
            self.entry = pre
            a.pre = pre
            if not self.reached and self.check(timeout=2000) == z3.unsat:
                self.prove('precondition is satisfiable', False)
            self.reached = True
            self.obls.setdefault('precondition is satisfiable', Obligation('precondition is satisfiable')).paths += 1
            contract.begin(self, a)
            try:
                r = self.call_body(f, a.args, a.kw, a.self_)
                self.at_exit(contract, a, ('return', r))
            except PyExc as e:
                self.at_exit(contract, a, ('raise', e.exc))

        self.explore(run)

    def at_exit(self, contract, a, out):
        if self.dry:
            return
        post = self.snapshot()
        kind, v = out
        self.pathnotes.append('%s %s' % (kind, v if kind == 'raise' else ''))
        if not self.exits and self.check(timeout=2000) != z3.unsat:
            self.exits += 1
        if kind == 'raise':
            ok = contract.allowed_exc(self, a, v)
            if ok is not True:
                self.prove('raises only what its contract allows (%s)' % self.exc_name(v), ok, assume=True)
        for name, f in contract.ensures(self, a, a.pre, post, out):
            self.prove(name, f, assume=False) if not isinstance(f, bool) else self.prove_bool(name, f)
        self.frame(contract, a, a.pre, post, out)

    def prove_bool(self, name, f):
        try:
            self.prove(name, f)
        except PathEnd:
            pass

    def exc_name(self, v):
        c = v.cls if v.cls is not None else v.upper
        return getattr(c, '__name__', getattr(c, 'qual', str(c)))

    def frame(self, contract, a, pre, post, out):
        mod = contract.modifies(self, a)
        for n in post:
            if n in mod or n not in pre:
                continue
            if not post[n].eq(pre[n]):
                self.prove('frame: %s is unchanged' % n, post[n] == pre[n], assume=False)
