"""Symbolic execution of Python statements and expressions."""
import ast
import builtins
import z3

from . import types as T
from .values import *
from .containers import *

_locals_memo = {}


def assigned_names(node):
    """Names bound in a function body (not in nested functions)."""
    r = _locals_memo.get(node)
    if r is not None:
        return r
    out, glob = set(), set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        out.add(p.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in (node.body if isinstance(node.body, list) else []):
        walk(s)
    r = _locals_memo[node] = out - glob
    return r


def is_generator(node):
    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(s) for s in node.body) if isinstance(node.body, list) else False


def real_object(name):
    """What a dotted name of the standard library denotes."""
    import importlib
    import sys
    parts = name.split('.')
    if parts[0] not in sys.stdlib_module_names:
        return None
    try:
        o = importlib.import_module(parts[0])
        for p in parts[1:]:
            o = getattr(o, p, None)
        return o
    except ImportError:
        return None


class GenVal:
    """A generator expression not consumed yet."""

    def __init__(self, node, env, first):
        self.node, self.env, self.first = node, env, first


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class Interp:
    # ------------------------------------------------------------------
    # calls
    def new_env(self, parent, func, tag):
        from .engine import Env
        base = '/'.join(self.callpath[-6:]) + ':' + tag
        n = self.envn.get(base, 0)
        self.envn[base] = n + 1
        e = Env(self, parent, func, '%s#%d' % (base, n))
        self.envs[e.name] = e
        return e

    def call_body(self, f, args, kw, self_=None):
        """Execute the body of a repository function."""
        if self_ is not None:
            args = [self_] + list(args)
        if len(self.callpath) > 40:
            raise Unsupported('recursion too deep at ' + f.qual)
        self.repo.note(f)
        self.callpath.append(f.qual.split('.')[-1] + '@%s' % getattr(self.curnode, 'lineno', 0))
        try:
            env = self.new_env(f.closure, f, 'fn')
            env.cls = f.cls
            self.bind(f, env, list(args), dict(kw))
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            self.envstack.append(env)
            try:
                self.block(f.node.body, env)
            except Ret as r:
                return r.v
            finally:
                self.envstack.pop()
            return None
        finally:
            self.callpath.pop()

    def bind_params(self, f, args, kw):
        """Python's argument binding; returns {param: value} in order."""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        ndef = len(a.defaults)
        out = {}
        star = None
        args = list(args)
        if any(isinstance(x, Star) for x in args):
            i = next(n for n, x in enumerate(args) if isinstance(x, Star))
            star = args[i].v
            if i != len(args) - 1:
                raise Unsupported('argument after an opaque *args')
            args = args[:i]
        kw = dict(kw)
        dstar = kw.pop('**', None)
        if star is not None and len(args) < len(pos) and a.vararg is None:
            raise Unsupported('opaque *args bound to named parameters of ' + f.qual)
        if star is not None and len(args) < len(pos):
            raise Unsupported('opaque *args bound to named parameters of ' + f.qual)
        if isinstance(dstar, Sym) and (dstar.ty.key, '__kwargs__') in self.methods and a.kwarg is None:
            # a dictionary of known keys
            more = self.methods[(dstar.ty.key, '__kwargs__')](self, dstar)
            if set(more) & set(kw):
                self.raise_py(TypeError, 'multiple values for ' + f.qual)
            kw.update(more)
            dstar = None
        for n, p in enumerate(pos):
            if n < len(args):
                if p in kw:
                    self.raise_py(TypeError, 'multiple values for ' + p)
                out[p] = args[n]
            elif p in kw:
                out[p] = kw.pop(p)
            elif n >= len(pos) - ndef:
                out[p] = ('default', a.defaults[n - (len(pos) - ndef)])
            else:
                self.raise_py(TypeError, 'missing argument %s of %s' % (p, f.qual))
        rest = args[len(pos):]
        if a.vararg is not None:
            if star is not None:
                if rest:
                    raise Unsupported('mixed *args')
                out[a.vararg.arg] = star
            else:
                out[a.vararg.arg] = tuple(rest)
        elif rest:
            self.raise_py(TypeError, 'too many arguments for ' + f.qual)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            elif d is not None:
                out[p.arg] = ('default', d)
            else:
                self.raise_py(TypeError, 'missing keyword argument %s of %s' % (p.arg, f.qual))
        if a.kwarg is not None:
            if dstar is not None:
                if kw:
                    if isinstance(dstar, MDict):
                        d = self.copy_cont(dstar)
                        for k, v in kw.items():
                            d.put(k, v)
                        dstar = d
                    else:
                        raise Unsupported('mixed **kwargs')
                out[a.kwarg.arg] = dstar
            else:
                out[a.kwarg.arg] = MDict(self, items=[[k, v] for k, v in kw.items()])
        elif kw:
            self.raise_py(TypeError, 'unexpected keyword %s of %s' % (sorted(kw)[0], f.qual))
        elif dstar is not None:
            raise Unsupported('opaque **kwargs passed to ' + f.qual)
        for p, v in out.items():
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'default' and isinstance(v[1], ast.AST):
                out[p] = self.default_value(f, v[1])
        return out

    def default_value(self, f, node):
        if f.closure is not None:
            return self.ev(node, f.closure)
        return self.eval_const(f.mod, node, f.cls)

    def bind(self, f, env, args, kw):
        for p, v in self.bind_params(f, args, kw).items():
            env.vars[p] = v

    def call(self, fv, args=(), kw=None, node=None):
        args, kw = list(args), dict(kw or {})
        if isinstance(fv, Bound):
            return self.call_func(fv.func, [fv.self] + args, kw, node)
        if isinstance(fv, Partial):
            return self.call(fv.func, list(fv.args) + args, {**fv.kw, **kw}, node)
        if isinstance(fv, FuncVal):
            return self.call_func(fv, args, kw, node)
        if isinstance(fv, Native):
            return fv.fn(self, args, kw)
        if isinstance(fv, ClassVal):
            return self.construct(fv, args, kw, node)
        if isinstance(fv, Ext):
            h = self.intrinsics.get(fv.name)
            if h is None:
                e = self.ext_exc(fv)
                if isinstance(e, type) and issubclass(e, BaseException):
                    return ExcVal(e, tuple(args))
                raise Unsupported('call of ' + fv.name)
            return h(self, args, kw)
        if isinstance(fv, type) and issubclass(fv, BaseException):
            return ExcVal(fv, tuple(args))
        if callable(fv) and (getattr(fv, '__module__', None) == 'builtins' or fv is open):
            h = self.intrinsics.get('builtins.' + fv.__name__)
            if h is None:
                raise Unsupported('builtin ' + fv.__name__)
            return h(self, args, kw)
        if isinstance(fv, Sym):
            h = self.methods.get((fv.ty.key, '__call__'))
            if h:
                return h(self, fv, args, kw)
        if isinstance(fv, Inst):
            if '__call__' in fv.attrs:
                return self.call(fv.attrs['__call__'], args, kw, node)
            if isinstance(fv.cls, ClassVal):
                m = self.class_attr(fv.cls, '__call__')
                if isinstance(m, FuncVal):
                    return self.call_func(m, [fv] + args, kw, node)
        raise Unsupported('call of %r' % (fv,))

    IGNORED_DECOS = {'staticmethod', 'classmethod', 'property', 'abc.abstractmethod',
                     'contextlib.contextmanager', 'functools.wraps(fun)', 'contextmanager'}

    def call_func(self, f, args, kw, node=None):
        if '.<locals>.' in f.qual and self.cur is not None:
            r = self.cur.nested(self, f, args, kw)
            if r is not NotImplemented:
                return r
        c = self.contracts.get(f.qual)
        if c is not None and not (self.cur is not None and self.cur.inline(f.qual)):
            self.used_contracts.add(f.qual)
            return self.apply_contract(c, f, args, kw)
        bad = [d for d in f.decos if d not in self.IGNORED_DECOS and not d.endswith('.setter')]
        if bad:
            raise Unsupported('decorator %s of %s' % (bad[0], f.qual))
        if any(d.endswith('contextmanager') for d in f.decos):
            return ('ctxmgr', f, args, kw)
        if not isinstance(f.node, ast.Lambda) and is_generator(f.node):
            return ('generator', f, args, kw)
        self.inlined.add(f.qual)
        return self.call_body(f, args, kw)

    def apply_contract(self, c, f, args, kw):
        p = self.bind_params(f, args, kw)
        a = c.actuals(self, list(p.values()), p)
        return c.apply(self, a)

    def construct(self, cls, args, kw, node=None):
        c = self.contracts.get(cls.qual)
        if c is not None:
            self.used_contracts.add(cls.qual)
            return c.construct(self, cls, args, kw)
        h = self.intrinsics.get('new:' + cls.qual)
        if h:
            return h(self, cls, args, kw)
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in self.real_bases(cls.mro())):
            e = ExcVal(cls, tuple(args))
            init = self.class_attr(cls, '__init__')
            if isinstance(init, FuncVal):
                self.call_func(init, [e] + args, kw, node)
            return e
        for b in cls.mro():
            if isinstance(b, Ext) and 'base:' + b.name not in self.intrinsics:
                raise Unsupported('construction of %s (base %s)' % (cls.qual, b.name))
        i = self.new_inst(cls)
        init = self.class_attr(cls, '__init__')
        if isinstance(init, FuncVal):
            self.call_func(init, [i] + args, kw, node)
        elif args or kw:
            raise Unsupported('construction of %s with arguments' % cls.qual)
        return i

    # ------------------------------------------------------------------
    # statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.curnode = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(s).__name__, s.lineno))
        return m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value, env)
        if isinstance(v, tuple) and v and v[0] == 'generator':
            return

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            self.assign(t, self.aug(s.op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev_index(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.aug(s.op, old, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, old, v):
        if isinstance(old, MList) and isinstance(op, ast.Add):
            self.call(self.getattr(old, 'extend'), [v])
            return old
        if isinstance(old, MSet) and isinstance(op, ast.BitOr):
            self.call(self.getattr(old, 'update'), [v])
            return old
        return self.binop(op, old, v)

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        self.cond_depth += 1
        if self.test(s.test, env):
            self.pathnotes.append('%d:then' % s.lineno)
            self.block(s.body, env)
        else:
            self.pathnotes.append('%d:else' % s.lineno)
            self.block(s.orelse, env)

    def test(self, node, env):
        return self.branch(self.truth(self.ev(node, env)))

    def s_For(self, s, env):
        it = self.ev(s.iter, env)

        def assign(x):
            self.assign(s.target, x, env)

        def body():
            self.block(s.body, env)
        if isinstance(it, tuple) and len(it) == 4 and it[0] == 'generator':
            broke = self.run_generator_loop(it, assign, body)
        else:
            broke = self.run_for(s, self.iter_value(it), env, assign, body)
        if not broke:
            self.block(s.orelse, env)

    def run_generator_loop(self, g, assign, body):
        class Stop(Exception):
            pass
        state = {}

        def cb(v):
            assign(v)
            try:
                body()
            except Cnt:
                pass
            except Brk:
                state['brk'] = True
                raise Stop()
            except Ret as r:
                state['ret'] = r
                raise Stop()
        self.yields.append(cb)
        try:
            self.call_body(g[1], g[2], g[3])
        except Stop:
            pass
        finally:
            self.yields.pop()
        if 'ret' in state:
            raise state['ret']
        return 'brk' in state

    def iter_value(self, v):
        if isinstance(v, GenVal):
            return self.gen_segments(v)
        return v

    def s_While(self, s, env):
        # a condition that is concretely true or false needs no invariant
        if isinstance(s.test, ast.Constant) and s.test.value and not self.npure:
            pass
        broke = self.run_while(s, env, lambda: self.ev(s.test, env), lambda: self.block(s.body, env))
        if not broke:
            self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cnt()

    def s_Global(self, s, env):
        env.globals.update(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.setvar(env, a.asname, self.repo.imp(a.name))
            else:
                self.setvar(env, a.name.split('.')[0], self.repo.imp(a.name.split('.')[0]))

    def s_ImportFrom(self, s, env):
        m = env.func.mod
        base = self.repo.relative(m, s)
        for a in s.names:
            r = self.repo.from_(base, a.name)
            if isinstance(r, tuple):
                r = self.global_value(r[1], a.name)
            self.setvar(env, a.asname or a.name, r)

    def s_FunctionDef(self, s, env):
        f = FuncVal(s, env.func.mod, env, env.func.qual + '.<locals>.' + s.name, None,
                    [ast.unparse(d) for d in s.decorator_list])
        v = f
        for d in reversed(s.decorator_list):
            txt = ast.unparse(d)
            if txt in self.IGNORED_DECOS or txt.endswith('contextmanager'):
                continue
            v = self.call(self.ev(d, env), [v], {})
        self.setvar(env, s.name, v)

    def s_Assert(self, s, env):
        if not self.test(s.test, env):
            self.raise_py(AssertionError)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = self.find_env(env, t.id)
                if e is None or t.id not in e.vars:
                    self.raise_py(UnboundLocalError, t.id)
                self.note_write(e.stamp, ('L', e.name, t.id))
                del e.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst) and t.attr in o.attrs:
                    self.note_write(o.stamp, ('A', o.name, t.attr))
                    del o.attrs[t.attr]
                else:
                    raise Unsupported('del of an attribute')
            else:
                raise Unsupported('del')

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_py(RuntimeError, 'No active exception')
            raise PyExc(self.exc_stack[-1])
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        self.raise_value(e)

    def raise_value(self, e):
        if isinstance(e, ExcVal):
            raise PyExc(e)
        if isinstance(e, ClassVal) or (isinstance(e, type) and issubclass(e, BaseException)) or isinstance(e, Ext):
            raise PyExc(self.call(e, [], {}))
        if isinstance(e, Sym):
            h = self.isinst.get(('raise', e.ty.key))
            if h:
                raise PyExc(h(self, e))
        raise Unsupported('raise of %r' % (e,))

    def s_Try(self, s, env):
        def run():
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.exc, self.handler_type(h.type, env)):
                        self.pathnotes.append('%d:except' % h.lineno)
                        if h.name:
                            self.setvar(env, h.name, e.exc)
                        self.exc_stack.append(e.exc)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        if h.name:
                            env.vars.pop(h.name, None)
                        return
                raise
            else:
                self.block(s.orelse, env)
        if not s.finalbody:
            return run()
        try:
            run()
        except (PyExc, Ret, Brk, Cnt) as e:
            self.block(s.finalbody, env)
            raise e
        self.block(s.finalbody, env)

    def handler_type(self, node, env):
        v = self.ev(node, env)
        return v

    def s_With(self, s, env):
        self.with_items(list(s.items), s, env)

    def with_items(self, items, s, env):
        if not items:
            self.block(s.body, env)
            return
        it = items[0]
        v = self.ev(it.context_expr, env)

        def inner(x):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, env)
            self.with_items(items[1:], s, env)
        self.run_with(v, inner)

    def run_with(self, v, inner):
        if isinstance(v, tuple) and v and v[0] == 'ctxmgr':
            state = {}

            def cb(x):
                if 'done' in state:
                    self.raise_py(RuntimeError, 'generator did not stop')
                state['done'] = True
                try:
                    inner(x)
                except (Ret, Brk, Cnt) as e:
                    state['ctl'] = e
                return None
            self.yields.append(cb)
            try:
                self.call_body(v[1], v[2], v[3])
            finally:
                self.yields.pop()
            if 'done' not in state:
                self.raise_py(RuntimeError, "generator didn't yield")
            if 'ctl' in state:
                raise state['ctl']
            return
        ent, ext = self.getattr(v, '__enter__'), self.getattr(v, '__exit__')
        x = self.call(ent, [])
        try:
            inner(x)
        except PyExc as e:
            r = self.call(ext, [e.exc.cls, e.exc, None])
            if self.branch(self.truth(r)):
                return
            raise
        except (Ret, Brk, Cnt):
            self.call(ext, [None, None, None])
            raise
        self.call(ext, [None, None, None])

    # ------------------------------------------------------------------
    # variables
    def find_env(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None

    def setvar(self, env, name, v):
        e = env
        if name in e.nonlocals:
            e = e.parent
            while e is not None and name not in e.vars and \
                    not (e.func and name in assigned_names(e.func.node) and not e.comp):
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal ' + name)
        if name in env.globals:
            raise Unsupported('assignment to the global ' + name)
        if not e.comp:          # a comprehension assigns its own variables anew for each element
            self.note_write(e.stamp, ('L', e.name, name))
        e.vars[name] = v

    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Undef):
                    raise Unsupported('use of %s: %s' % (name, v.why))
                return v
            if e.func is not None and not e.comp and name not in e.globals and name not in e.nonlocals \
                    and name in assigned_names(e.func.node):
                self.raise_py(UnboundLocalError, name)
            e = e.parent
        func = env.func
        if name == '__class__' and env.cls is not None:
            return env.cls
        return self.global_value(func.mod, name)

    def global_value(self, mod, name):
        v = self.repo.lookup(mod, name)
        if v is None:
            if hasattr(builtins, name):
                b = getattr(builtins, name)
                return b
            self.raise_py(NameError, name)
        if isinstance(v, tuple):
            k = (mod.name, name)
            if k not in self.modvals:
                m = v[1] if v[0] == 'modexpr' else mod
                h = self.intrinsics.get('global:%s.%s' % (mod.name, name))
                if h:
                    self.modvals[k] = h(self)
                else:
                    self.modvals[k] = self.eval_const(m, v[-1], None)
            return self.modvals[k]
        if isinstance(v, Ext):
            h = self.intrinsics.get('global:%s.%s' % (mod.name, name)) or self.intrinsics.get('attr:' + v.name)
            if h:
                return h(self)
        return v

    def eval_const(self, mod, node, cls=None):
        """Evaluate an expression of a module or class body."""
        f = FuncVal(ast.parse('def m(): pass').body[0], mod, None, mod.name + '.<module>', cls)
        env = self.new_env(None, f, 'const')
        if cls is not None:
            class NS(dict):
                pass
            for k, w in cls.ns.items():
                if not isinstance(w, tuple):
                    env.vars.setdefault(k, w)
        return self.ev(node, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = next(n for n, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - i - 1
                if len(vs) < i + after:
                    self.raise_py(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                mid = vs[i:len(vs) - after]
                self.assign(t.elts[i].value, MList(self, items=list(mid)), env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, env)
            else:
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, star=False):
        if isinstance(v, tuple) and not (v and v[0] in ('generator', 'ctxmgr')):
            vs = list(v)
        elif isinstance(v, str):
            vs = list(v)
        elif isinstance(v, MList) and v.items is not None:
            vs = list(v.items)
        elif isinstance(v, MList) and not v.coll and not star:
            if not self.branch(T.sort(T.TSeq(v.a)).len(v.read()) == n):
                self.raise_py(ValueError, 'unpack')
            return [v.get(i) for i in range(n)]
        elif isinstance(v, Sym) and (v.ty.key, '__unpack__') in self.methods:
            return self.methods[(v.ty.key, '__unpack__')](self, v, n)
        elif isinstance(v, IterSpec) and all(s.kind == 'concrete' for s in v.segs):
            vs = [x for s in v.segs for x in s.items]
        elif isinstance(v, GenVal):
            return self.unpack(self.materialise(v), n, star)
        elif v is None or isinstance(v, (int, bool, float)):
            self.raise_py(TypeError, 'cannot unpack')
        else:
            raise Unsupported('unpacking of %r' % (v,))
        if not star and len(vs) != n:
            self.raise_py(ValueError, 'unpack')
        return vs

    # ------------------------------------------------------------------
    # expressions
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %d)' % (type(n).__name__, n.lineno))
        if hasattr(n, 'lineno'):
            self.curnode = n
        return m(n, env)

    def e_Constant(self, n, env):
        if n.value is Ellipsis or isinstance(n.value, complex):
            raise Unsupported('constant')
        return n.value

    def e_Name(self, n, env):
        return self.load(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Tuple(self, n, env):
        return self.seq_items(n.elts, env, tup=True)

    def e_List(self, n, env):
        v = self.seq_items(n.elts, env, tup=False)
        return MList(self, items=list(v)) if isinstance(v, tuple) else v

    def seq_items(self, elts, env, tup):
        out, sym = [], False
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.iter_value(self.ev(e.value, env))
                segs = self.iter_spec(v)
                if all(s.kind == 'concrete' for s in segs):
                    for s in segs:
                        out.append(('c', list(s.items)))
                else:
                    sym = True
                    out.append(('s', v, segs))
            else:
                out.append(('c', [self.ev(e, env)]))
        if not sym:
            r = []
            for p in out:
                r += p[1]
            return tuple(r)
        acc = None
        for p in out:
            x = MList(self, items=list(p[1])) if p[0] == 'c' else self.as_list(p[1])
            acc = x if acc is None else self.concat(acc, x)
        acc.py = 'tuple' if tup else 'list'
        return acc

    def e_Set(self, n, env):
        s = MSet(self, items=[])
        for e in n.elts:
            if isinstance(e, ast.Starred):
                raise Unsupported('set display with *')
            s.add(self.ev(e, env))
        return s

    def e_Dict(self, n, env):
        d = MDict(self, items=[])
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.call(self.getattr(d, 'update'), [self.ev(v, env)])
            else:
                kk = self.ev(k, env)
                d.put(kk, self.ev(v, env))
        return d

    def e_JoinedStr(self, n, env):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, env)
                if p.conversion not in (-1, 115) or p.format_spec is not None:
                    v = self.fmt_opaque('fstr:%s' % ast.unparse(p)[:0] + '%d:%s' % (
                        p.conversion, ast.unparse(p.format_spec) if p.format_spec else ''), [v])
                parts.append(self.to_str(v))
        return self.strcat(parts)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            c = self.branch(self.truth(v))
            if isand and not c:
                return v if not (isinstance(v, Sym) and v.ty.key == 'Bool') else False
            if not isand and c:
                return v if not (isinstance(v, Sym) and v.ty.key == 'Bool') else True
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return self.bv(self.not_(self.truth(v)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return Sym(-v.t, v.ty)
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported('unary operator')

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    def e_IfExp(self, n, env):
        if self.test(n.test, env):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.comp:
            e = e.parent
        self.setvar(e, n.target.id, v)
        return v

    def e_Lambda(self, n, env):
        return FuncVal(n, env.func.mod, env, env.func.qual + '.<lambda>', None, [])

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            c = self.compare(op, left, right)
            if len(n.ops) == 1:
                return self.bv(c)
            if not self.branch(c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.py_eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        return self.order(op, a, b)

    def py_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            cls = x.cls if isinstance(x, (Inst, Sym)) else None
            if isinstance(cls, ClassVal):
                m = self.class_attr(cls, '__eq__')
                if isinstance(m, FuncVal):
                    return self.truth(self.call_func(m, [x, y], {}))
        return self.eq(a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return self.eq(a, b)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return self.eq(a, b)
            return a is b
        if isinstance(a, Sym) and isinstance(b, Sym):
            if isinstance(a.ty, (T.TObj, T.TU)) and a.ty == b.ty:
                return a.t == b.t
            if a.ty != b.ty:
                return False
            if a.ty.key == 'Str':
                # equal strings may or may not be the same object: where the code
                # relies on identity, the callers pass on the object they got
                self.assumptions.add('equal strings compared with `is` are the same object')
                return a.t == b.t
            raise Unsupported('identity of values')
        if isinstance(a, (Inst, Cont, ClassVal, FuncVal, ModVal)) or isinstance(b, (Inst, Cont, ClassVal, FuncVal, ModVal)):
            if isinstance(a, Cont) and isinstance(b, Cont) and a.parent and b.parent:
                raise Unsupported('identity of views')
            return False
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            if a.name == b.name:
                return True
            x, y = real_object(a.name), real_object(b.name)
            if x is None or y is None:
                raise Unsupported('identity of %s and %s' % (a.name, b.name))
            return x is y
        raise Unsupported('identity of %r and %r' % (a, b))

    def order(self, op, a, b):
        f = {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y,
             'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[type(op).__name__]
        if not isinstance(a, (Sym, Cont, Inst)) and not isinstance(b, (Sym, Cont, Inst)):
            try:
                if isinstance(a, tuple) and any(isinstance(x, (Sym, Cont)) for x in a + (b if isinstance(b, tuple) else ())):
                    raise Unsupported('ordering of symbolic tuples')
                return f(a, b)
            except TypeError:
                self.raise_py(TypeError, 'unorderable')
        ka, kb = self.type_of(a), self.type_of(b)
        num = ('Int', 'Real')
        if ka is not None and kb is not None and ka.key in num + ('Bool',) and kb.key in num + ('Bool',):
            ty = T.TReal if 'Real' in (ka.key, kb.key) else T.TInt
            return f(self.enc(a, ty), self.enc(b, ty))
        h = self.methods.get((ka.key if ka else '?', '__order__'))
        if h:
            return h(self, type(op).__name__, a, b)
        if isinstance(a, MSet) and isinstance(b, MSet):
            ty = a.ty() or b.ty()
            x = self.fresh_term(T.sort(ty.k), 'el')
            sa, sb = a.set_term(ty.k), b.set_term(ty.k)
            le = z3.ForAll([x], z3.Implies(z3.Select(sa, x), z3.Select(sb, x)))
            ge = z3.ForAll([x], z3.Implies(z3.Select(sb, x), z3.Select(sa, x)))
            return {'Lt': z3.And(le, z3.Not(ge)), 'LtE': le, 'Gt': z3.And(ge, z3.Not(le)), 'GtE': ge}[type(op).__name__]
        raise Unsupported('ordering of %r and %r' % (a, b))

    def contains(self, c, v):
        if isinstance(c, tuple) and not (c and c[0] in ('generator', 'ctxmgr')):
            return self.or_([self.eq(x, v) for x in c])
        if isinstance(c, MDict):
            return c.has(v)
        if isinstance(c, (MSet, MList)):
            return c.contains(v)
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if isinstance(c, (str, Sym)) and T.MODE['str'] == 'S' and self.type_of(c) is not None \
                and self.type_of(c).key == 'Str' and self.type_of(v) is not None and self.type_of(v).key == 'Str':
            return z3.Contains(self.enc(c, T.TStr), self.enc(v, T.TStr))
        if isinstance(c, Sym):
            h = self.methods.get((c.ty.key, '__contains__'))
            if h:
                return self.truth(h(self, c, [v], {}))
            if c.ty.key == 'Str':
                return self.ufun('str_contains', [c.t, self.enc(v, T.TStr)], z3.BoolSort())
        if isinstance(c, str) and isinstance(v, Sym) and v.ty.key == 'Str':
            return self.ufun('str_contains', [self.lit(c), v.t], z3.BoolSort())
        if isinstance(c, Inst):
            m = self.getattr(c, '__contains__')
            return self.truth(self.call(m, [v]))
        if isinstance(c, GenVal):
            return self.contains(self.materialise(c), v)
        if isinstance(c, IterSpec):
            return self.or_([self.eq(x, v) if s.kind == 'concrete' else None for s in c.segs for x in s.items])
        raise Unsupported('membership in %r' % (c,))

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e.cls is None and e.parent is not None:
                e = e.parent
            first = e.func.node.args.args[0].arg
            return Super(e.cls, e.vars[first])
        fv = self.ev(n.func, env)
        if isinstance(fv, Native) and getattr(fv, 'special', None):
            return fv.special(self, n, env)
        args, kw = [], {}
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.iter_value(self.ev(x.value, env))
                if isinstance(v, Sym) or (isinstance(v, MList) and v.items is None):
                    args.append(Star(v))
                    continue
                segs = self.iter_spec(v)
                if all(s.kind == 'concrete' for s in segs):
                    for s in segs:
                        args += s.items
                else:
                    args.append(Star(self.as_list(v)))
            else:
                args.append(self.ev(x, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, MDict) and v.items is not None and all(isinstance(x[0], str) for x in v.items):
                    for kk, vv in v.items:
                        if kk in kw:
                            self.raise_py(TypeError, 'multiple values for keyword')
                        kw[kk] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        self.curnode = n
        return self.call(fv, args, kw, n)

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        if not self.yields:
            raise Unsupported('yield')
        cb = self.yields[-1]
        # the consumer runs outside of this generator
        saved = self.yields
        self.yields = saved[:-1]
        try:
            cb(v)
        finally:
            self.yields = saved
        return None

    def e_YieldFrom(self, n, env):
        v = self.iter_value(self.ev(n.value, env))
        if isinstance(v, tuple) and len(v) == 4 and v[0] == 'generator':
            cb = self.yields[-1]
            self.call_body(v[1], v[2], v[3])
            return None
        self.run_for(n, v, env, lambda x: self.e_yield_value(x), lambda: None)

    def e_yield_value(self, x):
        cb = self.yields[-1]
        saved = self.yields
        self.yields = saved[:-1]
        try:
            cb(x)
        finally:
            self.yields = saved

    def e_Slice(self, n, env):
        return Slice(*[self.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def ev_index(self, n, env):
        return self.ev(n, env)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_index(n.slice, env))

    # -- comprehensions ----------------------------------------------------
    def e_GeneratorExp(self, n, env):
        return GenVal(n, env, self.iter_value(self.ev(n.generators[0].iter, env)))

    def e_ListComp(self, n, env):
        return self.comp(n, env, 'list')

    def e_SetComp(self, n, env):
        return self.comp(n, env, 'set')

    def e_DictComp(self, n, env):
        return self.comp(n, env, 'dict')

    def comp_env(self, env):
        e = self.new_env(env, env.func, 'comp')
        e.comp = True
        e.cls = env.cls
        return e

    def comp(self, n, env, kind, first=None):
        if first is None:
            first = self.iter_value(self.ev(n.generators[0].iter, env))
        env = self.comp_env(env)
        res = {'list': lambda: MList(self, items=[]), 'set': lambda: MSet(self, items=[]),
               'dict': lambda: MDict(self, items=[])}[kind]()

        def emit():
            if kind == 'dict':
                k = self.ev(n.key, env)
                res.put(k, self.ev(n.value, env))
            elif kind == 'set':
                res.add(self.ev(n.elt, env))
            else:
                res.append(self.ev(n.elt, env))

        def level(i, it):
            if i == len(n.generators):
                emit()
                return
            g = n.generators[i]
            if it is None:
                it = self.iter_value(self.ev(g.iter, env))
            if isinstance(it, tuple) and len(it) == 4 and it[0] == 'generator':
                raise Unsupported('comprehension over a generator')
            for seg in self.iter_spec(it):
                if seg.kind == 'concrete':
                    for x in list(seg.items):
                        self.assign(g.target, x, env)
                        if all(self.test(c, env) for c in g.ifs):
                            level(i + 1, None)
                else:
                    self.comp_sym(n, env, kind, res, i, g, seg)
        level(0, first)
        return res

    def comp_sym(self, n, env, kind, res, i, g, seg):
        if i != len(n.generators) - 1:
            raise Unsupported('nested comprehension over a symbolic collection')
        pos, x, dom = self.seg_point(seg)

        def thunk():
            self.assign(g.target, seg.at(pos) if seg.kind == 'seq' else seg.elem(x), env)
            for c in g.ifs:
                if not self.test(c, env):
                    return NOTHING
            if kind == 'dict':
                return (self.ev(n.key, env), self.ev(n.value, env))
            return self.ev(n.elt, env)
        cases = self.point_cases(thunk, pos, dom)
        self.absorb(res, kind, seg, pos, dom, cases)
        self.seg_used(seg)

    def seg_point(self, seg):
        if seg.kind == 'seq':
            p = self.fresh_term(z3.IntSort(), 'p')
            return p, None, z3.And(0 <= p, p < seg.n)
        x = self.fresh_term(T.sort(seg.ety), 'p')
        return x, x, z3.Select(seg.S, x)

    def point_cases(self, thunk, pos, dom):
        """Cases of an expression at an arbitrary element of a collection."""
        before = dict(self.nfresh)
        self.npoints += 1
        self.point = (pos, dom, self.npoints)

        def run():
            self.solver.add(dom)
            return thunk()
        try:
            cases = self.summarise(run)
        finally:
            self.point = None
        new = {k for k, v in self.nfresh.items() if before.get(k, 0) != v} - {'keys', 'k'}
        if new:
            raise Unsupported('an expression in a comprehension is not a function of its element (%s)' % sorted(new)[:3])
        # an exception for some element
        good = []
        for c, v in cases:
            if isinstance(v, PyExc):
                some = z3.Exists([pos], z3.And(dom, c))
                if self.branch(some):
                    raise v
            else:
                good.append((c, v))
        return good

    def absorb(self, res, kind, seg, pos, dom, cases):
        keep = [(c, v) for c, v in cases if v is not NOTHING]
        if not keep:
            return
        if kind == 'dict':
            kts = {self.type_of(v[0]) for _, v in keep}
            vts = {self.type_of(v[1]) for _, v in keep}
            if len(kts) != 1 or len(vts) != 1 or None in kts | vts:
                raise Unsupported('dict comprehension over unknown types')
            kt, vt = kts.pop(), vts.pop()
            if res.items:
                raise Unsupported('dict comprehension from several sources')
            if kt.key in ('Bool', 'Int') or not all(self.enc(v[0], kt).eq(pos) for _, v in keep):
                raise Unsupported('dict comprehension whose key is not the element')
            m = self.fresh_term(T.sort(T.TMap(kt, vt)), 'dc')
            val = T.none(vt)
            for c, v in reversed(keep):
                val = z3.If(z3.And(dom, c), T.some(vt, self.enc(v[1], vt)), val)
            self.assume(z3.ForAll([pos], z3.Select(m, pos) == val))
            res.k, res.v, res.term, res.items = kt, vt, m, None
            return
        ts = {self.type_of(v) for _, v in keep}
        if len(ts) != 1 or None in ts:
            raise Unsupported('comprehension over unknown types')
        et = ts.pop()
        if kind == 'list' and seg.kind == 'seq' and len(keep) == len(cases) and res.items == []:
            # same length, element by element
            arr = self.fresh_term(z3.ArraySort(z3.IntSort(), T.sort(et)), 'lc')
            val = None
            for c, v in keep:
                e = self.enc(v, et)
                val = e if val is None else z3.If(c, e, val)
            self.assume(z3.ForAll([pos], z3.Implies(dom, z3.Select(arr, pos) == val),
                                  patterns=[z3.Select(arr, pos)]))
            res.a = et
            res.term, res.items = T.sort(T.TSeq(et)).seq(seg.n, arr), None
            return
        y = self.fresh_term(T.sort(et), 'y')
        src = z3.Exists([pos], z3.And(dom, z3.Or(*[z3.And(c, y == self.enc(v, et)) for c, v in keep])))
        if seg.kind != 'seq' and all(self.enc(v, et).eq(pos) for _, v in keep):
            src = z3.And(z3.substitute(dom, (pos, y)),
                         z3.Or(*[z3.substitute(c, (pos, y)) for c, _ in keep]))
        old = None
        if kind == 'set':
            if res.items is None or res.items:
                old = res.set_term(et)
        else:
            if res.items is None or res.items:
                old = res.seq_term(T.TColl(et))
        R = self.fresh_term(z3.ArraySort(T.sort(et), z3.BoolSort()), 'sc')
        inn = src if old is None else z3.Or(z3.Select(old, y), src)
        self.assume(z3.ForAll([y], z3.Select(R, y) == inn, patterns=[z3.Select(R, y)]))
        # each source element is mapped into the result
        self.assume(z3.ForAll([pos], z3.And(*[z3.Implies(z3.And(dom, c), z3.Select(R, self.enc(v, et)))
                                             for c, v in keep])))
        if kind == 'set':
            res.k = et
        else:
            res.a, res.coll = et, True
        res.term, res.items = R, None

    def gen_segments(self, g):
        """A generator expression as an iterable (evaluated eagerly)."""
        n = g.node
        try:
            return self.materialise(g)
        except Unsupported:
            raise

    def materialise(self, g):
        return self.comp(g.node, g.env, 'list', first=g.first)

    def quantify(self, g, want):
        """any (want=True) or all (want=False) of a generator expression."""
        n = g.node
        env = self.comp_env(g.env)

        def level(i, it):
            if i == len(n.generators):
                return self.branch(self.truth(self.ev(n.elt, env))) == want
            ge = n.generators[i]
            if it is None:
                it = self.iter_value(self.ev(ge.iter, env))
            for seg in self.iter_spec(it):
                if seg.kind == 'concrete':
                    for x in list(seg.items):
                        self.assign(ge.target, x, env)
                        if all(self.test(c, env) for c in ge.ifs):
                            if level(i + 1, None):
                                return True
                else:
                    if i != len(n.generators) - 1:
                        raise Unsupported('nested quantification over symbolic collections')
                    pos, x, dom = self.seg_point(seg)

                    def thunk():
                        self.assign(ge.target, seg.at(pos) if seg.kind == 'seq' else seg.elem(x), env)
                        for c in ge.ifs:
                            if not self.test(c, env):
                                return False
                        return self.branch(self.truth(self.ev(n.elt, env))) == want
                    cases = self.point_cases(thunk, pos, dom)
                    yes = [c for c, v in cases if v]
                    if not yes:
                        continue
                    f = z3.Exists([pos], z3.And(dom, z3.Or(*yes)))
                    if self.branch(f):
                        return True
            return False
        return level(0, g.first) == want

    # ------------------------------------------------------------------
    # attributes
    def getattr(self, o, name, default=None):
        try:
            return self.getattr_(o, name)
        except PyExc as e:
            if default is not NOTHING and e.exc.cls is AttributeError:
                return default
            raise

    def getattr_(self, o, name):
        if isinstance(o, ModVal):
            if name in o.env or self.repo.lookup(o, name) is not None:
                return self.global_value(o, name)
            m = self.repo.module(o.name + '.' + name)
            if m is not None:
                return m
            if name == '__name__':
                return o.name
            self.raise_py(AttributeError, name)
        if isinstance(o, Ext):
            h = self.intrinsics.get('attr:' + o.name + '.' + name)
            if h is not None:
                return h(self)
            return Ext(o.name + '.' + name)
        if isinstance(o, Inst):
            h = self.methods.get(('inst:' + o.name, name)) or self.methods.get(
                ('cls:' + getattr(o.cls, 'qual', str(o.cls)), name))
            if h is not None and name not in o.attrs:
                return Native(lambda E, a, k: h(E, o, a, k), name)
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Undef):
                    raise Unsupported('use of attribute %s: %s' % (name, v.why))
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if isinstance(o.cls, ClassVal):
                v = self.class_attr(o.cls, name)
                if v is not None:
                    return self.bind_attr(v, o, o.cls)
                g = self.class_attr(o.cls, '__getattr__')
                if isinstance(g, FuncVal):
                    return self.call_func(g, [o, name], {})
                for b in o.cls.mro():
                    if isinstance(b, Ext):
                        hh = self.methods.get(('ext:' + b.name, name))
                        if hh:
                            return Native(lambda E, a, k: hh(E, o, a, k), name)
                        if b.name + '.' + name in self.intrinsics:
                            hi = self.intrinsics[b.name + '.' + name]
                            return Native(lambda E, a, k: hi(E, [o] + a, k), name)
                if any(isinstance(b, Ext) for b in o.cls.mro()):
                    raise Unsupported('attribute %s of %r' % (name, o))
            if o.attrs.get('__open__'):
                raise Unsupported('attribute %s of %r' % (name, o))
            self.raise_py(AttributeError, name)
        if isinstance(o, ClassVal):
            v = self.class_attr(o, name)
            if v is not None:
                if isinstance(v, FuncVal) and 'classmethod' in v.decos:
                    return Bound(v, o)
                return v
            if name == '__name__':
                return o.name
            if name == '__module__':
                return o.mod.name
            for b in o.mro():
                if isinstance(b, (Ext, type)):
                    bn = b.name if isinstance(b, Ext) else 'builtins.' + b.__name__
                    if bn + '.' + name in self.intrinsics:
                        return Native(lambda E, a, k, h=self.intrinsics[bn + '.' + name]: h(E, a, k), name)
            h = self.intrinsics.get('attr:' + o.qual + '.' + name)
            if h:
                return h(self)
            if any(isinstance(b, Ext) for b in o.mro()):
                raise Unsupported('attribute %s of %r' % (name, o))
            self.raise_py(AttributeError, name)
        if isinstance(o, Super):
            v = self.class_attr(self.class_of(o.self) or o.cls, name, after=o.cls)
            if v is not None:
                return self.bind_attr(v, o.self, o.cls)
            for b in o.cls.mro():
                if b is o.cls:
                    continue
                if isinstance(b, (Ext, type)):
                    bn = b.name if isinstance(b, Ext) else 'builtins.' + b.__name__
                    h = self.intrinsics.get(bn + '.' + name)
                    if h is None and bn == 'builtins.str' and isinstance(o.self, Sym):
                        hm = self.methods.get(('str', name))
                        if hm:
                            return Native(lambda E, a, k: hm(E, o.self, a, k), name)
                    if h:
                        return Native(lambda E, a, k: h(E, [o.self] + a, k), name)
            if name == '__init__':
                return Native(lambda E, a, k: None, '__init__')
            raise Unsupported('super().%s' % name)
        if isinstance(o, FuncVal):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.node.name
            if name == '__module__':
                return o.mod.name
            if name == '__code__':
                return ('code', o.qual)
            if name == '__doc__':
                return self.fmt_opaque('doc', [])
            self.raise_py(AttributeError, name)
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self.getattr_(o.func, name)
        if isinstance(o, ExcVal):
            if name in o.attrs:
                return o.attrs[name]
            if name == 'args':
                return tuple(o.args)
            if isinstance(o.cls, ClassVal):
                v = self.class_attr(o.cls, name)
                if v is not None:
                    return self.bind_attr(v, o, o.cls)
            h = self.methods.get(('exc', name))
            if h:
                return h(self, o)
            raise Unsupported('attribute %s of an exception' % name)
        if isinstance(o, Cont) or isinstance(o, (str, tuple, int, float, IterSpec)):
            kind = o.py if isinstance(o, Cont) else type(o).__name__
            if isinstance(o, MDict) and o.cls is not None:
                v = self.class_attr(o.cls, name)
                if v is not None:
                    return self.bind_attr(v, o, o.cls)
            h = self.methods.get((kind, name))
            if h:
                return Native(lambda E, a, k: h(E, o, a, k), '%s.%s' % (kind, name))
            if isinstance(o, (str, tuple, int, float)) and not hasattr(o, name):
                self.raise_py(AttributeError, name)
            raise Unsupported('%s.%s' % (kind, name))
        if isinstance(o, Sym):
            if o.cls is MIXED:
                raise Unsupported('attribute %s of a string of unknown class' % name)
            h = self.methods.get((o.ty.key, name))
            if h:
                return Native(lambda E, a, k: h(E, o, a, k), '%s.%s' % (o.ty.key, name))
            h = self.attrs_sym.get((o.ty.key, name))
            if h:
                return h(self, o)
            if isinstance(o.ty, T.TObj):
                ft = o.ty.fields.get(name)
                if ft is not None:
                    arr = self.heap['%s.%s' % (o.ty.name, name)]
                    return self.dec(z3.Select(arr, o.t), ft)
            cls = o.cls or getattr(o.ty, 'cls', None)
            if isinstance(cls, ClassVal):
                v = self.class_attr(cls, name)
                if v is not None:
                    return self.bind_attr(v, o, cls)
            if o.ty.key == 'Str':
                h = self.methods.get(('str', name))
                if h:
                    return Native(lambda E, a, k: h(E, o, a, k), 'str.' + name)
                if name == '__class__' and isinstance(cls, ClassVal):
                    return cls
                if not hasattr('', name) and not isinstance(cls, ClassVal):
                    self.raise_py(AttributeError, name)
            if o.ty.key in ('Int', 'Bool', 'Real') and not hasattr(1.0 if o.ty.key == 'Real' else 1, name):
                self.raise_py(AttributeError, name)
            raise Unsupported('attribute %s of %r' % (name, o))
        if o is None:
            self.raise_py(AttributeError, name)
        if isinstance(o, type):
            if name == '__name__':
                return o.__name__
            if name == '__module__':
                return o.__module__
            h = self.intrinsics.get('builtins.%s.%s' % (o.__name__, name))
            if h:
                return Native(lambda E, a, k: h(E, a, k), name)
            hm = self.methods.get((o.__name__, name))
            if hm:
                return Native(lambda E, a, k: hm(E, a[0], a[1:], k), name)
            if issubclass(o, BaseException) and name == '__init__':
                return Native(lambda E, a, k: None, '__init__')
            raise Unsupported('%s.%s' % (o.__name__, name))
        if isinstance(o, GenVal):
            raise Unsupported('attribute of a generator')
        if isinstance(o, Native):
            if name == '__name__':
                return o.name
            self.raise_py(AttributeError, name)
        if isinstance(o, Undef):
            raise Unsupported(o.why)
        raise Unsupported('attribute %s of %r' % (name, o))

    def class_of(self, o):
        if isinstance(o, (Inst, Sym)):
            return o.cls if isinstance(o.cls, ClassVal) else getattr(getattr(o, 'ty', None), 'cls', None)
        if isinstance(o, ExcVal) and isinstance(o.cls, ClassVal):
            return o.cls
        if isinstance(o, ClassVal):
            return o
        return None

    def bind_attr(self, v, o, cls):
        if isinstance(v, FuncVal):
            if 'staticmethod' in v.decos:
                return v
            if 'classmethod' in v.decos:
                return Bound(v, self.class_of(o) or cls)
            if 'property' in v.decos:
                return self.call_func(v, [o], {})
            return Bound(v, o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if isinstance(o.cls, ClassVal):
                p = self.class_attr(o.cls, name)
                if isinstance(p, FuncVal) and ('property' in p.decos or any(d.endswith('.setter') for d in p.decos)):
                    raise Unsupported('property setter')
                if self.class_attr(o.cls, '__setattr__') is not None:
                    raise Unsupported('__setattr__')
            h = self.methods.get(('set:' + o.name, name))
            if h:
                return h(self, o, v)
            self.note_write(o.stamp, ('A', o.name, name))
            o.attrs[name] = v
            return
        if isinstance(o, ExcVal):
            o.attrs[name] = v
            return
        if isinstance(o, Sym):
            if isinstance(o.ty, T.TObj) and name in o.ty.fields:
                h = '%s.%s' % (o.ty.name, name)
                self.heap_set(h, z3.Store(self.heap[h], o.t, self.enc(v, o.ty.fields[name])))
                return
            h = self.methods.get((o.ty.key, 'set:' + name))
            if h:
                return h(self, o, v)
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        raise Unsupported('assignment to attribute %s of %r' % (name, o))


class _Nothing:
    def __repr__(self):
        return '<nothing>'


NOTHING = _Nothing()
Interp.getattr.__defaults__ = (NOTHING,)
