"""Loads the modules under test from /repo as syntax trees, on every run."""
import ast
import builtins
import hashlib
import os
from .values import *

ROOT = os.environ.get('VERIF_REPO', '/repo') + '/lib'


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.mods = {}
        self.used = {}

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for c in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(c):
                return c
        return None

    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            p = self.path(name)
            if p is None:
                return None
            src = open(p, encoding='utf-8').read()
            m = self.mods[name] = ModVal(name, p, ast.parse(src), src)
            m.pkg = name if p.endswith('__init__.py') else name.rpartition('.')[0]
            self.load(m)
        return m

    # -- module environment ------------------------------------------------
    def load(self, m):
        m.env = {}
        self.stmts(m, m.tree.body, m.env)

    def stmts(self, m, body, env):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        env[a.asname] = ('import', a.name)
                    else:
                        env[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.relative(m, s)
                for a in s.names:
                    env[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                env[s.name] = self.func(s, m, m.name + '.' + s.name)
            elif isinstance(s, ast.ClassDef):
                env[s.name] = ('class', s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                env[s.target.id] = ('expr', s.value)
            elif isinstance(s, ast.If):
                w = self.static_test(s.test)
                if w is not None:
                    self.stmts(m, s.body if w else s.orelse, env)
            elif isinstance(s, ast.Try):
                self.stmts(m, s.body, env)

    def relative(self, m, s):
        if not s.level:
            return s.module
        parts = m.pkg.split('.')
        if s.level > 1:
            parts = parts[:-(s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))

    @staticmethod
    def static_test(t):
        """Conditions on the platform, decided for the platform of the sandbox."""
        src = ast.unparse(t)
        import sys
        if src.startswith('hasattr(os') or src.startswith('sys.platform') or src.startswith('os.name'):
            try:
                return bool(eval(src, {'os': os, 'sys': sys, 'hasattr': hasattr}))
            except Exception:
                return None
        if src == "__name__ == '__main__'":
            return False
        return None

    def func(self, node, m, qual, cls=None, closure=None):
        return FuncVal(node, m, closure, qual, cls, [ast.unparse(d) for d in node.decorator_list])

    def lookup(self, m, name):
        if name not in m.env:
            if name == '__name__':
                return m.name
            if name == '__file__':
                return m.path
            star = m.env.get('*')
            if star is not None and self.module(m.name + '.' + name) is None and not name.startswith('_'):
                return self.from_(star[1], name)
            return None
        v = m.env[name]
        if isinstance(v, tuple):
            k = v[0]
            if k == 'import':
                r = self.imp(v[1])
            elif k == 'from' and v[1] == m.name and v[2] == name:
                r = self.module(m.name + '.' + name)        # from . import submodule
                if r is None:
                    return None
            elif k == 'from':
                r = self.from_(v[1], v[2])
            elif k == 'class':
                r = self.cls(v[1], m, m.name + '.' + v[1].name)
            elif k == 'expr':
                return v
            m.env[name] = r
            return r
        return v

    def imp(self, name):
        return self.module(name) or Ext(name)

    def from_(self, base, name):
        m = self.module(base)
        if m is None:
            return Ext(base + '.' + name)
        r = self.lookup(m, name)
        if r is None:
            r = self.module(base + '.' + name)
        if r is None:
            r = Ext(base + '.' + name)
        if isinstance(r, tuple):
            r = ('modexpr', m, r[1])
        return r

    def cls(self, node, m, qual):
        bases = []
        for b in node.bases:
            d = self.dotted(b, m)
            bases.append(d if d is not None else Ext(ast.unparse(b)))
        c = ClassVal(node.name, m, node, bases, qual)
        m.env[node.name] = c
        self.class_body(c, node.body, m, qual)
        return c

    def class_body(self, c, body, m, qual):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.ns[s.name] = self.func(s, m, qual + '.' + s.name, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.ns[t.id] = ('expr', s.value)
            elif isinstance(s, ast.If):
                w = self.static_test(s.test)
                if w is not None:
                    self.class_body(c, s.body if w else s.orelse, m, qual)

    def dotted(self, node, m):
        """Resolve a dotted name at module level."""
        if isinstance(node, ast.Name):
            r = self.lookup(m, node.id)
            if r is None:
                b = getattr(builtins, node.id, None)
                return b
            return r
        if isinstance(node, ast.Attribute):
            base = self.dotted(node.value, m)
            if isinstance(base, ModVal):
                return self.lookup(base, node.attr) or self.module(base.name + '.' + node.attr)
            if isinstance(base, Ext):
                return Ext(base.name + '.' + node.attr)
            if isinstance(base, ClassVal):
                return base.ns.get(node.attr)
        return None

    def find(self, qual):
        """The function or class with this dotted name."""
        parts = qual.split('.')
        for n in range(len(parts), 0, -1):
            m = self.module('.'.join(parts[:n]))
            if m is not None:
                v = m
                for p in parts[n:]:
                    if isinstance(v, ModVal):
                        v = self.lookup(v, p)
                    elif isinstance(v, ClassVal):
                        w = None
                        for c in v.mro():
                            if isinstance(c, ClassVal) and p in c.ns:
                                w = c.ns[p]
                                break
                        v = w
                    else:
                        return None
                return v
        return None

    def skeleton(self, m):
        """Digest of the parts of a module outside function bodies."""
        import copy
        t = copy.deepcopy(m.tree)
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                n.body = []
        return hashlib.sha256(ast.dump(t).encode()).hexdigest()[:16]

    def note(self, f):
        """Record that the body of f was read; returns its digest."""
        d = hashlib.sha256(ast.dump(f.node).encode()).hexdigest()[:16]
        self.used[f.qual] = d
        return d
