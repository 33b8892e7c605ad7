"""Builders that write substituted text (C22)."""
import ast
import z3

from pyvc import types as T
from pyvc.types import TInt, TStr, TU, TSeq, TBool, TTup
from pyvc.values import *
from pyvc.containers import *
from pyvc.contract import Contract
from contracts.fsmodel import FS

S = T.sort
Value = TU('Value')            # the value of a name
Value.truthy = None
Item = TU('Sub')               # a regular expression substitution
Match = TU('Match')
Elem = TU('Elem')
Patterns = TU('Patterns')


def fn(name, *sorts):
    return z3.Function(name, *sorts)


def add(p, r):
    return fn('addroot', S(TStr), S(TStr), S(TStr))(p, r)


class AddRoot(Contract):
    """Path.addroot, proved in contracts/paths.py."""
    target = 'fbuild.path.Path.addroot'
    trusted = True
    params = ('self', 'root')

    def apply(self, E, a):
        return E.call(self.path(E), [Sym(add(E.enc(a.args[0], TStr), E.enc(a.args[1], TStr)), TStr)])

    def path(self, E):
        return E.global_value(E.repo.module('fbuild.path'), 'Path')


class Text(Contract):
    str_mode = 'U'
    props = ('C22',)
    params = ('ctx', 'dst', 'src', 'patterns')
    kwonly = ('buildroot',)
    raises = (Exception,)
    variants = ('buildroot', 'default')
    loops = (lambda c, E, L: c.inv(E, L),)

    def install(self, E):
        self.fs = FS(E, TStr)
        self.fs.install(E)
        E.intrinsics['os.makedirs'] = lambda E, a, k: None
        for n in ('dirname', 'basename', 'join', 'normpath', 'abspath'):
            E.intrinsics['os.path.' + n] = lambda E, a, k, n=n: E.fmt_opaque('os.path.' + n, a)
        E.intrinsics['os.path.split'] = lambda E, a, k: (E.fmt_opaque('os.path.dirname', a), E.fmt_opaque('os.path.basename', a))

    def world(self, E):
        self.fs.world(E)
        E.heap_init('refused', TBool)

    def refuse(self, E, cls):
        """The library refuses the patterns."""
        E.heap_set('refused', z3.BoolVal(True))
        E.raise_py(cls)

    def fresh_param(self, E, p):
        if p == 'ctx':
            from contracts.tools import quiet
            c = quiet(E)
            c.attrs['buildroot'] = E.fresh(TStr, 'ctx_buildroot')
            self.root = c.attrs['buildroot'].t
            return c
        if p == 'buildroot':
            if self.variant == 'default':
                return None
            r = E.fresh(TStr, p)
            self.root = z3.If(r.t == E.lit(''), self.root, r.t)
            return r
        if p == 'patterns':
            return self.patterns(E)
        return E.fresh(TStr, p)

    def begin(self, E, a):
        self.src, self.dst = E.enc(a.src, TStr), add(E.enc(a.dst, TStr), self.root)
        self.text = self.fs.get(self.src, E.heap['fs'])

    def requires(self, E, a):
        return [z3.Not(E.heap['refused'])]

    def modifies(self, E, a):
        return ('fs', 'refused')

    def wanted(self, E, a, got):
        """[(name, formula)]: got is the text to be written"""

    def ensures(self, E, a, pre, post, out):
        f0, f1 = pre['fs'], post['fs']
        x = z3.Const('x!fs', S(TStr))
        others = z3.ForAll([x], z3.Implies(x != self.dst, z3.Select(f1, x) == z3.Select(f0, x)),
                           patterns=[z3.Select(f1, x)])
        if out[0] == 'raise':
            return [('no file changes when the call fails', f1 == f0),
                    ('it fails only when the source is missing or the patterns do not fit', z3.Or(
                        z3.Not(self.fs.has(self.src, f0)), self.failing(E, a, post)))]
        return [('no other file changes', others), ('the destination is written', self.fs.has(self.dst, f1)),
                ('the path of the written file is returned', E.enc(out[1], TStr) == self.dst)] + \
            self.wanted(E, a, self.fs.get(self.dst, f1))

    def failing(self, E, a, post):
        return post['refused']


class Fold(Text):
    """The text after each substitution in turn."""

    def R(self, i):
        return fn('R', z3.IntSort(), S(TStr))(i)

    def step(self, E, i, t):
        raise NotImplementedError

    def requires(self, E, a):
        i = z3.Int('i!R')
        self.begin(E, a)
        return super().requires(E, a) + [self.R(0) == self.text,
                z3.ForAll([i], z3.Implies(i >= 0, self.R(i + 1) == self.step(E, i, self.R(i))), patterns=[z3.MultiPattern(self.R(i), self.at(i))])]

    def inv(self, E, L):
        if L.kind != 'seq' or L.seq is None or not any(L.seq.eq(s) for s in self.seqs):
            return []
        return [('the text so far %s' % (k,), E.enc(v, TStr) == self.R(L.i)) for k, v in L.locals.items()
                if E.is_str(v)]

    def wanted(self, E, a, got):
        return [('every pattern is applied in turn', got == self.R(self.n))]


class Substitute(Fold):
    target = 'fbuild.builders.text.substitute'

    def patterns(self, E):
        i = E.new_inst('patterns')
        keys = E.fresh(TSeq(TStr), 'keys')
        ks = S(TSeq(TStr))
        K = keys.read()
        self.K, self.n = ks.arr(K), ks.len(K)
        pt = TTup(TStr, TStr)
        P = E.fresh(TSeq(pt), 'pairs')
        ps = S(TSeq(pt))
        j = z3.Int('j!p')
        E.assume(ps.len(P.read()) == self.n)
        pa = ps.arr(P.read())
        E.assume(z3.ForAll([j], z3.And(S(pt).accessor(0, 0)(z3.Select(pa, j)) == z3.Select(self.K, j),
                                       S(pt).accessor(0, 1)(z3.Select(pa, j)) == self.val(z3.Select(self.K, j))),
                           patterns=[z3.Select(pa, j)]))
        self.seqs = [K, P.read()]
        i.attrs['items'] = Native(lambda E, a, k: P, 'items')
        i.attrs['keys'] = Native(lambda E, a, k: keys, 'keys')
        i.attrs['__iter_segs__'] = lambda E: E.iter_spec(keys)
        i.attrs['__getitem__'] = Native(lambda E, a, k: Sym(self.val(E.enc(a[0], TStr)), TStr), '__getitem__')
        i.attrs['__open__'] = True
        return i

    def at(self, i):
        return z3.Select(self.K, i)

    def val(self, k):
        return fn('value_of', S(TStr), S(TStr))(k)

    def step(self, E, i, t):
        k = z3.Select(self.K, i)
        return E.enc(E.call(E.getattr(Sym(t, TStr), 'replace'), [Sym(k, TStr), Sym(self.val(k), TStr)]), TStr)


class RegexSubstitute(Fold):
    target = 'fbuild.builders.text.regex_substitute'

    def patterns(self, E):
        p = E.fresh(TSeq(Item), 'patterns')
        st = S(TSeq(Item))
        self.A, self.n = st.arr(p.read()), st.len(p.read())
        self.seqs = [p.read()]
        return p

    def at(self, i):
        return z3.Select(self.A, i)

    def three(self, t):
        return fn('has_flags', S(Item), z3.BoolSort())(t)

    def part(self, i, t):
        return fn('part%d' % i, S(Item), S(TStr))(t)

    def flags(self, t):
        return fn('flags', S(Item), z3.IntSort())(t)

    def resub(self, p, t, c, f):
        return fn('re_sub', S(TStr), S(TStr), S(TStr), z3.IntSort(), S(TStr))(p, t, c, f)

    def install(self, E):
        super().install(E)
        from contracts import retext
        retext.constants(E)

        def unpack(E, v, n):
            if n not in (2, 3):
                raise Unsupported('unpacking a substitution into %d parts' % n)
            if not E.branch(self.three(v.t) if n == 3 else z3.Not(self.three(v.t))):
                E.raise_py(ValueError)
            r = (Sym(self.part(0, v.t), TStr), Sym(self.part(1, v.t), TStr))
            return r + (Sym(self.flags(v.t), TInt),) if n == 3 else r
        E.methods[(Item.key, '__unpack__')] = unpack
        E.methods[(Item.key, '__len__')] = lambda E, v, a, k: Sym(z3.If(self.three(v.t), 3, 2), TInt)

        def getitem(E, v, a, k):
            if a[0] in (0, 1):
                return Sym(self.part(a[0], v.t), TStr)
            if a[0] == 2 and E.branch(self.three(v.t)):
                return Sym(self.flags(v.t), TInt)
            if a[0] == 2:
                E.raise_py(IndexError)
            raise Unsupported('item of a substitution')
        E.methods[(Item.key, '__getitem__')] = getitem

        def sub(E, a, k):
            names = ('pattern', 'repl', 'string', 'count', 'flags')
            v = dict(zip(names, a), **k)
            if v.get('count', 0) != 0 or not set(v) <= set(names):
                raise Unsupported('re.sub with a count')
            if E.choose_free(2):
                self.refuse(E, ValueError)            # re.error and the like
            return Sym(self.resub(E.enc(v['pattern'], TStr), E.enc(v['repl'], TStr), E.enc(v['string'], TStr),
                                  E.enc(v.get('flags', 0), TInt)), TStr)
        E.intrinsics['re.sub'] = sub

    def step(self, E, i, t):
        import re
        p = z3.Select(self.A, i)
        return self.resub(self.part(0, p), self.part(1, p), t, z3.If(self.three(p), self.flags(p), int(re.M)))


class FormatSubstitute(Text):
    target = 'fbuild.builders.text.format_substitute'

    def patterns(self, E):
        self.pats = E.fresh(Patterns, 'patterns')
        return self.pats

    def formatted(self):
        return fn('formatted', S(TStr), S(Patterns), S(TStr))(self.text, self.pats.t)

    def inv(self, E, L):
        return []

    def install(self, E):
        super().install(E)

        def call(full):
            def go(E, o, a, k):
                if isinstance(o, str) and not a and not k:
                    return o
                p = k.get('**') if full else (a[0] if a else None)
                if a and full or not full and (k or len(a) != 1) or full and set(k) != {'**'} or not isinstance(p, Sym) \
                        or p.ty != Patterns:
                    raise Unsupported('format with other arguments')
                if E.choose_free(2):
                    self.refuse(E, KeyError)
                return Sym(fn('formatted', S(TStr), S(Patterns), S(TStr))(E.enc(o, TStr), p.t), TStr)
            return go
        E.methods[('str', 'format')] = call(True)
        E.methods[('str', 'format_map')] = call(False)

    def wanted(self, E, a, got):
        return [('the formatted text is written', got == self.formatted())]


SUB = ast.parse("""
def sub(matches, repl, text):
    out = []
    for match in matches:
        out.append(text(repl(match)))
    return out
""").body[0]


class Autoconf(Text):
    """Substitution by a function of the match.

    re.sub(pattern, function, text) is the text with every match replaced by
    the string the function returns for it; the matches are found and the
    function is called in their order.  What the expressions match is part of
    the bounded check only.
    """
    assumptions = ('re.sub calls the function once for each match, in order, and puts the results in place of the matches',
                   'the regular expressions denote what their text says')

    def known(self, k):
        return fn('known', S(TStr), z3.BoolSort())(k)

    def val(self, k):
        return fn('value_of', S(TStr), S(Value))(k)

    def is_(self, v, kind):
        return fn('isinstance_' + kind, S(Value), z3.BoolSort())(v)

    def str_(self, v):
        return fn('str', S(Value), S(TStr))(v)

    def elems(self, v):
        return fn('elems', S(Value), S(TSeq(Elem)))(v)

    def elem(self, e):
        return fn('str_elem', S(Elem), S(TStr))(e)

    def joined(self, v):
        return fn('joined', S(Value), S(TStr))(v)

    def intof(self, v):
        return fn('intof', S(Value), z3.IntSort())(v)

    def truthy(self, E, v):
        return E.ufun('truthy_Value', [v], z3.BoolSort())

    def patterns(self, E):
        i = E.new_inst('patterns')

        def look(E, a, k):
            n = E.enc(a[0], TStr)
            if not E.branch(self.known(n)):
                E.raise_py(KeyError)
            return Sym(self.val(n), Value)

        def get(E, a, k):
            n = E.enc(a[0], TStr)
            if not E.branch(self.known(n)):
                return a[1] if len(a) > 1 else None
            return Sym(self.val(n), Value)
        i.attrs['__getitem__'] = Native(look, '__getitem__')
        i.attrs['get'] = Native(get, 'get')
        i.attrs['__contains__'] = Native(lambda E, a, k: Sym(self.known(E.enc(a[0], TStr)), TBool), '__contains__')
        i.attrs['__open__'] = True
        return i

    def install(self, E):
        super().install(E)
        from contracts import retext
        retext.constants(E)

        def isinst(E, v, c):
            n = c.__name__ if isinstance(c, type) else getattr(c, 'name', '?').split('.')[-1]
            if n not in ('str', 'bool', 'Iterable', 'int'):
                raise Unsupported('kind ' + n + ' of a value')
            return self.is_(v.t, n)
        E.isinst[Value.key] = isinst
        E.methods[(Value.key, '__str__')] = lambda E, v, a, k: Sym(self.str_(v.t), TStr)
        E.methods[(Elem.key, '__str__')] = lambda E, v, a, k: Sym(self.elem(v.t), TStr)
        E.methods[(Value.key, '__iter__')] = lambda E, v: MList(E, Elem, term=self.elems(v.t))
        toint = E.intrinsics['builtins.int']

        def int_(E, a, k):
            if len(a) == 1 and isinstance(a[0], Sym) and a[0].ty == Value:
                E.prove('only a truth value is made a number', self.is_(a[0].t, 'bool'))
                return Sym(self.intof(a[0].t), TInt)
            return toint(E, a, k)
        E.intrinsics['builtins.int'] = int_

        def group(E, m, a, k):
            if len(a) != 1:
                raise Unsupported('several groups')
            return self.group(E, m.t, a[0])
        E.methods[(Match.key, 'group')] = group
        E.methods[(Match.key, '__getitem__')] = group

        def sub(E, a, k):
            names = ('pattern', 'repl', 'string', 'count', 'flags')
            v = dict(zip(names, a), **k)
            if v.get('count', 0) != 0 or not set(v) <= set(names) or not isinstance(v['pattern'], str) \
                    or not isinstance(v.get('flags', 0), int):
                raise Unsupported('re.sub with other arguments')
            self.subs += 1
            code = E.enc(v['string'], TStr)
            E.prove('the text of the source is substituted', code == self.text)
            E.prove('the expression is the documented one', z3.BoolVal(
                v['pattern'] == self.regex and (int(v.get('flags', 0)) & 8) == self.multi))
            ms = MList(E, Match, term=self.matches)
            f = FuncVal(SUB, E.repo.module('fbuild.builders.text'), None, 're.sub', None, [])

            def text(E, a, k):
                x = a[0]
                if isinstance(x, Sym) and x.ty == Value:
                    E.prove('the replacement is a string', self.is_(x.t, 'str'))
                    return Sym(self.str_(x.t), TStr)
                if not E.is_str(x):
                    E.prove('the replacement is a string', z3.BoolVal(False))
                return x
            out = E.call(f, [ms, v['repl'], Native(text, 'text')])
            return Sym(self.glued(out.seq_term(TSeq(TStr)) if out.items is not None else out.read()), TStr)
        E.intrinsics['re.sub'] = sub

    def glued(self, s):
        return fn('glued', S(TSeq(TStr)), S(TStr))(s)

    def begin(self, E, a):
        super().begin(E, a)
        self.subs = 0

    def requires(self, E, a):
        r = super().requires(E, a)
        st = S(TSeq(Match))
        self.matches = z3.Const('matches', st)
        self.n = st.len(self.matches)
        v, j = z3.Const('v!t', S(Value)), z3.Int('j!t')
        x = z3.Const('x!t', S(TSeq(TStr)))
        ss, es = S(TSeq(TStr)), S(TSeq(Elem))
        # what strings are joined is all that counts
        same = z3.And(ss.len(x) == es.len(self.elems(v)), z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < ss.len(x)), z3.Select(ss.arr(x), j) == self.elem(z3.Select(es.arr(self.elems(v)), j)))))
        join = E.ufun('str:str.join', [E.lit(' '), x], S(TStr))
        same_out = z3.And(ss.len(x) == self.n, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < self.n), z3.Implies(self.defined(E, self.match(j)), z3.Select(ss.arr(x), j) == self.spec(E, self.match(j))))))
        self.want = z3.Const('wanted', S(TStr))
        m = z3.Const('m!s', S(Match))
        return r + [
            z3.ForAll([m], self.spec(E, m) == self.spec_def(E, m), patterns=[self.spec(E, m)]),
            self.n >= 0,
            z3.ForAll([v, x], z3.Implies(same, join == self.joined(v)), patterns=[z3.MultiPattern(join, self.elems(v))]),
            z3.ForAll([v], z3.And(
                z3.Implies(self.is_(v, 'str'), z3.And(self.is_(v, 'Iterable'), z3.Not(self.is_(v, 'bool')),
                                                      self.truthy(E, v) == (self.str_(v) != E.lit('')))),
                z3.Implies(self.is_(v, 'bool'), z3.And(z3.Not(self.is_(v, 'Iterable')), self.is_(v, 'int'),
                                                       self.intof(v) == z3.If(self.truthy(E, v), 1, 0)))),
                patterns=[self.is_(v, k) for k in ('str', 'bool', 'Iterable')])] + self.axioms(E) + [
            z3.ForAll([x], z3.Implies(z3.And(same_out, self.complete(E)), self.glued(x) == self.want), patterns=[self.glued(x)])]

    def spec(self, E, m):
        return fn('replacement', S(Match), S(TStr))(m)

    def complete(self, E):
        return z3.BoolVal(True)

    def axioms(self, E):
        return []

    def match(self, j):
        return z3.Select(S(TSeq(Match)).arr(self.matches), j)

    def plain(self, v):
        """a value put in place of @name@"""
        return z3.If(self.is_(v, 'str'), self.str_(v), z3.If(self.is_(v, 'Iterable'), self.joined(v), self.str_(v)))

    def inv(self, E, L):
        if L.kind != 'seq' or L.seq is None or not L.seq.eq(self.matches):
            return []
        r = []
        ss = S(TSeq(TStr))
        j = z3.Int('j!i')
        for k, v in L.locals.items():
            if isinstance(v, MList) and v.ty() is not None and v.ty().key == TSeq(TStr).key and v.items is None and not v.coll:
                if '/sub@' not in k[1]:
                    r += self.missing_inv(E, L, k, v)
                    continue
                A = ss.arr(v.read())
                r.append(('as many replacements as matches %s' % (k,), ss.len(v.read()) == L.i))
                r.append(('the replacements so far %s' % (k,), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.i), z3.Implies(
                    self.defined(E, self.match(j)), z3.Select(A, j) == self.spec(E, self.match(j)))),
                    patterns=[self.match(j)])))
        return r

    def missing_inv(self, E, L, k, v):
        return []

    def ensures(self, E, a, pre, post, out):
        r = super().ensures(E, a, pre, post, out)
        if out[0] == 'return':
            r.append(('the text is substituted once', z3.BoolVal(self.subs == 1)))
        return r

    def wanted(self, E, a, got):
        return [('every match is replaced by its text', got == self.want)]


class ConfigFile(Autoconf):
    target = 'fbuild.builders.text.autoconf_config_file'
    regex, multi = '@(\\w+)@', 8

    def name_of(self, m):
        return fn('name', S(Match), S(TStr))(m)

    def group(self, E, m, g):
        if g != 1:
            raise Unsupported('group %r' % (g,))
        return Sym(self.name_of(m), TStr)

    def defined(self, E, m):
        return self.known(self.name_of(m))

    def spec_def(self, E, m):
        return self.plain(self.val(self.name_of(m)))

    def inv(self, E, L):
        r = super().inv(E, L)
        if r:
            j = z3.Int('j!k')
            r.append(('every name has a value', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.i), self.defined(
                E, self.match(j))), patterns=[self.match(j)])))
        return r

    def failing(self, E, a, post):
        j = z3.Int('j!f')
        return z3.Exists([j], z3.And(0 <= j, j < self.n, z3.Not(self.defined(E, self.match(j)))))

    def wanted(self, E, a, got):
        j = z3.Int('j!f')
        return super().wanted(E, a, got) + [('every name has a value', z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < self.n), self.defined(E, self.match(j)))))]


class ConfigHeader(Autoconf):
    target = 'fbuild.builders.text.autoconf_config_header'
    regex, multi = '(^#undef +(?P<def>\\w+)$)|(?:@(?P<sub>\\w+)@)', 8

    def sub_of(self, m):
        return fn('sub_name', S(Match), S(TStr))(m)

    def def_of(self, m):
        return fn('def_name', S(Match), S(TStr))(m)

    def is_sub(self, m):
        return fn('is_sub', S(Match), z3.BoolSort())(m)

    def group(self, E, m, g):
        if g in ('sub', 3):
            return Sym(self.sub_of(m), TStr) if E.branch(self.is_sub(m)) else None
        if g in ('def', 2):
            return Sym(self.def_of(m), TStr) if not E.branch(self.is_sub(m)) else None
        raise Unsupported('group %r' % (g,))

    def axioms(self, E):
        m, i = z3.Const('m!t', S(Match)), z3.Int('i!t')
        return [E.ufun('str_of_Int', [z3.IntVal(1)], S(TStr)) == E.lit('1'),
                z3.ForAll([m], z3.And(self.sub_of(m) != E.lit(''), self.def_of(m) != E.lit('')),
                          patterns=[self.sub_of(m), self.def_of(m)]),
                z3.Not(self.missing(0)),
                z3.ForAll([i], z3.Implies(i >= 0, self.missing(i + 1) == z3.Or(self.missing(i), self.lacks(self.match(i)))),
                          patterns=[z3.MultiPattern(self.missing(i), self.match(i))])]

    def lacks(self, m):
        return z3.And(z3.Not(self.is_sub(m)), z3.Not(self.known(self.def_of(m))))

    def missing(self, i):
        """one of the first i matches is a definition without a value"""
        return fn('missing', z3.IntSort(), z3.BoolSort())(i)

    def defined(self, E, m):
        return z3.Not(self.lacks(m))

    def complete(self, E):
        return z3.Not(self.missing(self.n))

    def spec_def(self, E, m):
        k = self.def_of(m)
        v = self.val(k)
        cat = lambda *p: E.enc(E.strcat([x if isinstance(x, str) else Sym(x, TStr) for x in p], merge=False), TStr)
        define = lambda t: cat('#define ', k, ' ', t)
        comment = cat('/* #undef ', k, ' */')
        listed = z3.And(self.is_(v, 'Iterable'), z3.Not(self.is_(v, 'str')))
        d = z3.If(self.is_(v, 'bool'), z3.If(self.truthy(E, v), define('1'), comment),
                  z3.If(listed, z3.If(self.joined(v) != E.lit(''), define(self.joined(v)), comment),
                        z3.If(self.truthy(E, v), define(self.str_(v)), comment)))
        return z3.If(self.is_sub(m), self.plain(self.val(self.sub_of(m))), d)

    def missing_inv(self, E, L, k, v):
        ss = S(TSeq(TStr))
        return [('a missing definition is remembered %s' % (k,), (ss.len(v.read()) > 0) == self.missing(L.i))]

    def inv(self, E, L):
        r = super().inv(E, L)
        if r:
            j = z3.Int('j!k')
            r.append(('every name in the text has a value', z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < L.i, self.is_sub(self.match(j))), self.known(self.sub_of(self.match(j)))), patterns=[self.match(j)])))
        return r

    def failing(self, E, a, post):
        j = z3.Int('j!f')
        return z3.Or(self.missing(self.n), z3.Exists([j], z3.And(0 <= j, j < self.n, self.is_sub(self.match(j)), z3.Not(
            self.known(self.sub_of(self.match(j)))))))

    def wanted(self, E, a, got):
        j = z3.Int('j!f')
        return super().wanted(E, a, got) + [
            ('every definition has a value', z3.Not(self.missing(self.n))),
            ('every name in the text has a value', z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < self.n, self.is_sub(self.match(j))), self.known(self.sub_of(self.match(j))))))]


CONTRACTS = [ConfigFile, ConfigHeader, Substitute, RegexSubstitute, FormatSubstitute]
USED = [AddRoot]
