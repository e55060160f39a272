"""C09: conversions carry the description of the sea state along.

A field-sensitive interpretation of each conversion: every attribute of the object that is
returned gets the set of inputs (access paths such as ``self.h``) its value is computed from on
every path.  An attribute whose set does not contain the input it has to come from is reported.
What cannot be followed counts as coming from everything, so that it is never an alarm."""
import ast
from ..framework import Result
from ..interp import Interp
from ..project import walk_local

ANY = '*'
NOCONST = object()
MAXDEPTH, BUDGET = 9, 4000


def covers(l, s):
    return l == ANY or l == s or s.startswith(l + '.') or l.startswith(s + '.')


def meet(a, b):
    if ANY in a:
        return b
    if ANY in b:
        return a
    return frozenset([x for x in a if any(covers(y, x) for y in b)] + [y for y in b if any(covers(x, y) for x in a)])


class Val(object):
    """a value computed from the inputs in ``must``, on every path"""
    __slots__ = ('must', 'may', 'const', 'path', 'cls')

    def __init__(self, must=(), may=None, const=NOCONST, path=None, cls=None):
        self.must = frozenset(must)
        self.may = frozenset(may) if may is not None else self.must
        self.const, self.path, self.cls = const, path, cls

    def key(self):
        return (self.must, self.may, repr(self.const) if self.const is not NOCONST else None, self.path)

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Obj(object):
    """an object made in the code that is analysed; its fields are in the environment"""
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __eq__(self, o):
        return isinstance(o, Obj) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Tup(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Dct(object):
    """a dictionary; ``rest`` is the value of the keys that are not known (None: there are none)"""
    __slots__ = ('items', 'rest')

    def __init__(self, items, rest=None):
        self.items, self.rest = dict(items), rest

    def __eq__(self, o):
        return isinstance(o, Dct) and self.items == o.items and self.rest == o.rest

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class DictOf(object):
    """obj.__dict__"""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, DictOf) and self.obj == o.obj

    def __ne__(self, o):
        return not self == o

    __hash__ = None


TOP = Val([ANY])
NONE = Val(const=None)


class State(object):
    def __init__(self, proj):
        self.proj = proj
        self.n = 0
        self.stack = []
        self.steps = 0
        self.ncalls = 0
        self.followed = set()

    def new(self):
        self.n += 1
        return self.n


class Walk(Interp):
    MAXITER = 3

    def __init__(self, st, func, env, cls):
        Interp.__init__(self)
        self.st, self.func, self.proj, self.cls = st, func, st.proj, cls
        self.env = env
        self.pc = []                 # labels of the tests that decide whether this point is reached
        self.ctl = Val()             # what decides which side of the current join is taken
        self.nested = {n.name: n for n in walk_local(func.node if not isinstance(func.node, ast.Lambda) else [func.node.body])
                       if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
        self.nested_classes = {n.name for n in walk_local(func.node if not isinstance(func.node, ast.Lambda) else [func.node.body])
                               if isinstance(n, ast.ClassDef)}

    def run(self):
        self.block(self.func.body)
        rets = [(v if v is not None else NONE, env, pc) for v, env, pc in self.returns]
        if self.alive:
            rets.append((NONE, self.env, self._pc()))
        if not rets:
            return None, None
        v, env, pc = rets[0]
        for v2, env2, pc2 in rets[1:]:
            self.ctl = Val(pc.must | pc2.must, pc.may | pc2.may)
            e1, e2 = dict(env), dict(env2)
            e1['@ret'], e2['@ret'] = v, v2
            env = self.join_env(e1, e2)
            v = env['@ret']
            pc = self.ctl
        return v, env

    def _pc(self):
        m, y = frozenset(), frozenset()
        for x in self.pc:
            m |= x.must
            y |= x.may
        return Val(m, y)

    # ---- joins ------------------------------------------------------------------------------
    def join_env(self, a, b):
        if a is None or b is None or a is b:
            return b if a is None else a
        self._sides = (a, b)
        self._extra = {}
        out = Interp.join_env(self, a, b)
        out.update(self._extra)
        return out

    def missing(self, key):
        return None

    def join_val(self, a, b):
        if isinstance(a, Val) and isinstance(b, Val):
            must = meet(a.must, b.must) | self.ctl.must
            if ANY in a.must and ANY in b.must:
                must |= frozenset([ANY])
            return Val(must, a.may | b.may | self.ctl.may, path=a.path if a.path == b.path else None,
                       cls=a.cls if a.cls is b.cls else None)
        if isinstance(a, Obj) and isinstance(b, Obj):
            ea, eb = self._sides
            o = Obj(self.st.new(), a.cls if a.cls is b.cls else None)
            fa, fb = self.fields_in(ea, a), self.fields_in(eb, b)
            for k in set(fa) | set(fb):
                x, y = fa.get(k), fb.get(k)
                self._extra[('f', o.id, k)] = (x if y is None else y if x is None else x if x == y else self.join_val(x, y))
            return o
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([x if x == y else self.join_val(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Dct) and isinstance(b, Dct):
            ks = set(a.items) | set(b.items)
            return Dct({k: a.items[k] if k not in b.items else b.items[k] if k not in a.items else
                        a.items[k] if a.items[k] == b.items[k] else self.join_val(a.items[k], b.items[k]) for k in ks},
                       a.rest or b.rest)
        if isinstance(a, Val) and a.const is None and not isinstance(b, Val):
            return b
        if isinstance(b, Val) and b.const is None and not isinstance(a, Val):
            return a
        if all(isinstance(x, Val) or isinstance(x, Tup) and all(isinstance(y, Val) for y in x.items) for x in (a, b)):
            return self.join_val(self.flat(a), self.flat(b))
        return TOP

    def fields_in(self, env, o):
        return {k[2]: v for k, v in env.items() if isinstance(k, tuple) and k[0] == 'f' and k[1] == o.id}

    def flat(self, v, depth=0):
        """labels of everything in a value"""
        if isinstance(v, Val):
            return v
        if depth > 4:
            return TOP
        vs = []
        if isinstance(v, Obj):
            vs = list(self.fields_in(self.env, v).values())
        elif isinstance(v, Tup):
            vs = v.items
        elif isinstance(v, Dct):
            vs = list(v.items.values()) + ([v.rest] if v.rest is not None else [])
        elif isinstance(v, DictOf):
            return self.flat(v.obj, depth + 1)
        m, y = frozenset(), frozenset()
        for x in vs:
            x = self.flat(x, depth + 1)
            m |= x.must
            y |= x.may
        return Val(m, y)

    def mix(self, vs):
        m, y = frozenset(), frozenset()
        for v in vs:
            v = self.flat(v)
            m |= v.must
            y |= v.may
        return Val(m, y)

    # ---- statements -----------------------------------------------------------------------------
    def on_stmt(self, s):
        self.st.steps += 1

    def truth(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.truth(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            a, b = self.ev(t.left), self.ev(t.comparators[0])
            pos = isinstance(t.ops[0], (ast.Is, ast.Eq))
            if isinstance(a, Val) and isinstance(b, Val) and a.const is not NOCONST and b.const is not NOCONST:
                return (a.const == b.const) == pos
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Val) and x.const is None and not isinstance(y, Val):
                    return not pos
            return None
        if isinstance(t, (ast.Constant, ast.Name)):
            v = self.ev(t)
            if isinstance(v, Val) and v.const is not NOCONST:
                return bool(v.const)
        return None

    def s_If(self, s):
        lab = self.flat(self.ev(s.test))
        t = self.truth(s.test)
        if t is not None:
            self.block(s.body if t else s.orelse)
            return
        e0 = self.env
        self.pc.append(lab)
        self.env = dict(e0)
        self.alive = True
        n0 = len(self.returns)
        self.block(s.body)
        e1 = self.env if self.alive else None
        self.env = dict(e0)
        self.alive = True
        self.block(s.orelse)
        e2 = self.env if self.alive else None
        self.pc.pop()
        if (e1 is None) != (e2 is None) and len(self.returns) > n0:
            self.pc.insert(0, lab)
        c0, self.ctl = self.ctl, lab
        e = self.join_env(e1, e2)
        self.ctl = c0
        self.alive = e is not None
        self.env = e if e is not None else e0

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.returns.append((v, self.env, self._pc()))
        self.alive = False

    def s_AugAssign(self, s):
        v = self.mix([self.ev(s.value), self.ev(_load(s.target))])
        self.store(s.target, v, s)

    def s_For(self, s):
        it = self.ev(s.iter)
        seq = self.elements(it)
        if seq is not None and len(seq) <= 20 and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in walk_local(s)):
            for x in seq:
                self.store(s.target, x, s)
                self.block(s.body)
            if s.orelse:
                self.block(s.orelse)
            return
        lab = self.flat(it)
        c0, self.ctl = self.ctl, lab
        self.pc.append(lab)

        def head():
            self.store(s.target, Val(lab.must, lab.may), s)
        self._loop(s, head)
        self.pc.pop()
        self.ctl = c0

    def s_While(self, s):
        lab = self.flat(self.ev(s.test))
        c0, self.ctl = self.ctl, lab
        self.pc.append(lab)
        Interp.s_While(self, s)
        self.pc.pop()
        self.ctl = c0

    def s_Try(self, s):
        # the handlers are for inputs of another kind; what matters is the path without exception
        self.block(s.body)
        if self.alive:
            self.block(s.orelse)
        elif s.handlers and not self.returns:
            self.alive = True
            for h in s.handlers[:1]:
                self.block(h.body)
        was, self.alive = self.alive, True
        self.block(s.finalbody)
        self.alive = self.alive and was

    def elements(self, it):
        if isinstance(it, Tup):
            return it.items
        if isinstance(it, Val) and isinstance(it.const, (tuple, list)):
            return [Val(const=c) for c in it.const]
        if isinstance(it, Dct) and it.rest is None:
            return [Val(const=k) for k in it.items]
        return None

    # ---- stores -----------------------------------------------------------------------------------
    def store(self, t, v, node):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.elements(v)
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            if seq is not None and len(seq) == len(t.elts) and not star:
                for x, y in zip(t.elts, seq):
                    self.store(x, y, node)
            else:
                f = self.flat(v)
                for x in t.elts:
                    self.store(x, Val(f.must, f.may), node)
        elif isinstance(t, ast.Starred):
            self.store(t.value, self.flat(v), node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            i = self.ev(t.slice)
            if isinstance(base, Dct) and isinstance(i, Val) and isinstance(i.const, str):
                base.items[i.const] = v
            elif isinstance(base, DictOf) and isinstance(i, Val):
                if isinstance(i.const, str):
                    self.setattr(base.obj, i.const, v)
                else:
                    self.blur(base.obj)
            elif isinstance(base, Dct):
                base.rest = TOP
            elif isinstance(t.value, (ast.Name, ast.Attribute)):
                # part of an array replaced: it is computed from both
                b, x = self.flat(base), self.mix([v, i])
                if not isinstance(base, Obj):
                    self.store(_store(t.value), Val(b.must | x.must, b.may | x.may), node)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.env[('f', o.id, name)] = v
            p = o.cls.find_prop(name) if o.cls is not None else None
            if p:
                self.env[('f', o.id, '_' + name)] = v
        elif isinstance(o, Val) and o.path is not None:
            self.env[('p', o.path, name)] = v

    def blur(self, o):
        """anything may have been done to the object"""
        if isinstance(o, Obj):
            for k in list(self.env):
                if isinstance(k, tuple) and k[0] == 'f' and k[1] == o.id:
                    self.env[k] = TOP
            self.env[('f', o.id, ANY)] = TOP

    def getattr(self, o, name):
        if isinstance(o, Obj):
            v = self.env.get(('f', o.id, name))
            if v is not None:
                return v
            if name == '__dict__':
                return DictOf(o)
            if o.cls is not None:
                p = o.cls.find_prop(name)
                if p and p.get('get') is not None:
                    v = self.env.get(('f', o.id, '_' + name))
                    return v if v is not None else self.inline(p['get'], [o], {}, None, None, o.cls)
                a = o.cls.find_attr(name)
                if a is not None:
                    return self.lit(a[1])
                if o.cls.find(name) is not None or o.cls.external_bases():
                    return TOP
            if ('f', o.id, ANY) in self.env:
                return TOP
            b = self.env.get(('f', o.id, '@base'))
            return self.getattr(b, name) if b is not None else Val()
        if isinstance(o, Val):
            if name == '__dict__':
                return DictOf(o)
            if o.path is not None:
                v = self.env.get(('p', o.path, name))
                if v is not None:
                    return v
                p = o.path + '.' + name.lstrip('_')
                return Val([p], path=p)
            return Val(o.must, o.may)
        return self.flat(o)

    # ---- expressions -------------------------------------------------------------------------------
    def lit(self, e):
        try:
            return Val(const=ast.literal_eval(e))
        except Exception:
            return Val()

    def ev(self, n):
        if n is None:
            return NONE
        if isinstance(n, ast.Constant):
            return Val(const=n.value)
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            x = self.proj.lookup(self.func.module, n.id)
            if x and x[0] in ('var', 'const', 'value') and len(x) > 1 and isinstance(x[1], ast.AST):
                return self.lit(x[1])
            return Val()
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id not in self.env:
                return Val()
            return self.getattr(self.ev(n.value), n.attr)
        if isinstance(n, (ast.Tuple, ast.List)):
            vs = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    seq = self.elements(self.ev(x.value))
                    if seq is None:
                        return self.mix([self.ev(y.value if isinstance(y, ast.Starred) else y) for y in n.elts])
                    vs += seq
                else:
                    vs.append(self.ev(x))
            return Tup(vs)
        if isinstance(n, ast.Dict):
            d = Dct({})
            for k, v in zip(n.keys, n.values):
                self.put(d, k, self.ev(v))
            return d
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return self.comp(n)
        if isinstance(n, ast.IfExp):
            t = self.truth(n.test)
            if t is not None:
                return self.ev(n.body if t else n.orelse)
            lab = self.flat(self.ev(n.test))
            a, b = self.ev(n.body), self.ev(n.orelse)
            if a == b:
                return a
            c0, self.ctl = self.ctl, lab
            self._sides, self._extra = (self.env, self.env), {}
            v = self.join_val(a, b)
            self.env.update(self._extra)
            self.ctl = c0
            return v
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(x) for x in n.values]
            # the first operand decides
            f = self.flat(vs[0])
            rest = self.mix(vs)
            return Val(f.must, rest.may)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left), self.ev(n.right)
            if isinstance(n.op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Val) and isinstance(b, Val) and isinstance(a.const, str) and isinstance(b.const, str) and isinstance(n.op, ast.Add):
                return Val(const=a.const + b.const)
            return self.mix([a, b])
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value)
            self.store(n.target, v, None)
            return v
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, ast.Subscript):
            b, i = self.ev(n.value), self.ev(n.slice)
            if isinstance(i, Val) and i.const is not NOCONST:
                if isinstance(b, Tup) and isinstance(i.const, int) and -len(b.items) <= i.const < len(b.items):
                    return b.items[i.const]
                if isinstance(b, Dct) and isinstance(i.const, (str, int, float)):
                    v = b.items.get(i.const, b.rest)
                    return v if v is not None else Val()
                if isinstance(b, DictOf):
                    return self.getattr(b.obj, i.const) if isinstance(i.const, str) else TOP
            return self.mix([b, i])
        if isinstance(n, ast.Slice):
            return self.mix([self.ev(x) for x in (n.lower, n.upper, n.step) if x is not None])
        if isinstance(n, ast.Lambda):
            return Val(*self._closure(n))
        vs = []
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, ast.expr):
                vs.append(self.ev(ch))
        return self.mix(vs)

    def _closure(self, n):
        v = self.mix([self.env[x.id] for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in self.env])
        return v.must, v.may

    def put(self, d, key, v):
        if key is None:                                    # **other
            if isinstance(v, Dct):
                d.items.update(v.items)
                d.rest = d.rest or v.rest
            else:
                self.open(d, v)
            return
        k = self.ev(key)
        if isinstance(k, Val) and isinstance(k.const, (str, int, float)):
            d.items[k.const] = v
        else:
            d.rest = TOP

    def open(self, d, v):
        d.rest = TOP

    def comp(self, n):
        e0 = dict(self.env)
        g = n.generators[0]
        it = self.ev(g.iter)
        seq = self.elements(it)
        if len(n.generators) == 1 and seq is not None and len(seq) <= 30 and not (g.ifs and isinstance(n, ast.ListComp)):
            out, d = [], Dct({})
            for x in seq:
                self.store(g.target, x, None)
                if any(self.truth(c) is False for c in g.ifs):
                    continue
                if isinstance(n, ast.DictComp):
                    self.put(d, n.key, self.ev(n.value))
                else:
                    out.append(self.ev(n.elt))
            self.env = e0
            return d if isinstance(n, ast.DictComp) else Tup(out)
        vs = []
        for g in n.generators:
            v = self.flat(self.ev(g.iter))
            vs.append(v)
            self.store(g.target, Val(v.must, v.may), None)
        vs += [self.ev(x) for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt])]
        self.env = e0
        return TOP if isinstance(n, ast.DictComp) else self.mix(vs)

    # ---- calls -----------------------------------------------------------------------------------------
    def call(self, n):
        self.st.ncalls += 1
        fe = n.func
        args, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                seq = self.elements(v)
                if seq is None:
                    star = self.flat(v)
                else:
                    args += seq
            else:
                args.append(self.ev(a))
        kws, krest = {}, None
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kws[k.arg] = v
            elif isinstance(v, Dct):
                kws.update(v.items)
                krest = krest or v.rest
            else:
                krest = TOP
        allv = args + list(kws.values()) + [x for x in (star, krest) if x is not None]
        if isinstance(fe, ast.Name) and fe.id not in self.env and fe.id not in self.nested:
            r = self.builtin(fe.id, args, kws, allv, krest)
            if r is not None:
                return r
        if isinstance(fe, ast.Name) and fe.id in self.nested:
            return self.opaque(allv + [Val(*self._closure(self.nested[fe.id]))])
        # a class or function of the package
        x = self.proj.resolve_expr(self.func.module, fe) if isinstance(fe, (ast.Name, ast.Attribute)) and \
            not (_first(fe) in self.env) else None
        if x and x[0] == 'class':
            return self.construct(x[1], args, kws, star, krest)
        if x and x[0] == 'func':
            return self.inline(x[1], args, kws, star, krest, None)
        if isinstance(fe, ast.Attribute):
            return self.method(fe, args, kws, star, krest, allv)
        if isinstance(fe, ast.Call) and isinstance(fe.func, ast.Name) and fe.func.id == 'type' and fe.args:
            o = self.ev(fe.args[0])
            c = getattr(o, 'cls', None)
            if c is not None:
                return self.construct(c, args, kws, star, krest)
        v = self.ev(fe)
        if getattr(v, 'cls', None) is not None and v.cls != 'super':
            f = v.cls.find('__call__')
            a = v.cls.find_attr('__call__')
            if a is not None and isinstance(a[1], ast.Name):
                f = v.cls.find(a[1].id)
            if f is not None:
                return self.inline(f, [v] + args, kws, star, krest, v.cls)
        if isinstance(fe, ast.Name) and fe.id in self.nested_classes:
            o = Obj(self.st.new(), None)
            if n.args or n.keywords:
                self.blur(o)
            return o
        if any(x.startswith('self.') for x in self.flat(v).may):
            allv = allv + [Val(['self'])]             # possibly a bound method
        return self.opaque(allv + [v])

    def builtin(self, name, args, kws, allv, krest):
        if name == 'dict':
            d = Dct({})
            for a in args[:1]:
                if isinstance(a, Dct):
                    d.items.update(a.items)
                    d.rest = a.rest
                elif isinstance(a, Tup) and all(isinstance(x, Tup) and len(x.items) == 2 and isinstance(x.items[0], Val) and
                                                isinstance(x.items[0].const, str) for x in a.items):
                    for x in a.items:
                        d.items[x.items[0].const] = x.items[1]
                elif isinstance(a, DictOf):
                    return self.flat(a)
                else:
                    d.rest = TOP
            d.items.update(kws)
            d.rest = d.rest or krest
            return d
        if name in ('list', 'tuple', 'sorted', 'set') and len(args) == 1 and self.elements(args[0]) is not None:
            return Tup(self.elements(args[0]))
        if name == 'zip' and args and all(self.elements(a) is not None for a in args):
            return Tup([Tup(x) for x in zip(*[self.elements(a) for a in args])])
        if name == 'vars' and len(args) == 1:
            return DictOf(args[0])
        if name == 'getattr' and len(args) >= 2:
            if isinstance(args[1], Val) and isinstance(args[1].const, str):
                return self.getattr(args[0], args[1].const)
            return TOP
        if name == 'setattr' and len(args) == 3:
            if isinstance(args[1], Val) and isinstance(args[1].const, str):
                self.setattr(args[0], args[1].const, args[2])
            elif isinstance(args[0], Obj) and not (isinstance(args[1], Val) and not args[1].may and args[1].const is NOCONST):
                # a computed name: some field, not known which
                self.env[('f', args[0].id, ANY)] = TOP
            return NONE
        if name == 'super':
            return Val(cls='super')
        if name in ('isinstance', 'hasattr', 'len', 'type', 'print', 'range', 'enumerate', 'callable', 'issubclass'):
            return self.mix(allv)
        return None

    def opaque(self, vs):
        """code that is not followed: it may change what it is given"""
        m = self.mix(vs)
        for v in vs:
            if isinstance(v, Obj):
                self.blur(v)
            elif isinstance(v, Dct):
                v.rest = TOP
        return m if not any(isinstance(v, Obj) for v in vs) else TOP

    def construct(self, c, args, kws, star, krest):
        o = Obj(self.st.new(), c)
        init = c.find('__init__')
        if init is None or c.external_bases() and init.cls is not c and not init:
            self.env[('f', o.id, ANY)] = TOP
            return o
        if self.inline(init, [o] + args, kws, star, krest, c) is None:
            self.env[('f', o.id, ANY)] = TOP
        return o

    def method(self, fe, args, kws, star, krest, allv):
        name = fe.attr
        # super().name(...)
        if isinstance(fe.value, ast.Call) and isinstance(fe.value.func, ast.Name) and fe.value.func.id == 'super':
            return self.super_call(name, args, kws, star, krest, allv)
        # module.function of another library
        root = _first(fe)
        if root is not None and root not in self.env:
            x = self.proj.resolve_expr(self.func.module, fe.value)
            if x and x[0] == 'class':
                f = x[1].find(name)
                if f is not None:
                    return self.inline(f, args, kws, star, krest, getattr(args[0], 'cls', None) if args else None)
            if name in ('copy', 'deepcopy') and len(args) == 1:
                return self.clone(args[0])
            return self.external(allv)
        o = self.ev(fe.value)
        if isinstance(o, DictOf):
            if name == 'update':
                for a in args + [Dct(kws, krest)]:
                    if isinstance(a, Dct):
                        for k, v in a.items.items():
                            self.setattr(o.obj, k, v)
                        if a.rest is not None:
                            self.blur(o.obj)
                    elif isinstance(a, DictOf):
                        self.copy_fields(a.obj, o.obj)
                    else:
                        self.blur(o.obj)
                return NONE
            if name in ('get', 'pop') and args and isinstance(args[0], Val) and isinstance(args[0].const, str):
                return self.getattr(o.obj, args[0].const)
            if name == 'copy':
                return o
            return self.flat(o)
        if isinstance(o, Dct):
            return self.dict_method(o, name, args, kws, krest)
        if isinstance(o, Tup):
            if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'reverse', 'sort'):
                if isinstance(fe.value, ast.Name):
                    self.env[fe.value.id] = self.mix([o] + allv)
                return self.mix([o] + allv)
            return self.mix([o] + allv)
        if name == '__class__':
            pass
        if isinstance(fe.value, ast.Attribute) and fe.value.attr == '__class__':
            pass
        cls = getattr(o, 'cls', None)
        if name == '__class__' and cls is not None:
            return self.construct(cls, args, kws, star, krest)
        if cls is not None and cls != 'super':
            if name == 'copy' and not args and not kws:
                return self.clone(o)
            f = cls.find(name)
            if f is not None:
                return self.inline(f, [o] + args, kws, star, krest, cls)
        if isinstance(o, Obj):
            g = self.env.get(('f', o.id, name))
            if g is not None:
                return self.external(allv + [g])
            return self.opaque(allv + [o])
        if isinstance(o, Val) and o.path is not None and name in ('append', 'extend', 'update', 'pop'):
            pass
        return self.external(allv + [o])

    def external(self, vs):
        m = self.mix(vs)
        return Val(m.must, m.may)

    def dict_method(self, o, name, args, kws, krest):
        k = args[0].const if args and isinstance(args[0], Val) else NOCONST
        if name in ('get', 'pop', 'setdefault'):
            if isinstance(k, str):
                v = o.items.get(k, o.rest)
                if v is None:
                    v = args[1] if len(args) > 1 else NONE
                    if name == 'setdefault':
                        o.items[k] = v
                if name == 'pop':
                    o.items.pop(k, None)
                return v
            return self.mix([o] + args) if name == 'get' and all(isinstance(v, Val) for v in o.items.values()) else TOP
        if name == 'update':
            for a in args:
                if isinstance(a, Dct):
                    o.items.update(a.items)
                    o.rest = o.rest or a.rest
                elif not (isinstance(a, Tup) and not a.items):
                    o.rest = TOP
            o.items.update(kws)
            o.rest = o.rest or krest
            return NONE
        if name == 'copy':
            return Dct(o.items, o.rest)
        if name == 'items' and o.rest is None:
            return Tup([Tup([Val(const=a), b]) for a, b in o.items.items()])
        if name == 'keys' and o.rest is None:
            return Tup([Val(const=a) for a in o.items])
        if name == 'values' and o.rest is None:
            return Tup(list(o.items.values()))
        return self.flat(o)

    def clone(self, o):
        if isinstance(o, Obj):
            c = Obj(self.st.new(), o.cls)
            self.copy_fields(o, c)
            return c
        if isinstance(o, Val) and o.path is not None and o.cls is not None:
            c = Obj(self.st.new(), o.cls)
            self.copy_fields(o, c)
            return c
        if isinstance(o, Dct):
            return Dct(o.items, o.rest)
        return o

    def copy_fields(self, a, b):
        """b gets the fields of a"""
        if not isinstance(b, Obj):
            return
        if isinstance(a, Obj):
            for k, v in self.fields_in(self.env, a).items():
                self.env[('f', b.id, k)] = v
        elif isinstance(a, Val):
            if a.path is None:
                self.blur(b)
                return
            self.env[('f', b.id, '@base')] = a
            for k, v in list(self.env.items()):
                if isinstance(k, tuple) and k[0] == 'p' and k[1] == a.path:
                    self.env[('f', b.id, k[2])] = v

    def super_call(self, name, args, kws, star, krest, allv):
        me = self.env.get(self.func.params[0]) if self.func.params else None
        c = getattr(me, 'cls', None) or self.cls
        here = self.func.cls
        if c is None or here is None:
            return TOP
        m = c.classes()
        i = m.index(here) if here in m else -1
        for b in m[i + 1:]:
            if name in b.methods:
                return self.inline(b.methods[name], [me] + args, kws, star, krest, c)
        if name == '__init__' and not c.external_bases():
            return NONE
        if isinstance(me, Obj):
            self.env[('f', me.id, ANY)] = TOP
        return TOP

    def inline(self, f, args, kws, star, krest, cls):
        """value of a call of a function of the package"""
        if f.name == 'sub_dict_select' and len(args) == 2 and isinstance(args[0], Dct) and self.elements(args[1]) is not None:
            keys = [x.const for x in self.elements(args[1]) if isinstance(x, Val)]
            return Dct({k: v for k, v in args[0].items.items() if k in keys}, args[0].rest)
        allv = list(args) + list(kws.values()) + [x for x in (star, krest) if x is not None]
        static = not f.is_method and f.cls is not None
        if f.qual in self.st.stack or len(self.st.stack) > MAXDEPTH or self.st.steps > BUDGET or isinstance(f.node, ast.Lambda) or \
                any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_local(f.node)):
            if any(isinstance(v, Obj) for v in allv):
                return self.opaque(allv)
            return self.external(allv) if not any(isinstance(v, (Dct, DictOf)) for v in allv) else TOP
        self.st.followed.add(f.qual)
        if static and args and f.params and len(args) > f.npos:
            args = args[1:]
        env = {k: v for k, v in self.env.items() if isinstance(k, tuple)}
        pos = list(f.params[:f.npos])
        rest = list(pos)
        for v in args:
            if rest:
                env[rest.pop(0)] = v
            elif f.vararg:
                t = env.setdefault(f.vararg, Tup([]))
                t.items.append(v)
        if star is not None:
            for p in rest:
                env[p] = Val(star.must, star.may)
            rest = []
            if f.vararg:
                env[f.vararg] = Val(star.must, star.may)
        d = Dct({}, krest)
        for k, v in kws.items():
            if k in f.params:
                env[k] = v
            else:
                d.items[k] = v
        for p in f.params:
            if p not in env:
                if krest is not None:
                    env[p] = krest
                elif p in f.defaults:
                    env[p] = self.lit(f.defaults[p])
                else:
                    env[p] = Val()
        if f.kwarg:
            env[f.kwarg] = d
        if f.vararg and f.vararg not in env:
            env[f.vararg] = Tup([])
        self.st.stack.append(f.qual)
        try:
            v, out = Walk(self.st, f, env, cls).run()
        finally:
            self.st.stack.pop()
        if out is None:
            return Val()             # does not return
        for k, x in out.items():
            if isinstance(k, tuple):
                self.env[k] = x
        return v


def _load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def _store(t):
    return t


def _first(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


# ---- obligations -------------------------------------------------------------------------------
SP, CV, OB, TR, TE = ('wafo.spectrum.core:', 'wafo.covariance.core:', 'wafo.objects:', 'wafo.transform.models:', 'wafo.transform.estimation:')
LAG = 'self.lagtype self.freqtype self.type'
# method: (index of the result in a tuple or None, {attribute: the inputs one of which it has to come from}, {parameter: class})
CARRY = {
    SP + 'SpecData1D.tocovdata': (None, {'tr': 'self.tr', 'h': 'self.h', 'norm': 'self.norm', 'lagtype': LAG, 'data': 'self.data', 'args': 'self.args'}, {}),
    CV + 'CovData1D.tospecdata': (None, {'tr': 'self.tr', 'h': 'self.h', 'norm': 'self.norm', 'type': 'self.lagtype', 'freqtype': 'self.lagtype',
                                         'data': 'self.data', 'args': 'self.args'}, {}),
    'wafo.spectrum.models:Spreading.tospecdata2d': (None, {
        'tr': 'specdata.tr', 'h': 'specdata.h', 'norm': 'specdata.norm', 'freqtype': 'specdata.freqtype', 'phi': 'self.theta0', 'data': 'specdata.data',
        'args': 'specdata.args'}, {'specdata': SP + 'SpecData1D'}),
    OB + 'TimeSeries.tospecdata': (None, {'tr': 'tr', 'freqtype': 'ftype', 'data': 'self.data', 'args': 'self.args', 'L': 'L'}, {}),
    OB + 'TimeSeries.tocovdata': (None, {'tr': 'tr', 'norm': 'norm', 'data': 'self.data', 'args': 'dt self.args'}, {}),
    'wafo.covariance.estimation:CovarianceEstimator.tocovdata': (None, {
        'tr': 'self.tr', 'norm': 'self.norm', 'data': 'timeseries.data', 'args': 'self.dt timeseries.args'}, {'timeseries': OB + 'TimeSeries'}),
    'wafo.spectrum.models:ModelSpectrum.tospecdata': (None, {'h': 'self.h', 'args': 'w'}, {}),
    OB + 'TimeSeries.turning_points': (None, {'mean': 'self.data', 'sigma': 'self.data', 'data': 'self.data', 'args': 'self.args'}, {}),
    OB + 'TimeSeries.trough_crest': (None, {'mean': 'self.data', 'sigma': 'self.data', 'data': 'self.data', 'args': 'self.args'}, {}),
    OB + 'TurningPoints.rainflow_filter': (None, {'mean': 'self.mean', 'sigma': 'self.sigma', 'data': 'self.data', 'args': 'self.args'}, {}),
    OB + 'TurningPoints.cycle_pairs': (None, {'mean': 'self.mean', 'sigma': 'self.sigma', 'kind': 'kind', 'time': 'self.args', 'data': 'self.data',
                                              'args': 'self.data'}, {}),
    OB + 'CyclePairs.level_crossings': (None, {'mean': 'self.mean', 'sigma': 'self.sigma', 'intensity': 'intensity', 'data': 'self.data',
                                               'args': 'self.data'}, {}),
    OB + 'CyclePairs.cycle_matrix': (None, {'mean': 'self.mean', 'sigma': 'self.sigma', 'kind': 'self.kind', 'time': 'self.time', 'data': 'self.data',
                                            'args': 'param'}, {}),
    OB + 'LevelCrossings.extrapolate': (None, {'mean': 'self.mean', 'sigma': 'self.sigma', 'intensity': 'self.intensity', 'data': 'self.data',
                                               'args': 'self.args'}, {}),
    TR + 'TrCommon2.trdata': (None, {'mean': 'self.mean', 'sigma': 'self.sigma', 'args': 'x self.mean'}, {}),
    TE + 'TransformEstimator._trdata_lc': ((0, 1), {'mean': 'mean level_crossings.mean', 'sigma': 'sigma level_crossings.sigma',
                                                    'data': 'level_crossings.data'}, {'level_crossings': OB + 'LevelCrossings'}),
    TE + 'TransformEstimator._trdata_cdf': ((0, 1), {'mean': 'data', 'sigma': 'data', 'data': 'data'}, {}),
    OB + 'LevelCrossings.trdata': ((0, 1), {'mean': 'mean self.mean', 'sigma': 'sigma self.sigma', 'data': 'self.data'}, {}),
    SP + 'SpecData1D.interp': (None, {'tr': 'self.tr', 'h': 'self.h', 'norm': 'self.norm', 'freqtype': 'self.freqtype', 'type': 'self.type'}, {}),
    'wafo.containers:PlotData.to_cdf': (None, {'data': 'self.data', 'args': 'self.args'}, {}),
    'wafo.containers:PlotData.copy': (None, {'data': 'self.data', 'args': 'self.args', 'labels': 'self.labels', 'children': 'self.children',
                                             'plotter': 'self.plotter', 'plot_args': 'self.plot_args', 'plot_kwds': 'self.plot_kwds'}, {}),
}
# constructors: the keywords the attribute of the same name is made from
_PLOT = 'plotter children plot_args_children plot_kwds_children plot_args plot_kwds'
KEEP = {
    'wafo.containers:PlotData': _PLOT, SP + 'SpecData1D': 'type freqtype h tr phi v norm', SP + 'SpecData2D': 'type freqtype h tr phi v norm',
    CV + 'CovData1D': 'phi name h tr lagtype v type norm', OB + 'LevelCrossings': 'intensity sigma mean ' + _PLOT.replace('children ', '', 1),
    OB + 'CyclePairs': 'kind sigma mean time plot_args children', OB + 'CycleMatrix': 'kind sigma mean time plot_args children',
    OB + 'TurningPoints': 'sigma mean', OB + 'TimeSeries': 'sensortypes position', 'wafo.transform.core:TrData': 'ymean ysigma mean sigma',
}


class Rule(object):
    def __init__(self, ctx, r, selftest):
        self.proj, self.r = ctx.proj, r
        self.nobl = self.nmeth = self.nopen = self.ncalls = 0
        self.followed = set()
        self.carry, self.keep = (CARRY, KEEP) if not selftest else (self.from_comments())

    def from_comments(self):
        carry, keep = {}, {}
        for q, f in self.proj.funcs.items():
            d = ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None
            if d and d.startswith('carry '):
                idx = None
                if d.startswith('carry (0, 1) '):
                    idx, d = (0, 1), d.replace('(0, 1) ', '')
                carry[q] = (idx, dict(x.split('=') for x in d.split()[1:]), {})
            elif d and d.startswith('keep '):
                keep[f.cls.qual] = d[5:]
        return {q: (i, {a: s.replace(',', ' ') for a, s in o.items()}, p) for q, (i, o, p) in carry.items()}, keep

    def find(self, q):
        mod, name = q.split(':')
        cn, mn = name.split('.')
        c = self.proj.classes.get('%s:%s' % (mod, cn)) or self.proj.classes.get('%s.%s' % (mod, cn))
        return (c, c.find(mn)) if c is not None else (None, None)

    def cls(self, q):
        return self.proj.classes.get(q) or self.proj.classes.get(q.replace(':', '.'))

    def walk(self, f, env, cls):
        st = State(self.proj)
        st.stack.append(f.qual)
        w = Walk(st, f, env, cls)
        v, out = w.run()
        self.ncalls += st.ncalls
        self.followed |= st.followed | {f.qual}
        w.env = out if out is not None else {}
        return w, v

    def conversions(self):
        for q, (idx, need, classes) in sorted(self.carry.items()):
            c, f = self.find(q)
            if f is None:
                continue
            self.nmeth += 1
            env = {}
            for i, p in enumerate(f.params):
                k = c if i == 0 and f.is_method else self.cls(classes[p]) if p in classes else None
                env[p] = Val([p if i else 'self'], path=p if i or not f.is_method else 'self', cls=k)
            if f.kwarg:
                env[f.kwarg] = Dct({}, Val([f.kwarg]))
            if f.vararg:
                env[f.vararg] = Val([f.vararg])
            w, v = self.walk(f, env, c)
            outs = [v]
            if idx is not None:
                outs = [v.items[i] for i in idx] if isinstance(v, Tup) and len(v.items) > max(idx) else [TOP]
            for n, o in enumerate(outs):
                for attr, srcs in sorted(need.items()):
                    self.nobl += 1
                    if isinstance(o, Val) and o.path is None and not o.const is None:
                        self.nopen += 1
                        continue
                    x = w.flat(w.getattr(o, attr))
                    if ANY in x.must:
                        self.nopen += 1
                        continue
                    if not any(covers(l, s) for l in x.must for s in srcs.split()):
                        self.r.add('lost %s: %s%s' % (q, attr, ' of result %d' % n if idx is not None else ''),
                                   '%s returns an object whose %s does not come from %s on every path (comes from: %s)'
                                   % (q, attr, ' or '.join(srcs.split()), ', '.join(sorted(x.must)) or 'none of the inputs'), '%s:%d' % (f.path, f.line))

    def constructors(self):
        for q, names in sorted(self.keep.items()):
            c = self.cls(q)
            f = c.find('__init__') if c is not None else None
            if f is None:
                continue
            self.nmeth += 1
            st = State(self.proj)
            o = Obj(st.new(), c)
            env = {f.params[0]: o}
            kw = {k: Val(['kw.' + k], path='kw.' + k) for k in names.split()}
            for p in f.params[1:]:
                env[p] = kw.pop(p) if p in kw else Val([p], path=p)
            if f.vararg:
                env[f.vararg] = Tup([Val(['data'], path='data'), Val(['args'], path='args')])
            if f.kwarg:
                env[f.kwarg] = Dct(kw)
            st.stack.append(f.qual)
            w = Walk(st, f, env, c)
            v, out = w.run()
            self.followed |= st.followed | {f.qual}
            self.ncalls += st.ncalls
            if out is None:
                continue
            w.env = out
            for k in names.split() + (['data', 'args'] if f.vararg or 'data' in f.params else []):
                self.nobl += 1
                x = w.flat(w.getattr(o, k))
                if ANY in x.must:
                    self.nopen += 1
                elif not any(covers(l, s) for l in x.must for s in ('kw.' + k, k)):
                    self.r.add('lost %s(%s)' % (q, k), 'the attribute %s of %s does not come from the value it was constructed with (comes from: %s)'
                               % (k, q, ', '.join(sorted(x.must)) or 'none of the arguments'), '%s:%d' % (f.path, f.line))


def run(ctx, selftest=False):
    r = Result(
        rule='field-sensitive interpretation of the conversions and constructors: the attributes of the object that is returned come, on every '
             'path, from the attribute or parameter they describe',
        explanation='per conversion, the inputs every attribute of the result is computed from; helper functions, constructors, copies, '
                    'dictionaries of options and loops over attribute names are followed')
    a = Rule(ctx, r, selftest)
    a.conversions()
    a.constructors()
    r.coverage = {'conversions_and_constructors': a.nmeth, 'attributes_checked': a.nobl, 'attributes_not_decided': a.nopen,
                  'functions_followed': len(a.followed), 'call_sites': a.ncalls}
    r.samples = ['%s: %s' % (q, ', '.join('%s<-%s' % (k, '|'.join(v.split())) for k, v in sorted(o.items()))) for q, (i, o, p) in sorted(a.carry.items())][:12]
    r.assumptions = ['code that is not followed (other libraries, recursion) is taken to use everything it is given', 'exception handlers are for '
                     'inputs of another kind (arrays in place of objects)']
    return r
