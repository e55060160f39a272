"""Which inputs can influence what a function does: flow-sensitive data and control dependence,
interprocedural, with constant specialisation.  The dependence is over-approximated, so that "no
influence" means that the value of the input cannot matter."""
import ast
from .interp import Interp
from .project import walk_local

EMPTY = frozenset()
SILENT = {'warn', 'print', 'info', 'debug', 'warning'}      # telling the user is no effect
MUTATORS = {'append', 'extend', 'insert', 'update', 'setdefault', 'add', 'fill', 'sort', 'put', 'itemset', 'resize',
            'pop', 'remove', 'clear', 'discard', 'partition', 'setfield', 'setflags', 'reverse', '__setitem__'}


class Unknown(object):
    pass


class Given(object):
    """some value other than None"""

    def __repr__(self):
        return 'given'


class Other(Given):
    """a name or code equal to none of the constants it is compared with"""

    def __repr__(self):
        return 'other'


UNKNOWN = Unknown()
GIVEN = Given()
OTHER = Other()


class Sum(object):
    __slots__ = ('ret', 'out', 'attrs', 'muts', 'ends')

    def __init__(self):
        self.ret, self.out = EMPTY, EMPTY    # labels in the result / in effects other than the result
        self.attrs = {}                      # attributes of the receiver that are assigned -> labels
        self.muts = {}                       # parameters whose contents are changed -> labels
        self.ends = False                    # some path gets to a return or to the end

    def sig(self):
        return (self.ret, self.out, frozenset(self.attrs.items()), frozenset(self.muts.items()))


class Influence(object):
    def __init__(self, ctx):
        self.proj, self.eff = ctx.proj, ctx.effects
        self.sums, self.busy, self.final = {}, [], {}
        self.changed = False
        self.ncalls = set()
        self.passed, self.nodes = {}, {}      # what reaches a callee's parameter at a call site

    def get(self, f, consts=()):
        """fixed-point summary"""
        for k in range(8):
            self.changed = False
            self.round = {}
            s = self._get(f, consts)
            if not self.changed:
                self.final.update(self.round)
                break
        return s

    def _get(self, f, consts):
        key = (f.qual, consts)
        if key in self.busy:
            return self.sums.get(key) or Sum()
        if key in self.round or key in self.final:
            return self.sums[key]
        if len(self.busy) > 40:
            return None
        self.busy.append(key)
        try:
            s = Walk(self, f, dict(consts)).run()
        finally:
            self.busy.pop()
        self.round[key] = 1
        old = self.sums.get(key)
        if old is None or old.sig() != s.sig():
            self.sums[key] = s
            self.changed = True
        return self.sums[key]


def names_in(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


class Walk(Interp):
    MAXITER = 6

    def __init__(self, inf, func, consts):
        Interp.__init__(self)
        self.inf, self.func, self.proj = inf, func, inf.proj
        self.s = Sum()
        self.pc = [EMPTY]
        self.loops = []
        self.consts = {}
        for p in func.all_params():
            self.env[p] = frozenset([p])
            self.env['@' + p] = frozenset(['@'])     # still the caller's object
        self.taken = {}
        for p, v in consts.items():
            if p.startswith('**'):
                self.taken[p[2:]] = v
            else:
                self.env[('c', p)] = v
        self.selfname = func.params[0] if func.is_method and func.params else None
        self.alias = self._aliases()
        self.nested = {}
        for n in walk_local(func.node if not isinstance(func.node, ast.Lambda) else [func.node.body]):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.nested[n.name] = n

    def own(self, n):
        """reading an attribute of the receiver, of a copy of it or of an object made like it"""
        return frozenset([('sa', n.attr)]) if isinstance(n, ast.Attribute) and self.like_self(n.value) else EMPTY

    def like_self(self, e):
        if not self.selfname:
            return False
        g = self.__dict__.get('_likes')
        if g is None:
            g = self._likes = {self.selfname}
            for _ in range(2):
                for x in walk_local(self.func.node if not isinstance(self.func.node, ast.Lambda) else [self.func.node.body]):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and self._copy_of(x.value, g):
                        g.add(x.targets[0].id)
        return isinstance(e, ast.Name) and e.id in g or self._copy_of(e, g)

    def _copy_of(self, e, g):
        if isinstance(e, ast.Name):
            return e.id in g
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if nm in ('copy', 'deepcopy', '__copy__'):
                return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in g or \
                    bool(e.args) and isinstance(e.args[0], ast.Name) and e.args[0].id in g
            if nm == 'super':
                return True
        if isinstance(e, ast.IfExp):
            return self._copy_of(e.body, g) or self._copy_of(e.orelse, g)
        return False

    # ---- aliasing of locals -------------------------------------------------------------
    def _aliases(self):
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        for n in walk_local(self.func.node if not isinstance(self.func.node, ast.Lambda) else [self.func.node.body]):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    ts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                    for x in ts:
                        r = _root(x)
                        if r is None:
                            continue
                        for y in _holders(n.value):
                            if y != r:
                                par[find(r)] = find(y)
            elif isinstance(n, ast.For):
                for x in names_in(n.target):
                    for y in _holders(n.iter):
                        if y != x:
                            par[find(x)] = find(y)
        self.srcs, self.exprs = {}, {}
        for n in walk_local(self.func.node if not isinstance(self.func.node, ast.Lambda) else [self.func.node.body]):
            v = n.value if isinstance(n, (ast.Assign, ast.NamedExpr)) else n.iter if isinstance(n, ast.For) else None
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if v is not None else []):
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    for y in (names_in(x) if isinstance(n, ast.For) else [_root(x)]):
                        self.srcs.setdefault(y, set()).update(_holders(v))
                        self.exprs.setdefault(y, []).append(v)
        groups = {}
        for x in list(par):
            groups.setdefault(find(x), set()).add(x)
            groups[find(x)].add(find(x))
        return {x: g for g in groups.values() for x in g}

    def run(self):
        self.block(self.func.body)
        for v, env, s in self.returns:
            self.s.ret |= (v or EMPTY)
        self.s.ends = bool(self.returns) or self.alive
        return self.s

    def join_val(self, a, b):
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a | b
        return a if a == b and type(a) == type(b) else UNKNOWN

    def join_env(self, a, b):
        out = Interp.join_env(self, a, b)
        if a is not None and b is not None and a is not b:
            for k in list(out):
                if isinstance(k, tuple) and (k not in a or k not in b or out[k] is UNKNOWN):
                    del out[k]
        return out

    @property
    def ctl(self):
        r = EMPTY
        for x in self.pc:
            r |= x
        return r

    # ---- constants ---------------------------------------------------------------------
    def const(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.env.get(('c', e.id), UNKNOWN)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.const(e.operand)
            return -v if isinstance(v, (int, float)) else UNKNOWN
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.const(x) for x in e.elts]
            return UNKNOWN if any(v is UNKNOWN or v is OTHER for v in vs) else tuple(vs)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (
                'lower', 'upper', 'strip', 'startswith', 'endswith') and not e.keywords:
            v, a = self.const(e.func.value), [self.const(x) for x in e.args]
            if v is OTHER:
                return v if e.func.attr not in ('startswith', 'endswith') else UNKNOWN if any(x is UNKNOWN or x is OTHER for x in a) else False
            if isinstance(v, str) and not any(x is UNKNOWN for x in a):
                try:
                    return getattr(v, e.func.attr)(*a)
                except Exception:
                    return UNKNOWN
        if self.taken and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('pop', 'get') and e.args and \
                isinstance(e.func.value, ast.Name) and e.func.value.id == self.func.kwarg and isinstance(e.args[0], ast.Constant):
            return self.taken.get(e.args[0].value, UNKNOWN)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'str' and len(e.args) == 1:
            v = self.const(e.args[0])
            return v if isinstance(v, str) or v is OTHER else UNKNOWN
        if isinstance(e, ast.Subscript):
            v = self.const(e.value)
            if v is OTHER:
                return v
            if isinstance(v, (str, tuple)):
                s = e.slice
                try:
                    if isinstance(s, ast.Slice):
                        b = [None if x is None else self.const(x) for x in (s.lower, s.upper, s.step)]
                        return UNKNOWN if any(x is UNKNOWN for x in b) else v[slice(*b)]
                    i = self.const(s)
                    return v[i] if isinstance(i, int) else UNKNOWN
                except Exception:
                    return UNKNOWN
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test)
            if t is not None:
                return self.const(e.body if t else e.orelse)
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            t = self.truth(e)
            return UNKNOWN if t is None else t
        return UNKNOWN

    def truth(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.truth(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.const(t.left), self.const(t.comparators[0])
            op = t.ops[0]
            if a is UNKNOWN or b is UNKNOWN:
                return None
            if a is GIVEN or b is GIVEN:
                if (a is None or b is None) and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    return isinstance(op, (ast.IsNot, ast.NotEq))
                if (a is OTHER) != (b is OTHER) and a is not GIVEN and b is not GIVEN:
                    if isinstance(op, (ast.Eq, ast.In)):
                        return False
                    if isinstance(op, (ast.NotEq, ast.NotIn)):
                        return True
                return None
            try:
                if isinstance(op, (ast.Eq,)):
                    return bool(a == b)
                if isinstance(op, ast.NotEq):
                    return bool(a != b)
                if isinstance(op, ast.Is):
                    return a is b if (a is None or b is None) else None
                if isinstance(op, ast.IsNot):
                    return a is not b if (a is None or b is None) else None
                if isinstance(op, ast.In):
                    return a in b
                if isinstance(op, ast.NotIn):
                    return a not in b
                if isinstance(op, ast.Lt):
                    return a < b
                if isinstance(op, ast.LtE):
                    return a <= b
                if isinstance(op, ast.Gt):
                    return a > b
                if isinstance(op, ast.GtE):
                    return a >= b
            except TypeError:
                return None
            return None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2:
            v = self.const(t.args[0])
            if v is not UNKNOWN and not isinstance(v, Given) and isinstance(t.args[1], ast.Name):
                k = {'str': str, 'int': int, 'float': float, 'bool': bool, 'tuple': tuple}.get(t.args[1].id)
                if k is not None:
                    return isinstance(v, k)
            return None
        v = self.const(t)
        return None if v is UNKNOWN or isinstance(v, Given) else bool(v)

    def open_part(self, t):
        """what the outcome of a test depends on: the parts of and/or that are not decided"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.open_part(t.operand)
        if isinstance(t, ast.BoolOp):
            out = EMPTY
            for x in t.values:
                v = self.truth(x)
                lab = self.open_part(x)
                if v is None:
                    out |= lab
            return out
        return self.ev(t)

    # ---- statements -----------------------------------------------------------------------
    def s_If(self, s):
        lab = self.open_part(s.test)
        t = self.truth(s.test)
        if t is not None:
            self.block(s.body if t else s.orelse)
            return
        e0 = self.env
        self.pc.append(lab)
        n0 = len(self.returns)
        self.env = dict(e0)
        self.alive = True
        self.block(s.body)
        a1, e1 = self.alive, self.env if self.alive else None
        self.env = dict(e0)
        self.alive = True
        self.block(s.orelse)
        a2, e2 = self.alive, self.env if self.alive else None
        self.pc.pop()
        if not (a1 and a2):
            # what follows happens only if the branch was not taken (and the loop makes as many rounds)
            k = _leaves(s)
            for i in range(0 if k == 'return' else self.loops[-1] if k == 'loop' and self.loops else len(self.pc),
                           len(self.pc)):
                self.pc[i] |= lab
        e = self.join_env(e1, e2)
        self.alive = e is not None
        self.env = e if e is not None else e0

    def s_For(self, s):
        it = self.ev(s.iter)
        self.pc.append(it)
        self.loops.append(len(self.pc) - 1)

        def head():
            self.store(s.target, it, s)
            self.env['#%d' % id(s)] = self.pc[-1]
        self._loop(s, head)
        self._pop_loop(s)

    def s_While(self, s):
        self.pc.append(EMPTY)
        self.loops.append(len(self.pc) - 1)

        def head():
            self.pc[-1] |= self.open_part(s.test)
            self.env['#%d' % id(s)] = self.pc[-1]
        self._loop(s, head, s.test)
        self._pop_loop(s)

    def _pop_loop(self, s):
        lab = self.pc.pop()
        self.loops.pop()
        if any(isinstance(x, ast.Return) for x in walk_local(s)):
            self.pc[-1] |= lab

    def s_With(self, s):
        for item in s.items:
            v = self.ev(item.context_expr)
            if item.optional_vars is not None:
                self.store(item.optional_vars, v, s)
            elif not isinstance(item.context_expr, ast.Name):
                self.s.out |= v
        self.block(s.body)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else EMPTY
        self.returns.append((v | self.ctl, None, s))
        self.alive = False

    def s_Raise(self, s):
        self.alive = False

    def s_Assert(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value)
        c = s.value
        if isinstance(c, ast.Call):
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', '')
            if nm in SILENT:
                return
            t = self.inf.eff.sites.get(id(c), ())
            if t and all(k == 'fn' and self.proj.funcs[q].parent is None for k, q in t):
                return               # effects are in the summaries
            r = _root(c.func) if isinstance(c.func, ast.Attribute) else None
            if r is not None and r in self.env and r not in self.func.all_params():
                return               # a local object: handled as a change of it
        self.s.out |= v | self.ctl

    def s_Delete(self, s):
        for t in s.targets:
            r = _root(t)
            if r is not None and not isinstance(t, ast.Name):
                self.mutate(r, self.ev(t), t)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        if isinstance(s.target, ast.Name):
            v |= self.env.get(s.target.id, EMPTY) | self.ctl
            self.mutate(s.target.id, v, s.target, weak=True)
            self.env[s.target.id] = v
            self.env.pop(('c', s.target.id), None)
        else:
            self.store(s.target, v, s)

    def s_FunctionDef(self, s):
        self.env[s.name] = self.closure(s) | self.ctl

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        self.env[s.name] = self.closure(s) | self.ctl

    def closure(self, n):
        """everything a nested function reads; what it writes outside"""
        out = EMPTY
        own = set()
        a = getattr(n, 'args', None)
        if a is not None:
            own = {x.arg for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', [])}
            for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]:
                out |= self.ev(d)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in own:
                out |= self.env.get(x.id, EMPTY)
            elif isinstance(x, ast.Attribute):
                out |= frozenset([('a', x.attr)]) | self.own(x)
        nl = {y for x in ast.walk(n) if isinstance(x, ast.Nonlocal) for y in x.names}
        for x in ast.walk(n):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r = _root(x)
                if r in self.env and r not in own:
                    self.mutate(r, out, x)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in nl:
                self.env[x.id] = self.env.get(x.id, EMPTY) | out
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                r = _root(x.func)
                if r in self.env and r not in own:
                    self.mutate(r, out, x)
        return out

    # ---- stores ------------------------------------------------------------------------------
    def store(self, t, v, node):
        v = v or EMPTY
        if isinstance(t, ast.Name):
            self.env[t.id] = v | self.ctl
            self.env.pop(('c', t.id), None)
            if '@' + t.id in self.env and not (isinstance(node, ast.Assign) and t.id in _holders(node.value)):
                self.env['@' + t.id] = EMPTY
            if isinstance(node, ast.Assign) and any(x is t for x in node.targets):
                c = self.const(node.value)
                if c is not UNKNOWN:
                    self.env[('c', t.id)] = c
            if t.id in self.glob():
                self.s.out |= v | self.ctl
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = None
            val = getattr(node, 'value', None)
            if isinstance(node, ast.Assign) and isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(t.elts) \
                    and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(val.elts)) and any(x is t for x in node.targets):
                vals = [self.ev(x) for x in val.elts]
                cs = [self.const(x) for x in val.elts]
            for i, x in enumerate(t.elts):
                self.store(x, vals[i] if vals else v, None)
                if vals and isinstance(x, ast.Name) and cs[i] is not UNKNOWN:
                    self.env[('c', x.id)] = cs[i]
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, node)
        elif isinstance(t, ast.Subscript):
            r = _root(t)
            self.mutate(r, v | self.ev(t.slice) | self.ctl, t)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                self.s.attrs[t.attr] = self.s.attrs.get(t.attr, EMPTY) | v | self.ctl
                self.env[('s', t.attr)] = v | self.ctl
            else:
                self.mutate(_root(t), v | self.ctl, t)

    def glob(self):
        g = self.__dict__.get('_glob')
        if g is None:
            g = self._glob = {y for x in walk_local(self.func.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        return g

    def mutate(self, r, v, node, weak=False):
        if r is None:
            self.s.out |= v
            return
        for x in self.alias.get(r, (r,)):
            if x == r or not weak:
                self.env[x] = self.env.get(x, EMPTY) | v
        if weak:
            return
        for x in self.reach(r):
            if x in self.func.all_params() and self.env.get('@' + x):
                if x == self.selfname:
                    self.s.attrs['*'] = self.s.attrs.get('*', EMPTY) | v
                else:
                    self.s.muts[x] = self.s.muts.get(x, EMPTY) | v
        if r not in self.env or (r not in self.func.all_params() and self.proj.lookup(self.func.module, r) and r not in self.locals()):
            self.s.out |= v

    def reach(self, r):
        reach, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x not in reach:
                reach.add(x)
                todo.extend(self.srcs.get(x, ()))
        return reach

    def own_code(self, e, seen):
        """the value of e may be a method of the object or hold one"""
        if isinstance(e, ast.Name):
            if e.id == self.selfname:
                return True
            return e.id not in seen and any(self.own_code(x, seen + (e.id,)) for x in self.exprs.get(e.id, ()))
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.selfname:
                return not self.given(e.attr)
            return False
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'getattr':
                return bool(e.args) and self.own_code(e.args[0], seen)
            if isinstance(e.func, ast.Attribute):
                return self.own_code(e.func.value, seen)
            return any(isinstance(a, ast.Name) and a.id == self.selfname for a in e.args) or \
                isinstance(e.func, ast.Name) and e.func.id in ('partial', 'dict', 'zip', 'list', 'tuple') and any(
                    self.own_code(a, seen) for a in e.args + [k.value for k in e.keywords])
        if isinstance(e, ast.Lambda):
            return self.selfname in names_in(e)
        if isinstance(e, (ast.BinOp, ast.Compare, ast.Constant, ast.UnaryOp)):
            return False
        return any(self.own_code(ch.value if isinstance(ch, ast.keyword) else ch, seen)
                   for ch in ast.iter_child_nodes(e) if isinstance(ch, (ast.expr, ast.keyword)))

    def given(self, attr):
        """an attribute that only ever holds something handed to the object from outside"""
        n = 0
        for c in [self.func.cls] + [x for x in self.proj.classes.values() if x is not self.func.cls and self.func.cls in x.mro()]:
            for b in c.classes():
                for m in b.methods.values():
                    me = m.params[0] if m.params else None
                    for x in walk_local(m.node):
                        for t in (x.targets if isinstance(x, ast.Assign) else ()):
                            for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                                if isinstance(y, ast.Attribute) and y.attr == attr:
                                    if not isinstance(x.value, ast.Name) or x.value.id not in m.params or x.value.id == me:
                                        return False
                                    n += 1
        if not n:
            a = self.func.cls.find_attr(attr)
            return a is not None and isinstance(a[1], ast.Call) and not any(isinstance(x, ast.Name) for x in a[1].args)
        return True

    def locals(self):
        g = self.__dict__.get('_loc')
        if g is None:
            g = self._loc = {x.id for x in walk_local(self.func.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return g

    # ---- expressions --------------------------------------------------------------------------
    def ev(self, n):
        if n is None:
            return EMPTY
        if isinstance(n, ast.Constant):
            return EMPTY
        if isinstance(n, ast.Name):
            if n.id in ('locals', 'vars', 'globals'):
                r = EMPTY
                for k, v in self.env.items():
                    if isinstance(k, str):
                        r |= v
                return r
            return self.env.get(n.id, EMPTY)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.selfname:
                out = frozenset([self.selfname, ('a', n.attr), ('sa', n.attr)]) | self.env.get(('s', n.attr), EMPTY)
                c = self.func.cls
                p = c.find_prop(n.attr) if c is not None else None
                if p and p.get('get') is not None:
                    s = self.inf._get(p['get'], ())
                    if s is not None:
                        me = p['get'].params[0] if p['get'].params else None
                        return out | frozenset(self.selfname if x == me else x for x in s.ret)
                if p or c is not None and c.find(n.attr) is not None:
                    out |= frozenset([('a', '*')])       # code of the class that is not followed from here
                return out
            return self.ev(n.value) | (frozenset([('a', n.attr)]) if not self.module_name(n.value) else EMPTY) | self.own(n)
        if isinstance(n, ast.Lambda):
            return self.closure(n)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            e0 = self.env
            self.env = dict(e0)
            out = EMPTY
            for g in n.generators:
                it = self.ev(g.iter)
                self.store(g.target, it, None)
                out |= it
                for c in g.ifs:
                    out |= self.ev(c)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                out |= self.ev(x)
            self.env = e0
            return out
        if isinstance(n, ast.IfExp):
            t = self.truth(n.test)
            if t is not None:
                return self.ev(n.body if t else n.orelse)
            return self.open_part(n.test) | self.ev(n.body) | self.ev(n.orelse)
        if isinstance(n, ast.BoolOp):
            out = EMPTY
            for x in n.values:
                out |= self.ev(x)
                t = self.truth(x)
                if t is not None and t == isinstance(n.op, ast.Or):
                    break
            return out
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value)
            self.store(n.target, v, None)
            return v
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(n.value) | self.ctl
            self.s.ret |= v
            return v
        out = EMPTY
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, ast.expr):
                out |= self.ev(ch)
            elif isinstance(ch, ast.keyword):
                out |= self.ev(ch.value)
        return out

    def module_name(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return False
            x = self.proj.lookup(self.func.module, e.id)
            return bool(x) and x[0] in ('mod', 'module', 'ext')
        return False

    def call(self, n):
        self.inf.ncalls.add(id(n))
        self.inf.nodes[id(n)] = n
        fe = n.func
        args = [(a, self.ev(a)) for a in n.args]
        kws = [(k.arg, k.value, self.ev(k.value)) for k in n.keywords]
        allv = EMPTY
        for a, v in args:
            allv |= v
        for k, e, v in kws:
            allv |= v
        recv = self.ev(fe.value) if isinstance(fe, ast.Attribute) else EMPTY
        if isinstance(fe, ast.Name):
            recv = self.env.get(fe.id, EMPTY)
        elif not isinstance(fe, ast.Attribute):
            recv = self.ev(fe)
        if isinstance(fe, ast.Name) and fe.id in ('locals', 'vars', 'eval', 'exec', 'globals', 'dir'):
            return self.ev(ast.Name(id='locals', ctx=ast.Load())) | allv
        for k, e, v in kws:
            if k is not None:
                key = (self.func.qual, id(n), None, k)
                self.inf.passed[key] = self.inf.passed.get(key, EMPTY) | v
            if k == 'out':
                self.mutate(_root(e), allv | recv, e)
        targets = self.inf.eff.sites.get(id(n), ())
        proj_t = [(k, q) for k, q in targets if k in ('fn', 'cls')]
        if not proj_t or len(proj_t) != len(targets) or (isinstance(fe, ast.Name) and fe.id in self.nested):
            return self.opaque(n, fe, args, kws, allv, recv)
        out = EMPTY
        for kind, q in proj_t:
            if kind == 'cls':
                c = self.proj.classes[q]
                f = c.find('__init__')
                if f is None or c.external_bases() and f.cls is not c:
                    out |= allv
                    continue
                new = True
            else:
                f = self.proj.funcs[q]
                new = False
                if f.parent is not None or f.name == '__init__' and not isinstance(fe, ast.Attribute):
                    out |= self.opaque(n, fe, args, kws, allv, recv)
                    continue
            out |= self.apply(n, f, new, fe, args, kws, recv)
        if not isinstance(fe, ast.Attribute):
            out |= recv                      # which function is called
        elif len(proj_t) > 1:
            out |= recv
        return out

    def opaque(self, n, fe, args, kws, allv, recv):
        out = allv | recv
        if isinstance(fe, ast.Name) and fe.id == 'super':
            return frozenset([self.selfname]) if self.selfname else EMPTY
        if isinstance(fe, ast.Attribute):
            out |= frozenset([('a', fe.attr)]) | self.own(fe) if not self.module_name(fe.value) else EMPTY
            r = _root(fe)
            if r is not None and r in self.env and allv:
                s = isinstance(getattr(n, '_stmt', None), ast.Expr)
                if fe.attr in MUTATORS or getattr(n, '_isstmt', False):
                    self.mutate(r, allv | self.ctl, fe)
        elif isinstance(fe, ast.Name) and fe.id == 'setattr' and args:
            self.mutate(_root(args[0][0]), allv | self.ctl, n)
        if isinstance(fe, ast.Name) and fe.id == 'getattr' and len(args) > 1 and self.like_self(args[0][0]):
            for a in self.named(args[1][0]) or ():
                out |= frozenset([('a', a), ('sa', a)])
        if self.selfname and self.escapes(fe, args, kws, recv):
            out |= frozenset([('a', '*')])       # everything in the object may matter
        nm = fe.attr if isinstance(fe, ast.Attribute) else ''
        if nm in ('put', 'place', 'copyto', 'putmask', 'fill_diagonal', 'shuffle', 'at') and args:
            self.mutate(_root(args[0][0]), allv | self.ctl, n)
        return out

    def named(self, e):
        """the texts e runs through: a loop variable over a list of constants"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        if not isinstance(e, ast.Name):
            return None
        body = self.func.node if not isinstance(self.func.node, ast.Lambda) else [self.func.node.body]
        src = []
        for x in walk_local(body):
            if isinstance(x, (ast.comprehension, ast.For)) and isinstance(x.target, ast.Name) and x.target.id == e.id:
                src.append(x.iter)
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets):
                if not (isinstance(x.value, ast.Subscript) and not isinstance(x.value.slice, ast.Slice)):
                    return None
                src.append(x.value.value)
        if len(src) != 1:
            return None
        it = src[0]
        if isinstance(it, ast.Name):
            defs = [x.value for x in walk_local(body) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in x.targets)]
            if len(defs) != 1:
                return None
            it = defs[0]
        if isinstance(it, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in it.elts):
            return [x.value for x in it.elts]
        return None

    def escapes(self, fe, args, kws, recv):
        """the object itself is handed to code that is not followed"""
        me = self.selfname
        if isinstance(fe, ast.Name) and fe.id == 'getattr' and len(args) > 1 and self.named(args[1][0]) is not None:
            return False
        if isinstance(fe, ast.Name) and fe.id == 'getattr' and len(args) > 1 and isinstance(args[0][0], ast.Name) and args[0][0].id == me:
            return not isinstance(args[1][0], ast.Constant)
        if isinstance(fe, ast.Name) and fe.id in ('isinstance', 'hasattr', 'len', 'type', 'super', 'id', 'getattr', 'setattr', 'issubclass'):
            return False
        if isinstance(fe, ast.Attribute) and isinstance(fe.value, ast.Name) and fe.value.id == me:
            return not self.given(fe.attr)
        if not isinstance(fe, ast.Attribute) and me in recv and self.own_code(fe, ()):
            return True
        return any(isinstance(a, ast.Name) and a.id == me for a in [x[0] for x in args] + [x[1] for x in kws])

    def apply(self, n, f, new, fe, args, kws, recv):
        """labels of the result of calling f; its effects are added to those of this function"""
        m, cs = {}, {}
        pos = list(f.params[:f.npos])
        bound = new or (f.is_method and not (isinstance(fe, ast.Attribute) and self.class_ref(fe.value)))
        roots = {}
        if f.is_method and bound and pos:
            m[pos[0]] = EMPTY if new else recv
            if not new:
                roots[pos[0]] = _root(fe) if isinstance(fe, ast.Attribute) else None
                if isinstance(fe, ast.Attribute) and isinstance(fe.value, ast.Call) and isinstance(fe.value.func, ast.Name) and \
                        fe.value.func.id == 'super':
                    roots[pos[0]] = self.selfname
            pos = pos[1:]
        extra = EMPTY
        rest = list(pos)
        for a, v in args:
            if isinstance(a, ast.Starred):
                for p in rest:
                    m[p] = m.get(p, EMPTY) | v
                if f.vararg:
                    m[f.vararg] = m.get(f.vararg, EMPTY) | v
                extra |= v
            elif rest:
                p = rest.pop(0)
                m[p] = m.get(p, EMPTY) | v
                roots[p] = _root(a)
                c = self.const(a)
                if c is not UNKNOWN:
                    cs[p] = c
            elif f.vararg:
                m[f.vararg] = m.get(f.vararg, EMPTY) | v
        for k, e, v in kws:
            if k is None:
                for p in f.params:
                    if p not in m or p in rest:
                        m[p] = m.get(p, EMPTY) | v
                        cs.pop(p, None)
                if f.kwarg:
                    m[f.kwarg] = m.get(f.kwarg, EMPTY) | v
            elif k in f.params:
                m[k] = m.get(k, EMPTY) | v
                roots[k] = _root(e)
                c = self.const(e)
                if c is not UNKNOWN:
                    cs[k] = c
            elif f.kwarg:
                m[f.kwarg] = m.get(f.kwarg, EMPTY) | v
        for p in f.params:
            if p in m:
                k = (self.func.qual, id(n), f.qual, p)
                self.inf.passed[k] = self.inf.passed.get(k, EMPTY) | m[p]
                self.inf.nodes[id(n)] = n
        star = any(isinstance(a, ast.Starred) for a, v in args) or any(k is None for k, e, v in kws)
        if not star:
            for p, d in f.defaults.items():
                if p not in m and isinstance(d, ast.Constant):
                    cs[p] = d.value
        flags = set(self.inf.eff.flag_params(f))
        consts = tuple(sorted(((p, v) for p, v in cs.items() if p in flags and isinstance(v, (str, bool, int, float, type(None), Given))),
                              key=lambda x: x[0]))
        s = self.inf._get(f, consts)
        if s is None:
            r = recv | frozenset([('a', '*')])
            for v in m.values():
                r |= v
            return r

        mine = f.params[0] if f.is_method and f.params else None
        same = self.selfname and (isinstance(fe, ast.Attribute) and (self.like_self(fe.value) or self.class_ref(fe.value)) and not new)
        given = self.selfname and any(self.like_self(a) for a in [x[0] for x in args] + [x[1] for x in kws])

        def tr(labels):
            r = EMPTY
            for x in labels:
                if isinstance(x, tuple) and x[0] == 'sa':
                    if same:
                        r |= frozenset([x])
                elif isinstance(x, tuple):
                    if given and x[1] != '*':
                        r |= frozenset([('sa', x[1])])
                    if x[1] != '*' or self.selfname and self.selfname in m.get(mine, EMPTY):
                        r |= frozenset([x])
                else:
                    r |= m.get(x, EMPTY)
            return r
        ret = tr(s.ret)
        self.s.out |= tr(s.out)
        if s.out:
            self.s.out |= self.ctl
        for a, v in s.attrs.items():
            if new:
                ret |= tr(v)
            else:
                r0 = roots.get(f.params[0]) if f.params else None
                lv = tr(v) | self.ctl
                if r0 is not None and r0 == self.selfname and isinstance(fe, ast.Attribute) and isinstance(fe.value, (ast.Name, ast.Call)):
                    self.s.attrs[a] = self.s.attrs.get(a, EMPTY) | lv
                    if a != '*':
                        self.env[('s', a)] = self.env.get(('s', a), EMPTY) | lv
                    else:
                        self.env[self.selfname] = self.env.get(self.selfname, EMPTY) | lv
                elif isinstance(fe, ast.Attribute) and self.class_ref(fe.value) and args and _root(args[0][0]) == self.selfname:
                    self.s.attrs[a] = self.s.attrs.get(a, EMPTY) | lv
                else:
                    self.mutate(r0, lv, n)
        for p, v in s.muts.items():
            if p in roots:
                if roots[p] is not None:
                    self.mutate(roots[p], tr(v) | self.ctl, n)
            elif p in m:
                self.s.out |= tr(v)
        return ret

    def class_ref(self, e):
        x = self.proj.resolve_expr(self.func.module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        return bool(x) and x[0] == 'class'


def _root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    if isinstance(e, ast.Call):
        return _root(e.func) if isinstance(e.func, ast.Attribute) else None
    return e.id if isinstance(e, ast.Name) else None


def _holders(e):
    """names the value of e may share contents with"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        return _holders(e.value)
    if isinstance(e, (ast.BinOp, ast.Compare, ast.UnaryOp, ast.Constant, ast.JoinedStr)):
        return set()
    out = set()
    for ch in ast.iter_child_nodes(e):
        if isinstance(ch, (ast.expr, ast.keyword)):
            out |= _holders(ch.value if isinstance(ch, ast.keyword) else ch)
    return out


def _leaves(s):
    out = None
    for x in walk_local(s):
        if isinstance(x, ast.Return):
            return 'return'
        if isinstance(x, (ast.Break, ast.Continue)):
            out = 'loop'
    return out
