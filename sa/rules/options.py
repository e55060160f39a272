"""C07: an option value the function does not know is refused, not silently taken for another one."""
import ast
from ..framework import Result
from ..paths import Walker, State, TOP, const
from ..project import walk_local

UNK = ('unk',)         # the unknown option value: equal to no constant
KEY = ('key',)         # some constant of a table
OPTM = {'find', 'rfind', 'count', 'partition', 'split', 'isdigit', 'isalpha', 'islower', 'isupper', 'isnumeric'}
CLAMP = {'min', 'max', 'clip', 'minimum', 'maximum', 'int', 'bool', 'abs', 'round', 'mod', 'divmod'}
STRM = {'lower', 'upper', 'strip', 'title', 'capitalize', 'replace', 'lstrip', 'rstrip', 'casefold', 'swapcase', 'format', 'decode', 'encode'}
FFT = {a + b + c for a in ('', 'i') for b in ('dct', 'dst') for c in ('', 'n')}
NUMF = {'int', 'float', 'complex', 'abs', 'range', 'round', 'len0'}


def accepts(st):
    return '#t' in st.env and '#triv' not in st.env


class Opt(Walker):
    """walk with some names holding a string that equals no constant"""

    number = property(lambda self: self.an.number)

    def __init__(self, an, f, env, selfenv, depth):
        Walker.__init__(self, f, env)
        self.an, self.depth = an, depth
        self.start.env.update(selfenv)
        self.used = self.escaped = False

    def mark(self, st):
        self.marks += 1
        self.used = True
        st.env['#t'] = const(True)

    # value ---------------------------------------------------------------------------------
    def val(self, e, st):
        if isinstance(e, ast.Attribute):
            t = ast.unparse(e)
            if t in st.env:
                return st.env[t]
            return TOP
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute):
                if fn.attr in OPTM and (self.val(fn.value, st) == UNK or e.args and self.val(e.args[0], st) == UNK and isinstance(fn.value, ast.Constant)):
                    self.mark(st)
                    return TOP
                if fn.attr in STRM and not self.number and self.val(fn.value, st) == UNK:
                    return UNK
                if fn.attr in ('get', 'pop', 'setdefault') and e.args and self.val(e.args[0], st)[0] == 'c':
                    d = self.val(fn.value, st)
                    if d[0] == 'dict':
                        for k, v in d[1]:
                            if k == self.val(e.args[0], st)[1]:
                                return v
                if fn.attr in ('get', 'pop', 'setdefault') and e.args and self.val(e.args[0], st) == UNK and self.table(fn.value, st):
                    self.mark(st)
                    return self.val(e.args[1], st) if len(e.args) > 1 else const(None)
                if fn.attr in ('startswith', 'endswith') and self.val(fn.value, st) == UNK:
                    self.mark(st)
                    return const(False)
            elif isinstance(fn, ast.Name):
                if fn.id == 'dict' and not e.args and e.keywords and all(k.arg for k in e.keywords):
                    return ('dict', tuple((k.arg, self.val(k.value, st)) for k in e.keywords))
                if fn.id in ('str', 'repr') and len(e.args) == 1:
                    return self.val(e.args[0], st)
                if fn.id == 'getattr' and len(e.args) == 3 and self.val(e.args[1], st) == UNK:
                    self.mark(st)
                    return self.val(e.args[2], st)
            if self.number and getattr(fn, 'id', getattr(fn, 'attr', '')) in CLAMP and any(self.val(a, st) == UNK for a in e.args):
                self.mark(st)
                return TOP
            r = self.an.call_value(self, e, st)
            if r is not None:
                return r
            return TOP
        if isinstance(e, ast.Dict) and e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            return ('dict', tuple((k.value, self.val(v, st)) for k, v in zip(e.keys, e.values)))
        if isinstance(e, ast.Name) and e.id not in st.env:
            return self.an.global_literal(self.func, e)
        if isinstance(e, ast.Subscript):
            d = self.val(e.value, st)
            if d == UNK:
                return UNK
            if d[0] == 'dict':
                k = self.val(e.slice, st)
                for a, v in d[1]:
                    if k == const(a):
                        return v
            return TOP
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and not self.number:
            a, b = self.val(e.left, st), self.val(e.right, st)
            if UNK in (a, b):
                return UNK
            return TOP
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return UNK if self.val(e.right, st) == UNK else TOP
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and self.number:
            a, b = self.val(e.left, st), self.val(e.right, st)
            if a == UNK and b[0] == 'c' or b == UNK and a[0] == 'c' and isinstance(e.op, ast.Add):
                return UNK
            return TOP
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, st)
            if t is not None:
                return self.val(e.body if t else e.orelse, st)
            a, b = self.val(e.body, st), self.val(e.orelse, st)
            return a if a == b else TOP
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and self.val(e.values[0], st) == UNK:
            return TOP if self.number else UNK
        if isinstance(e, (ast.BoolOp, ast.Compare)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e, st)
            return TOP if t is None else const(t)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
            return self.val(e.operand, st)
        return Walker.val(self, e, st)

    def table(self, e, st):
        """a dict of constant keys"""
        if isinstance(e, ast.Dict):
            return True
        if isinstance(e, ast.Call) and getattr(e.func, 'id', '') == 'dict':
            return True
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.an.is_table(self.func, e)
        return False

    def iskeys(self, e, st):
        if isinstance(e, (ast.Tuple, ast.List, ast.Set, ast.Dict)):
            return not any(self.val(x, st) == UNK for x in getattr(e, 'elts', []))
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return True
        if isinstance(e, ast.Call):
            n = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
            if n in ('set', 'tuple', 'list', 'dict', 'frozenset', 'sorted') and e.args:
                return self.iskeys(e.args[0], st)
            if n == 'dict':
                return True
            if n == 'keys' and isinstance(e.func, ast.Attribute):
                return self.table(e.func.value, st)
            if n == 'split':
                return isinstance(e.func.value, ast.Constant)
            if n in ('range', 'arange'):
                return all(self.val(a, st)[0] == 'c' for a in e.args)
            return False
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.an.is_table(self.func, e, seq=True)
        return False

    def decide(self, e, st):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            l, r = e.left, e.comparators[0]
            a, b = self.val(l, st), self.val(r, st)
            if UNK in (a, b) and KEY in (a, b) and isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                self.mark(st)
                return isinstance(op, (ast.NotEq, ast.NotIn))
            if a[0] == b[0] == 'c' and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                try:
                    return {ast.Lt: a[1] < b[1], ast.LtE: a[1] <= b[1], ast.Gt: a[1] > b[1], ast.GtE: a[1] >= b[1]}[type(op)]
                except TypeError:
                    return None
            if UNK in (a, b):
                other, ov = (r, b) if a == UNK else (l, a)
                if ov[0] == 'c' and isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) and any(
                        isinstance(z, (int, str)) and not isinstance(z, bool) for z in (ov[1] if isinstance(ov[1], tuple) else (ov[1],))):
                    self.mark(st)
                if isinstance(op, (ast.Eq, ast.Is)) and ov[0] == 'c':
                    return False
                if isinstance(op, (ast.NotEq, ast.IsNot)) and ov[0] == 'c':
                    return True
                if a == UNK and isinstance(op, (ast.In, ast.NotIn)) and (b[0] == 'c' or b[0] == 'dict' or self.iskeys(r, st)):
                    self.mark(st)
                    return isinstance(op, ast.NotIn)
                if b == UNK and isinstance(op, (ast.In, ast.NotIn)) and a[0] == 'c':
                    return isinstance(op, ast.NotIn)
                if self.an.side and ov[0] == 'c' and isinstance(ov[1], (int, float)) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    self.mark(st)
                    less = isinstance(op, (ast.Lt, ast.LtE))
                    return less == (self.an.side == 'lo') if a == UNK else less == (self.an.side == 'hi')
                self.escaped = True              # a test that is not decided
                return None
        v = self.val(e, st) if not isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp)) else TOP
        if v == UNK:
            return (True if self.an.side else None) if self.number else True
        if v[0] == 'c':
            return bool(v[1])
        if isinstance(e, ast.Call):
            n = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
            if e.args and self.val(e.args[0], st) == UNK:
                if n == 'isinstance' and len(e.args) == 2:
                    t = ast.unparse(e.args[1])
                    if 'str' in t:
                        return not self.number
                    return None if self.number else False
                if n in ('isscalar',):
                    return None
                if n in ('callable', 'isnumeric', 'isfunction'):
                    return False
                if n == 'hasattr' and len(e.args) == 2:
                    return None
            if n == 'hasattr' and len(e.args) == 2 and self.val(e.args[1], st) == UNK:
                self.mark(st)
                return False
            if n in ('isdigit', 'isnumeric', 'isalpha') and isinstance(e.func, ast.Attribute) and self.val(e.func.value, st) == UNK:
                return False
            if n == 'any' and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = e.args[0]
                d = self.inside(g, st)
                if self.truth(g.elt, d) is False or any(self.truth(c, d) is False for x in g.generators for c in x.ifs):
                    return False
            if n == 'all' and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                if self.truth(e.args[0].elt, self.inside(e.args[0], st)) is True:
                    return True
        return Walker.decide(self, e, st)

    def inside(self, g, st):
        """the state inside a comprehension"""
        d = st.copy()
        for x in g.generators:
            keys = self.keyed(x.iter, st)
            for n in ast.walk(x.target):
                if isinstance(n, ast.Name):
                    d.env[n.id] = KEY if keys else TOP
        return d

    def keyed(self, it, st):
        """iterates over the constants of a table"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys') and not it.args:
            return self.table(it.func.value, st)
        if isinstance(it, ast.Call) and getattr(it.func, 'id', '') in ('enumerate', 'sorted', 'list', 'tuple', 'zip', 'reversed') and it.args:
            return self.keyed(it.args[0], st)
        if isinstance(it, (ast.Tuple, ast.List)) and it.elts:
            return all(isinstance(x, ast.Constant) or isinstance(x, ast.Tuple) and x.elts and isinstance(x.elts[0], ast.Constant) for x in it.elts)
        return self.val(it, st)[0] == 'c' or self.iskeys(it, st)

    def loop_target(self, s, st):
        if self.keyed(s.iter, st):
            t = s.target
            it = s.iter
            if isinstance(it, ast.Call) and getattr(it.func, 'id', '') == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                t = t.elts[1]
            if isinstance(t, (ast.Tuple, ast.List)) and t.elts:
                t = t.elts[0]
            if isinstance(t, ast.Name):
                st.env[t.id] = KEY

    def assign(self, t, value, st):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            v = self.value(value, st) if value is not None else TOP
            Walker.assign(self, t, value, st)
            st.env[ast.unparse(t)] = v
            if v == UNK and self.an.refused(self, t):
                self.mark(st)
                st.env['#dead'] = const(True)
            return
        Walker.assign(self, t, value, st)

    def s_Assign(self, s, states):
        return [st for st in Walker.s_Assign(self, s, states) if '#dead' not in st.env]

    def forget(self, name, st):
        Walker.forget(self, name, st)

    # things that raise ---------------------------------------------------------------------
    def subscript(self, e, st):
        if self.val(e.slice, st) == UNK and self.val(e.value, st) != UNK:
            if self.table(e.value, st):
                self.mark(st)
                return 'raises'
            if isinstance(e.value, (ast.List, ast.Tuple)):
                self.mark(st)
                return None if self.an.side == 'lo' else 'raises'        # a negative index counts from the end
            self.escaped = True
        return None

    def call(self, n, st):
        fn = n.func
        nm = getattr(fn, 'id', getattr(fn, 'attr', ''))
        if isinstance(fn, ast.Name) and nm in ('int', 'float') and not self.number and n.args and self.val(n.args[0], st) == UNK:
            return 'raises'
        if nm == 'getattr' and len(n.args) == 2 and self.val(n.args[1], st) == UNK:
            self.mark(st)
            return 'raises'
        if nm == 'index' and n.args and self.val(n.args[0], st) == UNK and self.iskeys(fn.value, st):
            self.mark(st)
            return 'raises'
        if nm in ('get', 'pop', 'setdefault', 'startswith', 'endswith', 'getattr'):
            self.val(n, st)
        self.updated(n, st)
        if nm in ('interp1d', 'interp2d') and any(k.arg == 'kind' and self.val(k.value, st) == UNK for k in n.keywords):
            self.mark(st)
            return 'raises'                      # scipy refuses unknown kinds
        for kind, name in self.an.eff.sites.get(id(n), ()):
            if kind == 'ext' and name.startswith(('scipy.fftpack.', 'scipy.fft.')) and name.split('.')[-1] in FFT:
                vals = {k.arg: self.val(k.value, st) for k in n.keywords}
                vals.update(zip(('x', 'type', 'n', 'axis', 'norm'), [self.val(a, st) for a in n.args]))
                if UNK in (vals.get('type'), vals.get('norm')):
                    self.mark(st)
                    return 'raises'              # so does scipy here
        if ast.unparse(fn) in ('sys.exit', 'os._exit', 'exit', 'quit'):
            return 'raises'
        # calling None
        if self.val(fn, st) == const(None) and isinstance(fn, ast.Name):
            return 'raises'
        r = self.an.outcome(self, n, st)
        if r is None and any(self.holds(a, st) for a in list(n.args) + [k.value for k in n.keywords]):
            self.escaped = True                  # handed to something not followed
        return 'raises' if r and all(x == ('never',) for x in r) else None

    def updated(self, n, st):
        """self.__dict__.update(kwds)"""
        fn = n.func
        if getattr(fn, 'attr', '') == 'update' and isinstance(fn.value, ast.Attribute) and fn.value.attr == '__dict__':
            for a in list(n.args) + [k.value for k in n.keywords if k.arg is None]:
                for x in ast.walk(a):
                    if isinstance(x, ast.Name) and st.env.get(x.id, TOP)[0] == 'dict':
                        for k, v in st.env[x.id][1]:
                            st.env['%s.%s' % (ast.unparse(fn.value.value), k)] = v
            for k in n.keywords:
                if k.arg:
                    st.env['%s.%s' % (ast.unparse(fn.value.value), k.arg)] = self.val(k.value, st)

    def holds(self, e, st):
        v = self.val(e.value if isinstance(e, ast.Starred) else e, st)
        return v == UNK or v[0] == 'obj' or v[0] == 'dict' and any(x == UNK for _, x in v[1])

    def expr_hook(self, e, st):
        pass

    def expr(self, e, st, bound=frozenset()):
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            d = self.inside(e, st)
            ok = Walker.expr(self, e, d, bound)
            if '#t' in d.env:
                st.env['#t'] = const(True)
        else:
            ok = Walker.expr(self, e, st, bound)
        if not ok:
            return False
        if isinstance(e, ast.Compare) and not any(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            self.decide(e, st)                  # marks the state if the option is tested
        elif isinstance(e, ast.Call):
            self.val(e, st)
        if self.number:
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.Div, ast.Pow, ast.FloorDiv)):
            if UNK in (self.val(e.left, st), self.val(e.right, st)):
                return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.Invert)) and self.val(e.operand, st) == UNK:
            return False
        if isinstance(e, ast.Compare):
            sides = [e.left] + e.comparators
            for i, op in enumerate(e.ops):
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    a, b = self.val(sides[i], st), self.val(sides[i + 1], st)
                    if UNK in (a, b) and any(v[0] == 'c' and isinstance(v[1], (int, float)) for v in (a, b)):
                                return False
        return True


class Analysis(object):
    def __init__(self, proj, eff, mode='s'):
        # 's' a name equal to none; 'n' a number equal to none; 'lo', 'hi' a number below or above all the known ones
        self.proj, self.eff, self.number = proj, eff, mode != 's'
        self.side = mode if mode in ('lo', 'hi') else ''
        self.memo, self.leaks = {}, set()
        self.active = set()

    def is_table(self, f, e, seq=False):
        vals = None
        if isinstance(e, ast.Name):
            loc = _local_defs(f, e.id)
            if loc is not None:
                vals = loc
            else:
                x = self.proj.lookup(f.module, e.id)
                if x and x[0] == 'gvar':
                    vals = x[1].gvars.get(x[2], [])
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            c = f.cls
            if c is not None and (f.params and e.value.id == f.params[0] or e.value.id == c.name):
                for b in c.classes():
                    if e.attr in b.attrs:
                        vals = b.attrs[e.attr]
                        if not isinstance(vals, list):
                            vals = [vals]
                        break
                if vals is None:                # set by the methods
                    vals = []
                    for b in c.classes():
                        for g in b.methods.values():
                            for n in walk_local(g.body) if g.params else ():
                                if isinstance(n, ast.Assign) and any(
                                        isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == g.params[0] for t in n.targets):
                                    vals.append(n.value)
            else:
                x = self.proj.resolve_expr(f.module, e)
                if x and x[0] == 'gvar':
                    vals = x[1].gvars.get(x[2], [])
        if not vals:
            return False
        for v in vals:
            if isinstance(v, ast.Dict) or isinstance(v, ast.Call) and getattr(v.func, 'id', getattr(v.func, 'attr', '')) in ('dict', 'OrderedDict'):
                continue
            if seq and isinstance(v, (ast.Tuple, ast.List, ast.Set)):
                continue
            if seq and isinstance(v, ast.Call) and getattr(v.func, 'id', '') in ('set', 'frozenset', 'tuple', 'list'):
                continue
            return False
        return True

    def global_literal(self, f, e):
        x = self.proj.lookup(f.module, e.id)
        if x and x[0] == 'gvar':
            vs = x[1].gvars.get(x[2], [])
            if len(vs) == 1:
                v = vs[0]
                if isinstance(v, ast.Call) and getattr(v.func, 'id', '') in ('frozenset', 'set', 'tuple', 'list') and len(v.args) == 1:
                    v = v.args[0]
                if isinstance(v, (ast.Tuple, ast.List, ast.Set)) and v.elts and all(isinstance(y, ast.Constant) for y in v.elts):
                    return const(tuple(y.value for y in v.elts))
                if isinstance(v, ast.Constant) and isinstance(v.value, (str, int)):
                    return const(v.value)
        return TOP

    def targets(self, w, n):
        out = []
        if getattr(n.func, 'id', getattr(n.func, 'attr', '')) == 'partial' and n.args:
            x = self.proj.resolve_expr(w.func.module, n.args[0])
            return [(x[1], 'partial')] if x and x[0] == 'func' else None
        for kind, name in self.eff.sites.get(id(n), ()):
            if kind == 'fn' and name in self.proj.funcs:
                out.append((self.proj.funcs[name], None))
            elif kind == 'cls':
                c = self.proj.classes.get(name)
                g = c.find('__init__') if c else None
                if g is None:
                    return None
                out.append((g, 'init'))
            else:
                return None
        return out

    def bindargs(self, w, n, st, g, how):
        """abstract values of g's parameters for this call, or None"""
        if any(isinstance(a, ast.Starred) for a in n.args):
            return None
        extra = {}
        for k in n.keywords:
            if k.arg is None:
                v = w.val(k.value, st)
                if v[0] == 'dict':
                    extra.update(v[1])
        pos = list(g.params[:g.npos])
        env = {k: v for k, v in extra.items() if k in g.params}
        if g.parent is not None:                # variables of the enclosing function
            env.update((k, v) for k, v in st.env.items() if v == UNK and k not in g.all_params() and '.' not in k and not _assigned(g, k))
        if how == 'init':
            pos = pos[1:]
        elif g.cls is not None and g.parent is None and g.kind in ('method', 'class', 'getter', 'setter'):
            pos = pos[1:]
        for i, a in enumerate(n.args[1:] if how == 'partial' else n.args):
            if i < len(pos):
                env[pos[i]] = w.val(a, st)
        for k in n.keywords:
            if k.arg is not None and k.arg in g.params:
                env[k.arg] = w.val(k.value, st)
        for p, d in g.defaults.items():
            if p not in env and isinstance(d, ast.Constant) and not any(k.arg is None for k in n.keywords):
                env[p] = const(d.value)
        return env

    def selfstate(self, w, n, st, g):
        out = {}
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and w.func.params and n.func.value.id == w.func.params[0] \
                and g.cls is not None and g.params:
            pre = n.func.value.id + '.'
            for k, v in st.env.items():
                if k.startswith(pre) and v == UNK:
                    out[g.params[0] + '.' + k[len(pre):]] = v
        elif isinstance(n.func, ast.Attribute) and g.cls is not None and g.params:
            v = w.val(n.func.value, st)
            if v[0] == 'obj':
                for a in v[1]:
                    out[g.params[0] + '.' + a] = UNK
        return out

    def outcome(self, w, n, st):
        """(returns?, value) of a call when an unknown option reaches it; None if not applicable"""
        ts = self.targets(w, n)
        if not ts or w.depth > 6:
            return None
        res = []
        relevant = False
        for g, how in ts:
            env = self.bindargs(w, n, st, g, how)
            if env is None:
                return None
            selfenv = self.selfstate(w, n, st, g)
            if UNK in env.values() or selfenv:
                relevant = True
            s = self.summary(g, env, selfenv, w.depth + 1, w)
            if s[-1]:
                w.used = True
                if s[0] == 'never':
                    w.mark(st)
                if s[0] == 'returns':
                    if s[-1] == 'tested':
                        w.mark(st)
                    else:                       # it returned before the option mattered: nothing left to select
                        st.env['#triv'] = const(True)
            res.append(s[:-1])
        if not relevant and not all(r == ('never',) for r in res):
            return None
        return res

    def summary(self, g, env, selfenv, depth, by=None):
        if g.is_gen:
            return ('returns', TOP, False)
        key = (g.qual, frozenset((k, v) for k, v in env.items() if _hash(v)), frozenset(selfenv.items()))
        if key in self.memo:
            if by is not None and key in self.leaks:
                by.escaped = True
            return self.memo[key]
        if key in self.active:
            return ('never', False)
        self.active.add(key)
        w = Opt(self, g, env, selfenv, depth)
        w.run()
        self.active.discard(key)
        if w.escaped or w.overflow:
            self.leaks.add(key)
            if by is not None:
                by.escaped = True
        vals = set()
        for s, st in w.returns:
            if g.name == '__init__' and g.params:
                pre = g.params[0] + '.'
                at = tuple(sorted(k[len(pre):] for k, x in st.env.items() if k.startswith(pre) and x == UNK))
                vals.add(('obj', at) if at else TOP)
                continue
            v = w.val(s.value, st) if s is not None and s.value is not None else const(None)
            vals.add(v if _hash(v) else TOP)
        if not w.returns:
            r = ('never', w.used)
        else:
            t = 'tested' if any(accepts(st) for _, st in w.returns) else w.used
            r = ('returns', vals.pop() if len(vals) == 1 else TOP, t)
        if not self.active:
            self.memo[key] = r
        else:
            self.memo[key] = r
        return r

    def refused(self, w, t):
        """every property that may be meant by this attribute refuses the option"""
        gs = [g for g in self.proj.funcs.values() if g.kind == 'setter' and g.name == t.attr and g.qual.endswith('@setter') and len(g.params) == 2]
        if w.func.cls is not None and w.func.params and t.value.id == w.func.params[0]:
            own = [g for c in w.func.cls.classes() for g in gs if g.cls is c]
            if not own:
                return False
            gs = own[:1]
        rs = [self.summary(g, {g.params[1]: UNK}, {}, w.depth + 1) for g in gs] if w.depth < 6 else []
        return bool(rs) and all(r[-1] and r[-1] != 'tested' for r in rs)

    def call_value(self, w, n, st):
        r = self.outcome(w, n, st)
        if r:
            vs = {x[1] for x in r if x[0] == 'returns'}
            if len(vs) == 1:
                return vs.pop()
        return None


def _hash(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def _assigned(g, name):
    return any(isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) for s in g.body for n in ast.walk(s))


def _local_defs(f, name):
    vals = []
    found = False
    if name in f.all_params():
        return []
    for n in walk_local(f.body):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
                        found = True
                        vals.append(n.value if t is x else None)
        elif isinstance(n, (ast.For, ast.With, ast.AugAssign)):
            for x in ast.walk(n.target if isinstance(n, (ast.For, ast.AugAssign)) else n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
                    found = True
                    vals.append(None)
    return [v if v is not None else ast.Constant(value=0) for v in vals] if found else None


# (function, option, kind of value): the closed options.  's' a name, 'n' a number (or name) equal to none of the known ones
CLOSED = [
    ('wafo.misc:findcross', 'kind', 'sn'), ('wafo.misc:findtc', 'kind', 'sn'), ('wafo.misc:rfcfilter', 'method', 'sn'),
    ('wafo.misc:findrfc', 'method', 'n'), ('wafo._misc_numba:findrfc', 'method', 'sn'),
    ('wafo.objects:CyclePairs.level_crossings', 'kind', 'sn'), ('wafo.objects:LevelCrossings.extrapolate', 'dist', 's'),
    ('wafo.objects:TimeSeries.tospecdata', 'method', 's'), ('wafo.objects:TimeSeries.wave_height_steepness', 'kind', 'sn'),
    ('wafo.objects:TimeSeries.wave_periods', 'pdef', 's'), ('wafo.objects:TimeSeries.trough_crest', 'wavetype', 's'),
    ('wafo.objects:TurningPoints.cycle_pairs', 'method', 'n'), ('wafo.objects:TurningPoints.rainflow_filter', 'method', 'n'),
    ('wafo.spectrum.core:SpecData1D.stats_nl', 'method', 's'), ('wafo.spectrum.core:SpecData1D.to_t_pdf', 'kind', 's'),
    ('wafo.spectrum.models:Jonswap.__init__', 'method', 's'), ('wafo.spectrum.models:Tmaspec.__init__', 'method', 's'),
    ('wafo.spectrum.models:Torsethaugen.__init__', 'method', 's'), ('wafo.spectrum.models:Spreading.method@setter', 'method', 's'),
    ('wafo.interpolate:slopes', 'method', 's'), ('wafo.interpolate:CubicHermiteSpline.__init__', 'method', 's'),
    ('wafo.interpolate:Pchip.__init__', 'method', 's'), ('wafo.interpolate:StinemanInterp.__init__', 'method', 's'),
    ('wafo.interpolate:sgolay2d', 'derivative', 's'), ('wafo.kdetools.kernels:Kernel.__init__', 'name', 's'),
    ('wafo.kdetools.kernels:Kernel.__init__', 'fun', 's'), ('wafo.kdetools.kernels:mkernel', 'kernel', 's'),
    ('wafo.kdetools.kernels:qlevels2', 'method', 'n'), ('wafo.kdetools.kdetools:BKRegression.prb_search_best', 'hsfun', 's'),
    ('wafo.kdetools.kdetools:KRegression._eval_gridfun', 'self.p', 'n'),
    ('wafo.transform.estimation:TransformEstimator.trdata', 'self.method', 's'),
    ('wafo.integrate:qrule', 'wfun', 'n'), ('wafo.integrate:_Gaussq.__call__', 'wfun', 'n'),
    ('wafo.markov:cmat2nt', 'kind', 'n'), ('wafo.markov:nt2cmat', 'kind', 'n'), ('wafo.polynomial:chebpoly', 'kind', 'n'),
    ('wafo.polynomial:chebroot', 'kind', 'n'), ('wafo.containers:transform_id2plotflag2', 'transform_id', 's'),
    ('wafo.stats.estimation:_CommonProfile._search_p_min_max', 'direction', 'sn'),
    ('wafo.covariance.core:CovData1D.simcond', 'method', 's'), ('wafo.integrate:h_roots', 'method', 's'),
    ('wafo.integrate:j_roots', 'method', 's'), ('wafo.integrate:la_roots', 'method', 's'), ('wafo.integrate:p_roots', 'method', 's'),
    ('wafo.misc:discretize', 'method', 's'), ('wafo.misc:fourier', 'method', 's'),
    ('wafo.objects:TurningPoints.cycle_pairs', 'kind', 's'), ('wafo.spectrum.core:SpecData1D.freqtype@setter', 'freqtype', 's'),
    ('wafo.spectrum.core:qtf', 'method', 's'), ('wafo.spectrum.core:SpecData1D.sim_nl', 'method', 's'),
    ('wafo.spectrum.models:jonswap_seastate', 'method', 's'), ('wafo.stats.estimation:FitDistribution.method@setter', 'method', 's'),
    ('wafo.transform.models:TrHermite.pardef@setter', 'pardef', 'n'), ('wafo.stats.core:edf', 'method', 'n'),
    ('wafo.stats.core:edfcnd', 'method', 'n'), ('wafo.markov:nt2fr', 'kind', 'n'),
    ('wafo.spectrum.core:SpecData1D.sim', 'method', 's'), ('wafo.objects:TimeSeries.trdata', 'method', 'sn'),
    ('wafo.spectrum.core:SpecData1D.testgaussian', 'method', 'sn'), ('wafo.spectrum.core:SpecData1D.resample', 'method', 's'),
    ('wafo.kdetools.kdetools:BKRegression.prb_ci', 'self.method', 's'), ('wafo.misc:findtp', 'kind', 'sn'),
    ('wafo.objects:TimeSeries.turning_points', 'wavetype', 's'), ('wafo.objects:TimeSeries.wave_periods', 'wdef', 's'),
    ('wafo.wave_theory.core:TransferFunction.tran', 'self.sensortype', 's'), ('wafo.wave_theory.core:TransferFunction._get_zk', 'self.igam', 'n'),
    ('wafo.spectrum.models:Spreading.__call__', 'self.type', 's'), ('wafo.sg_filter._core:_Filter.robust_weights', 'self.weightstr', 's'),
    ('wafo.spectrum.core:SpecData1D.__init__', '**freqtype', 's'), ('wafo.spectrum.core:SpecData2D.__init__', '**freqtype', 's'),
    ('wafo.covariance.core:CovData1D.__init__', '**lagtype', 's'), ('wafo.covariance.core:CovData1D.tospecdata', 'method', 's'), ('wafo.covariance.estimation:CovarianceEstimator.tocovdata', 'self.flag', 's'),
    ('wafo.interpolate:interp3', 'method', 's'), ('wafo.spectrum.core:SpecData2D.rotate', 'method', 's'), ('wafo.objects:TimeSeries.tospecdata', 'ftype', 's'),
    ('wafo.dctpack:dct', 'type', 'n'), ('wafo.dctpack:dct', 'norm', 's'), ('wafo.dctpack:idct', 'type', 'n'), ('wafo.dctpack:idct', 'norm', 's'),
    ('wafo.dctpack:dst', 'type', 'n'), ('wafo.dctpack:idst', 'type', 'n'),
    ('wafo.dctpack:dst', 'norm', 's'), ('wafo.dctpack:idst', 'norm', 's'), 
    ('wafo.objects:CyclePairs.cycle_matrix', 'method', 'n'),
    ('wafo.objects:CyclePairs.cycle_matrix', 'ddef', 'n'), ('wafo.spectrum.models:OchiHubble._chk_extra_param', 'self.par', 'n'),
] + [('wafo.stats.estimation:_%s_link' % d, 'i', 'n') for d in (
    'burr', 'expon', 'exponweib', 'genexpon', 'genextreme', 'genpareto', 'gumbel_r', 'rayleigh', 'trunclayleigh', 'weibull_min')]


NAMES = {'s': 'a name', 'n': 'a number', 'lo': 'a number below all those', 'hi': 'a number above all those'}


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='with the option bound to a value equal to none of the constants it is compared with, no path returns normally after '
             'the option was compared or looked up: every such path raises (in the function or in what it calls)',
        explanation='path-sensitive abstract interpretation of each closed option over the function and its callees; comparison with a '
                    'constant is false, lookup in a table of literal keys raises, .get gives the fallback')
    st = {'options': 0, 'paths': 0, 'raising': 0, 'inconclusive': 0}
    todo = CLOSED
    if selftest:
        todo = [(q, p, 'sn' if q.endswith('_sn') else 'n' if q.endswith('_n') else 's') for q, f in proj.funcs.items()
                for p in ('kind',) if p in f.params and f.name.split('_')[0] in ('ok', 'bad')]
        todo += [(q, '**kind', 's') for q, f in proj.funcs.items() if f.kwarg and f.cls is not None and f.cls.name.split('_')[0] in ('ok', 'bad') and f.name == '__init__']
    missing = []
    for mode in ('s', 'n', 'lo', 'hi'):
        an = Analysis(proj, eff, mode)
        for q, p, modes in todo:
            if (mode if mode == 's' else 'n') not in modes:
                continue
            f = proj.funcs.get(q)
            if f is None or p.split('.')[0] not in f.all_params() and not p.startswith(('self.', '**')):
                missing.append('%s(%s)' % (q, p))
                continue
            st['options'] += 1
            env, selfenv = ({}, {f.params[0] + p[4:]: UNK}) if p.startswith('self.') else ({p: UNK}, {})
            if p.startswith('**'):
                env = {f.kwarg: ('dict', ((p[2:], UNK),))} if f.kwarg else {}
            w = Opt(an, f, env, selfenv, 0)
            w.run()
            st['paths'] += len(w.returns)
            if not w.used and not w.overflow and not w.escaped and w.returns:
                r.add('%s(%s)' % (q, p), '%s (%s:%d) takes any value of %s without looking at it' % (q, f.path, f.line, p), '%s:%d' % (f.path, f.line))
                continue
            if not w.used or w.overflow:
                st['inconclusive'] += 1
                r.notes.append('not decided: %s(%s) as %s' % (q, p, NAMES[mode]))
                continue
            bad = [x for x in w.returns if accepts(x[1])]
            if bad:
                s, state = bad[0]
                facts = sorted('%s%s' % ('' if b else 'not ', a) for a, b in state.facts.items())[:4]
                line = s.lineno if s is not None else f.line
                r.add('%s(%s)' % (q, p), '%s (%s:%d) returns normally although %s is %s it knows nothing of%s'
                      % (q, f.path, line, p, NAMES[mode], ', when ' + ' and '.join(facts) if facts else ''),
                      '%s:%d' % (f.path, line))
            else:
                st['raising'] += 1
            r.samples.append('%s %s=%s: %d paths return before it matters, the rest raise' % (
                q, p, NAMES[mode], len(w.returns)))
    r.coverage = st
    r.assumptions = ['an option compared with something other than literals and tables of literals is not judged',
                     'options whose unknown values select a documented default are not closed and not listed']
    if missing:
        r.notes.append('not found: ' + ', '.join(missing))
    return r
