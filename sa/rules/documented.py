"""C17: every documented value of an option is accepted, and each selects something of its own."""
import ast
from ..framework import Result
from ..paths import State, TOP, Walker, const
from ..project import walk_local
from .options import Analysis, Opt, _assigned, _hash, _local_defs, CLOSED
from .documented_options import DOCUMENTED, SAME

TELL = {'format', 'print', 'warn', 'join', 'debug', 'info', 'warning', 'error', 'write', 'str', 'repr', '_assert', '_assert_warn'}


class T(str):
    """a text that comes from the option"""


class N(int):
    """a number that comes from the option"""


class F(float):
    """likewise"""


def taint(v):
    if v is None or isinstance(v, (T, N, F)):
        return v
    if isinstance(v, str):
        return T(v)
    if isinstance(v, int):
        return N(v)
    if isinstance(v, float):
        return F(v)
    if isinstance(v, tuple):
        return tuple(taint(x) for x in v)
    return v


def tainted(v):
    return v[0] == 'c' and isinstance(v[1], (T, N, F)) or v[0] == 'c' and isinstance(v[1], tuple) and any(isinstance(x, (T, N, F)) for x in v[1])


OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Mod: lambda a, b: a % b,
       ast.FloorDiv: lambda a, b: a // b, ast.Div: lambda a, b: a / b, ast.Pow: lambda a, b: a ** b if abs(b) < 50 else None,
       ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b}
FUN = {'abs': abs, 'int': int, 'float': float, 'str': str, 'len': len, 'min': min, 'max': max, 'bool': bool, 'round': round, 'mod': lambda a, b: a % b,
       'sign': lambda a: (a > 0) - (a < 0), 'tuple': tuple, 'xor': lambda a, b: bool(a) ^ bool(b), 'divmod': divmod}
STR = {'lower', 'upper', 'strip', 'title', 'capitalize', 'replace', 'lstrip', 'rstrip', 'startswith', 'endswith', 'find', 'count', 'index', 'rfind',
       'isdigit', 'isalpha', 'islower', 'isupper', 'split', 'partition', 'swapcase', 'casefold', 'isnumeric', 'removeprefix', 'removesuffix'}
TYPES = {'str': str, 'int': int, 'float': float, 'bytes': bytes, 'tuple': tuple, 'list': list, 'dict': dict, 'bool': bool, 'string_types': str,
         'basestring': str, 'Number': (int, float), 'Integral': int, 'Real': (int, float), 'ndarray': dict}


class Raises(Exception):
    pass


class Known(Opt):
    """walk with the option bound to one of its documented values; what depends on it is noted"""

    def __init__(self, an, f, env, selfenv, depth):
        Opt.__init__(self, an, f, env, selfenv, depth)
        self.quiet, self.resolved = 0, set()

    def note(self, node, what):
        if not self.quiet:
            self.an.sig.add((self.func.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), what))

    def mark(self, st):
        self.marks += 1
        self.touch(st)

    def touch(self, st):
        """on this path the value of the option was looked at or handed on"""
        self.used = True
        st.env['#t'] = const(True)

    def fails(self):
        """no path returns, other than those that end before the option matters"""
        return not self.returns or self.used and not self.overflow and not any('#t' in st.env for _, st in self.returns)

    def stmt(self, s, states):
        if states and not isinstance(s, (ast.Raise, ast.Expr, ast.Pass)):
            self.an.reached.add((self.func.qual, s.lineno, s.col_offset))
        return Opt.stmt(self, s, states)

    # values --------------------------------------------------------------------------------
    def val(self, e, st):
        v = self.fold(e, st)
        if v is not None:
            return v
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Constant):
            return TOP
        if isinstance(e, ast.IfExp):
            t = self.choice(e.test, st)
            if t is not None:
                v = self.val(e.body if t else e.orelse, st)
                return const(taint(v[1])) if v[0] == 'c' else v
        return Opt.val(self, e, st)

    def fold(self, e, st):
        """the value of an expression all of whose parts are known, and some part comes from the option"""
        try:
            if isinstance(e, ast.Call):
                fn = e.func
                if isinstance(fn, ast.Attribute) and not e.keywords:
                    if fn.attr in STR:
                        a = self.val(fn.value, st)
                        if a[0] == 'c' and isinstance(a[1], str):
                            args = [self.val(x, st) for x in e.args]
                            if all(x[0] == 'c' for x in args) and (tainted(a) or any(tainted(x) for x in args)):
                                return const(taint(getattr(str(a[1]), fn.attr)(*[x[1] for x in args])))
                    if fn.attr in ('get', 'pop') and e.args:
                        k = self.val(e.args[0], st)
                        if self.from_option(e.args[0], k, st):
                            d = self.entries(fn.value, st)
                            if d is not None:
                                if k[1] in d:
                                    return self.found(e, d[k[1]], st)
                                self.note(e, 'none of the entries')
                                self.touch(st)
                                return self.val(e.args[1], st) if len(e.args) > 1 else const(None)
                elif isinstance(fn, ast.Name) and not e.keywords:
                    if fn.id in FUN or fn.id == 'hasattr':
                        args = [self.val(x, st) for x in e.args]
                        if args and all(x[0] == 'c' for x in args) and any(tainted(x) for x in args):
                            if fn.id == 'hasattr':
                                return const(hasattr(str(args[0][1]) if isinstance(args[0][1], str) else int(args[0][1]), args[1][1]))
                            return const(taint(FUN[fn.id](*[x[1] for x in args])))
                    if fn.id == 'isinstance' and len(e.args) == 2:
                        a = self.val(e.args[0], st)
                        if a[0] == 'c' and (tainted(a) or a[1] is None and self.an.value is None):
                            ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
                            kinds = [TYPES.get(getattr(t, 'id', getattr(t, 'attr', ''))) for t in ts]
                            if all(kinds):
                                r = any(isinstance(a[1], k) for k in kinds)
                                self.note(e, r)
                                self.touch(st)
                                return const(r)
                    if fn.id == 'callable' and tainted(self.val(e.args[0], st)):
                        return const(False)
                    if fn.id == 'getattr' and len(e.args) >= 2:
                        k = self.val(e.args[1], st)
                        if tainted(k):
                            self.note(e, k[1])
                            self.touch(st)
                            return TOP
                if isinstance(fn, ast.Attribute) and fn.attr in ('mod', 'sign', 'abs', 'round') and len(e.args) and not e.keywords:
                    args = [self.val(x, st) for x in e.args]
                    if all(x[0] == 'c' for x in args) and any(tainted(x) for x in args) and fn.attr in FUN:
                        return const(taint(FUN[fn.attr](*[x[1] for x in args])))
                return None
            if isinstance(e, ast.Subscript):
                if isinstance(e.slice, ast.Slice):
                    a = self.val(e.value, st)
                    if tainted(a):
                        p = [None if x is None else self.val(x, st) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                        if all(x is None or x[0] == 'c' for x in p):
                            return const(taint(a[1][slice(*[None if x is None else x[1] for x in p])]))
                    return None
                a, k = self.val(e.value, st), self.val(e.slice, st)
                if k[0] == 'c' and tainted(a):
                    return const(taint(a[1][k[1]]))
                if self.from_option(e.slice, k, st):
                    d = self.entries(e.value, st)
                    if d is not None:
                        if k[1] in d:
                            return self.found(e, d[k[1]], st)
                        raise Raises
                    if a[0] == 'c' and isinstance(a[1], tuple) and isinstance(k[1], int):
                        return const(taint(a[1][k[1]]))
                    if isinstance(e.value, (ast.Tuple, ast.List)) and isinstance(k[1], int):
                        return self.found(e, e.value.elts[k[1]], st)
                return None
            if isinstance(e, ast.BinOp) and type(e.op) in OPS:
                a, b = self.val(e.left, st), self.val(e.right, st)
                if a[0] == 'c' and b[0] == 'c' and (tainted(a) or tainted(b)) and not isinstance(a[1], str) ^ isinstance(b[1], str):
                    r = OPS[type(e.op)](a[1], b[1])
                    return None if r is None else const(taint(r))
                return None
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
                a = self.val(e.operand, st)
                if tainted(a):
                    return const(taint(-a[1]))
            return None
        except Raises:
            raise
        except (IndexError, KeyError, ValueError, TypeError, AttributeError, ZeroDivisionError):
            if isinstance(e, (ast.Subscript, ast.Call)):
                raise Raises
            return None

    def from_option(self, e, k, st):
        return tainted(k) or k == const(None) and self.an.value is None and isinstance(e, ast.Name)

    def found(self, e, entry, st):
        self.touch(st)
        if isinstance(entry, ast.Constant):
            return const(taint(entry.value))
        v = TOP
        if isinstance(entry, (ast.Tuple, ast.List, ast.UnaryOp)):
            v = Walker.val(self, entry, st)
            if v[0] == 'c' and not isinstance(v[1], tuple):
                return const(taint(v[1]))
        self.note(e, ast.unparse(entry))
        self.resolved.add(id(e))
        self.an.reached.add((self.func.qual, e.lineno, ast.unparse(entry)))
        return v

    def entries(self, e, st):
        """{key: value expression} of a table of constants"""
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return None
            ks = [Walker.val(self, k, st) for k in e.keys]
            return {k[1]: v for k, v in zip(ks, e.values)} if all(k[0] == 'c' for k in ks) else None
        if isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) in ('dict', 'OrderedDict'):
            out = {}
            for a in e.args:
                if isinstance(a, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Tuple) and len(x.elts) == 2 for x in a.elts):
                    for x in a.elts:
                        k = Walker.val(self, x.elts[0], st)
                        if k[0] != 'c':
                            return None
                        out[k[1]] = x.elts[1]
                else:
                    d = self.entries(a, st)
                    if d is None:
                        return None
                    out.update(d)
            for k in e.keywords:
                if k.arg is None:
                    d = self.entries(k.value, st)
                    if d is None:
                        return None
                    out.update(d)
                else:
                    out[k.arg] = k.value
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.entries(e.left, st), self.entries(e.right, st)
            return None if a is None or b is None else dict(a, **b) if all(isinstance(k, str) for k in b) else {**a, **b}
        if isinstance(e, (ast.Name, ast.Attribute)):
            vs = self.an.definitions(self.func, e)
            if len(vs) == 1 and not self.an.changed(self.func, e):
                return self.entries(vs[0], st)
        return None

    # conditions ----------------------------------------------------------------------------
    def decide(self, e, st):
        r = self.decided(e, st)
        if r is not None:
            vals = [e]
            if isinstance(e, ast.Compare):
                vals = [e.left] + e.comparators
            for x in vals:
                v = self.val(x, st)
                if tainted(v) or v == const(None) and self.an.value is None and isinstance(x, ast.Name):
                    self.note(e, bool(r))
                    self.touch(st)
                    break
        return r

    def decided(self, e, st):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            a = self.val(e.left, st)
            if self.from_option(e.left, a, st):
                keys = self.keys(e.comparators[0], st)
                if keys is not None:
                    try:
                        return (a[1] in keys) == isinstance(e.ops[0], ast.In)
                    except TypeError:
                        return None
        if isinstance(e, (ast.Call, ast.Subscript, ast.BinOp)):
            v = self.val(e, st)
            if v[0] == 'c':
                return bool(v[1])
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            rs = []
            left = e.left
            for op, right in zip(e.ops, e.comparators):
                c = ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[right]), e)
                rs.append(self.decided(c, st))
                left = right
            return False if any(r is False for r in rs) else True if all(r is True for r in rs) else None
        return Opt.decide(self, e, st)

    def choice(self, test, st):
        self.quiet += 1
        t = self.truth(test, st)
        self.quiet -= 1
        return t

    def s_If(self, s, states):
        ts = [self.choice(s.test, st) for st in states]
        if None in ts or self.quiet:
            return Opt.s_If(self, s, states)
        a, b = [], []                            # what counts is where the test leads
        self.quiet += 1
        for st in self.each(states, s.test):
            a += self.cases(s.test, True, st)
            b += self.cases(s.test, False, st)
        self.quiet -= 1
        for t, part in ((a, s.body), (b, s.orelse)):
            if t:
                self.note(s, '; '.join(ast.unparse(x) for x in part))
        out = self.block(s.body, self.merge(a)) if a else []
        out += (self.block(s.orelse, self.merge(b)) if s.orelse else b) if b else []
        return out

    def keys(self, e, st):
        v = self.val(e, st)
        if v[0] == 'c' and isinstance(v[1], (str, tuple)):
            return v[1]
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            ks = [self.val(x, st) for x in e.elts]
            return [k[1] for k in ks] if all(k[0] == 'c' for k in ks) else None
        if isinstance(e, ast.Call):
            n = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
            if n in ('set', 'tuple', 'list', 'frozenset', 'sorted') and len(e.args) == 1:
                return self.keys(e.args[0], st)
            if n == 'keys' and isinstance(e.func, ast.Attribute):
                return self.entries(e.func.value, st)
            if n == 'split' and isinstance(e.func.value, ast.Constant) and not e.args:
                return e.func.value.value.split()
            if n == 'range' and all(self.val(a, st)[0] == 'c' for a in e.args):
                return list(range(*[self.val(a, st)[1] for a in e.args]))
        d = self.entries(e, st)
        if d is not None:
            return d
        if isinstance(e, (ast.Name, ast.Attribute)):
            vs = self.an.definitions(self.func, e)
            if len(vs) == 1 and not isinstance(vs[0], (ast.Name, ast.Attribute)):
                return self.keys(vs[0], State({}, {}))
        return None

    # things that raise ---------------------------------------------------------------------
    def subscript(self, e, st):
        try:
            self.val(e, st)
        except Raises:
            return 'raises'
        return None

    def expr(self, e, st, bound=frozenset()):
        try:
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                return Walker.expr(self, e, self.inside(e, st), bound)
            if isinstance(e, ast.IfExp):
                t = self.choice(e.test, st)
                if t is not None:
                    self.quiet += 1
                    ok = self.expr(e.test, st, bound)
                    self.quiet -= 1
                    part = e.body if t else e.orelse
                    ok = ok and self.expr(part, st, bound)
                    if ok and self.val(part, st)[0] != 'c':
                        self.note(e, ast.unparse(part))
                    return ok
            ok = Walker.expr(self, e, st, bound)
            if ok and isinstance(e, (ast.Compare, ast.Call, ast.Subscript, ast.BinOp)):
                v = self.val(e, st)
                parts = [e.left] + e.comparators if isinstance(e, ast.Compare) else [e.left, e.right] if isinstance(e, ast.BinOp) else \
                    [e.slice, e.value] if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice) and id(e) not in self.resolved else []
                if isinstance(e, ast.Compare):
                    v = TOP if self.decide(e, st) is None else const(True)
                if v == TOP and not (isinstance(e, ast.BinOp) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str)):
                    for i, x in enumerate(parts):                   # combined with something unknown
                        w = self.val(x, st)
                        if tainted(w) and isinstance(w[1], (N, F, T)):
                            self.note(e, (i, w[1]))
                            self.touch(st)
            return ok
        except Raises:
            return False

    def each(self, states, e):
        return Walker.each(self, states, e)

    def call(self, n, st):
        fn = n.func
        nm = getattr(fn, 'id', getattr(fn, 'attr', ''))
        try:
            self.val(n, st)
        except Raises:
            return 'raises'
        if self.val(fn, st) == const(None) and isinstance(fn, ast.Name):
            return 'raises'
        self.updated(n, st)
        r = self.an.outcome(self, n, st)
        if self.val(n, st)[0] != 'c' and nm not in TELL and nm not in STR and nm not in ('isinstance', 'hasattr', 'getattr', 'get', 'pop') \
                and not nm.endswith(('Error', 'Warning')):
            spread = any(g.vararg or g.kwarg for g, _ in self.an.targets(self, n) or ())
            for i, a in enumerate(list(n.args) + [k.value for k in n.keywords]):
                v = self.val(a.value if isinstance(a, ast.Starred) else a, st)
                if (r is None or spread) and self.from_option(a, v, st):
                    self.note(n, ('argument', i, v[1]))
                    self.touch(st)
                elif v[0] == 'dict':
                    for k, x in v[1]:
                        if tainted(x):
                            self.note(n, (k, x[1]))
                            self.touch(st)
        return 'raises' if r and all(x == ('never',) for x in r) else None

    def assign(self, t, value, st):
        try:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                v = self.value(value, st) if value is not None else TOP
                Walker.assign(self, t, value, st)
                st.env[ast.unparse(t)] = v
                if value is not None and self.from_option(value, v, st):
                    if self.an.read_somewhere(t.attr):
                        self.note(t, v[1])
                    self.touch(st)
                    self.an.stores.setdefault((self.func.qual, ast.unparse(t)), set()).add(v[1])
                if tainted(v) and self.an.refused(self, t, v):
                    st.env['#dead'] = const(True)
                return
            Walker.assign(self, t, value, st)
        except Raises:
            st.env['#dead'] = const(True)

    def s_Return(self, s, states):
        if s.value is not None:
            for st in states:
                try:
                    v = self.val(s.value, st)
                    if tainted(v) and self.depth == 0:
                        self.note(s, v[1])
                        self.touch(st)
                        self.an.stores.setdefault((self.func.qual, 'result'), set()).add(v[1])
                except Raises:
                    pass
        return Opt.s_Return(self, s, states)


class Tables(Analysis):
    def __init__(self, proj, eff, value):
        Analysis.__init__(self, proj, eff, 's')
        self.value = value
        self.sig, self.reached, self.stores = set(), set(), {}

    def definitions(self, f, e):
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                loc = _local_defs(g, e.id)
                if loc is not None:
                    return loc
                g = g.parent
            x = self.proj.lookup(f.module, e.id)
            return x[1].gvars.get(x[2], []) if x and x[0] == 'gvar' else []
        if isinstance(e.value, ast.Name):
            c = f.cls
            if c is not None and (f.params and e.value.id == f.params[0] or e.value.id == c.name):
                for b in c.classes():
                    if e.attr in b.attrs:
                        v = b.attrs[e.attr]
                        return v if isinstance(v, list) else [v]
                out = []
                for b in c.classes():
                    for g in b.methods.values():
                        for n in walk_local(g.body) if g.params else ():
                            if isinstance(n, ast.Assign) and any(
                                    isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == g.params[0] for t in n.targets):
                                out.append(n.value)
                return out
        x = self.proj.resolve_expr(f.module, e)
        return x[1].gvars.get(x[2], []) if x and x[0] == 'gvar' else []

    def changed(self, f, e):
        """entries are added or removed later"""
        text = ast.unparse(e)
        for n in walk_local(f.body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'setdefault', 'pop', 'clear') \
                    and ast.unparse(n.func.value) == text and not (n.func.attr == 'pop'):
                return True
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Subscript) and ast.unparse(t.value) == text:
                        return True
        return False

    def read_somewhere(self, name, seen=()):
        """somebody looks at attributes of this name (not only a property that hands it out and is itself never read)"""
        if not hasattr(self.proj, 'attr_readers'):
            d = self.proj.attr_readers = {}
            for g in self.proj.funcs.values():
                body = [x for x in g.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                hands = g.kind == 'getter' and len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute)
                for n in walk_local(g.body):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        d.setdefault(n.attr, set()).add('@' + g.name if hands and n is body[0].value else '')
                    elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) or isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'getattr':
                        for x in n.args if isinstance(n, ast.Call) else n.elts:         # names to copy
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                d.setdefault(x.value, set()).add('')
        who = self.proj.attr_readers.get(name, ())
        return any(x == '' or x[1:] not in seen and self.read_somewhere(x[1:], seen + (name,)) for x in who)

    def refused(self, w, t, v):
        gs = [g for g in self.proj.funcs.values() if g.kind == 'setter' and g.name == t.attr and g.qual.endswith('@setter') and len(g.params) == 2]
        if w.func.cls is not None and w.func.params and t.value.id == w.func.params[0]:
            own = [g for c in w.func.cls.classes() for g in gs if g.cls is c]
            gs = own[:1]
        rs = [self.summary(g, {g.params[1]: v}, {}, w.depth + 1) for g in gs] if w.depth < 6 else []
        return bool(rs) and all(r[0] == 'never' for r in rs)

    def bindargs(self, w, n, st, g, how):
        env = Analysis.bindargs(self, w, n, st, g, how)
        if env is not None and g.parent is not None:
            env.update((k, v) for k, v in st.env.items() if tainted(v) and k not in g.all_params() and '.' not in k and not _assigned(g, k))
        return env

    def selfstate(self, w, n, st, g):
        out = {}
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and w.func.params and n.func.value.id == w.func.params[0] \
                and g.cls is not None and g.params:
            pre = n.func.value.id + '.'
            for k, v in st.env.items():
                if k.startswith(pre) and tainted(v):
                    out[g.params[0] + '.' + k[len(pre):]] = v
        return out

    def outcome(self, w, n, st):
        ts = self.targets(w, n)
        if not ts or w.depth > 6:
            return None
        relevant = any(w.from_option(a, w.val(a, st), st) for a in list(n.args) + [k.value for k in n.keywords if k.arg])
        res = []
        for g, how in ts:
            env = self.bindargs(w, n, st, g, how)
            if env is None:
                return None
            selfenv = self.selfstate(w, n, st, g)
            if not relevant and not selfenv and not any(tainted(v) for v in env.values()) and not (
                    g.name in ('_assert', '_raise') or g.name.startswith(('_check', '_chk'))):
                return None
            s = self.summary(g, env, selfenv, w.depth + 1, w)
            if s[-1] == 'tested' and isinstance(w, Known):
                if s[0] == 'never':
                    w.used = True
                else:
                    w.touch(st)
            res.append(s[:-1])
        return res

    def summary(self, g, env, selfenv, depth, by=None):
        if g.is_gen:
            return ('returns', TOP, False)
        key = (g.qual, frozenset((k, v) for k, v in env.items() if _hash(v)), frozenset(selfenv.items()))
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return ('never', False)
        self.active.add(key)
        w = Known(self, g, env, selfenv, depth)
        w.run()
        self.active.discard(key)
        vals = set()
        how = 'tested' if w.used and (not w.returns or any('#t' in st.env for _, st in w.returns)) else True
        for s, st in w.returns:
            try:
                v = w.val(s.value, st) if s is not None and s.value is not None else const(None)
            except Raises:
                continue
            vals.add(v if _hash(v) else TOP)
        r = ('never', how) if not w.returns else ('returns', vals.pop() if len(vals) == 1 else TOP, how)
        self.memo[key] = r
        return r


def walk(proj, eff, f, p, value):
    an = Tables(proj, eff, value)
    v = const(taint(value))
    env, selfenv = ({}, {f.params[0] + p[4:]: v}) if p.startswith('self.') else ({p: v}, {})
    if p.startswith('**'):
        env = {f.kwarg: ('dict', ((p[2:], v),))} if f.kwarg else {}
    w = Known(an, f, env, selfenv, 0)
    w.run()
    return w, frozenset(an.sig), frozenset(an.reached), an.stores


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='with the option bound to a documented value some path through the function returns, and of any two documented values that mean '
             'different things at least one test, lookup or call on the way comes out differently',
        explanation='path-sensitive abstract interpretation of each option over the function and its callees, once per documented value and '
                    'default; tests, lookups in tables of literals and text operations on the value are evaluated, everything else is unknown')
    table, same = DOCUMENTED, SAME
    if selftest:
        table, same = [], set()
        for q, f in proj.funcs.items():
            if (f.cls.name if f.cls is not None else f.name).split('_')[0] in ('ok', 'bad') and 'kind' in f.params:
                table.append((q, 'kind', ast.literal_eval(ast.get_docstring(f.node))))
    st = {'options': 0, 'values': 0, 'pairs': 0, 'aliases': 0, 'defaults': 0}
    missing = []
    done = set()
    for q, p, groups in table:
        f = proj.funcs.get(q)
        if f is None or not p.startswith(('self.', '**')) and p not in f.all_params():
            missing.append('%s(%s)' % (q, p))
            continue
        st['options'] += 1
        where = '%s:%d' % (f.path, f.line)
        sigs = []
        d = f.defaults.get(p)
        values = [(v, i) for i, g in enumerate(groups) for v in g]
        if isinstance(d, ast.Constant) and not any(d.value == v and type(d.value) is type(v) for v, _ in values):
            values.append((d.value, None))
            st['defaults'] += 1
        done.add((q, p))
        for v, i in values:
            w, sig, reached, stores = walk(proj, eff, f, p, v)
            st['values'] += 1
            if w.fails():
                r.add('%s(%s=%r) refused' % (q, p, v), '%s (%s) never returns a result when %s is %r, which is %s' % (
                    q, where, p, v, 'a documented value' if i is not None else 'the default'), where)
            elif i is not None:
                sigs.append((i, v, sig, w.overflow, reached, stores))
        for a in range(len(sigs)):
            for b in range(a):
                if sigs[a][0] != sigs[b][0]:
                    st['pairs'] += 1
                    if sigs[a][2] == sigs[b][2] and not sigs[a][3] and (q, p, frozenset([sigs[a][1], sigs[b][1]])) not in same:
                        r.add('%s(%s=%r and %r) alike' % (q, p, sigs[b][1], sigs[a][1]), '%s (%s) does the same for %s=%r as for %r' % (
                            q, where, p, sigs[a][1], sigs[b][1]), where)
                else:
                    st['aliases'] += 1
                    if sigs[a][4] != sigs[b][4]:
                        d = sorted(str(x[1]) for x in sigs[a][4] ^ sigs[b][4])[:4]
                        r.add('%s(%s=%r and %r) differ' % (q, p, sigs[b][1], sigs[a][1]), '%s (%s): %s=%r is documented as another name for %r, but they go different ways (lines %s)' % (
                            q, where, p, sigs[a][1], sigs[b][1], ', '.join(d)), where)
                    for k in set(sigs[a][5]) & set(sigs[b][5]):
                        va, vb = sigs[a][5][k], sigs[b][5][k]
                        if va != vb and not (va == {sigs[a][1]} and vb == {sigs[b][1]}):
                            r.add('%s(%s=%r and %r) differ' % (q, p, sigs[b][1], sigs[a][1]), '%s (%s): %s=%r is documented as another name for %r, but %s becomes %s for the one and %s for the other' % (
                                q, where, p, sigs[a][1], sigs[b][1], k[1], sorted(map(str, va)), sorted(map(str, vb))), where)
        r.samples.append('%s %s: %s' % (q, p, ', '.join(repr(v) for v, _ in values)))
    if not selftest:
        for q, p, _ in CLOSED:                   # whatever is documented: the default has to work
            f = proj.funcs.get(q)
            d = f.defaults.get(p) if f is not None else None
            if (q, p) in done or not isinstance(d, ast.Constant):
                continue
            done.add((q, p))
            st['defaults'] += 1
            w = walk(proj, eff, f, p, d.value)[0]
            if w.fails():
                r.add('%s(%s=%r) refused' % (q, p, d.value), '%s (%s:%d) never returns when %s is %r, which is the default' % (
                    q, f.path, f.line, p, d.value), '%s:%d' % (f.path, f.line))
    r.coverage = st
    r.assumptions = ['a value is taken as accepted when some path returns; what the path computes is not judged',
                     'values compared with something other than literals and tables of literals are not told apart by that test']
    if missing:
        r.notes.append('not found: ' + ', '.join(missing))
    return r
