"""Bounded path-sensitive walk of one function body.

A state is (env, facts): env maps the names that have a value to an abstract value
(a constant, an unknown selector, or TOP), facts are the branch conditions known to hold
or not to hold.  States with equal environments are merged (facts intersected), so only
splits that matter survive; beyond CAP states the walk stops splitting and says so
(``overflow``), and a caller that needs certainty stays quiet then.
"""
import ast

TOP = ('top',)
CAP = 160


def const(v):
    return ('c', v)


class State(object):
    __slots__ = ('env', 'facts')

    def __init__(self, env, facts):
        self.env, self.facts = env, facts

    def copy(self):
        return State(dict(self.env), dict(self.facts))

    def key(self):
        return frozenset(self.env.items())


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def _lit(e):
    """(value,) of a literal, else None"""
    try:
        v = ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        return None
    if isinstance(v, (list, set)):
        v = tuple(v)
    return (v,)


_OPS = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
        ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.In: lambda a, b: a in b,
        ast.NotIn: lambda a, b: a not in b, ast.Is: lambda a, b: a is b or a == b, ast.IsNot: lambda a, b: not (a is b or a == b)}


def _evalcmp(e, v):
    """truth of a comparison of one expression with literals when that expression has the value v"""
    if isinstance(e, ast.BoolOp):
        r = [_evalcmp(x, v) for x in e.values]
        conj = isinstance(e.op, ast.And)
        if any(x is (not conj) for x in r):
            return not conj
        return conj if all(x is conj for x in r) else None
    if isinstance(e, ast.UnaryOp):
        r = _evalcmp(e.operand, v)
        return None if r is None else not r
    sides = [_lit(x) or (v,) for x in [e.left] + e.comparators]
    try:
        return all(_OPS[type(op)](sides[i][0], sides[i + 1][0]) for i, op in enumerate(e.ops))
    except TypeError:
        return None


class _Other(object):
    """a value equal to no constant and comparable with none"""


_OTHER = _Other()


def _numbers(e):
    return [n.value for n in ast.walk(e) if isinstance(n, ast.Constant) and isinstance(n.value, (int, float))
            and not isinstance(n.value, bool)] + [
        -n.operand.value for n in ast.walk(e) if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub)
        and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, (int, float))]


def _compares(e, text):
    """e only compares the expression with constants"""
    if isinstance(e, ast.BoolOp):
        return all(_compares(x, text) for x in e.values)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return _compares(e.operand, text)
    if isinstance(e, ast.Compare):
        sides = [e.left] + e.comparators
        return sum(1 for x in sides if ast.unparse(x) == text) == 1 and all(
            ast.unparse(x) == text or _lit(x) is not None for x in sides)
    return False


class Walker(object):
    """Subclasses may override: value(expr, st), use(name_node, st), call(node, st) -> 'raises' or None,
    on_return(stmt, st)."""

    def __init__(self, func, env=None):
        self.func = func
        self.returns = []            # (stmt or None, State)
        self.overflow = False
        self.trystack = []
        self.loops = []
        self.start = State(dict(env or {}), {})
        for p in func.all_params():
            self.start.env.setdefault(p, TOP)
        self.globals = set()
        self.fresh = 0
        self.marks = 0

    def mark(self, st):
        self.marks += 1

    # ---- hooks ----------------------------------------------------------------------
    def use(self, node, st):
        pass

    def call(self, node, st):
        return None

    def bind(self, name, value_node, st):
        return TOP

    def expr_hook(self, node, st):
        pass

    # ---- driver ---------------------------------------------------------------------
    def run(self):
        out = self.block(self.func.body, [self.start])
        for st in out:
            self.returns.append((None, st))
        return self

    def merge(self, states):
        by = {}
        for s in states:
            k = s.key()
            o = by.get(k)
            if o is None:
                by[k] = s
            else:
                o.facts = {a: b for a, b in o.facts.items() if s.facts.get(a) == b and a in s.facts}
        r = list(by.values())
        if len(r) > CAP:
            self.overflow = True
            # keep one state that has every name any of them has
            env = {}
            for s in r:
                for k, v in s.env.items():
                    env[k] = v if env.get(k, v) == v else TOP
            r = [State(env, {})]
        return r

    def block(self, stmts, states):
        for s in stmts:
            if not states:
                return []
            for t in self.trystack:
                t.extend(x.copy() for x in states)
                if len(t) > 4 * CAP:
                    t[:] = self.merge(t)
            states = self.merge(self.stmt(s, states))
        return states

    def each(self, states, e):
        """evaluate expression e in each state; drop the states in which it raises"""
        if e is None:
            return states
        return [s for s in states if self.expr(e, s)]

    def stmt(self, s, states):
        t = type(s).__name__
        m = getattr(self, 's_' + t, None)
        if m is not None:
            return m(s, states)
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                states = self.each(states, ch)
        return states

    # ---- expressions ----------------------------------------------------------------
    def expr(self, e, st, bound=frozenset()):
        """False if evaluating e certainly raises"""
        self.expr_hook(e, st)
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                self.use(e, st)
            return True
        if isinstance(e, ast.Lambda):
            return True
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            ok = True
            for i, g in enumerate(e.generators):
                ok = self.expr(g.iter, st, frozenset(b)) and ok
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        b.add(n.id)
                for c in g.ifs:
                    self.expr(c, st, frozenset(b))
            for part in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(part, st, frozenset(b))
            return ok
        if isinstance(e, ast.BoolOp):
            # operands after the first are evaluated only under the facts the earlier ones give
            cur = [st]
            for i, v in enumerate(e.values):
                nxt = []
                for c in cur:
                    if not self.expr(v, c, bound):
                        if i == 0:
                            return False
                        continue
                    if i + 1 < len(e.values):
                        d = c.copy()
                        if self.assume(v, isinstance(e.op, ast.And), d):
                            nxt.append(d)
                cur = nxt
                if not cur:
                    break
            return True
        if isinstance(e, ast.IfExp):
            if not self.expr(e.test, st, bound):
                return False
            ok = False
            for truth, part in ((True, e.body), (False, e.orelse)):
                d = st.copy()
                if self.assume(e.test, truth, d):
                    ok = self.expr(part, d, bound) or ok
            return ok
        ok = True
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                ok = self.expr(ch, st, bound) and ok
            elif isinstance(ch, ast.keyword):
                ok = self.expr(ch.value, st, bound) and ok
        if not ok:
            return False
        if isinstance(e, ast.Call) and self.call(e, st) == 'raises':
            return False
        if isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load) and self.subscript(e, st) == 'raises':
            return False
        if isinstance(e, ast.NamedExpr):
            self.assign(e.target, e.value, st)
        return True

    def subscript(self, e, st):
        return None

    # ---- conditions -----------------------------------------------------------------
    def truth(self, e, st):
        """True / False / None"""
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.truth(e.operand, st)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            vals = [self.truth(v, st) for v in e.values]
            if isinstance(e.op, ast.And):
                if any(v is False for v in vals):
                    return False
                return True if all(v is True for v in vals) else None
            if any(v is True for v in vals):
                return True
            return False if all(v is False for v in vals) else None
        t, pos = self.norm(e)
        if t in st.facts:
            return st.facts[t] == pos
        v = self.decide(e, st)
        return v

    def decide(self, e, st):
        if isinstance(e, ast.Name):
            v = st.env.get(e.id, TOP)
            if v[0] == 'c':
                try:
                    return bool(v[1])
                except Exception:
                    return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.val(e.left, st), self.val(e.comparators[0], st)
            if a[0] == 'c' and b[0] == 'c':
                op = e.ops[0]
                try:
                    if isinstance(op, (ast.Is, ast.Eq)):
                        return a[1] == b[1] if not (a[1] is None or b[1] is None) else a[1] is b[1]
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        return not (a[1] == b[1] if not (a[1] is None or b[1] is None) else a[1] is b[1])
                    if isinstance(op, ast.In):
                        return a[1] in b[1]
                    if isinstance(op, ast.NotIn):
                        return a[1] not in b[1]
                except TypeError:
                    return None
        return None

    def val(self, e, st):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            return st.env.get(e.id, TOP)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in e.elts):
            return const(tuple(x.value for x in e.elts))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) \
                and isinstance(e.operand.value, (int, float)):
            return const(-e.operand.value)
        return TOP

    @staticmethod
    def norm(e):
        """(text, polarity) of an atomic condition"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            neg = {ast.IsNot: 'is', ast.NotEq: '==', ast.NotIn: 'in', ast.GtE: '<', ast.LtE: '>'}
            pos = {ast.Is: 'is', ast.Eq: '==', ast.In: 'in', ast.Lt: '<', ast.Gt: '>'}
            op = type(e.ops[0])
            l, r = ast.unparse(e.left), ast.unparse(e.comparators[0])
            o, p = (pos[op], True) if op in pos else (neg[op], False) if op in neg else (None, None)
            if o == '>':
                l, r, o = r, l, '<'
            if o is not None:
                return '%s %s %s' % (l, o, r), p
        return ast.unparse(e), True

    def assume(self, e, truth, st):
        """add the facts; False if contradictory"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not truth, st)
        known = self.truth(e, st)
        if known is not None:
            return known == truth
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            if conj == truth:
                return all(self.assume(v, truth, st) for v in e.values)
            open_ = [v for v in e.values if self.truth(v, st) is None]
            if len(open_) == 1:
                return self.assume(open_[0], truth, st)
            st.facts[ast.unparse(e)] = truth
            return True
        t, pos = self.norm(e)
        st.facts[t] = (truth == pos)
        self.refined(e, truth, st)
        if isinstance(e, ast.Compare):
            for side in [e.left] + e.comparators:
                if not isinstance(side, ast.Constant) and not self.consistent(ast.unparse(side), st):
                    return False
        return True

    def cases(self, e, truth, st):
        """the states (copies) in which e has this truth value, split over the alternatives of a disjunction"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.cases(e.operand, not truth, st)
        if isinstance(e, ast.BoolOp) and len(e.values) <= 4:
            conj = isinstance(e.op, ast.And)
            if conj == truth:
                cur = [st.copy()]
                for v in e.values:
                    cur = [y for x in cur for y in self.cases(v, truth, x)]
                return cur
            out, cur = [], [st.copy()]
            for v in e.values:
                out += [y for x in cur for y in self.cases(v, truth, x)]
                cur = [y for x in cur for y in self.cases(v, not truth, x)]
            if len(out) > 1:
                t = ast.unparse(e)
                for x in out:        # survives when the alternatives are merged again
                    x.facts[t] = truth
            return out
        d = st.copy()
        return [d] if self.assume(e, truth, d) else []

    def consistent(self, text, st):
        """can the expression have a value that agrees with the recorded comparisons with constants?"""
        conds = []
        cand = None
        for f, b in st.facts.items():
            if text not in f:
                continue
            k = self._about(f, text)
            if k is None:
                continue
            conds.append((k, b))
            vals = None
            if isinstance(k, ast.Compare) and len(k.ops) == 1 and b:
                c = _lit(k.comparators[0])
                if isinstance(k.ops[0], ast.Eq) and c is not None and _lit(k.left) is None:
                    vals = [c[0]]
                elif isinstance(k.ops[0], ast.In) and c is not None and isinstance(c[0], tuple):
                    vals = list(c[0])
            if vals is not None:
                cand = vals if cand is None else [v for v in cand if v in vals]
        if cand is None:
            if len(conds) < 2:
                return True
            nums = sorted({c for k, b in conds for c in _numbers(k)})
            cand = nums + [(a + b) / 2.0 for a, b in zip(nums, nums[1:])] + ([nums[0] - 1, nums[-1] + 1] if nums else []) + [_OTHER]
        return any(all(_evalcmp(k, v) in (None, b) for k, b in conds) for v in cand)

    _acache = {}

    def _about(self, fact, text):
        """the comparison, if fact compares exactly this expression with constants"""
        key = (fact, text)
        if key not in self._acache:
            r = None
            try:
                e = ast.parse(fact, mode='eval').body
            except SyntaxError:
                e = None
            if e is not None and _compares(e, text):
                r = e
            self._acache[key] = r
        return self._acache[key]

    def refined(self, e, truth, st):
        """record what an equality tells about a name"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name):
            op = e.ops[0]
            r = self.val(e.comparators[0], st)
            if r[0] == 'c' and (isinstance(op, (ast.Is, ast.Eq)) and truth or isinstance(op, (ast.IsNot, ast.NotEq)) and not truth):
                if e.left.id in st.env and st.env[e.left.id] == TOP and (r[1] is None or isinstance(r[1], str)):
                    st.env[e.left.id] = r

    # ---- assignment -------------------------------------------------------------------
    def forget(self, name, st):
        if st.facts:
            bad = [f for f in st.facts if self._mentions(f, name)]
            for f in bad:
                del st.facts[f]

    _mcache = {}

    def _mentions(self, text, name):
        k = text
        ns = self._mcache.get(k)
        if ns is None:
            try:
                ns = names_in(ast.parse(text, mode='eval'))
            except SyntaxError:
                ns = set()
            self._mcache[k] = ns
        return name in ns

    def assign(self, t, value, st):
        if isinstance(t, ast.Name):
            v = self.value(value, st) if value is not None else TOP
            self.forget(t.id, st)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in list(t.elts) + list(value.elts)):
                vs = [self.value(v, st) for v in value.elts]
                for x, v in zip(t.elts, vs):
                    if isinstance(x, ast.Name):
                        self.forget(x.id, st)
                        st.env[x.id] = v
                    else:
                        self.assign(x, None, st)
            else:
                for x in t.elts:
                    self.assign(x, None, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, None, st)
        else:
            for ch in ast.iter_child_nodes(t):
                if isinstance(ch, ast.expr):
                    self.expr(ch, st)
            r = t
            while isinstance(r, (ast.Attribute, ast.Subscript)):
                r = r.value
            if isinstance(r, ast.Name):
                self.forget(r.id, st)

    def value(self, e, st):
        return self.val(e, st)

    # ---- statements ---------------------------------------------------------------------
    def s_Expr(self, s, states):
        return self.each(states, s.value)

    def s_Assign(self, s, states):
        states = self.each(states, s.value)
        out = []
        for st in states:
            for alt in self.split(s.value, st):
                for t in s.targets:
                    self.assign(t, alt[0], alt[1])
                out.append(alt[1])
        return out

    def split(self, value, st):
        """x = a if c else b  ->  one state per alternative"""
        if isinstance(value, ast.IfExp):
            r = []
            for truth, part in ((True, value.body), (False, value.orelse)):
                d = st.copy()
                if self.assume(value.test, truth, d):
                    r.append((part, d))
            return r or [(value, st)]
        return [(value, st)]

    def s_AnnAssign(self, s, states):
        if s.value is not None:
            states = self.each(states, s.value)
            for st in states:
                self.assign(s.target, s.value, st)
        return states

    def s_AugAssign(self, s, states):
        states = self.each(states, s.value)
        for st in states:
            if isinstance(s.target, ast.Name):
                n = ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target)
                self.use(n, st)
            self.assign(s.target, None, st)
        return states

    def s_Return(self, s, states):
        for st in self.each(states, s.value):
            self.returns.append((s, st))
        return []

    def s_Raise(self, s, states):
        for e in (s.exc, s.cause):
            if e is not None:
                self.each(states, e)
        return []

    def s_Assert(self, s, states):
        out = []
        for st in self.each(states, s.test):
            if s.msg is not None:
                d = st.copy()
                if self.assume(s.test, False, d):
                    self.expr(s.msg, d)
            if self.assume(s.test, True, st):
                out.append(st)
        return out

    def s_Pass(self, s, states):
        return states

    def s_Delete(self, s, states):
        for st in states:
            for t in s.targets:
                for n in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(n, ast.Name):
                        self.use(ast.copy_location(ast.Name(id=n.id, ctx=ast.Load()), n), st)
                        st.env.pop(n.id, None)
                        self.forget(n.id, st)
        return states

    def s_If(self, s, states):
        a, b = [], []
        for st in self.each(states, s.test):
            a += self.cases(s.test, True, st)
            b += self.cases(s.test, False, st)
        out = self.block(s.body, self.merge(a)) if a else []
        out += (self.block(s.orelse, self.merge(b)) if s.orelse else b) if b else []
        return out

    def _loop(self, s, states, test=None):
        stored = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if isinstance(s, ast.For):
            stored |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        roots = set()
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    r = n
                    while isinstance(r, (ast.Attribute, ast.Subscript)):
                        r = r.value
                    if isinstance(r, ast.Name):
                        roots.add(r.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    r = n.func.value
                    while isinstance(r, (ast.Attribute, ast.Subscript)):
                        r = r.value
                    if isinstance(r, ast.Name):
                        roots.add(r.id)
        entry = []
        for st in states:
            d = st.copy()
            for nm in stored:
                # values of earlier iterations may be seen by later ones
                self.forget(nm, d)
                if nm in d.env:
                    d.env[nm] = TOP
                elif isinstance(s, ast.For) and nm in names_in(s.target):
                    d.env[nm] = TOP
                else:
                    d.env.setdefault('?' + nm, TOP)
            if isinstance(s, ast.For):
                self.loop_target(s, d)
            for nm in roots:
                self.forget(nm, d)
            entry.append(d)
        entry = self.merge(entry)
        self.loops.append(([], []))
        if test is not None:
            body_in = []
            for st in self.each(entry, test):
                if self.assume(test, True, st):
                    body_in.append(st)
        else:
            body_in = [x.copy() for x in entry]
        after = self.block(s.body, self.merge(body_in)) if body_in else []
        brk, cont = self.loops.pop()
        done = after + cont
        return entry, done, brk

    def s_For(self, s, states):
        states = self.each(states, s.iter)
        if not states:
            return []
        entry, done, brk = self._loop(s, states)
        if self.may_skip(s):
            for st in states:
                done.append(st.copy())
        if s.orelse:
            done = self.block(s.orelse, self.merge(done))
        return done + brk

    def loop_target(self, s, st):
        pass

    def may_skip(self, s):
        return False

    def s_While(self, s, states):
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        entry, done, brk = self._loop(s, states, s.test)
        out = []
        if not always:
            for st in done:
                if self.assume(s.test, False, st):
                    out.append(st)
            if not out and not brk:
                # the condition is decided differently after another round
                out.extend(st.copy() for st in entry)
        if s.orelse:
            out = self.block(s.orelse, self.merge(out))
        return out + brk

    def s_Break(self, s, states):
        if self.loops:
            self.loops[-1][0].extend(states)
        return []

    def s_Continue(self, s, states):
        if self.loops:
            self.loops[-1][1].extend(states)
        return []

    def s_With(self, s, states):
        for it in s.items:
            states = self.each(states, it.context_expr)
            if it.optional_vars is not None:
                for st in states:
                    self.assign(it.optional_vars, None, st)
        return self.block(s.body, states)

    def s_Try(self, s, states):
        pre = [x.copy() for x in states]
        self.trystack.append([])
        mk = self.marks
        body = self.block(s.body, states)
        seen = self.trystack.pop()
        if s.handlers:
            hin = pre + seen
            if self.marks != mk:
                for x in hin:
                    self.mark(x)
            hin = self.merge(hin)
        out = []
        if s.orelse:
            body = self.block(s.orelse, body)
        out += body
        for h in s.handlers:
            st = [x.copy() for x in hin]
            if h.name:
                for x in st:
                    x.env[h.name] = TOP
            r = self.block(h.body, st)
            if h.name:
                for x in r:
                    x.env.pop(h.name, None)
            out += r
        if s.finalbody:
            out = self.block(s.finalbody, self.merge(out))
        return out

    def s_FunctionDef(self, s, states):
        for st in states:
            for d in list(s.args.defaults) + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(d, st)
            self.forget(s.name, st)
            st.env[s.name] = TOP
        return states

    def s_ClassDef(self, s, states):
        for st in states:
            st.env[s.name] = TOP
        return states

    def s_Import(self, s, states):
        for st in states:
            for a in s.names:
                st.env[a.asname or a.name.split('.')[0]] = TOP
        return states

    def s_ImportFrom(self, s, states):
        for st in states:
            for a in s.names:
                st.env[a.asname or a.name] = TOP
        return states

    def s_Global(self, s, states):
        self.globals.update(s.names)
        return states

    s_Nonlocal = s_Global
