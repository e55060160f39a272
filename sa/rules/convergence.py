"""C14: an iterative method that gives up says so.

For every loop with an iteration limit and a convergence exit, the state "limit reached, test not
met" is followed through the rest of the function (and into its callers when it is handed back as a
flag).  On every such path there must be a warning, an exception, or a result or attribute that is
computed from the outcome.  Status codes of external solvers are followed the same way.
"""
import ast
import re
from ..framework import Result
from ..project import walk_local
from .termination import targets, stored_names, affine, constants, Paths

LIMIT = re.compile(r'(max|limit|iter(?!able)|tries)', re.I)
L, U = 'L', 'U'

# loops with a limit that is not an iteration budget of a solver
EXEMPT = {
    'wafo.markov:_raw_iter': 'k is the number of steps the caller asks for',
    'wafo.misc:_discretize_linear': 'stops refining at a grid size; documented as number of points, no accuracy promised',
    'wafo.spectrum.core:SpecData1D.resample': 'smallest power of two, not an approximation',
    'wafo.stats.estimation:plot_all_profiles.<_profile>': 'refits as long as Profile itself warns that a better optimum exists',
    'wafo.spectrum.core:SpecData1D.to_linspec': 'prints the progress of every round (unfinished method)',
    'wafo.misc:lfind': 'limit is the number of results asked for',
    'wafo.polynomial:polydeg': 'stops after eight increases of the criterion by design',
    'wafo._misc_numba:_findcross': 'not an iteration',
}
# (external callee, position of the status in its result) -> values that mean failure
STATUS = {
    'prbnormndpc': (2, (1,)),
    'prbnormtndpc': (2, (1,)),
}


def proj_origin(f):
    return f.module.proj.origin(f.qual)


def linear(e):
    """expression as {text: coefficient} with '' for the constant, or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return {'': e.value}
    if isinstance(e, (ast.Name, ast.Attribute)):
        return {ast.unparse(e): 1}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        x = linear(e.operand)
        return None if x is None else {k: -v for k, v in x.items()}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        x, y = linear(e.left), linear(e.right)
        if x is None or y is None:
            return None
        s = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(x)
        for k, v in y.items():
            out[k] = out.get(k, 0) + s * v
        return out
    if isinstance(e, ast.Call):
        return {ast.unparse(e): 1}
    return None


def diff(x, y):
    """x - y as a number, or None"""
    out = dict(x)
    for k, v in y.items():
        out[k] = out.get(k, 0) - v
    c = out.pop('', 0)
    return c if all(v == 0 for v in out.values()) else None


class St(object):
    __slots__ = ('env', 'rel', 'facts', 'told', 'names')

    def __init__(self, env=None, rel=None, facts=None, told=False, names=frozenset()):
        self.env, self.rel, self.facts, self.told, self.names = env or {}, rel or {}, facts or {}, told, names

    def copy(self):
        return St(dict(self.env), dict(self.rel), dict(self.facts), self.told, self.names)

    def key(self):
        return (tuple(sorted((k, str(v)) for k, v in self.env.items())), tuple(sorted((k, str(v)) for k, v in self.rel.items())),
                tuple(sorted(self.facts.items())), self.told)

    def forget(self, n):
        self.env.pop(n, None)
        self.rel.pop(n, None)
        pat = re.compile(r'(?<![\w.])%s(?!\w)' % re.escape(n))
        for k in [k for k in self.facts if pat.search(k)]:
            del self.facts[k]
        for k in [k for k, (op, b) in self.rel.items() if any(pat.search(x) for x in b if x)]:
            del self.rel[k]


def canon(e):
    return ast.unparse(e)


def put_fact(facts, e, truth, defs, depth=0):
    """record that e has this truth; look through names defined on the path and through and/or/not"""
    if depth > 6:
        return
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.Invert)):
        return put_fact(facts, e.operand, not truth, defs, depth + 1)
    if isinstance(e, ast.BoolOp):
        if isinstance(e.op, ast.And) == truth:
            for v in e.values:
                put_fact(facts, v, truth, defs, depth + 1)
        facts[canon(e)] = truth
        return
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd)):
        if isinstance(e.op, ast.BitAnd) == truth:
            put_fact(facts, e.left, truth, defs, depth + 1)
            put_fact(facts, e.right, truth, defs, depth + 1)
        facts[canon(e)] = truth
        return
    facts[canon(e)] = truth
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        neg = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(e.ops[0]))
        if neg is not None:
            facts[canon(ast.Compare(left=e.left, ops=[neg()], comparators=e.comparators))] = not truth
        mir = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(e.ops[0]))
        if mir is not None:
            facts[canon(ast.Compare(left=e.comparators[0], ops=[mir()], comparators=[e.left]))] = truth
    if isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) in ('bool', 'bool_') and len(e.args) == 1:
        put_fact(facts, e.args[0], truth, defs, depth + 1)
    if isinstance(e, (ast.Name, ast.Attribute)) and canon(e) in defs and defs[canon(e)] is not None:
        put_fact(facts, defs[canon(e)], truth, defs, depth + 1)


class Walk(object):
    """follow states through a function body; the states come into being at one statement (the source)"""

    def __init__(self, an, f, source=None, make=None, params=None, depth=0, before=False):
        self.before = before          # the source statement itself is still to be run
        self.an, self.f, self.depth = an, f, depth
        self.source, self.make = source, make
        self.silent = []          # (node, state) where the outcome is lost
        self.flagged = set()      # positions of returned values that carry the outcome
        self.entered = False
        self.start = params

    def run(self):
        sts = [self.start] if self.start is not None else []
        out = self.block(self.f.body, sts)
        for s in out:
            if not s.told:
                self.silent.append((self.f.node, s))
        return self

    def dedupe(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out[:200]

    def block(self, body, sts):
        for s in body:
            if s is self.source:
                self.entered = True
                sts = sts + self.make(self)
                if not self.before:
                    continue
            if not sts and not self.contains(s):
                continue
            sts = self.stmt(s, sts)
            sts = self.dedupe(sts)
        return sts

    def contains(self, s):
        return self.source is not None and any(n is self.source for n in ast.walk(s))

    # -- evaluation -----------------------------------------------------
    def ev(self, e, st):
        if isinstance(e, ast.Constant):
            return bool(e.value) if not isinstance(e.value, (int, float)) or isinstance(e.value, bool) else e.value
        t = canon(e)
        if t in st.env:
            return st.env[t]
        if t in st.facts:
            return st.facts[t]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.Invert)):
            v = self.ev(e.operand, st)
            return (not v) if v not in (L, U) else v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(e.operand, st)
            return -v if v not in (L, U) else v
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            vals = e.values if isinstance(e, ast.BoolOp) else [e.left, e.right]
            isand = isinstance(e.op, (ast.And, ast.BitAnd))
            vs = [self.ev(v, st) for v in vals]
            for v in vs:
                if v not in (L, U) and bool(v) != isand:
                    return not isand
            if any(v == U for v in vs):
                return U
            if any(v == L for v in vs):
                return L
            return isand
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, st), self.ev(e.comparators[0], st)
            op = e.ops[0]
            if all(isinstance(x, (int, float)) for x in (a, b)) and not (isinstance(a, str) or isinstance(b, str)):
                r = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b,
                     ast.Is: a == b, ast.IsNot: a != b}.get(type(op))
                if r is not None:
                    return r
            r = self.relation(e, st)
            if r is not None:
                return r
        if isinstance(e, ast.Call):
            nm = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
            if nm in ('bool', 'all', 'any', 'int', 'bool_', 'asarray', 'logical_not'):
                args = list(e.args)
                if not args and isinstance(e.func, ast.Attribute):
                    args = [e.func.value]
                if args:
                    v = self.ev(args[0], st)
                    if nm == 'logical_not' and v not in (L, U):
                        return not v
                    return v
        for n in ast.walk(e):
            if isinstance(n, (ast.Name, ast.Attribute)) and canon(n) in st.names:
                return U
        return U

    def relation(self, e, st):
        op, l, r = e.ops[0], e.left, e.comparators[0]
        x, y = linear(l), linear(r)
        if x is None or y is None:
            return None
        for v, (o, b) in st.rel.items():
            if x.get(v) == 1 and v not in y:
                # v o b ;  v + c ? y
                z = dict(x)
                del z[v]
                for k, c in b.items():
                    z[k] = z.get(k, 0) + c
                d = diff(z, y)
                sgn = 1
            elif y.get(v) == 1 and v not in x:
                z = dict(y)
                del z[v]
                for k, c in b.items():
                    z[k] = z.get(k, 0) + c
                d = diff(z, x)
                sgn = -1
            else:
                continue
            if d is None:
                continue
            t = type(op)
            if sgn == -1:
                t = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(t, t)
            if o == '==':
                return {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0, ast.Eq: d == 0, ast.NotEq: d != 0}.get(t)
            if o == '>=':      # left - right >= d
                if t is ast.GtE and d >= 0 or t is ast.Gt and d > 0 or t is ast.NotEq and d > 0:
                    return True
                if t is ast.Lt and d >= 0 or t is ast.LtE and d > 0 or t is ast.Eq and d > 0:
                    return False
            if o == '<=':
                if t is ast.LtE and d <= 0 or t is ast.Lt and d < 0:
                    return True
                if t is ast.Gt and d <= 0 or t is ast.GtE and d < 0:
                    return False
        return None

    # -- statements -------------------------------------------------------
    def calls(self, e, sts):
        """effects of the calls inside an expression"""
        if e is None or not sts:
            return sts
        for c in ast.walk(e):
            if not isinstance(c, ast.Call):
                continue
            new = []
            for s in sts:
                if s.told:
                    new.append(s)
                    continue
                v = self.call(c, s)
                if v == 'raise':
                    continue
                if v:
                    s = s.copy()
                    s.told = True
                new.append(s)
            sts = new
        return sts

    def call(self, c, st):
        """True if the call surely tells, 'raise' if it surely raises"""
        sites = self.an.eff.sites.get(id(c), ())
        nm = getattr(c.func, 'id', getattr(c.func, 'attr', ''))
        if any(k == 'ext' and n in ('warnings.warn', 'warnings.warn_explicit', 'logging.warning', 'logging.error') for k, n in sites):
            return True
        if nm in ('warn', 'warning') and not any(k == 'fn' for k, n in sites):
            return True
        fns = [self.an.proj.funcs[n] for k, n in sites if k == 'fn' and n in self.an.proj.funcs]
        if not fns or self.depth > 3:
            return False
        res = []
        for g in fns:
            env = {}
            names = set()
            ps = list(g.params)
            if g.cls is not None and g.kind in ('method', 'class') and not (isinstance(c.func, ast.Attribute) and self.isclass(c.func.value)):
                ps = ps[1:]
            if any(isinstance(a, ast.Starred) for a in c.args):
                return False
            for p, a in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg]:
                v = self.ev(a, st)
                env[p] = v
                if v == L or v is True or v is False or isinstance(v, (int, float)):
                    if v == L or any(isinstance(n, (ast.Name, ast.Attribute)) and canon(n) in st.names for n in ast.walk(a)):
                        names.add(p)
            if not names and not self.always_tells(g):
                return False
            for p, d in g.defaults.items():
                if p not in env and isinstance(d, ast.Constant):
                    env[p] = bool(d.value) if not isinstance(d.value, (int, float)) else d.value
            env = {k: v for k, v in env.items() if v not in (L, U)}
            s0 = St(env=env, names=frozenset(names))
            w = Walk(self.an, g, params=s0, depth=self.depth + 1)
            w.returns_ok = False
            out = w.block(g.body, [s0])
            lost = [s for s in out if not s.told] + [s for n, s in w.silent]
            res.append((not lost, not out and not w.returned))
        if res and all(r[0] for r in res):
            return 'raise' if all(r[1] for r in res) else True
        return False

    def isclass(self, e):
        return False

    returned = False

    def always_tells(self, g):
        return len(g.body) <= 6

    def assign(self, t, value, st):
        before = st
        st = st.copy()
        v = self.ev(value, st) if value is not None else None
        related = value is not None and any(isinstance(n, (ast.Name, ast.Attribute)) and canon(n) in st.names for n in ast.walk(value))
        for n in targets(t):
            st.forget(n)
        if isinstance(t, (ast.Name, ast.Attribute)):
            n = canon(t)
            if v is not None and v not in (L, U):
                st.env[n] = v
            st.names = st.names | {n} if related else st.names - {n}
            if isinstance(t, ast.Attribute) and related and self.outcome(value, v, before):
                st.told = True
        return st

    def vacuous(self, e, st):
        """a comparison of the counter that has the same value however the loop ended"""
        if not isinstance(e, ast.Compare):
            return False
        t = st.copy()
        t.rel = {k: ('<=', b) for k, (o, b) in st.rel.items()}
        t.facts = {}
        return self.relation(e, t) is not None if len(e.ops) == 1 else False

    def outcome(self, e, v, st):
        """the expression is a truth value that tells what happened"""
        return not self.vacuous(e, st) and not isinstance(e, ast.Constant) and (v is True or v is False or v == L and isinstance(e, (ast.Compare, ast.BoolOp)))

    def stmt(self, s, sts):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s, sts)
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                sts = self.calls(ch, sts)
        return sts

    def s_FunctionDef(self, s, sts):
        return sts

    s_ClassDef = s_FunctionDef

    def s_Assign(self, s, sts):
        sts = self.calls(s.value, sts)
        out = []
        for st in sts:
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    for x, v in zip(t.elts, s.value.elts):
                        st = self.assign(x, v, st)
                elif isinstance(t, (ast.Name, ast.Attribute)):
                    st = self.assign(t, s.value, st)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    st = st.copy()
                    for n in targets(t):
                        st.forget(n)
            out.append(st)
        return out

    def s_AugAssign(self, s, sts):
        sts = self.calls(s.value, sts)
        out = []
        for st in sts:
            st = st.copy()
            for n in targets(s.target):
                st.forget(n)
            out.append(st)
        return out

    def s_Return(self, s, sts):
        sts = self.calls(s.value, sts)
        for st in sts:
            self.returned = True
            if st.told:
                continue
            pos = self.flag_positions(s.value, st)
            if pos:
                self.flagged.update(pos)
            else:
                self.silent.append((s, st))
        return []

    def flag_positions(self, e, st):
        if e is None:
            return set()
        out = set()
        if isinstance(e, ast.Tuple):
            for i, x in enumerate(e.elts):
                if self.is_flag(x, st):
                    out.add(i)
        elif self.is_flag(e, st):
            out.add(None)
        return out

    def is_flag(self, x, st):
        if isinstance(x, ast.Constant):
            return False
        related = any(isinstance(n, (ast.Name, ast.Attribute)) and canon(n) in st.names for n in ast.walk(x))
        if self.vacuous(x, st):
            return False
        v = self.ev(x, st)
        if isinstance(x, (ast.Name, ast.Attribute)):
            return related and v not in (L, U) and canon(x) in st.env or related and v in (True, False)
        return related and isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and (v in (True, False) or v == L)

    def s_Raise(self, s, sts):
        return []

    def s_If(self, s, sts):
        sts = self.calls(s.test, sts)
        yes, no = [], []
        for st in sts:
            v = self.ev(s.test, st)
            if v == L:
                # decides between the outcomes: the branch that tells stands for "not converged"
                yes.append(st.copy())
                no.append(st.copy())
            elif v == U:
                yes.append(st.copy())
                no.append(st.copy())
            elif v:
                yes.append(st)
            else:
                no.append(st)
        both = [st for st in sts if self.ev(s.test, st) == L]
        n0 = len(self.silent)
        a = self.block(s.body, yes)
        sa = self.silent[n0:]
        b = self.block(s.orelse, no)
        sb = self.silent[n0 + len(sa):]
        if both and len(both) == len(sts):
            ta = (not sa) and all(x.told for x in a)
            tb = (not sb) and all(x.told for x in b)
            if ta and not tb and (a or sa or self.terminates(s.body)):
                self.silent = self.silent[:n0] + sa
                for x in b:
                    x.told = True
            elif tb and not ta and (b or sb or self.terminates(s.orelse)):
                self.silent = self.silent[:n0] + sb
                for x in a:
                    x.told = True
        return a + b

    def terminates(self, body):
        return bool(body) and any(isinstance(n, (ast.Raise, ast.Return)) for x in body for n in ast.walk(x))

    def s_For(self, s, sts):
        sts = self.calls(s.iter, sts)
        ins = []
        for st in sts:
            st = st.copy()
            ins.append(st)
        brk = self.brk if hasattr(self, 'brk') else []
        self.brk = []
        after = []
        for st in ins:
            x = st.copy()
            for n in targets(s.target):
                x.forget(n)
            after.append(x)
        out = self.block(s.body, after)
        exits = self.brk
        self.brk = brk
        skip = [] if self.surely_runs(s) else ins
        fall = out + skip
        if s.orelse:
            fall = self.block(s.orelse, fall)
        return self.dedupe(fall + exits)

    def surely_runs(self, s):
        return False

    def s_While(self, s, sts):
        sts = self.calls(s.test, sts)
        brk = self.brk if hasattr(self, 'brk') else []
        self.brk = []
        ent = [st.copy() for st in sts if self.ev(s.test, st) not in (False, 0)]
        out = self.block(s.body, ent)
        exits = self.brk
        self.brk = brk
        skip = [st for st in sts if self.ev(s.test, st) in (L, U, False)]
        fall = out + skip
        if s.orelse:
            fall = self.block(s.orelse, fall)
        return self.dedupe(fall + exits)

    def s_Break(self, s, sts):
        if hasattr(self, 'brk'):
            self.brk = self.brk + sts
        return []

    def s_Continue(self, s, sts):
        # the next round, or what follows the loop
        if hasattr(self, 'brk'):
            self.brk = self.brk + sts
        return []

    def s_With(self, s, sts):
        for i in s.items:
            sts = self.calls(i.context_expr, sts)
        return self.block(s.body, sts)

    def s_Try(self, s, sts):
        out = self.block(s.body, sts)
        out = self.block(s.orelse, out) if s.orelse else out
        return self.block(s.finalbody, out) if s.finalbody else out

    s_TryStar = s_Try


def solver_loops(f):
    """(loop, states factory) for the loops with an iteration limit and a convergence exit"""
    consts = None
    for n in walk_local(f.body):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', '') in ('range', 'xrange') and isinstance(n.target, ast.Name):
            args = n.iter.args
            bound = args[0] if len(args) == 1 else args[1]
            if len(args) > 2:
                continue
            txt = ast.unparse(bound)
            if not (LIMIT.search(txt) or isinstance(bound, ast.Constant)):
                continue
            if not exits(n.body):
                continue
            if proj_origin(f) in EXEMPT:
                continue
            yield n, for_states(f, n, bound)
        elif isinstance(n, ast.While):
            conj = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
            consts = constants(f) if consts is None else consts
            stored = stored_names(n.body)
            lim = []
            for c in conj:
                v = counter(c, stored, n, consts)
                if v:
                    lim.append((c, v))
            brk = exits(n.body)
            if not lim or len(conj) == len(lim) and not brk or proj_origin(f) in EXEMPT:
                continue
            if not any(LIMIT.search(ast.unparse(c)) or isinstance(v[1], ast.Constant) for c, v in lim):
                continue
            yield n, while_states(f, n, conj, lim)


def limit_exits(f):
    """(loop, break, states factory) for the breaks taken because a counter has reached its limit"""
    for n in walk_local(f.body):
        if not isinstance(n, (ast.For, ast.While)) or proj_origin(f) in EXEMPT:
            continue
        count = set(targets(n.target)) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
            getattr(n.iter.func, 'id', getattr(n.iter.func, 'attr', '')) in ('range', 'count') else set()
        for m in walk_local(n.body):
            if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name) and isinstance(m.op, ast.Add) and isinstance(m.value, ast.Constant):
                count.add(m.target.id)
        if not count or len(exits(n.body)) < 2:
            continue
        for b, t in limit_breaks(n, count):
            if not (LIMIT.search(ast.unparse(t)) or any(isinstance(x, ast.Constant) for x in ast.walk(t))):
                continue

            def make(w, n=n, t=t):
                facts = end_facts(n.body, ('break',), t)
                return [St(env={k: v for k, v in facts.items() if k.isidentifier()}, facts=facts, names=frozenset(tested(n)))]
            yield n, b, make


def counted(n, stored):
    """names that in every round follow from the number of the round alone"""
    out = set(targets(n.target)) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
        getattr(n.iter.func, 'id', getattr(n.iter.func, 'attr', '')) in ('range', 'count') else set()
    defs = {}
    for m in walk_local(n.body):
        if isinstance(m, ast.Assign):
            for t in m.targets:
                for x in targets(t):
                    defs.setdefault(x, []).append(m.value if isinstance(t, ast.Name) else None)
        elif isinstance(m, ast.AugAssign):
            for x in targets(m.target):
                defs.setdefault(x, []).append(m.value)
        elif isinstance(m, (ast.For, ast.With, ast.NamedExpr)):
            for x in stored_names([m]):
                defs.setdefault(x, []).append(None)

    def plain(e, ok):
        return e is not None and all(x in ok or x not in stored for x in (y.id for y in ast.walk(e) if isinstance(y, ast.Name))) and not any(
            isinstance(y, (ast.Subscript, ast.Attribute)) or isinstance(y, ast.Call) and getattr(y.func, 'id', getattr(y.func, 'attr', '')) not in (
                'int', 'min', 'max', 'len', 'float', 'minimum', 'maximum', 'round') for y in ast.walk(e))
    cand = {x for x, vs in defs.items() if all(v is not None for v in vs)} - out
    while True:     # largest set of names defined from each other, the counters and what the loop leaves alone
        bad = {x for x in cand if not all(plain(v, out | cand) for v in defs[x])}
        if not bad:
            break
        cand -= bad
    # flags and constants are no counts
    return out | {x for x in cand if any(isinstance(y, ast.Name) and y.id in (out | cand | {x}) for v in defs[x] for y in ast.walk(v))
                  or any(isinstance(m, ast.AugAssign) and x in targets(m.target) for m in walk_local(n.body))}


def alternatives(e):
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
        return [y for v in e.values for y in alternatives(v)]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return alternatives(e.left) + alternatives(e.right)
    if isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) in ('logical_or', 'bool', 'bool_'):
        return [y for a in e.args for y in alternatives(a)]
    return [e]


def budget_exits(f):
    """(loop, statement, states factory, before) for stops by a convergence test that is also met when a budget is spent"""
    if proj_origin(f) in EXEMPT:
        return
    for n in walk_local(f.body):
        if not isinstance(n, (ast.For, ast.While)):
            continue
        stored = stored_names(n.body) | (set(targets(n.target)) if isinstance(n, ast.For) else set())
        count = counted(n, stored)
        if not count:
            continue
        flags = {}
        for m in walk_local(n.body):
            if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name):
                flags.setdefault(m.targets[0].id, []).append(m.value)

        def split(t):
            """(test on counts, the other alternatives) if t is a disjunction of both"""
            if isinstance(t, ast.Name) and len(flags.get(t.id, ())) == 1:
                t = flags[t.id][0]
            alts = alternatives(t)
            if len(alts) < 2:
                return None
            data, spent = [], []
            for a in alts:
                names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
                if isinstance(a, ast.Compare) and names & count and not (names - count) & stored and not any(isinstance(o, (ast.Eq, ast.NotEq)) for o in a.ops):
                    spent.append(a)
                elif names & stored:
                    data.append(a)
            return (spent[0], data) if spent and data else None

        def states(t, sp):
            def make(w):
                facts = {}
                for a in sp[1]:
                    put_fact(facts, a, False, {})
                put_fact(facts, sp[0], True, {})
                facts[canon(t)] = True
                return [St(env={k: v for k, v in facts.items() if k.isidentifier()}, facts=facts, names=frozenset(tested(n)))]
            return make

        def go(stmts):
            for s in stmts:
                if isinstance(s, ast.If):
                    ends = s.body and isinstance(s.body[-1], (ast.Break, ast.Return))
                    sp = split(s.test) if ends else None
                    if sp:
                        yield n, s.body[0], states(s.test, sp), True
                    yield from go(s.body)
                    yield from go(s.orelse)
                elif isinstance(s, ast.With):
                    yield from go(s.body)
        yield from go(n.body)
        if isinstance(n, ast.While):
            for c in n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]:
                if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(c.operand, ast.Name):
                    sp = split(c.operand)
                    if sp:
                        yield n, n, states(c.operand, sp), False


def counter(c, stored, loop, consts):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(c.operand, ast.Compare) and len(c.operand.ops) == 1:
        neg = {ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.Lt: ast.GtE, ast.LtE: ast.Gt}.get(type(c.operand.ops[0]))
        if neg is None:
            return None
        c = ast.Compare(left=c.operand.left, ops=[neg()], comparators=c.operand.comparators)
    if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
        return None
    l, op, r = c.left, c.ops[0], c.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        l, r = r, l
        op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(l, ast.Name) or l.id not in stored:
        return None
    if any(isinstance(x, ast.Name) and x.id in stored for x in ast.walk(r)):
        return None
    # counted by a fixed step somewhere in the body
    for m in walk_local(loop.body):
        if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name) and m.target.id == l.id and isinstance(m.op, ast.Add):
            return l.id, r, isinstance(op, ast.LtE), isinstance(m.value, ast.Constant) and m.value.value == 1
        if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == l.id for t in m.targets):
            a = affine(m.value, l.id, consts)
            if a is not None and a[0] == 1 and a[1] > 0:
                return l.id, r, isinstance(op, ast.LtE), a[1] == 1
    return None


def exits(body):
    """break/return statements of this loop that stand under a test"""
    out = []

    def go(stmts, cond, inner):
        for s in stmts:
            if isinstance(s, ast.Break) and not inner and cond:
                out.append(s)
            elif isinstance(s, ast.Return) and cond:
                out.append(s)
            elif isinstance(s, ast.If):
                go(s.body, True, inner)
                go(s.orelse, True, inner)
            elif isinstance(s, (ast.For, ast.While)):
                go(s.body, cond, True)
                go(s.orelse, cond, inner)
            elif isinstance(s, ast.With):
                go(s.body, cond, inner)
            elif isinstance(s, ast.Try):
                go(s.body, cond, inner)
                for h in s.handlers:
                    go(h.body, True, inner)
                go(s.orelse, cond, inner)
    go(body, False, False)
    return out


def end_facts(body, outs=('next', 'continue'), last=None):
    """facts that hold at the end of a round that neither broke nor returned (common to all such paths)"""
    res, envs = None, None
    for p in Paths().block(body):
        if p.out not in outs:
            continue
        if last is not None and not any(e[0] == 'test' and e[1] is last for e in p.ev):
            continue
        facts, defs, env = {}, {}, {}

        def forget(n):
            pat = re.compile(r'(?<![\w.])%s(?!\w)' % re.escape(n))
            for k in [k for k in facts if pat.search(k)]:
                del facts[k]
            env.pop(n, None)
        for e in p.ev:
            if e[0] == 'test':
                put_fact(facts, e[1], e[2], defs)
            elif e[0] == 'asg':
                forget(e[1])
                defs[e[1]] = e[2]
                for k in [k for k, d in defs.items() if k != e[1] and d is not None and any(isinstance(n, ast.Name) and n.id == e[1] for n in ast.walk(d))]:
                    defs[k] = None
                if isinstance(e[2], ast.Constant) and isinstance(e[2].value, bool):
                    env[e[1]] = e[2].value
            elif e[0] == 'multi':
                for n, x in e[1]:
                    forget(n)
                    defs[n] = None
            elif e[0] in ('up', 'down'):
                forget(e[1])
                defs[e[1]] = None
        facts.update({k: v for k, v in env.items()})
        res = facts if res is None else {k: v for k, v in res.items() if facts.get(k) == v}
    return res or {}


def single_update(n, v):
    ups = [m for m in walk_local(n.body) if isinstance(m, (ast.Assign, ast.AugAssign)) and v in
           [x for t in (m.targets if isinstance(m, ast.Assign) else [m.target]) for x in targets(t)]]
    return len(ups) == 1


def carried(f, n):
    """facts after the last round: those of the round itself, and flags that no round but a converged one changes"""
    facts = end_facts(n.body)
    init = {}
    for m in walk_local(f.body):
        if isinstance(m, ast.Assign) and m.lineno < n.lineno:
            for t in m.targets:
                for x in targets(t):
                    init[x] = m.value.value if isinstance(t, ast.Name) and isinstance(m.value, ast.Constant) and isinstance(m.value.value, bool) else None
    for v in sorted(stored_names(n.body)):
        if init.get(v) is None or v in facts:
            continue
        ends = []
        for p in Paths().block(n.body):
            if p.out not in ('next', 'continue'):
                continue
            val = init[v]
            for e in p.ev:
                if e[0] == 'asg' and e[1] == v:
                    val = e[2].value if isinstance(e[2], ast.Constant) and isinstance(e[2].value, bool) else None
                elif e[0] == 'multi' and any(x == v for x, _ in e[1]) or e[0] in ('up', 'down') and e[1] == v:
                    val = None
                elif e[0] == 'test':
                    t = {}
                    put_fact(t, e[1], e[2], {})
                    if v in t:
                        val = t[v]
            ends.append(val)
        if ends and all(x == init[v] for x in ends):
            facts[v] = init[v]
    return facts


def limit_breaks(n, count):
    """break statements taken because of the counter alone"""
    out = []
    stored = stored_names(n.body)

    def go(stmts, tests):
        for s in stmts:
            if isinstance(s, ast.Break):
                if tests and about(tests[-1]):
                    out.append((stmts[0], tests[-1]))
            elif isinstance(s, ast.If):
                go(s.body, tests + [s.test])
                go(s.orelse, tests + [s.test])
            elif isinstance(s, ast.With):
                go(s.body, tests)

    def about(t):
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        return bool(names & count) and not (names - count) & stored and isinstance(t, ast.Compare)
    go(n.body, [])
    return out


def tested(n):
    """names the convergence test is about"""
    out = set(stored_names(n.body))
    if isinstance(n, ast.For):
        out.update(targets(n.target))
    return out


def for_states(f, n, bound):
    def make(w):
        b = linear(bound)
        rel = {}
        v = n.target.id
        if b is not None and v not in stored_names(n.body):
            b = dict(b)
            b[''] = b.get('', 0) - 1
            rel[v] = ('==', b)
        facts = carried(f, n)
        st = St(env=dict({k: t for k, t in facts.items() if k.isidentifier()}), rel=rel, facts=facts, names=frozenset(tested(n)))
        sts = [st]
        if n.orelse:
            sts = w.block(n.orelse, sts)
        return sts
    return make


def while_states(f, n, conj, lim):
    def make(w):
        out = []
        for c, (v, bound, eq, exact) in lim:
            facts = carried(f, n)
            # the other conditions still ask for another round
            for o in conj:
                if all(o is not x for x, _ in lim):
                    put_fact(facts, o, True, {})
            rel = {}
            b = linear(bound)
            if b is not None:
                b = dict(b)
                if eq:
                    b[''] = b.get('', 0) + 1
                rel[v] = ('==' if exact and single_update(n, v) else '>=', b)
            st = St(env={k: t for k, t in facts.items() if k.isidentifier()}, rel=rel, facts=facts, names=frozenset(tested(n)))
            sts = [st]
            if n.orelse:
                sts = w.block(n.orelse, sts)
            out += sts
        return out
    return make


class An(object):
    def __init__(self, proj, eff):
        self.proj, self.eff = proj, eff


def flag_sites(an, q):
    """(caller, statement, call) for the calls of q"""
    for f in an.proj.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        for s in walk_local(f.body):
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign, ast.AnnAssign)) or s.value is None:
                continue
            for c in ast.walk(s.value):
                if isinstance(c, ast.Call) and ('fn', q) in an.eff.sites.get(id(c), ()):
                    yield f, s, c


def follow(an, r, f, source, make, what, key, seen, st, before=False):
    """walk from source; report lost outcomes; follow flags into the callers"""
    w = Walk(an, f, source, make, before=before).run()
    st['paths'] += 1
    if w.silent:
        n = w.silent[0][0]
        line = getattr(n, 'lineno', f.line)
        r.add(key, '%s (%s:%d) %s is not reported on a path ending at line %d' % (f.qual, f.path, source.lineno, what, line), '%s:%d' % (f.path, source.lineno))
        return
    for pos in w.flagged:
        if (f.qual, pos) in seen:
            continue
        seen.add((f.qual, pos))
        for g, s, c in flag_sites(an, f.qual):
            st['flag_uses'] += 1
            if isinstance(s, ast.Return) and s.value is c:
                follow_flag_through(an, r, g, pos, what, seen, st)
                continue
            if isinstance(s, ast.Assign) and s.value is c and len(s.targets) == 1:
                t = s.targets[0]
                if isinstance(t, (ast.Tuple, ast.List)) and pos is not None and pos < len(t.elts) and isinstance(t.elts[pos], (ast.Name, ast.Attribute)):
                    nm = canon(t.elts[pos])
                elif isinstance(t, ast.Name) and pos is None:
                    nm = t.id
                elif isinstance(t, ast.Name):
                    nm = '%s[%d]' % (t.id, pos)
                else:
                    continue

                def mk(w, nm=nm):
                    return [St(env={nm: False}, facts={nm: False}, names=frozenset([nm]))]
                follow(an, r, g, s, mk, what + ' handed back by ' + f.qual, '%s: drops the outcome of %s' % (g.qual, f.qual), seen, st)


def follow_flag_through(an, r, g, pos, what, seen, st):
    if (g.qual, pos) in seen:
        return
    seen.add((g.qual, pos))
    for h, s, c in flag_sites(an, g.qual):
        if isinstance(s, ast.Return) and s.value is c:
            follow_flag_through(an, r, h, pos, what, seen, st)


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    an = An(proj, eff)
    r = Result(rule='after a loop ends by its iteration limit with the convergence test unmet, every path warns, raises, or hands back or stores a value '
                    'computed from the outcome, and callers do the same with a handed back flag',
               explanation='the limit-reached state of every limited iteration is propagated through the rest of the function, its helpers and callers')
    st = {'solver_loops': 0, 'status_calls': 0, 'paths': 0, 'flag_uses': 0}
    seen = set()
    for q, f in sorted(proj.funcs.items()):
        if isinstance(f.node, ast.Lambda):
            continue
        for n, make in solver_loops(f):
            st['solver_loops'] += 1
            r.samples.append('%s:%d %s' % (f.path, n.lineno, ast.unparse(n).split('\n')[0]))
            follow(an, r, f, n, make, 'reaching the iteration limit', '%s: iteration limit' % q, seen, st)
        for n, b, make in limit_exits(f):
            st['solver_loops'] += 1
            follow(an, r, f, b, make, 'stopping at the iteration limit', '%s: iteration limit' % q, seen, st, before=True)
        for n, b, make, before in budget_exits(f):
            st['solver_loops'] += 1
            follow(an, r, f, b, make, 'spending the budget counted as convergence', '%s: budget' % q, seen, st, before=before)
        for s in walk_local(f.body):
            if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(s.targets) == 1):
                continue
            t, c = s.targets[0], s.value
            nm = getattr(c.func, 'attr', getattr(c.func, 'id', ''))
            if nm in STATUS and isinstance(t, ast.Tuple) and len(t.elts) > STATUS[nm][0] and isinstance(t.elts[STATUS[nm][0]], ast.Name):
                v = t.elts[STATUS[nm][0]].id
                keys = [v]
                vals = STATUS[nm][1]
            elif any(k.arg == 'full_output' and isinstance(k.value, ast.Constant) and k.value.value for k in c.keywords) and isinstance(t, ast.Name):
                keys, vals = ['%s[-1]' % t.id], (1, 2)
            else:
                continue
            st['status_calls'] += 1
            for k in keys:
                for val in vals:
                    def mk(w, k=k, val=val, t=t):
                        nms = {k, k.split('[')[0]}
                        return [St(env={k: val}, names=frozenset(nms))]
                    w = Walk(an, f, s, mk).run()
                    st['paths'] += 1
                    if w.silent:
                        r.add('%s: status %s of %s' % (q, val, nm), '%s (%s:%d) failure status %s = %s of %s is not reported on every path' % (
                            q, f.path, s.lineno, k, val, ast.unparse(c.func)), '%s:%d' % (f.path, s.lineno))
    r.coverage = st
    return r
