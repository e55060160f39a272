"""Put equivalent spellings of a test into one form before the analyses see the tree.

A local variable that only names the outcome of a test (``cond = a is None; ...; if cond:``) is replaced by the test
itself where it is used, provided nothing the test mentions can have changed in between. A chained comparison of
plain operands is split into its parts. Only conditions are rewritten; statements, calls and line numbers stay.
"""
import ast
import copy

PURE = {'isinstance', 'hasattr', 'callable', 'len', 'issubclass', 'bool'}
PURE_ATTR = {'isscalar', 'any', 'all', 'size', 'ndim', 'lower', 'upper', 'startswith', 'endswith', 'strip', 'isnan', 'isfinite', 'isinf', 'iscomplexobj'}
DEFS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            if not (isinstance(f, ast.Name) and (f.id in PURE or f.id in ('any', 'all', 'isscalar')) or
                    isinstance(f, ast.Attribute) and f.attr in PURE_ATTR):
                return False
        elif isinstance(n, DEFS + (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom) + COMPS):
            return False
    return True


def _testlike(e):
    if isinstance(e, (ast.Compare, ast.BoolOp)):
        return True
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return True
    return isinstance(e, ast.Call)


def _root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def _tests(fn):
    """(owner node, field) of every expression evaluated for its truth, with the local statement order"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            yield n, 'test'


def _truth_names(e, out):
    """Name nodes in positions of e that are only asked for their truth"""
    if isinstance(e, ast.Name):
        out.append(e)
    elif isinstance(e, ast.BoolOp):
        for v in e.values:
            _truth_names(v, out)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        _truth_names(e.operand, out)


def _simple(x):
    if isinstance(x, ast.UnaryOp):
        x = x.operand
    while isinstance(x, ast.Attribute):
        x = x.value
    return isinstance(x, (ast.Name, ast.Constant))


class _Split(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        xs = [n.left] + n.comparators
        if len(n.ops) > 1 and all(_simple(x) for x in xs[1:-1]):
            v = [ast.copy_location(ast.Compare(xs[i] if i == 0 else copy.deepcopy(xs[i]), [n.ops[i]], [xs[i + 1]]), n)
                 for i in range(len(n.ops))]
            return ast.copy_location(ast.BoolOp(ast.And(), v), n)
        return n


def _function(fn):
    a = fn.args
    params = {x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    order = {}           # id(stmt) -> position; statements in source order, nested ones included
    inloop = {}
    stores, loads, attr_stores, calls = {}, {}, [], []
    shadow = set()
    pos = [0]
    blocks = {}

    def visit(stmts, loop, block):
        for i, s in enumerate(stmts):
            pos[0] += 1
            order[id(s)] = pos[0]
            inloop[id(s)] = loop
            blocks[id(s)] = (stmts, i)
            if isinstance(s, DEFS):
                shadow.add(getattr(s, 'name', None))
                for n in ast.walk(s):
                    if isinstance(n, ast.Name):
                        shadow.add(n.id)
                continue
            exprs = []
            for f, v in ast.iter_fields(s):
                if f in ('body', 'orelse', 'finalbody', 'handlers'):
                    continue
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, ast.AST):
                        exprs.append(x)
            for x in exprs:
                for n in ast.walk(x):
                    if isinstance(n, ast.Name):
                        (loads if isinstance(n.ctx, ast.Load) else stores).setdefault(n.id, []).append((pos[0], s, n))
                    elif isinstance(n, (ast.Lambda,) + COMPS):
                        for m in ast.walk(n):
                            if isinstance(m, ast.Name):
                                if isinstance(n, ast.Lambda) or isinstance(m.ctx, ast.Store):
                                    shadow.add(m.id)
                    elif isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                        attr_stores.append((pos[0], _root(n)))
                    elif isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Attribute):
                            calls.append((pos[0], _root(n.func)))
                        for y in list(n.args) + [k.value for k in n.keywords]:
                            r = _root(y)
                            if r:
                                calls.append((pos[0], r))
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                shadow.update(s.names)
            lp = loop
            if isinstance(s, (ast.For, ast.While)):
                lp = loop + (id(s),)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    visit(b, lp, b)
            for h in getattr(s, 'handlers', []) or []:
                if h.name:
                    stores.setdefault(h.name, []).append((pos[0], s, None))
                visit(h.body, lp, h.body)
    visit(fn.body, (), fn.body)
    for name, sts in list(stores.items()):
        if len(sts) != 1 or name in params or name in shadow:
            continue
        p0, s, node = sts[0]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and s.targets[0] is node):
            continue
        E = s.value
        uses = loads.get(name, [])
        if not uses or isinstance(E, (ast.Constant, ast.Lambda)):
            continue
        tn = []
        for p, u, n in uses:
            for m in ast.walk(u) if not isinstance(u, (ast.If, ast.While)) else ast.walk(u.test):
                if isinstance(m, ast.IfExp):
                    _truth_names(m.test, tn)
            if isinstance(u, (ast.If, ast.While, ast.Assert)):
                _truth_names(u.test, tn)
        ids = {id(n) for n in tn}
        if not all(id(n) in ids for p, u, n in uses):
            continue
        single = len(uses) == 1
        stm, i = blocks[id(s)]
        adjacent = single and i + 1 < len(stm) and uses[0][1] is stm[i + 1] and isinstance(uses[0][1], (ast.If, ast.Assert))
        if not adjacent:
            if not (_testlike(E) and _pure(E)) or (any(isinstance(m, ast.Call) for m in ast.walk(E)) and len(uses) > 4):
                continue
            names = {n.id for n in ast.walk(E) if isinstance(n, ast.Name)}
            last = max(p for p, u, n in uses)
            if any(p <= p0 for p, u, n in uses):
                continue
            loop = inloop[id(s)]
            ok = True
            for nm in names:
                for p, _, _ in stores.get(nm, []):
                    if p0 < p <= last or (loop and p > p0):
                        ok = False
                # a use in a loop the definition is outside of sees later stores of the loop, too
                for q, u, n in uses:
                    inner = [l for l in inloop[id(u)] + ((id(u),) if isinstance(u, ast.While) else ()) if l not in loop]
                    if inner and any(set(inloop[id(x)]) & set(inner) for _, x, _ in stores.get(nm, [])):
                        ok = False
            deep = any(isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)) for n in ast.walk(E))
            if deep:
                for p, r in attr_stores:
                    if r in names and (p0 < p <= last or loop):
                        ok = False
                muts = {r for p, r in calls if p0 < p < last}
                if any(r in muts for r in names if r == 'self') and any(isinstance(n, ast.Attribute) and _root(n) == 'self' for n in ast.walk(E)):
                    ok = False
            if not ok:
                continue
        _Repl({id(n) for p, u, n in uses}, E).visit(fn)
        # the variable has no use left; one copy of the test stays where it is evaluated when there are several
        s.value = ast.copy_location(ast.Constant(value=False), E)
        return True
    return False


class _Repl(ast.NodeTransformer):
    def __init__(self, ids, E):
        self.ids, self.E, self.first = ids, E, True

    def visit_Name(self, n):
        if id(n) in self.ids:
            if self.first and len(self.ids) == 1:
                e = self.E
            else:
                e = copy.deepcopy(self.E)
            self.first = False
            return e
        return n


class _Returns(ast.NodeTransformer):
    """v = e; return v  ->  return e"""
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        uses = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                uses[n.id] = uses.get(n.id, 0) + 1
        self.block(fn, uses)
        return fn

    def block(self, node, uses):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if not isinstance(b, list):
                continue
            for s in b:
                if not isinstance(s, DEFS):
                    self.block(s, uses)
            if len(b) > 1 and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Name) and isinstance(b[-2], ast.Assign) \
                    and len(b[-2].targets) == 1 and isinstance(b[-2].targets[0], ast.Name) and b[-2].targets[0].id == b[-1].value.id \
                    and uses.get(b[-1].value.id) == 2:
                b[-2:] = [ast.copy_location(ast.Return(b[-2].value), b[-2])]
        for h in getattr(node, 'handlers', []) or []:
            self.block(h, uses)


class _Match(ast.NodeTransformer):
    """match x: case 'a' | 'b': ...  ->  if x in ('a', 'b'): ..., for patterns of values, sequences of them and wildcards"""
    count = 0

    def visit_Match(self, n):
        self.generic_visit(n)
        subj, pre = n.subject, []
        if not _simple(subj) and not (isinstance(subj, ast.Tuple) and all(_simple(x) for x in subj.elts)):
            _Match.count += 1
            nm = '_match%d' % _Match.count
            pre = [ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], subj), n)]
            subj = ast.Name(nm, ast.Load())
        out = []
        for c in n.cases:
            binds = []
            t = self.test(subj, c.pattern, binds)
            if t is None:
                return n
            if c.guard is not None:
                if binds:
                    return n
                t = c.guard if t is True else ast.BoolOp(ast.And(), [t, c.guard])
            body = [ast.Assign([ast.Name(b, ast.Store())], copy.deepcopy(v)) for b, v in binds] + c.body
            out.append((t, body))
            if t is True:
                break
        tail = []
        for t, body in reversed(out):
            tail = body if t is True else [ast.If(t, body, tail)]
        r = pre + tail
        for x in r:
            for y in ast.walk(x):
                if 'lineno' in getattr(y, '_attributes', ()) and not hasattr(y, 'lineno'):
                    ast.copy_location(y, n)
        return r

    def test(self, subj, p, binds):
        """the condition; True if it always holds; None if the pattern is of another form"""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(copy.deepcopy(subj), [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(copy.deepcopy(subj), [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    binds.append((p.name, subj))
                return True
            t = self.test(subj, p.pattern, binds)
            if p.name:
                binds.append((p.name, subj))
            return t
        if isinstance(p, ast.MatchOr):
            if all(isinstance(x, ast.MatchValue) for x in p.patterns):
                return ast.Compare(copy.deepcopy(subj), [ast.In()], [ast.Tuple([x.value for x in p.patterns], ast.Load())])
            ts = [self.test(subj, x, []) for x in p.patterns]
            if None in ts:
                return None
            return True if True in ts else ast.BoolOp(ast.Or(), ts)
        if isinstance(p, ast.MatchSequence) and isinstance(subj, ast.Tuple) and len(subj.elts) == len(p.patterns) \
                and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            ts = [self.test(a, b, binds) for a, b in zip(subj.elts, p.patterns)]
            if None in ts:
                return None
            ts = [t for t in ts if t is not True]
            return True if not ts else ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts)
        return None


class _Loops(ast.NodeTransformer):
    """enumerate without a use for the number -> plain loop; a counter run up by a while loop -> loop over a range"""
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        self.names = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                self.names.setdefault(n.id, []).append(n)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    self.names.setdefault(x, []).extend([n] * 9)
        self.block(fn)
        return fn

    def block(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if isinstance(s, DEFS):
                    continue
                self.block(s)
                if isinstance(s, ast.For):
                    self.enum(s)
                elif isinstance(s, ast.While):
                    r = self.counter(b, i, s)
                    if r is not None:
                        b[i] = r
        for h in getattr(node, 'handlers', []) or []:
            self.block(h)

    def enum(self, s):
        it, t = s.iter, s.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 \
                and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name) \
                and len(self.names.get(t.elts[0].id, ())) == 1 and not isinstance(it.args[0], ast.Starred):
            s.iter, s.target = it.args[0], t.elts[1]

    def counter(self, b, i, w):
        t = w.test
        if w.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt)
                            and isinstance(t.left, ast.Name)):
            return None
        c, hi = t.left.id, t.comparators[0]
        uses = self.names.get(c, [])
        if isinstance(hi, ast.Call) and isinstance(hi.func, ast.Name) and hi.func.id == 'len' and len(hi.args) == 1:
            base = hi.args[0]
        else:
            base = hi
        if not (isinstance(base, ast.Name) or isinstance(base, ast.Constant) and isinstance(base.value, int)):
            return None
        inside = [n for s in w.body for n in ast.walk(s)]
        if isinstance(base, ast.Name):
            for n in inside:
                if isinstance(n, ast.Name) and n.id == base.id and not isinstance(n.ctx, ast.Load):
                    return None
                if base is not hi and isinstance(n, ast.Call) and _root(n.func) == base.id:
                    return None                      # the list may grow
        inc = [k for k, s in enumerate(w.body) if self.is_inc(s, c)]
        if len(inc) != 1:
            return None
        k = inc[0]
        # where the counter starts
        j = i - 1
        while j >= 0 and isinstance(b[j], ast.Assign) and not (
                len(b[j].targets) == 1 and isinstance(b[j].targets[0], ast.Name) and b[j].targets[0].id == c):
            if any(isinstance(n, ast.Name) and n.id == c for n in ast.walk(b[j])):
                return None
            j -= 1
        if j < 0 or not isinstance(b[j], ast.Assign):
            return None
        lo = b[j].value
        if not (_simple(lo)):
            return None
        if isinstance(lo, ast.Name) and any(isinstance(n, ast.Name) and n.id == lo.id and not isinstance(n.ctx, ast.Load)
                                            for s in b[j + 1:i] for n in ast.walk(s)):
            return None
        mine = {id(n) for n in inside} | {id(n) for n in ast.walk(t)} | {id(b[j].targets[0])}
        if any(id(n) not in mine for n in uses):
            return None
        stores = [n for n in uses if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)]
        if len(stores) != 2:
            return None
        loads = [n for n in uses if n not in stores]
        if k == len(w.body) - 1 and k > 0 and not self.continues(w.body):
            target, body = c, w.body[:-1]
        elif k == 1 and isinstance(w.body[0], ast.Assign) and len(w.body[0].targets) == 1 and isinstance(w.body[0].targets[0], ast.Name) \
                and isinstance(w.body[0].value, ast.Name) and w.body[0].value.id == c \
                and len(loads) - (0 if isinstance(w.body[k], ast.AugAssign) else 1) == 2 and len(w.body) > 2:
            target, body = w.body[0].targets[0].id, w.body[2:]
        else:
            return None
        it = ast.Call(ast.Name('range', ast.Load()), [hi] if isinstance(lo, ast.Constant) and lo.value == 0 else [copy.deepcopy(lo), hi], [])
        r = ast.For(ast.Name(target, ast.Store()), it, body, [])
        for y in (r, r.target, it, it.func):
            ast.copy_location(y, w)
        for y in ast.walk(it):
            if not hasattr(y, 'lineno') and 'lineno' in getattr(y, '_attributes', ()):
                ast.copy_location(y, w)
        return r

    def is_inc(self, s, c):
        one = lambda e: isinstance(e, ast.Constant) and e.value == 1 and isinstance(e.value, int)
        if isinstance(s, ast.AugAssign):
            return isinstance(s.target, ast.Name) and s.target.id == c and isinstance(s.op, ast.Add) and one(s.value)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == c:
            v = s.value
            return isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and (
                isinstance(v.left, ast.Name) and v.left.id == c and one(v.right)
                or isinstance(v.right, ast.Name) and v.right.id == c and one(v.left))
        return False

    def continues(self, body):
        for s in body:
            if isinstance(s, ast.Continue):
                return True
            if isinstance(s, DEFS + (ast.For, ast.While)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if self.continues(getattr(s, f, None) or []):
                    return True
            for h in getattr(s, 'handlers', []) or []:
                if self.continues(h.body):
                    return True
        return False


def normalize(tree):
    if hasattr(ast, 'Match'):
        tree = _Match().visit(tree)
    tree = _Loops().visit(tree)
    tree = _Returns().visit(tree)
    tree = _Split().visit(tree)
    for f in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        for _ in range(200):
            if not _function(f):
                break
    return tree
