"""C13: every call ends.

For every while loop a measure is sought: a variable that strictly grows (or shrinks) on every path
from the loop head back to it, together with a bound on it that is tested on every such path and
does not move away.  For loops must not run over endless iterators or over a list they extend.
Recursive calls must come closer to a tested base case.
"""
import ast
from ..framework import Result
from ..project import walk_local

MAXPATHS = 400


class Path(object):
    __slots__ = ('ev', 'out')

    def __init__(self, ev=(), out='next'):
        self.ev, self.out = tuple(ev), out


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            for y in targets(x):
                yield y
    elif isinstance(t, ast.Starred):
        for y in targets(t.value):
            yield y
    elif isinstance(t, ast.Attribute):
        yield ast.unparse(t)


def stored_names(body):
    out = set()
    for n in walk_local(body):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                out.update(targets(t))
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            out.update(targets(n.target))
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    out.update(targets(i.optional_vars))
    return out


def idx_events(e):
    """subscripts and list operations evaluated unconditionally in an expression"""
    out = []
    for n in ast.walk(e):
        if isinstance(n, (ast.IfExp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.BoolOp)):
            return out
    for n in ast.walk(e):
        if isinstance(n, ast.Subscript):
            s = n.slice
            for x in (s.elts if isinstance(s, ast.Tuple) else [s]):
                if isinstance(x, ast.Name):
                    out.append(('idx', x.id))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ('pop', 'popleft', 'popitem', 'remove'):
                out.append(('pop', ast.unparse(n.func.value)))
            elif n.func.attr in ('append', 'extend', 'insert', 'appendleft', 'add', 'update', 'push'):
                out.append(('push', ast.unparse(n.func.value)))
        elif isinstance(n, ast.NamedExpr):
            out.append(('asg', n.target.id, n.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
            out.append(('next', ast.unparse(n.args[0])))
    return out


class Paths(object):
    def __init__(self):
        self.overflow = False

    def block(self, body):
        ps = [Path()]
        for s in body:
            new = []
            for p in ps:
                if p.out != 'next':
                    new.append(p)
                    continue
                for q in self.stmt(s):
                    new.append(Path(p.ev + q.ev, q.out))
            ps = new
            if len(ps) > MAXPATHS:
                self.overflow = True
                ps = ps[:MAXPATHS]
        return ps

    def tests(self, e, truth):
        """facts known when e has the given truth"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.tests(e.operand, not truth)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == truth:
                out = []
                for v in e.values:
                    out += self.tests(v, truth)
                return out
            if len(e.values) == 1:
                return self.tests(e.values[0], truth)
            return [('or', [self.tests(v, truth) for v in e.values])]
        if isinstance(e, ast.Compare) and len(e.ops) > 1 and truth:
            out, left = [], e.left
            for o, c in zip(e.ops, e.comparators):
                out.append(('test', ast.Compare(left=left, ops=[o], comparators=[c]), True))
                left = c
            return out
        return [('test', e, truth)]

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            ev = idx_events(s.value)
            for t in s.targets:
                ev += idx_events(t) if not isinstance(t, ast.Name) else []
                if isinstance(t, ast.Name):
                    ev.append(('asg', t.id, s.value))
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    pairs = []
                    for x, v in zip(t.elts, s.value.elts):
                        if isinstance(x, ast.Name):
                            pairs.append((x.id, v))
                        else:
                            for n in targets(x):
                                pairs.append((n, None))
                    ev.append(('multi', pairs))
                else:
                    for n in targets(t):
                        ev.append(('asg', n, s.value if isinstance(t, ast.Attribute) else None))
            return [Path(ev)]
        if isinstance(s, ast.AnnAssign):
            return [Path(idx_events(s.value) + [('asg', n, s.value) for n in targets(s.target)])] if s.value is not None else [Path()]
        if isinstance(s, ast.AugAssign):
            ev = idx_events(s.value)
            for n in targets(s.target):
                left = ast.parse(n, mode='eval').body
                ev.append(('asg', n, ast.BinOp(left=left, op=s.op, right=s.value)))
            return [Path(ev)]
        if isinstance(s, ast.Expr):
            return [Path(idx_events(s.value))]
        if isinstance(s, ast.If):
            out = []
            pre = idx_events(s.test)
            for body, tr in ((s.body, True), (s.orelse, False)):
                if isinstance(s.test, ast.Constant) and bool(s.test.value) != tr:
                    continue
                for p in self.block(body):
                    out.append(Path(tuple(pre) + tuple(self.tests(s.test, tr)) + p.ev, p.out))
            return out
        if isinstance(s, (ast.For, ast.While)):
            out = []
            clob = stored_names([s])
            inner = self.block(s.body)
            eff = []
            for n in sorted(clob):
                steps = []
                for p in inner:
                    steps += [e for e in p.ev if e[0] == 'asg' and e[1] == n] + [('asg', n, None) for e in p.ev if e[0] == 'multi' for (m, _) in e[1] if m == n]
                up = steps and all(_step(e, n) is not None and _step(e, n) >= 0 for e in steps)
                dn = steps and all(_step(e, n) is not None and _step(e, n) <= 0 for e in steps)
                eff.append(('up', n) if up else ('down', n) if dn else ('asg', n, None))
            for p in inner:
                eff += [e for e in p.ev if e[0] == 'push' and e not in eff]
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            if isinstance(s, ast.For) or not forever:
                out.append(Path(eff))
                if isinstance(s, ast.While):
                    out.append(Path(tuple(eff) + tuple(self.tests(s.test, False))))
            for p in inner:
                if p.out == 'break':
                    out.append(Path(tuple(eff) + tuple(e for e in p.ev if e[0] == 'test'), 'next'))
                elif p.out in ('return', 'raise'):
                    out.append(Path(tuple(eff), p.out))
            for p in self.block(s.orelse) if s.orelse else []:
                if p.ev or p.out != 'next':
                    out.append(Path(tuple(eff) + p.ev, p.out))
            return out
        if isinstance(s, ast.With):
            ev = []
            for i in s.items:
                if i.optional_vars is not None:
                    ev += [('asg', n, None) for n in targets(i.optional_vars)]
            return [Path(tuple(ev) + p.ev, p.out) for p in self.block(s.body)]
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            out = []
            for p in self.block(s.body):
                if p.out == 'next' and s.orelse:
                    out += [Path(p.ev + q.ev, q.out) for q in self.block(s.orelse)]
                else:
                    out.append(p)
            maybe = [('asg', n, None) for n in sorted(stored_names(s.body))]
            for h in s.handlers:
                for q in self.block(h.body):
                    out.append(Path(tuple(maybe) + q.ev, q.out))
            if s.finalbody:
                out = [Path(p.ev + q.ev, p.out if q.out == 'next' else q.out) for p in out for q in self.block(s.finalbody)]
            return out
        if isinstance(s, ast.Return):
            return [Path((), 'return')]
        if isinstance(s, ast.Raise):
            return [Path((), 'raise')]
        if isinstance(s, ast.Break):
            return [Path((), 'break')]
        if isinstance(s, ast.Continue):
            return [Path((), 'continue')]
        if isinstance(s, ast.Assert):
            return [Path(self.tests(s.test, True))]
        return [Path()]


def _num(e, consts):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = _num(e.operand, consts)
        return None if v is None else -v
    if isinstance(e, ast.Name):
        return consts.get(e.id)
    if isinstance(e, ast.BinOp):
        a, b = _num(e.left, consts), _num(e.right, consts)
        if a is None or b is None:
            return None
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                    ast.Pow: lambda: a ** b}.get(type(e.op), lambda: None)()
        except Exception:
            return None
    return None


def affine(e, v, consts):
    """(a, b) with e == a*v + b, or None"""
    n = _num(e, consts)
    if n is not None and not (isinstance(e, ast.Name) and e.id == v):
        return (0, n)
    if ast.unparse(e) == v:
        return (1, 0)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'float') and len(e.args) == 1:
        return affine(e.args[0], v, consts)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        x = affine(e.operand, v, consts)
        return None if x is None else (-x[0], -x[1])
    if isinstance(e, ast.BinOp):
        x, y = affine(e.left, v, consts), affine(e.right, v, consts)
        if x is None or y is None:
            return None
        if isinstance(e.op, ast.Add):
            return (x[0] + y[0], x[1] + y[1])
        if isinstance(e.op, ast.Sub):
            return (x[0] - y[0], x[1] - y[1])
        if isinstance(e.op, ast.Mult):
            if x[0] == 0:
                return (x[1] * y[0], x[1] * y[1])
            if y[0] == 0:
                return (y[1] * x[0], y[1] * x[1])
        if isinstance(e.op, ast.Div) and y[0] == 0 and y[1]:
            return (x[0] / y[1], x[1] / y[1])
        if isinstance(e.op, ast.LShift) and y[0] == 0:
            return (x[0] * 2 ** y[1], x[1] * 2 ** y[1])
        if isinstance(e.op, (ast.FloorDiv, ast.RShift)) and y[0] == 0 and x[1] == 0 and y[1] >= 1:
            k = y[1] if isinstance(e.op, ast.FloorDiv) else 2 ** y[1]
            return (x[0] / k, 0) if k > 1 else None
    return None


def _step(ev, n):
    a = affine(ev[2], n, {}) if ev[2] is not None else None
    return a[1] if a is not None and a[0] == 1 else None


def step(path, v, consts):
    """net effect on v: ('+', k) grows by at least k, ('-', k), ('*', k) multiplied, ('=',), or None"""
    a, b = 1, 0
    known = None          # value of v at this point when tested for equality with a constant
    start = None
    grow = None           # 'up'/'down' after an inner loop
    for e in path.ev:
        if e[0] == 'test' and e[2] and isinstance(e[1], ast.Compare) and len(e[1].ops) == 1 and isinstance(e[1].ops[0], ast.Eq):
            l, r = e[1].left, e[1].comparators[0]
            for x, y in ((l, r), (r, l)):
                if ast.unparse(x) == v and _num(y, consts) is not None and (a, b) == (1, 0):
                    start = _num(y, consts)
        exprs = []
        if e[0] == 'asg' and e[1] == v:
            exprs = [e[2]]
        elif e[0] == 'multi':
            exprs = [x for n, x in e[1] if n == v]
        elif e[0] in ('up', 'down') and e[1] == v:
            if grow not in (None, e[0]):
                return None
            grow = e[0]
        for x in exprs:
            t = affine(x, v, consts) if x is not None else None
            if t is None:
                return None
            a, b = t[0] * a, t[0] * b + t[1]
    if a == 0 and start is not None:
        a, b = 1, b - start
    if a == 1:
        if b > 0 and grow != 'down':
            return ('+', b)
        if b < 0 and grow != 'up':
            return ('-', -b)
        if b == 0 and grow is None:
            return ('=',)
        if b == 0:
            return ('>=',) if grow == 'up' else ('<=',)
        return None
    if a > 1 and grow is None:
        # grows when it starts above the fixed point
        return ('*', a, -b / (a - 1.0))
    if 0 < a < 1 and b == 0 and grow is None:
        return ('/', a)
    return None


def bounds(fact, v):
    """list of ('<'|'>', bound expression) the fact gives for v"""
    out = []
    if fact[0] != 'test':
        return out
    e, truth = fact[1], fact[2]
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op, l, r = e.ops[0], e.left, e.comparators[0]
        for x, y, flip in ((l, r, False), (r, l, True)):
            k = offset(x, v)
            if k is None:
                continue
            s = {ast.Lt: '<', ast.LtE: '<', ast.Gt: '>', ast.GtE: '>'}.get(type(op))
            if s is None:
                if isinstance(op, ast.NotEq) and truth or isinstance(op, ast.Eq) and not truth:
                    out.append(('!=', y))
                continue
            if flip:
                s = '<' if s == '>' else '>'
            if not truth:
                s = '<' if s == '>' else '>'
            out.append((s, y))
    elif truth and ast.unparse(e) == v:
        out.append(('truthy', None))
    return out


def offset(x, v):
    """x is v, or v plus/minus/times something free of v (increasing in v)"""
    if ast.unparse(x) == v:
        return 1
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('float', 'int') and len(x.args) == 1:
        return offset(x.args[0], v)
    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
        l, r = offset(x.left, v), offset(x.right, v)
        if l and not _uses(x.right, v):
            return 1
        if r and isinstance(x.op, ast.Add) and not _uses(x.left, v):
            return 1
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
        for p, q in ((x.left, x.right), (x.right, x.left)):
            if offset(p, v) and isinstance(q, ast.Constant) and isinstance(q.value, (int, float)) and q.value > 0:
                return 1
    return None


def _uses(e, v):
    return any(ast.unparse(n) == v for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute)))


def denominators(fact, v):
    """the fact says  X / v >= positive constant (X free of v): v is bounded from above"""
    e, truth = fact[1], fact[2]
    if not (truth and isinstance(e, ast.Compare) and len(e.ops) == 1):
        return False
    l, op, r = e.left, e.ops[0], e.comparators[0]
    if isinstance(op, (ast.Lt, ast.LtE)):
        l, r = r, l
    elif not isinstance(op, (ast.Gt, ast.GtE)):
        return False
    return isinstance(r, ast.Constant) and isinstance(r.value, (int, float)) and r.value > 0 and isinstance(l, ast.BinOp) and \
        isinstance(l.op, ast.Div) and offset(l.right, v) and not _uses(l.left, v)


def invariant(e, changed, pushed):
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and (n.id in changed or n.id in pushed):
            return False
        if isinstance(n, ast.Attribute) and (ast.unparse(n) in changed or ast.unparse(n) in pushed):
            return False
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, 'attr', '')
            if nm not in ('len', 'abs', 'int', 'float', 'max', 'min', 'sum', 'round', 'ceil', 'floor', 'sqrt', 'size', 'log', 'log2', 'shape', 'ndim'):
                return False
    return True


class Loop(object):
    def __init__(self, f, s, consts):
        self.f, self.s, self.consts = f, s, consts
        P = Paths()
        self.paths = [p for p in P.block(s.body) if p.out in ('next', 'continue')]
        self.overflow = P.overflow
        alts = P.tests(s.test, True)
        self.heads = self.expand(alts)
        self.changed = stored_names(s.body)
        self.pushed = {e[1] for p in self.paths for e in p.ev if e[0] == 'push'}

    def expand(self, facts):
        """facts with the disjunctions multiplied out"""
        outs = [[]]
        for f in facts:
            if f[0] == 'or':
                outs = [o + x for o in outs for alt in f[1] for x in self.expand(alt)]
            else:
                outs = [o + [f] for o in outs]
        return outs[:64]

    def measure(self):
        """text describing why the loop ends, or None"""
        if not self.paths:
            return 'no path leads back to the head'
        if self.overflow:
            return None
        why = []
        for head in self.heads:
            w = self.measure_head(head)
            if w is None:
                return None
            why.append(w)
        return '; '.join(sorted(set(why)))

    def measure_head(self, head):
        names = set(self.changed)
        paths = [Path(tuple(head) + p.ev, p.out) for p in self.paths]
        facts = [[g for f in p.ev if f[0] in ('test', 'or') for g in (self.expand([f])[0] if f[0] == 'test' else [])] for p in paths]
        for v in sorted(names):
            steps = [step(p, v, self.consts) for p in paths]
            if any(x is None for x in steps):
                continue
            kinds = {x[0] for x in steps}
            if kinds <= {'+'} or kinds <= {'*'} or kinds <= {'+', '*'}:
                mult = '*' in kinds
                if mult and not self.starts_above(v, max(x[2] for x in steps if x[0] == '*')):
                    continue
                if all(any(self.limit(f, v, '<') for f in fs) for fs in facts):
                    return '%s grows and is bounded from above' % v
                if mult and all(any(denominators(f, v) and self.fixed_num(f, v) for f in fs) for fs in facts):
                    return '%s grows geometrically below a fraction bounded from below' % v
                if not mult and self.checked_index(v, paths):
                    return '%s grows and indexes an array of fixed size' % v
            if kinds <= {'-'}:
                if all(any(self.limit(f, v, '>') for f in fs) for fs in facts):
                    return '%s shrinks and is bounded from below' % v
                if all(x[1] == 1 for x in steps) and all(any(b[0] == 'truthy' for f in fs for b in bounds(f, v)) for fs in facts):
                    return '%s counts down to zero' % v
            if kinds <= {'/'} and v not in self.f.params and self.starts_above(v, -1e308):
                if all(any(self.limit(f, v, '>', positive=True) for f in fs) for fs in facts):
                    return '%s shrinks geometrically and is bounded from below by a positive number' % v
        for v in sorted(names | {e[1] for p in paths for e in p.ev if e[0] == 'pop'}):
            if v not in self.pushed and all(self.shortened(p, v) for p in paths) and all(any(self.nonempty(f, v) for f in fs) for fs in facts):
                return '%s gets shorter' % v
        its = {e[1] for p in paths for e in p.ev if e[0] == 'next'}
        for v in its:
            if all(('next', v) in p.ev for p in paths):
                return 'the iterator %s is used up' % v
        return None

    def fixed_num(self, f, v):
        l, r = f[1].left, f[1].comparators[0]
        x = l if isinstance(l, ast.BinOp) and isinstance(l.op, ast.Div) else r
        return invariant(x.left, self.changed, self.pushed)

    def limit(self, f, v, side, positive=False):
        if f[0] != 'test':
            return False
        if f[2] and isinstance(f[1], ast.Call) and isinstance(f[1].func, ast.Attribute):
            return False
        for s, y in bounds(f, v):
            if s != side:
                continue
            if positive:
                k = _num(y, self.consts)
                if k is None or k <= 0:
                    # a positive tolerance held in an option
                    if not (isinstance(y, (ast.Name, ast.Attribute)) and invariant(y, self.changed, self.pushed)):
                        continue
                return True
            if invariant(y, self.changed, self.pushed):
                return True
            if isinstance(y, ast.Name):
                st = [step(Path(p.ev), y.id, self.consts) for p in self.paths]
                ok = ('=', '-', '<=') if side == '<' else ('=', '+', '>=')
                if all(x is not None and x[0] in ok for x in st):
                    return True
        return False

    def starts_above(self, v, fix):
        """v is set before the loop to a constant above the fixed point of its growth (or is an option with such a default)"""
        vals = []
        for n in walk_local(self.f.body):
            if isinstance(n, ast.Assign) and n.lineno < self.s.lineno:
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        vals += [y for x, y in zip(t.elts, n.value.elts) if v in targets(x)]
                    elif v in targets(t):
                        vals.append(n.value if isinstance(t, (ast.Name, ast.Attribute)) else None)
        if not vals:
            if v in self.f.params:
                d = self.f.defaults.get(v)
                k = _num(d, {}) if d is not None else None
                return k is None or k > fix
            return '.' in v
        return all(self.above(x, v, fix) for x in vals)

    def above(self, x, v, fix):
        if x is None:
            return False
        k = _num(x, self.consts)
        if k is not None:
            return k > fix
        a = affine(x, v, self.consts)
        if a is not None:
            return a[0] > 0 and a[1] >= 0 and fix <= 0
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Pow):
            b = _num(x.left, self.consts)
            return b is not None and b > 0 and fix <= 0
        if isinstance(x, ast.Call):
            return fix <= 0 or any((_num(y, self.consts) or 0) > fix for y in x.args)
        return False

    def checked_index(self, v, paths):
        if any('jit' in ast.unparse(d) for d in self.f.decorators):
            return False
        return all(('idx', v) in p.ev for p in paths)

    def shortened(self, p, v):
        for e in p.ev:
            if e == ('pop', v):
                return True
            if e[0] == 'asg' and e[1] == v and isinstance(e[2], ast.Subscript) and ast.unparse(e[2].value) == v and isinstance(e[2].slice, ast.Slice):
                lo, hi = e[2].slice.lower, e[2].slice.upper
                k = _num(lo, self.consts) if lo is not None else None
                j = _num(hi, self.consts) if hi is not None else None
                if e[2].slice.step is None and (k is not None and k > 0 or j is not None and j < 0):
                    return True
        return False

    def nonempty(self, f, v):
        if f[0] != 'test':
            return False
        t = f[1]
        if not f[2]:
            return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.LtE)) and \
                ast.unparse(t.left) in ('len(%s)' % v, v + '.size') and ast.unparse(t.comparators[0]) == '0'
        if ast.unparse(t) in (v, 'len(%s)' % v, v + '.size'):
            return True
        return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.GtE, ast.NotEq)) and \
            ast.unparse(t.left) in ('len(%s)' % v, v + '.size')


def constants(f):
    """names assigned once, to a number"""
    seen = {}
    for n in walk_local(f.body):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    for x, y in zip(t.elts, n.value.elts):
                        for m in targets(x):
                            seen.setdefault(m, []).append(y)
                else:
                    for m in targets(t):
                        seen.setdefault(m, []).append(n.value if isinstance(t, ast.Name) else None)
        elif isinstance(n, (ast.AugAssign, ast.For, ast.AnnAssign, ast.NamedExpr)):
            for m in targets(n.target):
                seen.setdefault(m, []).append(None)
    out = {}
    for m, vs in seen.items():
        if len(vs) == 1 and vs[0] is not None and m not in f.all_params():
            k = _num(vs[0], {})
            if k is not None:
                out[m] = k
    for g, vs in f.module.gvars.items():
        if g not in seen and len(vs) == 1 and _num(vs[0], {}) is not None:
            out.setdefault(g, _num(vs[0], {}))
    return out


# loops whose measure is not of these forms; each with the reason it ends
ARGUED = {
    'wafo.covariance.core:CovData1D.simcond': (
        lambda n: any(isinstance(x, ast.Attribute) and x.attr == '_update_window' for x in ast.walk(n)),
        'the window of indices moves towards the end of the series in every round and the last window ends the loop; '
              'not decided by this analysis'),
}
ENDLESS = ('itertools.count', 'itertools.cycle', 'itertools.repeat')

# recursions that end for a reason other than a decreasing number
RECURSION = {
    ('wafo.kdetools.kdetools:TKDE._eval_points', 'wafo.kdetools.kdetools:_KDE.eval_points'):
        'self.tkde is a KDE, not a TKDE: its _eval_points is another method',
    ('wafo.misc:tranproc', 'wafo.misc:tranproc.<_diff>'):
        'the inner call passes no derivatives, and _diff runs for derivatives only',
    ('wafo.interpolate:savitzky_golay_piecewise',):
        'the inner call gets the rest of the series after the turning point',
}


def sccs(graph):
    index, low, on, st, out, cnt = {}, {}, set(), [], [], [0]

    def visit(v):
        work = [(v, iter(sorted(graph.get(v, ()))))]
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        st.append(v)
        on.add(v)
        while work:
            n, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(graph.get(w, ())))))
                    adv = True
                    break
                elif w in on:
                    low[n] = min(low[n], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[n])
            if low[n] == index[n]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == n:
                        break
                out.append(sorted(c))
    for v in sorted(graph):
        if v not in index:
            visit(v)
    return out


def decreasing(proj, comp, calls):
    """some call of every cycle passes a smaller number or a part of an argument"""
    weak = {}
    for (src, dst, node, f) in calls:
        good = False
        for a in list(node.args) + [k.value for k in node.keywords]:
            if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Sub, ast.FloorDiv, ast.RShift)) and _num(a.right, {}) is not None and _num(a.right, {}) > 0 \
                    and isinstance(a.left, ast.Name):
                good = True
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Div) and _num(a.right, {}) is not None and _num(a.right, {}) > 1:
                good = True
            if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in f.all_params():
                good = True
        if not good:
            weak.setdefault(src, set()).add(dst)
    for c in sccs(weak):
        if len(c) > 1 or c[0] in weak.get(c[0], ()):
            return False
    # a base case: some function of the cycle returns before recursing under a test
    return True


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(rule='every while loop has a measure: a variable that moves by at least a fixed amount (or factor) towards a tested, fixed bound '
                    'on every path back to the loop head; for loops run over finite iterables; recursion passes a smaller argument',
               explanation='all paths through every loop body are enumerated and the net change of each variable is computed symbolically')
    st = {'while_loops': 0, 'for_loops': 0, 'paths': 0, 'recursive_cycles': 0, 'argued': 0}
    graph, calls = {}, {}
    for q, f in sorted(proj.funcs.items()):
        if isinstance(f.node, ast.Lambda):
            continue
        consts = None
        for n in walk_local(f.body):
            if isinstance(n, ast.While):
                st['while_loops'] += 1
                consts = constants(f) if consts is None else consts
                lp = Loop(f, n, consts)
                st['paths'] += len(lp.paths)
                why = lp.measure()
                o = proj.origin(q)
                if why is None and o in ARGUED and ARGUED[o][0](n):
                    st['argued'] += 1
                    r.notes.append('%s: %s' % (q, ARGUED[o][1]))
                    continue
                if why is None:
                    r.add('%s: while %s' % (q, ast.unparse(n.test)),
                          '%s (%s:%d) nothing bounds the number of rounds of this loop on every path through its body' % (q, f.path, n.lineno),
                          '%s:%d' % (f.path, n.lineno))
                elif len(r.samples) < 25:
                    r.samples.append('%s:%d while %s: %s' % (f.path, n.lineno, ast.unparse(n.test), why))
            elif isinstance(n, ast.For):
                st['for_loops'] += 1
                bad = endless(proj, f, n)
                if bad:
                    r.add('%s: for %s in %s' % (q, ast.unparse(n.target), ast.unparse(n.iter)), '%s (%s:%d) %s' % (q, f.path, n.lineno, bad),
                          '%s:%d' % (f.path, n.lineno))
            elif isinstance(n, ast.Call):
                for k, t in eff.sites.get(id(n), ()):
                    if k == 'fn' and t in proj.funcs:
                        graph.setdefault(q, set()).add(t)
                        calls.setdefault((q, t), []).append((q, t, n, f))
    for c in sccs(graph):
        if len(c) == 1 and c[0] not in graph.get(c[0], ()):
            continue
        st['recursive_cycles'] += 1
        o = tuple(sorted({proj.origin(x) for x in c}))
        if o in RECURSION:
            r.notes.append('%s: %s' % (', '.join(c), RECURSION[o]))
            continue
        edges = [x for a in c for b in graph.get(a, ()) if b in c for x in calls[(a, b)]]
        if not decreasing(proj, c, edges):
            f = proj.funcs[c[0]]
            r.add('recursion ' + ' -> '.join(c), '%s (%s:%d) calls itself without passing a smaller argument' % (', '.join(c), f.path, f.line),
                  '%s:%d' % (f.path, f.line))
    r.coverage = st
    return r


def endless(proj, f, n):
    it = n.iter
    if isinstance(it, ast.Call):
        x = proj.resolve_expr(f.module, it.func)
        nm = x[1] if x and x[0] == 'ext' else ''
        if nm in ENDLESS and not (nm.endswith('repeat') and (len(it.args) > 1 or it.keywords)) or \
                isinstance(it.func, ast.Name) and it.func.id == 'iter' and len(it.args) == 2:
            fake = ast.While(test=ast.Constant(value=True), body=n.body, orelse=[])
            ast.copy_location(fake, n)
            if nm.endswith('count') and isinstance(n.target, ast.Name):
                inc = ast.parse('%s += 1' % n.target.id).body[0]
                fake.body = list(n.body) + [inc]
                lp = Loop(f, fake, constants(f))
                # continue statements pass through the increment as well
                lp.paths = [Path(p.ev + ((('asg', n.target.id, inc_expr(n.target.id)),) if p.out == 'continue' else ()), 'next') for p in lp.paths]
                if lp.measure():
                    return None
            elif Loop(f, fake, constants(f)).measure():
                return None
            return 'runs over an endless iterator and nothing bounds the number of rounds'
    base = it
    if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id in ('enumerate', 'reversed') and base.args:
        base = base.args[0]
    if isinstance(base, (ast.Name, ast.Attribute)):
        t = ast.unparse(base)
        for m in walk_local(n.body):
            if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ('append', 'extend', 'insert') and ast.unparse(m.func.value) == t:
                ps = Paths().block(n.body)
                if any(p.out in ('next', 'continue') and ('push', t) in p.ev for p in ps):
                    return 'extends the list it runs over'
    return None


def inc_expr(v):
    return ast.parse('%s + 1' % v, mode='eval').body
