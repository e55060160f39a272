"""C11: no uninitialised memory reaches a result.

For every array made without initial values (numpy.empty and the like, ufuncs with where= and
without out=) the statements after it are walked with the set of regions that have certainly
been written: the whole array, intervals of an axis with symbolic ends, a mask, even and odd
elements.  When the array as a whole is used (returned, passed on, stored, computed with), the
regions have to cover it on every path.
"""
import ast
from ..effects import root
from ..framework import Result
from ..project import walk_local

MAKE = {'numpy.empty', 'numpy.empty_like', 'numpy.ndarray', 'numpy.ma.empty', 'numpy.core.multiarray.empty', 'numpy.recarray',
        'numpy.ma.empty_like', 'numpy.emptylike'}
META = {'shape', 'size', 'ndim', 'dtype', 'itemsize', 'nbytes', 'strides'}
FULL = frozenset(['*'])


def text(e):
    return ast.unparse(e)


class Lin(object):
    """linear form over texts"""

    def __init__(self, c=0, t=None):
        self.c, self.t = c, {k: v for k, v in (t or {}).items() if v}

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)

    def times(self, k):
        return Lin(self.c * k, {a: v * k for a, v in self.t.items()})

    def key(self):
        return (self.c, frozenset(self.t.items()))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def minus(self, o):
        return self + o.times(-1)


def upto(d):
    """d <= 0, sizes being large"""
    return d.c <= 0 if not d.t else all(v < 0 for v in d.t.values())


class Scope(object):
    """definitions of the locals that are assigned once"""

    def __init__(self, rule, f):
        self.rule, self.f = rule, f
        self.defs, n = {}, {}
        for s in walk_local(f.node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = s.value
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, ast.Attribute) and s.value.attr == 'shape':
                        for i, x in enumerate(t.elts):
                            if isinstance(x, ast.Name):
                                self.defs[x.id] = ast.Subscript(value=s.value, slice=ast.Constant(value=i), ctx=ast.Load())
            for t in ast.walk(s):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    if s is t:
                        n[t.id] = n.get(t.id, 0) + 1
        for p in f.all_params():
            n[p] = n.get(p, 0) + 1
        self.defs = {k: v for k, v in self.defs.items() if n.get(k) == 1}
        self.single = {k for k, v in n.items() if v == 1}

    def lin(self, e, depth=0):
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return Lin(int(e.value))
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Sub)):
                a, b = self.lin(e.left, depth), self.lin(e.right, depth)
                return a + b.times(1 if isinstance(e.op, ast.Add) else -1)
            if isinstance(e.op, ast.Mult):
                a, b = self.lin(e.left, depth), self.lin(e.right, depth)
                if not a.t:
                    return b.times(a.c)
                if not b.t:
                    return a.times(b.c)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return self.lin(e.operand, depth).times(-1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1:
            return self.lin(e.args[0], depth)
        if isinstance(e, ast.Name) and e.id in self.defs and depth < 6:
            d = self.defs[e.id]
            if isinstance(d, (ast.Name, ast.BinOp, ast.Constant, ast.UnaryOp, ast.Subscript)) or isinstance(d, ast.Call) and (
                    isinstance(d.func, ast.Name) and d.func.id in ('len', 'int')) or isinstance(d, ast.Attribute) and d.attr == 'size':
                return self.lin(d, depth + 1)
        # number of elements of a vector
        v = None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            v = e.args[0]
        elif isinstance(e, ast.Attribute) and e.attr == 'size':
            v = e.value
        elif isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and \
                isinstance(e.slice, ast.Constant) and e.slice.value == 0:
            v = e.value.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('size', 'alen') and len(e.args) == 1:
            v = e.args[0]
        if v is not None:
            return Lin(0, {'len(%s)' % self.name(v): 1})
        return Lin(0, {self.name(e): 1})

    def name(self, e, depth=0):
        while isinstance(e, ast.Name) and e.id in self.defs and isinstance(self.defs[e.id], (ast.Name, ast.Attribute)) and depth < 6:
            e = self.defs[e.id]
            depth += 1
        return text(e)


def dims(sc, call, nm):
    """linear forms of the lengths of the axes, None where unknown"""
    a = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg in ('shape', 'prototype', 'a')), None)
    if a is None:
        return None
    return shape_dims(sc, a, nm.endswith('like'))


def shape_dims(sc, a, like=False):
    if like:
        return [Lin(0, {'len(%s)' % sc.name(a): 1})] + [Lin(0, {'%s.shape[%d]' % (sc.name(a), i): 1}) for i in (1, 2, 3)] + [None]
    k = 0
    while isinstance(a, ast.Name) and a.id in sc.defs and k < 5:
        d = sc.defs[a.id]
        if not (isinstance(d, (ast.Tuple, ast.List, ast.Name)) or isinstance(d, ast.Attribute) and d.attr == 'shape' or
                isinstance(d, ast.Call) and text(d.func).split('.')[-1] == 'shape'):
            break
        a = d
        k += 1
    if isinstance(a, (ast.Tuple, ast.List)):
        return [sc.lin(x) for x in a.elts]
    if isinstance(a, ast.Attribute) and a.attr == 'shape':
        return shape_dims(sc, a.value, True)
    if isinstance(a, ast.Call) and text(a.func).split('.')[-1] == 'shape' and len(a.args) == 1:
        return shape_dims(sc, a.args[0], True)
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) and isinstance(a.left, (ast.Tuple, ast.List)):
        return [sc.lin(x) for x in a.left.elts] + [None]
    return [sc.lin(a)]


class Walk(object):
    """regions of one array that are written on every path"""

    def __init__(self, rule, f, sc, key, shape, maker, shapetext):
        self.rule, self.f, self.sc, self.key, self.shape, self.maker = rule, f, sc, key, shape, maker
        self.shapetext = shapetext
        self.bad = []
        self.seen = False
        self.loops = []

    # ---- statements ------------------------------------------------------------------
    def block(self, body, st):
        """st: None before the creation; frozenset of regions afterwards; 'dead' when the path has ended"""
        for s in body:
            if st == 'dead':
                break
            st = self.stmt(s, st)
        return st

    def join(self, a, b):
        if a == 'dead':
            return b
        if b == 'dead':
            return a
        if a is None or b is None:
            return a if b is None else b
        if '*' in a:
            return b
        if '*' in b:
            return a
        return a & b

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if st is not None and any(text(n) == self.key for n in ast.walk(s) if isinstance(n, (ast.Name, ast.Attribute))):
                self.reads(s, st)
            return st
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            a = self.block(s.body, st)
            b = self.block(s.orelse, st)
            r = self.join(a, b)
            if isinstance(r, frozenset) and isinstance(a, frozenset) and isinstance(b, frozenset) and len(r) < len(a | b):
                # written only if: a region of its own when the same test decides later
                r = r | frozenset(('if', text(s.test), x) for x in a - r) | frozenset(('else', text(s.test), x) for x in b - r)
            return r
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.expr(s.iter, st)
            return self.loop(s, st)
        if isinstance(s, ast.While):
            st = self.expr(s.test, st)
            self.loops.append(None)
            b = self.block(s.body, st)
            self.loops.pop()
            if isinstance(s.test, ast.Constant) and s.test.value and isinstance(b, frozenset):
                return b
            r = st
            return self.block(s.orelse, r) if s.orelse else r
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body, st)
            a = self.block(s.orelse, a) if s.orelse and a != 'dead' else a
            for h in s.handlers:
                a = self.join(a, self.block(h.body, st))
            if s.finalbody:
                a = self.block(s.finalbody, a if a != 'dead' else st)
            return a
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return) and s.value is not None:
                self.expr(s.value, st)
            return 'dead'
        if isinstance(s, (ast.Break, ast.Continue)):
            return 'dead'
        if isinstance(s, ast.Assign):
            if s.value is self.maker or isinstance(s.value, ast.Call) and s.value is self.maker:
                self.expr_args(s.value, st)
                return frozenset()
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.target(t, st, s.value)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is self.maker:
                return frozenset()
            if s.value is not None:
                st = self.expr(s.value, st)
                st = self.target(s.target, st, s.value)
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(st, frozenset) and self.base(s.target) and not self.covered(s.target, st):
                self.report(s.target, 'changed in place')
            return st
        if isinstance(s, ast.Delete):
            return st
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                st = self.expr(ch, st)
        return st

    def base(self, t):
        while isinstance(t, ast.Subscript):
            t = t.value
        return text(t) == self.key

    def loop(self, s, st):
        rng = self.range(s)
        body_names = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if rng is not None and rng[0] in body_names:
            rng = None
        leaves = any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in walk_local(b))
        self.loops.append(rng)
        b = self.block(s.body, st)
        self.loops.pop()
        if not isinstance(st, frozenset) or not isinstance(b, frozenset):
            if st is None and isinstance(b, frozenset):
                return b                     # made anew in each round
            return st
        out = st
        skips = any(isinstance(x, ast.Continue) for y in s.body for x in walk_local(y))
        if rng is not None and not skips and not any(isinstance(x, ast.Break) for x in self.own(s.body)):
            for x in b - st:
                r = self.sweep(x, rng)
                if r is not None:
                    out = self.add(out, r)
        st = out
        if b - st and '*' not in st:
            st = st | frozenset(['touched'])
        return self.block(s.orelse, st) if s.orelse else st

    def own(self, body):
        """statements of this loop, not of loops inside"""
        for b in body:
            yield b
            if not isinstance(b, (ast.For, ast.While, ast.FunctionDef)):
                for fld in ('body', 'orelse', 'finalbody'):
                    for x in self.own(getattr(b, fld, []) or []):
                        yield x
                for h in getattr(b, 'handlers', []) or []:
                    for x in self.own(h.body):
                        yield x

    def range(self, s):
        """(variable, lo, hi) or (variable, 'all') when the loop runs over all indices"""
        t, it = s.target, s.iter
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'reversed', 'sorted') and len(it.args) == 1:
            it = it.args[0]
        if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and it.slice.lower is None and it.slice.upper is None:
            it = it.value
        if not isinstance(it, ast.Call):
            return None
        nm = text(it.func).split('.')[-1]
        if nm in ('range', 'arange', 'xrange', 'prange') and isinstance(t, ast.Name) and not it.keywords:
            a = it.args
            if len(a) == 1:
                return t.id, Lin(0), self.sc.lin(a[0])
            if len(a) == 2:
                return t.id, self.sc.lin(a[0]), self.sc.lin(a[1])
            if len(a) == 3 and text(a[2]) == '-1':
                return t.id, self.sc.lin(a[1]) + Lin(1), self.sc.lin(a[0]) + Lin(1)
            return None
        if nm == 'enumerate' and isinstance(t, (ast.Tuple, ast.List)) and isinstance(t.elts[0], ast.Name):
            k = Lin(0)
            if len(it.args) > 1 or it.keywords:
                k = self.sc.lin(it.args[1] if len(it.args) > 1 else it.keywords[0].value)
            return t.elts[0].id, k, k + self.count(it.args[0])
        if nm == 'ndindex' and isinstance(t, ast.Name) and it.args:
            a = it.args[0].value if isinstance(it.args[0], ast.Starred) else it.args[0]
            if self.same_shape(a):
                return t.id, 'all'
        if nm == 'product' and isinstance(t, ast.Name) and len(it.args) == 1 and isinstance(it.args[0], ast.Starred):
            c = it.args[0].value
            if isinstance(c, (ast.ListComp, ast.GeneratorExp)) and len(c.generators) == 1 and not c.generators[0].ifs:
                g = c.generators[0]
                e = c.elt
                if isinstance(e, ast.Call) and text(e.func) in ('list', 'tuple') and len(e.args) == 1:
                    e = e.args[0]
                if isinstance(e, ast.Call) and text(e.func) == 'range' and len(e.args) == 1 and text(e.args[0]) == text(g.target) \
                        and self.same_shape(g.iter):
                    return t.id, 'all'
            if isinstance(c, ast.Call) and text(c.func) == 'map' and len(c.args) == 2 and text(c.args[0]) == 'range' and self.same_shape(c.args[1]):
                return t.id, 'all'
        return None

    def count(self, e):
        if isinstance(e, ast.Call) and text(e.func) == 'zip' and e.args:
            return self.count(e.args[0])
        if isinstance(e, ast.Call) and text(e.func).split('.')[-1] in ('range', 'arange') and len(e.args) == 1:
            return self.sc.lin(e.args[0])
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.step is None and e.slice.upper is None and e.slice.lower is not None:
            k = self.sc.lin(e.slice.lower)
            return self.count(e.value).minus(k)
        return self.sc.lin(ast.Call(func=ast.Name(id='len', ctx=ast.Load()), args=[e], keywords=[]))

    def same_shape(self, e):
        t = {self.key + '.shape', 'np.shape(%s)' % self.key}
        if self.shapetext is not None:
            t.add(self.shapetext)
            t.add(self.sc.name(ast.parse(self.shapetext, mode='eval').body))
        return text(e) in t or self.sc.name(e) in t

    def sweep(self, x, rng):
        """region written by all rounds of a loop whose round writes x"""
        if rng[1] == 'all':
            return '*' if x == ('at', Lin(0, {rng[0]: 1}).key()) else None
        if x == '*':
            # written in each round: if there is one
            return None
        if isinstance(x, tuple) and x[0] == 'iv':
            ax, lo, hi = x[1], x[2], x[3]
            v = rng[0]
            if lo.t.get(v) == 1 and hi.t.get(v) == 1 and hi.minus(lo) == Lin(1):
                k = lo.minus(Lin(0, {v: 1}))
                return ('iv', ax, rng[1] + k, rng[2] + k)
            if v not in lo.t and v not in hi.t:
                return None
        return None

    # ---- writes ------------------------------------------------------------------------
    def target(self, t, st, value):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, st, None)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st, None)
        if not isinstance(st, frozenset):
            return st
        if text(t) == self.key:
            return None                      # another object from here on
        if isinstance(t, ast.Name) and any(self._mentions(x, t.id) for x in st):
            st = frozenset(x for x in st if not self._mentions(x, t.id))
        if isinstance(t, ast.Subscript) and self.base(t):
            st = self.expr(t.slice, st)
            if text(t.value) != self.key:
                return st
            return self.add(st, self.region(t.slice))
        if isinstance(t, ast.Attribute) and text(t.value) == self.key:
            return self.add(st, '*') if t.attr in ('flat',) else st
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            return self.expr(t.value, st) if not isinstance(t.value, ast.Name) else st
        return st

    def _mentions(self, x, v):
        if isinstance(x, tuple) and x[0] == 'iv':
            return v in x[2].t or v in x[3].t
        if isinstance(x, tuple) and x[0] in ('mask', 'not'):
            return v in {n.id for n in ast.walk(ast.parse(x[1], mode='eval')) if isinstance(n, ast.Name)}
        return False

    def add(self, st, r):
        if r is None:
            return st
        if r == '*' or '*' in st:
            return FULL
        st = st | frozenset([r])
        return FULL if self.complete(st) else st

    def mask_key(self, e):
        """(text, sign) of a mask"""
        k = 0
        sign = True
        while k < 6:
            k += 1
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Invert, ast.Not)):
                e, sign = e.operand, not sign
            elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and text(e.left) == '1':
                e, sign = e.right, not sign
            elif isinstance(e, ast.Call) and text(e.func).split('.')[-1] == 'logical_not' and len(e.args) == 1:
                e, sign = e.args[0], not sign
            elif isinstance(e, ast.Call) and text(e.func).split('.')[-1] in ('flatnonzero', 'nonzero', 'where') and len(e.args) == 1:
                e = e.args[0]
            elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value == 0 and isinstance(e.value, ast.Call) and \
                    text(e.value.func).split('.')[-1] in ('nonzero', 'where'):
                e = e.value
            elif isinstance(e, ast.Name) and e.id in self.sc.defs and k < 5 and isinstance(
                    self.sc.defs[e.id], (ast.UnaryOp, ast.Compare, ast.Call, ast.BinOp, ast.Subscript)):
                e = self.sc.defs[e.id]
            elif isinstance(e, ast.Compare) and len(e.ops) == 1:
                op = e.ops[0]
                inv = {ast.NotEq: ast.Eq, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
                if type(op) in inv:
                    e = ast.Compare(left=e.left, ops=[inv[type(op)]()], comparators=e.comparators)
                    sign = not sign
                return text(e), sign
            else:
                break
        return text(e), sign

    def region(self, s):
        """what an assignment to a[s] writes"""
        if isinstance(s, ast.Constant) and s.value is Ellipsis or isinstance(s, ast.Tuple) and not s.elts:
            return '*'
        if isinstance(s, ast.Tuple):
            part, ax = None, 0
            for i, x in enumerate(s.elts):
                if isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None or \
                        isinstance(x, ast.Constant) and x.value is Ellipsis:
                    continue
                if part is not None:
                    return None
                if any(isinstance(y, ast.Constant) and y.value is Ellipsis for y in s.elts[:i]):
                    return None
                part, ax = x, i
            return '*' if part is None else self.interval(part, ax)
        return self.interval(s, 0)

    def interval(self, s, ax):
        n = self.shape[ax] if self.shape and ax < len(self.shape) else None

        def end(e, d):
            if e is None:
                return d
            v = self.sc.lin(e)
            if not v.t and v.c < 0:
                return n + v if n is not None else Lin(v.c, {'#%d' % ax: 1})
            return v
        size = n if n is not None else Lin(0, {'#%d' % ax: 1})
        if isinstance(s, ast.Slice):
            if s.step is not None:
                if text(s.step) == '-1' and s.lower is None and s.upper is None:
                    return '*'
                if text(s.step) == '2' and s.upper is None and (s.lower is None or text(s.lower) in ('0', '1')):
                    return ('step', ax, 0 if s.lower is None or text(s.lower) == '0' else 1)
                return None
            lo, hi = end(s.lower, Lin(0)), end(s.upper, size)
            if lo == Lin(0) and hi == size:
                return '*'
            return ('iv', ax, lo, hi)
        e = s
        if isinstance(e, ast.Name) and e.id in self.sc.defs and self.rows(self.sc.defs[e.id]) is not None:
            e = self.sc.defs[e.id]
        iv = self.rows(e)
        if iv is not None:
            lo, hi = iv
            return '*' if lo == Lin(0) and hi == size else ('iv', ax, lo, hi)
        for r in reversed(self.loops):
            if r is not None and len(r) == 2 and text(s) == r[0]:
                return ('at', Lin(0, {r[0]: 1}).key())
        v = self.sc.lin(s)
        if not v.t or any(r is not None and r[0] in v.t for r in self.loops) or isinstance(s, (ast.BinOp, ast.Constant)):
            lo = end(s, None)
            return ('iv', ax, lo, lo + Lin(1))
        if ax == 0:
            k, sign = self.mask_key(s)
            return ('mask' if sign else 'not', k)
        return None

    def rows(self, e):
        """r_[a:b], arange(a, b), slice(a, b)"""
        if isinstance(e, ast.Subscript) and text(e.value).split('.')[-1] == 'r_' and isinstance(e.slice, ast.Slice) and e.slice.step is None \
                and e.slice.upper is not None:
            return (self.sc.lin(e.slice.lower) if e.slice.lower is not None else Lin(0)), self.sc.lin(e.slice.upper)
        if isinstance(e, ast.Call) and text(e.func).split('.')[-1] in ('arange', 'range', 'slice') and not e.keywords and len(e.args) in (1, 2):
            a = e.args
            return (Lin(0), self.sc.lin(a[0])) if len(a) == 1 else (self.sc.lin(a[0]), self.sc.lin(a[1]))
        return None

    def complete(self, st):
        for x in st:
            if isinstance(x, tuple) and x[0] == 'mask' and ('not', x[1]) in st:
                return True
            if isinstance(x, tuple) and x[0] == 'step' and ('step', x[1], 1 - x[2]) in st:
                return True
            if isinstance(x, tuple) and x[0] == 'if' and ('else', x[1], x[2]) in st:
                return True
        for ax in {x[1] for x in st if isinstance(x, tuple) and x[0] == 'iv'}:
            n = self.shape[ax] if self.shape and ax < len(self.shape) and self.shape[ax] is not None else Lin(0, {'#%d' % ax: 1})
            if self.chain(Lin(0), n, [x for x in st if isinstance(x, tuple) and x[0] == 'iv' and x[1] == ax]):
                return True
        return False

    def chain(self, lo, hi, ivs):
        """the intervals cover lo..hi"""
        pos, used = lo, set()
        for k in range(len(ivs) + 1):
            d = hi.minus(pos)
            if upto(d):
                return True
            for i, x in enumerate(ivs):
                if i in used:
                    continue
                a = x[2].minus(pos)
                b = x[3].minus(pos)
                if upto(a) and not upto(b):
                    pos = x[3]
                    used.add(i)
                    break
            else:
                return False
        return False

    def covered(self, t, st):
        if '*' in st:
            return True
        if not isinstance(t, ast.Subscript):
            return False
        r = self.region(t.slice)
        return self.has(r, st)

    def has(self, r, st):
        if r is None:
            return False
        if r in st:
            return True
        if isinstance(r, tuple) and r[0] == 'iv':
            return self.chain(r[2], r[3], [x for x in st if isinstance(x, tuple) and x[0] == 'iv' and x[1] == r[1]])
        return False

    # ---- reads ------------------------------------------------------------------------
    def report(self, node, how):
        self.bad.append((getattr(node, 'lineno', 0), how))

    def expr_args(self, c, st):
        for a in c.args:
            self.expr(a, st)

    def expr(self, e, st):
        """uses in an expression; calls that fill the array"""
        if e is None or not isinstance(st, frozenset) or '*' in st:
            if st is not None and isinstance(e, ast.Call):
                return st
            return st
        return self.reads(e, st)

    def reads(self, e, st):
        if isinstance(e, ast.Call):
            fn = text(e.func)
            nm = fn.split('.')[-1]
            if isinstance(e.func, ast.Attribute) and text(e.func.value) == self.key:
                for a in list(e.args) + [k.value for k in e.keywords]:
                    st = self.reads(a, st)
                if nm == 'fill':
                    return FULL
                self.report(e, 'used')
                return st
            if nm in ('place', 'putmask', 'put', 'copyto') and e.args and text(e.args[0]) == self.key:
                for a in e.args[1:]:
                    st = self.reads(a, st)
                wh = next((k.value for k in e.keywords if k.arg == 'where'), None)
                if nm == 'copyto' and wh is None:
                    return FULL
                m = wh if nm == 'copyto' else e.args[1] if nm in ('place', 'putmask') and len(e.args) > 1 else None
                if m is not None:
                    k, sign = self.mask_key(m)
                    return self.add(st, ('mask' if sign else 'not', k))
                return st
            out = next((k.value for k in e.keywords if k.arg == 'out'), None)
            if out is not None and text(out) == self.key:
                for a in list(e.args) + [k.value for k in e.keywords if k.arg not in ('out', 'where')]:
                    st = self.reads(a, st)
                return FULL if not any(k.arg == 'where' for k in e.keywords) else st
            own = self.rule.project_call(e)
            for a in list(e.args) + [k.value for k in e.keywords]:
                if isinstance(a, (ast.Name, ast.Attribute)) and text(a) == self.key:
                    if own and self.rule.may_fill(e):
                        st = st | frozenset(['touched'])     # a buffer handed to a function that fills it
                        continue
                    if nm in ('len', 'shape', 'size', 'ndim', 'enumerate', 'range', 'empty_like', 'zeros_like', 'ones_like', 'full_like'):
                        continue
                    self.report(e, 'passed to %s' % nm)
                    continue
                st = self.reads(a, st)
            if not isinstance(e.func, ast.Name):
                st = self.reads(e.func, st)
            return st
        if isinstance(e, ast.Subscript) and text(e.value) == self.key:
            st = self.reads(e.slice, st)
            if not self.partial(e.slice, st):
                self.report(e, 'read')
            return st
        if isinstance(e, ast.Attribute) and text(e.value) == self.key:
            if e.attr not in META and e.attr != 'flat':
                self.report(e, 'used')
            return st
        if isinstance(e, (ast.Name, ast.Attribute)) and text(e) == self.key:
            self.report(e, 'used')
            return st
        if isinstance(e, ast.Lambda):
            return st
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, (ast.expr, ast.keyword, ast.comprehension, ast.Slice)):
                st = self.reads(ch.value if isinstance(ch, ast.keyword) else ch, st) if not isinstance(ch, ast.comprehension) else self.reads(ch.iter, st)
            elif isinstance(ch, ast.stmt):
                self.reads(ch, st)
        return st

    def partial(self, s, st):
        """reading a part: what can be compared with the regions has to be among them"""
        r = self.region(s)
        if r == '*':
            return False
        if not (isinstance(r, tuple) and r[0] == 'iv'):
            if isinstance(r, tuple) and r[0] in ('mask', 'not') and 'touched' not in st and not self.loops and r not in st and \
                    all(isinstance(x, tuple) and x[0] in ('mask', 'not') for x in st) and isinstance(s, (ast.Name, ast.UnaryOp, ast.Compare)):
                return False                 # other elements than those set
            return True                      # which elements is not known: decided by the count kept with them
        n = self.shape[r[1]] if self.shape and r[1] < len(self.shape) else None
        if 'touched' in st and not set(r[2].t) | set(r[3].t) <= set(n.t if n is not None else ()) | {'#%d' % r[1]}:
            return True
        if not st and not self.loops:
            return False
        if any(q is not None for q in self.loops):
            return True
        lo, hi = r[2], r[3]
        if lo.t or any(k not in (self.shape[r[1]].t if self.shape and r[1] < len(self.shape) and self.shape[r[1]] is not None else {}) and
                       not k.startswith('#') for k in hi.t):
            n = self.shape[r[1]] if self.shape and r[1] < len(self.shape) and self.shape[r[1]] is not None else Lin(0, {'#%d' % r[1]: 1})
            if not (hi == n or set(lo.t) <= set(n.t) and set(hi.t) <= set(n.t)):
                return True
        return self.has(r, st)


class Rule(object):
    def __init__(self, ctx, r):
        self.ctx, self.proj, self.eff, self.r = ctx, ctx.proj, ctx.effects, r
        self.nsite = self.ncall = 0
        self.how = []

    def callee(self, f, c):
        names = {t for k, t in self.eff.sites.get(id(c), ()) if k == 'ext'}
        if not names and isinstance(c.func, (ast.Name, ast.Attribute)):
            x = self.proj.resolve_expr(f.module, c.func)
            if x and x[0] == 'ext':
                names = {x[1]}
        return names

    def project_call(self, c):
        return any(k in ('fn', 'cls') for k, t in self.eff.sites.get(id(c), ()))

    def may_fill(self, c):
        """one of the functions called writes to its parameters, or is not known"""
        for k, q in self.eff.sites.get(id(c), ()):
            if k not in ('fn', 'cls'):
                return True
            if k == 'cls':
                continue
            s = self.eff.sums.get(q)
            if s is None or any(root(L)[0] == 'p' for L, kind in s.effects):
                return True
        return False

    def run(self):
        for q, f in sorted(self.proj.funcs.items()):
            if isinstance(f.node, ast.Lambda):
                continue
            sc = None
            for n in walk_local(f.node):
                if not isinstance(n, ast.Call):
                    continue
                self.ncall += 1
                nm = self.callee(f, n)
                kws = {k.arg for k in n.keywords}
                if 'where' in kws and 'out' not in kws and any(x.startswith('numpy.') and x.split('.')[-1] not in (
                        'sum', 'mean', 'prod', 'max', 'min', 'amax', 'amin', 'std', 'var', 'all', 'any', 'copyto') for x in nm):
                    self.nsite += 1
                    self.r.add('%s: %s without out' % (q, text(n.func)),
                               '%s leaves the elements outside where= uninitialised (%s)' % (text(n.func), q), '%s:%d' % (f.path, n.lineno))
                if not nm & MAKE:
                    continue
                self.nsite += 1
                sc = sc or Scope(self, f)
                self.site(q, f, sc, n, sorted(nm & MAKE)[0])

    def site(self, q, f, sc, call, nm):
        stmt = None
        for s in walk_local(f.node):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is call:
                stmt = s
        loc = '%s:%d' % (f.path, call.lineno)
        a = call.args[0] if call.args else None
        if isinstance(a, ast.Constant) and a.value == 0 or isinstance(a, (ast.Tuple, ast.List)) and any(
                isinstance(x, ast.Constant) and x.value == 0 for x in a.elts) or isinstance(a, (ast.List, ast.Tuple)) and not a.elts and False:
            return                           # nothing in it
        t = None
        if stmt is not None:
            ts = stmt.targets if isinstance(stmt, ast.Assign) else [stmt.target]
            if len(ts) == 1 and isinstance(ts[0], (ast.Name, ast.Attribute)):
                t = ts[0]
        if t is None:
            p = self.parent(f, call)
            if isinstance(p, ast.Attribute) and p.attr in META:
                return
            self.r.add('%s: %s' % (q, text(call.func)), '%s (%s) uses an array without giving its elements values' % (q, loc), loc)
            return
        w = Walk(self, f, sc, text(t), dims(sc, call, nm), call, text(a) if a is not None and not nm.endswith('like') else
                 None if a is None else text(a) + '.shape')
        st = w.block(f.body, None)
        if isinstance(t, ast.Attribute) and isinstance(st, frozenset) and '*' not in st:
            w.report(t, 'kept as attribute')
        self.how.append('%s: %s' % (q, w.key))
        for line, how in w.bad[:1]:
            self.r.add('%s: %s' % (q, w.key), '%s: %s, made without values in line %d, is %s in line %d before all its elements are set on every path' % (
                q, w.key, call.lineno, how, line), '%s:%d' % (f.path, line or call.lineno))

    def parent(self, f, c):
        for n in ast.walk(f.node):
            for ch in ast.iter_child_nodes(n):
                if ch is c:
                    return n


def run(ctx, selftest=False):
    r = Result(
        rule='an array made without values (numpy.empty and the like) is written completely on every path before it is used as a whole',
        explanation='regions written on every path: intervals with symbolic ends along an axis, masks and their complements, loops over index '
                    'ranges, even and odd elements; they have to cover the array before it is returned, passed on, stored or computed with')
    a = Rule(ctx, r)
    a.run()
    r.samples = a.how[:20]
    r.coverage = {'call_sites': a.ncall, 'arrays_without_values': a.nsite, 'functions': len(ctx.proj.funcs)}
    r.assumptions = ['a loop over range(n) has n rounds; intervals with symbolic ends are taken in ascending order',
                     'which part of a buffer filled under a running count is read is not decided']
    return r
