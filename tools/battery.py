"""battery.py [transform ...]: rewrite the whole package without changing what it does and run every check on the copy.

Each transformation is applied to every place where it is behaviour-preserving; a check that raises an alarm on the
result is wrong. Developer tool; no registered check uses it.
"""
import ast
import copy
import os
import shutil
import subprocess
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
REPO = os.environ.get('BASE_REPO', '/repo')


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, stem):
        self.n += 1
        return '%s_%d' % (stem, self.n)


def N(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def assign(name, value):
    return ast.Assign([N(name, ast.Store())], value)


class ReturnVar(Base):
    "return e -> r = e; return r"
    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        v = self.fresh('result')
        return [assign(v, n.value), ast.Return(N(v))]


class InvertIf(Base):
    "if c: A else: B -> if not c: B else: A"
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class IfVar(Base):
    "if <expr> -> c = expr; if c   (not in elif position: those become nested)"
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Name):
            return n
        v = self.fresh('cond')
        return [assign(v, n.test), ast.If(N(v), n.body, n.orelse)]


class NoopStmt(Base):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)) else 0
        n.body.insert(k, assign('_unused', ast.Constant(None)))
        return n


class ForWhile(Base):
    "for i in range(n): B -> counter first, B afterwards"
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range'
                            and len(n.iter.args) in (1, 2) and isinstance(n.target, ast.Name)):
            return n
        a = n.iter.args
        lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
        c, u = self.fresh('counter'), self.fresh('upper')
        return [assign(c, lo), assign(u, hi),
                ast.While(ast.Compare(N(c), [ast.Lt()], [N(u)]),
                          [assign(n.target.id, N(c)), ast.AugAssign(N(c, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]


class ForIndex(Base):
    "for x in xs -> for i, x in enumerate(xs)"
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(N('enumerate'), [n.iter], [])
        n.target = ast.Tuple([N(self.fresh('idx'), ast.Store()), n.target], ast.Store())
        return n


class ForSeq(Base):
    "for x in X -> for k in range(len(X)): x = X[k]   (X a name; taken to be a sequence)"
    def visit_For(self, n):
        self.generic_visit(n)
        it, t, k = n.iter, n.target, None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 \
                and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
            it, k, t = it.args[0], t.elts[0].id, t.elts[1]
        if not isinstance(it, ast.Name):
            return n
        k = k or self.fresh('pos')
        n.iter = ast.Call(N('range'), [ast.Call(N('len'), [N(it.id)], [])], [])
        n.target = N(k, ast.Store())
        n.body.insert(0, ast.Assign([t], ast.Subscript(N(it.id), N(k), ast.Load())))
        return n


class TernaryIf(Base):
    "x = a if c else b -> if c: x = a else: x = b"
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n


class IfTernary(Base):
    "if c: x = a else: x = b -> x = a if c else b"
    def visit_If(self, n):
        self.generic_visit(n)
        if (len(n.body) == 1 and len(n.orelse) == 1 and all(
                isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                for s in (n.body[0], n.orelse[0])) and n.body[0].targets[0].id == n.orelse[0].targets[0].id):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class CompLoop(Base):
    "x = [e for y in ys] -> loop with append (function bodies only)"
    infunc = False

    def visit_FunctionDef(self, n):
        o, self.infunc = self.infunc, True
        self.generic_visit(n)
        self.infunc = o
        return n

    def visit_Assign(self, n):
        v = n.value
        if (self.infunc and isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1
                and isinstance(n.targets[0], ast.Name)):
            g = v.generators[0]
            used = {m.id for m in ast.walk(v) if isinstance(m, ast.Name)}
            if n.targets[0].id in used:
                return n
            body = [ast.Expr(ast.Call(ast.Attribute(N(n.targets[0].id), 'append', ast.Load()), [v.elt], []))]
            for c in g.ifs:
                body = [ast.If(c, body, [])]
            names = [m.id for m in ast.walk(g.target) if isinstance(m, ast.Name)]
            t = copy.deepcopy(g.target)
            ren = {k: self.fresh(k) for k in names}

            class R(ast.NodeTransformer):
                def visit_Name(s, m):
                    return ast.Name(ren.get(m.id, m.id), m.ctx)
            body = [R().visit(b) for b in body]
            return [assign(n.targets[0].id, ast.List([], ast.Load())), ast.For(R().visit(t), g.iter, body, [])]
        return n


class Rename(Base):
    "rename plain local variables"
    def visit_FunctionDef(self, n):
        inner = [m for m in ast.walk(n) if m is not n and isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))]
        glob = {x for m in ast.walk(n) if isinstance(m, (ast.Global, ast.Nonlocal)) for x in m.names}
        if any(isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for m in inner) or glob:
            return n
        if any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id in ('locals', 'vars', 'eval', 'exec') for m in ast.walk(n)):
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        st = {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - args
        exc = {m.name for m in ast.walk(n) if isinstance(m, ast.ExceptHandler)}
        st -= exc
        imps = {(a.asname or a.name) for m in ast.walk(n) if isinstance(m, (ast.Import, ast.ImportFrom)) for a in m.names}
        st -= imps
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and m.id in st:
                m.id = m.id + '_v'
        return n


class Impl(Base):
    "def f(args): B -> def f(args): return f_impl(args); def f_impl(args): B"
    def _split(self, n, method):
        a = n.args
        if n.decorator_list or a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs:
            return None
        if n.name.startswith('__'):
            return None
        if any(isinstance(m, (ast.Yield, ast.YieldFrom)) for m in ast.walk(n)):
            return None
        if any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == 'super' for m in ast.walk(n)):
            return None
        doc = n.body[:1] if (isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)) else []
        body = n.body[len(doc):]
        if not body:
            return None
        name = '_' + n.name + '_impl'
        args = [x.arg for x in a.args]
        if method:
            if not args or args[0] != 'self':
                return None
            call = ast.Call(ast.Attribute(N('self'), name, ast.Load()), [N(x) for x in args[1:]], [])
        else:
            call = ast.Call(N(name), [N(x) for x in args], [])
        if method:
            name = call.func.attr
        impl = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in args], None, [], [], None, []), body, [])
        n.body = doc + [ast.Return(call)]
        return impl

    def visit_Module(self, m):
        out = []
        for n in m.body:
            if isinstance(n, ast.FunctionDef):
                i = self._split(n, False)
                out.append(n)
                if i is not None:
                    out.append(i)
            elif isinstance(n, ast.ClassDef):
                b = []
                for k in n.body:
                    b.append(k)
                    if isinstance(k, ast.FunctionDef):
                        i = self._split(k, True)
                        if i is not None:
                            i.name = '_%s%s' % (n.name.lower(), i.name)
                            k.body[-1].value.func.attr = i.name
                            b.append(i)
                n.body = b
                out.append(n)
            else:
                out.append(n)
        m.body = out
        return m


def stores(stmts):
    s = set()
    for t in stmts:
        for m in ast.walk(t):
            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                s.add(m.id)
            elif isinstance(m, (ast.FunctionDef, ast.ClassDef)):
                s.add(m.name)
            elif isinstance(m, (ast.Import, ast.ImportFrom)):
                s |= {(a.asname or a.name) for a in m.names}
    return s


def loads(stmts):
    return {m.id for t in stmts for m in ast.walk(t) if isinstance(m, ast.Name)}


class Tail(Base):
    "the second half of a function body becomes a helper that gets the locals it uses"
    where = 0.5

    def definitely(self, stmts):
        s = set()
        for t in stmts:
            if isinstance(t, ast.Assign):
                for g in t.targets:
                    s |= {m.id for m in ast.walk(g) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
            elif isinstance(t, ast.If) and t.orelse:
                s |= self.definitely(t.body) & self.definitely(t.orelse)
            elif isinstance(t, ast.With):
                s |= self.definitely(t.body)
        return s

    def _split(self, n, method):
        a = n.args
        if n.decorator_list or a.posonlyargs or n.name == '__new__':
            return None
        bad = (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Import, ast.ImportFrom)
        if any(isinstance(m, bad) for t in n.body for m in ast.walk(t)):
            return None
        if any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id in ('super', 'locals', 'vars') for m in ast.walk(n)):
            return None
        doc = n.body[:1] if (isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)) else []
        body = n.body[len(doc):]
        if len(body) < 2:
            return None
        k = max(1, int(len(body) * self.where))
        head, tail = body[:k], body[k:]
        args = {x.arg for x in a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc = args | stores(body)
        use = sorted(loads(tail) & loc)
        # every local the tail mentions that head may store must be definitely stored or an argument
        defd = args | self.definitely(head)
        may = args | stores(head)
        params = [u for u in use if u in may]
        if any(u not in defd for u in params):
            return None
        if any(isinstance(m, ast.Delete) for t in body for m in ast.walk(t)):
            return None
        name = self.fresh('_' + n.name.strip('_') + '_rest')
        if method:
            if not a.args or a.args[0].arg != 'self':
                return None
            p = [x for x in params if x != 'self']
            call = ast.Call(ast.Attribute(N('self'), name, ast.Load()), [N(x) for x in p], [])
            p = ['self'] + p
        else:
            p = params
            call = ast.Call(N(name), [N(x) for x in p], [])
        n.body = doc + head + [ast.Return(call)]
        return ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in p], None, [], [], None, []), tail, [])

    def visit_Module(self, m):
        out = []
        for n in m.body:
            if isinstance(n, ast.FunctionDef):
                i = self._split(n, False)
                out.append(n)
                if i is not None:
                    out.append(i)
            elif isinstance(n, ast.ClassDef):
                b = []
                for k in n.body:
                    b.append(k)
                    if isinstance(k, ast.FunctionDef):
                        i = self._split(k, True)
                        if i is not None:
                            b.append(i)
                n.body = b
                out.append(n)
            else:
                out.append(n)
        m.body = out
        return m


class Tail9(Tail):
    where = 0.85


class Tail2(Tail):
    where = 0.2


class LoopBody(Base):
    "for ..: B -> for ..: v1, v2 = helper(...) when the body has no break, continue or return"
    def _loops(self, fn, method, out):
        a = fn.args
        bad = (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Import, ast.ImportFrom,
               ast.Break, ast.Continue, ast.Return, ast.Delete)
        args = {x.arg for x in a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        if fn.decorator_list:
            return
        if any(isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for t in fn.body for m in ast.walk(t)):
            return
        T = Tail()
        defd = set(args)
        for t in fn.body:
            if isinstance(t, ast.For) and not t.orelse and not any(isinstance(m, bad) for b in t.body for m in ast.walk(b)) and not any(
                    isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id in ('super', 'locals') for b in t.body for m in ast.walk(b)):
                tg = {m.id for m in ast.walk(t.target) if isinstance(m, ast.Name)}
                st = stores(t.body)
                allst = args | stores(fn.body)
                use = loads(t.body) & allst
                inb = T.definitely(t.body)
                have = defd | tg
                pars = sorted(u for u in use if u in have)
                # locals used but not available: must be defined in the body before; conservatively require definite at top level & never before
                if all(u in have or u in inb for u in use) and st <= (inb | have):
                    outs = sorted(st - tg) or []
                    if all(o in have or o in inb for o in outs):
                        name = self.fresh('_' + fn.name.strip('_') + '_step')
                        body = list(t.body)
                        if outs:
                            body.append(ast.Return(ast.Tuple([N(o) for o in outs], ast.Load()) if len(outs) > 1 else N(outs[0])))
                        if method:
                            if not a.args or a.args[0].arg != 'self':
                                continue
                            p = [x for x in pars if x != 'self']
                            call = ast.Call(ast.Attribute(N('self'), name, ast.Load()), [N(x) for x in p], [])
                            p = ['self'] + p
                        else:
                            p = pars
                            call = ast.Call(N(name), [N(x) for x in p], [])
                        out.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in p], None, [], [], None, []), body, []))
                        if outs:
                            tgt = ast.Tuple([N(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else N(outs[0], ast.Store())
                            t.body = [ast.Assign([tgt], call)]
                        else:
                            t.body = [ast.Expr(call)]
            defd |= T.definitely([t])

    def visit_Module(self, m):
        out = []
        for n in m.body:
            out.append(n)
            if isinstance(n, ast.FunctionDef):
                self._loops(n, False, out)
            elif isinstance(n, ast.ClassDef):
                b = []
                for k in n.body:
                    b.append(k)
                    if isinstance(k, ast.FunctionDef):
                        self._loops(k, True, b)
                n.body = b
        m.body = out
        return m


class AugPlain(Base):
    "n += e -> n = n + e for counters (integer constants only)"
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            return assign(n.target.id, ast.BinOp(N(n.target.id), n.op, n.value))
        return n


class EarlyElse(Base):
    "if c: ... return; rest -> if c: ... return else: rest"
    def _block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                return body[:i] + [ast.If(s.test, s.body, self._block(body[i + 1:]))]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self._block(n.body)
        return n


class ElseEarly(Base):
    "if c: ... return else: rest -> if c: ... return; rest"
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            e, n.orelse = n.orelse, []
            return [n] + e
        return n


class TempArgs(Base):
    "f(a, g(b)) in a plain assignment/expression/return -> t = g(b); f(a, t) when the other arguments are names or constants"
    def _one(self, stmt, call):
        pre = []
        if isinstance(call, ast.Call) and isinstance(call.func, (ast.Name, ast.Attribute)) and not any(isinstance(m, ast.Call) for m in ast.walk(call.func)):
            if all(isinstance(x, (ast.Name, ast.Constant, ast.Call)) for x in call.args):
                for i, x in enumerate(call.args):
                    if isinstance(x, ast.Call):
                        v = self.fresh('tmp')
                        pre.append(assign(v, x))
                        call.args[i] = N(v)
                        break
        return pre + [stmt]

    def visit_Assign(self, n):
        return self._one(n, n.value)

    def visit_Return(self, n):
        return self._one(n, n.value)

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class DictGet(Base):
    "assert c, m -> if not c: raise AssertionError(m)"
    def visit_Assert(self, n):
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Raise(ast.Call(N('AssertionError'), [n.msg] if n.msg else [], []), None)], [])


class UnpackSplit(Base):
    "a, b = f(x) -> t = f(x); a = t[0]; b = t[1]: only for results that are tuples (here: project tuples are not known) -> skipped; a, b = e1, e2 -> t1 = e1; t2 = e2; a = t1; b = t2"
    def visit_Assign(self, n):
        if (len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple)
                and len(n.targets[0].elts) == len(n.value.elts) and not any(isinstance(e, ast.Starred) for e in n.value.elts + n.targets[0].elts)):
            ts = [self.fresh('part') for _ in n.value.elts]
            return [assign(t, v) for t, v in zip(ts, n.value.elts)] + [ast.Assign([g], N(t)) for g, t in zip(n.targets[0].elts, ts)]
        return n


class WithSplit(Base):
    "chained comparisons a < b < c -> (a < b) and (b < c) for names and constants"
    def visit_Compare(self, n):
        self.generic_visit(n)
        xs = [n.left] + n.comparators
        if len(n.ops) > 1 and all(isinstance(x, (ast.Name, ast.Constant, ast.UnaryOp, ast.Attribute)) for x in xs):
            return ast.BoolOp(ast.And(), [ast.Compare(copy.deepcopy(xs[i]), [n.ops[i]], [copy.deepcopy(xs[i + 1])]) for i in range(len(n.ops))])
        return n


class NpAlias(Base):
    "from numpy import x -> local aliases through the module"
    def visit_Module(self, m):
        for n in list(m.body):
            if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module == 'numpy':
                i = m.body.index(n)
                new = [ast.Import([ast.alias('numpy', '_numpy')])]
                if any(a.name == '*' for a in n.names):
                    continue
                new += [assign(a.asname or a.name, ast.Attribute(N('_numpy'), a.name, ast.Load())) for a in n.names]
                m.body[i:i + 1] = new
        return m


class WhileTrue(Base):
    "while c: B -> while True: if not c: break; B"
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or (isinstance(n.test, ast.Constant)):
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class ForElseFlag(Base):
    "for/else with one break -> flag"
    def visit_For(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        f = self.fresh('broken')

        class B(ast.NodeTransformer):
            def visit_For(s, m):
                return m

            def visit_While(s, m):
                return m

            def visit_FunctionDef(s, m):
                return m

            def visit_Break(s, m):
                return [assign(f, ast.Constant(True)), m]
        body = []
        for b in n.body:
            r = B().visit(b)
            body += r if isinstance(r, list) else [r]
        return [assign(f, ast.Constant(False)), ast.For(n.target, n.iter, body, []),
                ast.If(ast.UnaryOp(ast.Not(), N(f)), n.orelse, [])]


class KwArgs(Base):
    "positional arguments of calls of functions defined in the same module become keywords"
    def visit_Module(self, m):
        defs = {}
        for n in m.body:
            if isinstance(n, ast.FunctionDef):
                defs[n.name] = n
            elif isinstance(n, (ast.Assign, ast.ClassDef)):
                for t in ([n.name] if isinstance(n, ast.ClassDef) else [x.id for x in n.targets if isinstance(x, ast.Name)]):
                    defs[t] = None
        self.defs = {k: v for k, v in defs.items() if v is not None and not v.decorator_list and not v.args.vararg}
        self.local = []
        self.generic_visit(m)
        return m

    def visit_FunctionDef(self, n):
        self.local.append({a.arg for a in n.args.args} | stores(n.body))
        self.generic_visit(n)
        self.local.pop()
        return n

    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Name) and c.func.id in self.defs and not any(c.func.id in s for s in self.local):
            f = self.defs[c.func.id]
            if not any(isinstance(a, ast.Starred) for a in c.args) and len(c.args) <= len(f.args.args):
                ks = [ast.keyword(f.args.args[i].arg, a) for i, a in enumerate(c.args)]
                c.args = []
                c.keywords = ks + c.keywords
        return c


class InlineTemp(Base):
    "t = e; return f(t) where t is used once, immediately"
    def _block(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(b, ast.Return)
                    and isinstance(b.value, ast.Name) and b.value.id == a.targets[0].id):
                body[i:i + 2] = [ast.Return(a.value)]
            i += 1
        return body

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(n, f, None), list):
                self._block(getattr(n, f))
        return n


T = dict(returnvar=ReturnVar, invertif=InvertIf, ifvar=IfVar, noop=NoopStmt, forwhile=ForWhile, forindex=ForIndex, forseq=ForSeq, ternaryif=TernaryIf,
         ifternary=IfTernary, comploop=CompLoop, rename=Rename, impl=Impl, tail=Tail, tail9=Tail9, tail2=Tail2, loopbody=LoopBody,
         augplain=AugPlain, earlyelse=EarlyElse, elseearly=ElseEarly, tempargs=TempArgs, asserts=DictGet, unpack=UnpackSplit,
         chain=WithSplit, npalias=NpAlias, whiletrue=WhileTrue, forelse=ForElseFlag, kwargs=KwArgs, inline=InlineTemp)


def apply(name, dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst + '/src')
    shutil.copytree(REPO + '/src', dst + '/src', dirs_exist_ok=True, ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    for extra in ('source',):
        if os.path.isdir(REPO + '/' + extra):
            os.symlink(REPO + '/' + extra, dst + '/' + extra)
    for d, _, fs in os.walk(dst + '/src/wafo'):
        if '/tests' in d:
            continue
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                src = open(p, 'rb').read()
                try:
                    t = ast.parse(src)
                except SyntaxError:
                    continue
                t = ast.fix_missing_locations(T[name]().visit(t))
                out = ast.unparse(t)
                if True:
                    out = '# -*- coding: utf-8 -*-\n' + out
                ast.parse(out)
                open(p, 'w', encoding='utf-8').write(out + '\n')


def main():
    from sa.framework import PROPS
    names = [a for a in sys.argv[1:] if a in T] or sorted(T)
    props = [a for a in sys.argv[1:] if a in PROPS] or sorted(PROPS)
    from concurrent.futures import ThreadPoolExecutor
    work = os.environ.get('BATTERY', '/tmp/battery')

    def one(job):
        nm, p = job
        r = subprocess.run(['python3-vt', H + '/check.py', p], capture_output=True, text=True,
                           env=dict(os.environ, WAFO_REPO=work + '/' + nm, WAFO_EVIDENCE=work + '/ev_%s_%s' % (nm, p)))
        return nm, p, r
    for nm in names:
        apply(nm, work + '/' + nm)
    with ThreadPoolExecutor(7) as ex:
        for nm, p, r in ex.map(one, [(n, p) for n in names for p in props]):
            if r.returncode:
                print(nm, p, 'rc', r.returncode)
                for l in (r.stdout + r.stderr[-600:]).splitlines():
                    if not l.startswith(('KNOWN', 'note', 'VIOL')):
                        print('     ' + l[:260])
                sys.stdout.flush()
    print('done', len(names), 'x', len(props))


if __name__ == '__main__':
    main()
