"""Undo "extract helper": a function the package did not have when the rules were written and that is only called
from its own module is put back at its call sites, so that the rules see the code as if it had not been split off.

The substitution keeps the meaning (parameters are bound, locals renamed apart); a call that does not fit one of the
shapes below is left alone and analysed as a call.
"""
import ast
import copy

DEFS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)


def _doc(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0


def _names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(node) if isinstance(n, ast.arg)} | {
        n.name for n in ast.walk(node) if isinstance(n, DEFS + (ast.ExceptHandler,)) and n.name}


def _stored(stmts):
    s = set()
    for t in stmts:
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                s.add(n.id)
            elif isinstance(n, DEFS):
                s.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                s |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return s


class _Sub(ast.NodeTransformer):
    def __init__(self, ren, exprs):
        self.ren, self.exprs = ren, exprs

    def visit_Name(self, n):
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.exprs[n.id])
        if n.id in self.ren:
            return ast.copy_location(ast.Name(self.ren[n.id], n.ctx), n)
        return n

    def visit_arg(self, n):
        if n.arg in self.ren:
            n.arg = self.ren[n.arg]
        return n

    def _named(self, n):
        if n.name in self.ren:
            n.name = self.ren[n.name]
        return self.generic_visit(n)

    visit_FunctionDef = visit_ExceptHandler = visit_ClassDef = _named


def _own(node, kinds):
    """nodes of these kinds in the statements, not in nested functions"""
    out, stack = [], list(node)
    while stack:
        n = stack.pop()
        if isinstance(n, kinds):
            out.append(n)
        if isinstance(n, DEFS + (ast.Lambda,)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def _ends(stmts):
    """control never passes the end of these statements"""
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return _ends(s.body) and _ends(s.orelse)
    if isinstance(s, ast.With):
        return _ends(s.body)
    return False


def _assignify(stmts, make):
    """the statements with every return replaced by make(value), or None if a return is not in a tail position"""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            return out + make(s.value, s)
        if not _own([s], (ast.Return,)):
            out.append(s)
            continue
        rest = stmts[i + 1:]
        if isinstance(s, ast.If):
            if _ends(s.body):
                a, b = _assignify(s.body, make), _assignify(s.orelse + rest, make)
            elif s.orelse and _ends(s.orelse):
                a, b = _assignify(s.body + rest, make), _assignify(s.orelse, make)
            else:
                return None
            if a is None or b is None:
                return None
            out.append(ast.copy_location(ast.If(s.test, a or [ast.copy_location(ast.Pass(), s)], b), s))
            return out
        if isinstance(s, ast.With) and _ends(s.body):
            a = _assignify(s.body, make)
            if a is None:
                return None
            out.append(ast.copy_location(ast.With(s.items, a), s))
            return out
        return None
    if stmts and _ends(stmts):
        return out
    return out + make(None, stmts[-1] if stmts else None)


class Inliner(object):
    def __init__(self, modname, tree, known):
        self.mod, self.tree, self.known = modname, tree, known
        self.count = 0
        self.helpers = {}        # (class or None, name) -> FunctionDef
        for s in tree.body:
            if isinstance(s, ast.FunctionDef) and modname + ':' + s.name not in known and self.fits(s):
                self.helpers[(None, s.name)] = s
            elif isinstance(s, ast.ClassDef):
                for m in s.body:
                    if isinstance(m, ast.FunctionDef) and '%s:%s.%s' % (modname, s.name, m.name) not in known and self.fits(m, True):
                        self.helpers[(s.name, m.name)] = m

    def fits(self, f, method=False):
        a = f.args
        decs = [d.id if isinstance(d, ast.Name) else '?' for d in f.decorator_list]
        if decs and not (method and decs == ['staticmethod']):
            return False
        if a.vararg or a.kwarg or a.kwonlyargs or getattr(a, 'posonlyargs', None) or f.name.startswith('__'):
            return False
        if method and not decs and not a.args:
            return False
        for n in ast.walk(f):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
                return False
            if isinstance(n, ast.Name) and n.id in ('super', 'locals', 'vars', '__class__'):
                return False
            if isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, 'id', None) or getattr(n, 'attr', None)) == f.name:
                return False             # recursive
        return True

    def run(self):
        if not self.helpers:
            return
        for _ in range(6):
            before = self.count
            for s in self.tree.body:
                if isinstance(s, ast.FunctionDef):
                    self.function(s, None)
                elif isinstance(s, ast.ClassDef):
                    for m in s.body:
                        if isinstance(m, ast.FunctionDef):
                            self.function(m, s.name)
            if self.count == before:
                break
        if self.count:
            self.prune()

    def prune(self):
        """helpers nothing mentions any more are gone"""
        used = set()
        gone = {id(h) for (c, n), h in self.helpers.items()}
        for s in ast.walk(self.tree):
            if isinstance(s, ast.Name):
                used.add(s.id)
            elif isinstance(s, ast.Attribute):
                used.add(s.attr)
            elif isinstance(s, ast.Constant) and isinstance(s.value, str):
                used.add(s.value)
        for (c, n), h in list(self.helpers.items()):
            inside = {getattr(x, 'id', None) or getattr(x, 'attr', None) for x in ast.walk(h)}
            if n.startswith('_') and n not in used and n not in inside:
                if c is None:
                    self.tree.body = [s for s in self.tree.body if s is not h]
                else:
                    for s in self.tree.body:
                        if isinstance(s, ast.ClassDef) and s.name == c:
                            s.body = [m for m in s.body if m is not h] or [ast.copy_location(ast.Pass(), s)]

    def target(self, call, cls, fn):
        """(helper, skip the first parameter?) of a call"""
        f = call.func
        if isinstance(f, ast.Name):
            h = self.helpers.get((None, f.id))
            if h is not None and h is not fn and f.id not in self.local:
                return h, None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and cls is not None:
            h = self.helpers.get((cls, f.attr))
            if h is None or h is fn:
                return None
            static = bool(h.decorator_list)
            if f.value.id == self.selfname and self.selfname is not None:
                return h, (None if static else f.value)
            if f.value.id == cls and static:
                return h, None
        return None

    def bind(self, h, call, recv):
        pars = [p.arg for p in h.args.args]
        vals = {}
        if recv is not None:
            vals[pars[0]] = recv
            pars = pars[1:]
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(pars):
            return None
        for p, a in zip(pars, call.args):
            vals[p] = a
        for k in call.keywords:
            if k.arg not in pars or k.arg in vals:
                return None
            vals[k.arg] = k.value
        ds = h.args.defaults
        for p, d in zip([x.arg for x in h.args.args][len(h.args.args) - len(ds):], ds):
            if p not in vals:
                if not isinstance(d, ast.Constant):
                    return None
                vals[p] = d
        if any(p not in vals for p in pars):
            return None
        return vals

    def instance(self, h, call, recv):
        """(statements that bind, body) of h at this call, names apart from the caller's"""
        vals = self.bind(h, call, recv)
        if vals is None:
            return None
        body = [copy.deepcopy(s) for s in h.body[_doc(h.body):]]
        st = _stored(body)
        ren, exprs, pre = {}, {}, []
        taken = self.taken

        def free(v):
            k = v
            n = 1
            while k in taken:
                n += 1
                k = '%s_%d' % (v, n)
            taken.add(k)
            return k
        for p, a in vals.items():
            if p not in st and (isinstance(a, ast.Constant) or isinstance(a, ast.Name)):
                if isinstance(a, ast.Name) and a.id == p:
                    continue
                exprs[p] = a
            else:
                k = p if isinstance(a, ast.Name) and a.id == p and self.tail else free(p)
                if k != p:
                    ren[p] = k
                if not (isinstance(a, ast.Name) and a.id == k):
                    pre.append(ast.copy_location(ast.Assign([ast.Name(k, ast.Store())], a), call))
        for v in st - set(vals):
            k = free(v) if not self.tail or v in self.before else v
            if k != v:
                ren[v] = k
        sub = _Sub(ren, exprs)
        body = [sub.visit(s) for s in body]
        for s in pre + body:
            ast.fix_missing_locations(s)
        return pre, body

    def function(self, fn, cls):
        args = fn.args.args
        self.selfname = args[0].arg if cls is not None and args and not fn.decorator_list else ('self' if cls and args and args[0].arg == 'self' else None)
        self.local = _stored(fn.body) | {a.arg for a in args}
        self.taken = _names(fn)
        self.before = self.taken
        fn.body = self.block(fn.body, fn, cls, True)

    def block(self, stmts, fn, cls, last):
        out = []
        for i, s in enumerate(stmts):
            if isinstance(s, DEFS):
                out.append(s)
                continue
            r = self.statement(s, fn, cls)
            if r is not None:
                self.count += 1
                out.extend(r)
                continue
            self.exprs(s, fn, cls)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    setattr(s, f, self.block(b, fn, cls, False))
            for h in getattr(s, 'handlers', []) or []:
                h.body = self.block(h.body, fn, cls, False)
            out.append(s)
        return out

    def statement(self, s, fn, cls):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Call):
            t = self.target(s.value, cls, fn)
            if t is None:
                return None
            self.tail = True
            got = self.instance(t[0], s.value, t[1])
            if got is None:
                return None
            pre, body = got
            if not _ends(body):
                body = body + [ast.copy_location(ast.Return(None if not _own(body, (ast.Return,)) else ast.copy_location(ast.Constant(None), s)), s)]
            self.taken |= {n for x in body for n in _names(x)}
            return pre + body
        if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call):
            t = self.target(s.value, cls, fn)
            if t is None:
                return None
            self.tail = False
            got = self.instance(t[0], s.value, t[1])
            if got is None:
                return None
            pre, body = got

            def make(v, at):
                if isinstance(s, ast.Expr):
                    if v is None or isinstance(v, (ast.Constant, ast.Name)):
                        return []
                    return [ast.copy_location(ast.Expr(v), at)]
                return [ast.copy_location(ast.Assign(copy.deepcopy(s.targets), v if v is not None else ast.copy_location(ast.Constant(None), s)), at or s)]
            r = _assignify(body, make)
            if r is None:
                return None
            return pre + (r or [ast.copy_location(ast.Pass(), s)])
        return None

    def exprs(self, s, fn, cls):
        """calls of one-expression helpers inside other expressions"""
        me = self

        class X(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n
            visit_ClassDef = visit_Lambda = visit_FunctionDef

            def visit_Call(self, c):
                self.generic_visit(c)
                t = me.target(c, cls, fn)
                if t is None:
                    return c
                h = t[0]
                body = h.body[_doc(h.body):]
                if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
                    return c
                vals = me.bind(h, c, t[1])
                if vals is None:
                    return c
                e = copy.deepcopy(body[0].value)
                if any(isinstance(n, (ast.Lambda, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for n in ast.walk(e)):
                    return c
                for p, a in vals.items():
                    uses = sum(1 for n in ast.walk(e) if isinstance(n, ast.Name) and n.id == p)
                    if not isinstance(a, (ast.Name, ast.Constant)) and uses != 1:
                        return c
                me.count += 1
                return ast.fix_missing_locations(ast.copy_location(_Sub({}, vals).visit(e), c))
        x = X()
        for f, v in list(ast.iter_fields(s)):
            if f in ('body', 'orelse', 'finalbody', 'handlers'):
                continue
            if isinstance(v, ast.expr):
                setattr(s, f, x.visit(v))
            elif isinstance(v, list):
                setattr(s, f, [x.visit(y) if isinstance(y, ast.AST) else y for y in v])


def inline(modname, tree, known):
    Inliner(modname, tree, known).run()
    return tree
