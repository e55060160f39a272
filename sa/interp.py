"""Structured abstract interpretation of one Python function body.

A subclass supplies the abstract values: ``ev(node)`` (value of an expression) and
``store(target, value, node)``.  Environments are dicts; ``join`` is per key.
"""
import ast


class Dead(object):
    pass


class Interp(object):
    MAXITER = 4

    def __init__(self):
        self.env = {}
        self.returns = []        # (value, env)
        self.breaks = []
        self.conts = []
        self.try_envs = []
        self.alive = True

    # -- to be supplied ---------------------------------------------------
    def join_val(self, a, b):
        raise NotImplementedError

    def missing(self, key):
        """Value of a key absent from one side of a join (None: drop)."""
        return None

    def ev(self, node):
        raise NotImplementedError

    def store(self, target, value, node):
        raise NotImplementedError

    def iter_elem(self, value, node):
        return value

    def refine(self, test, truth):
        """Narrow self.env for test being truth; return False if impossible."""
        return True

    def on_stmt(self, node):
        pass

    # -- joins ------------------------------------------------------------
    def join_env(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        out = {}
        for k, v in a.items():
            if k in b:
                w = b[k]
                out[k] = v if v is w or v == w else self.join_val(v, w)
            else:
                mv = self.missing(k)
                out[k] = v if mv is None else self.join_val(v, mv)
        for k, v in b.items():
            if k not in a:
                mv = self.missing(k)
                out[k] = v if mv is None else self.join_val(v, mv)
        return out

    # -- statements ---------------------------------------------------------
    def block(self, stmts):
        for s in stmts:
            if not self.alive:
                return
            if self.try_envs:
                t = self.try_envs[-1]
                t[0] = self.join_env(t[0], dict(self.env))
            self.on_stmt(s)
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is not None:
                m(s)
            else:
                for ch in ast.iter_child_nodes(s):
                    if isinstance(ch, ast.expr):
                        self.ev(ch)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.store(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.store(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        raise NotImplementedError

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.returns.append((v, self.env, s))
        self.alive = False

    def s_Raise(self, s):
        if s.exc is not None:
            self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)
        self.alive = False

    def s_Assert(self, s):
        self.ev(s.test)
        if s.msg is not None:
            e = self.env
            self.env = dict(e)
            self.ev(s.msg)
            self.env = e
        if self.refine(s.test, True) is False:
            self.alive = False

    def s_Pass(self, s):
        pass

    def s_Delete(self, s):
        for t in s.targets:
            self.delete(t, s)

    def delete(self, t, s):
        if isinstance(t, ast.Name):
            self.env.pop(t.id, None)
        else:
            for ch in ast.iter_child_nodes(t):
                if isinstance(ch, ast.expr):
                    self.ev(ch)

    def s_Break(self, s):
        if self.breaks:
            self.breaks[-1].append(self.env)
        self.alive = False

    def s_Continue(self, s):
        if self.conts:
            self.conts[-1].append(self.env)
        self.alive = False

    def enter_branch(self, test, truth):
        pass

    def leave_branch(self):
        pass

    def s_If(self, s):
        self.ev(s.test)
        e0 = self.env
        self.env = dict(e0)
        self.alive = self.refine(s.test, True) is not False
        self.enter_branch(s.test, True)
        if self.alive:
            self.block(s.body)
        self.leave_branch()
        e1 = self.env if self.alive else None
        self.env = dict(e0)
        self.alive = self.refine(s.test, False) is not False
        self.enter_branch(s.test, False)
        if self.alive:
            self.block(s.orelse)
        self.leave_branch()
        e2 = self.env if self.alive else None
        e = self.join_env(e1, e2)
        self.alive = e is not None
        self.env = e if e is not None else e0

    def _loop(self, s, head, test=None):
        out = None
        base = None
        for it in range(self.MAXITER):
            start = self.join_env(base, self.env) if base is not None else dict(self.env)
            if base is not None and start == base:
                break
            base = start
            self.env = dict(start)
            head()
            self.breaks.append([])
            self.conts.append([])
            exit_env = dict(self.env)
            ok = True
            if test is not None:
                e = self.env
                self.env = exit_env
                exit_ok = self.refine(test, False) is not False
                exit_env = self.env if exit_ok else None
                self.env = e
                ok = self.refine(test, True) is not False
            self.enter_branch(test if test is not None else getattr(s, 'iter', None), True)
            self.alive = ok
            if ok:
                self.block(s.body)
            self.leave_branch()
            end = self.env if self.alive else None
            for c in self.conts.pop():
                end = self.join_env(end, c)
            brk = None
            for b in self.breaks.pop():
                brk = self.join_env(brk, b)
            self._exit = (exit_env, brk)
            out_n, out_b = exit_env, brk
            self.env = end if end is not None else dict(base)
            if end is None:
                # body never falls through to another iteration
                if test is None:
                    out_n = self.join_env(out_n, dict(base))
                out = (out_n, out_b)
                break
            out = (self.join_env(out_n, end if test is None else None), out_b)
        else:
            pass
        out_n, out_b = out
        if test is None and out_n is not None:
            out_n = self.join_env(out_n, dict(base))
        self.alive = out_n is not None
        if self.alive:
            self.env = out_n
            if s.orelse:
                self.block(s.orelse)
        e = self.env if self.alive else None
        e = self.join_env(e, out_b)
        self.alive = e is not None
        if e is not None:
            self.env = e

    def s_For(self, s):
        it = self.ev(s.iter)

        def head():
            self.store(s.target, self.iter_elem(it, s.iter), s)
        self._loop(s, head)

    def s_While(self, s):
        def head():
            self.ev(s.test)
        self._loop(s, head, s.test)

    def s_With(self, s):
        for item in s.items:
            v = self.ev(item.context_expr)
            if item.optional_vars is not None:
                self.store(item.optional_vars, self.with_value(v, item), s)
        self.block(s.body)

    def with_value(self, v, item):
        return v

    def s_Try(self, s):
        self.try_envs.append([dict(self.env)])
        self.block(s.body)
        mid = self.try_envs.pop()[0]
        mid = self.join_env(mid, self.env)
        if self.try_envs:
            self.try_envs[-1][0] = self.join_env(self.try_envs[-1][0], mid)
        if self.alive:
            self.block(s.orelse)
        out = self.env if self.alive else None
        for h in s.handlers:
            self.env = dict(mid)
            self.alive = True
            if h.name:
                self.bind_exc(h)
            self.block(h.body)
            if self.alive:
                out = self.join_env(out, self.env)
        self.alive = out is not None
        self.env = out if out is not None else dict(mid)
        if s.finalbody:
            was = self.alive
            self.alive = True
            self.block(s.finalbody)
            self.alive = self.alive and was

    s_TryStar = s_Try

    def bind_exc(self, h):
        self.env.pop(h.name, None)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        pass

    def s_ClassDef(self, s):
        pass

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Import
