"""C16: no call fails, or returns something else than the others, through a mistake of the
library's own wiring: a name, variable, attribute or method that does not exist on some path,
a call that does not fit the signature of its callee, a message whose placeholders do not
fit its values, a path that forgets to return the result."""
import ast
import json
import os
import re
from ..framework import Result
from ..paths import Walker
from ..project import BUILTINS, walk_local, is_public

_EXT = None
MODULE_VARS = {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__',
               '__class__', '__module__', '__qualname__'}


def ext():
    global _EXT
    if _EXT is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'extnames.json')) as f:
            _EXT = json.load(f)
    return _EXT


# ---- names -----------------------------------------------------------------------------------
def bound_names(f):
    """names local to function f (assigned anywhere in it, parameters included)"""
    out = set(f.all_params())
    node = f.node
    if isinstance(node, ast.Lambda):
        return out
    glob = set()
    for n in walk_local(node.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    return out - glob


class Names(object):
    def __init__(self, proj):
        self.proj = proj

    def module_has(self, m, name):
        if name in m.names or name in m.gvars or name in BUILTINS or name in MODULE_VARS:
            return True
        if self.proj.lookup(m, name) is not None:
            return True
        for s in m.stars:
            if s in self.proj.modules:
                if self.star_has(self.proj.modules[s], name, set()):
                    return True
            else:
                mem = ext()['members'].get(s)
                if mem is None or name in mem['all']:
                    return True
        if not hasattr(m, 'dyn'):
            m.dyn = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    m.dyn.update(n.names)
            for n in walk_local([s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]):
                if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('locals', 'globals', 'vars'):
                    m.dyn.add('*')
        return name in m.dyn

    def star_has(self, m, name, seen):
        if m.name in seen:
            return False
        seen.add(m.name)
        if m.all is not None and name not in m.all and not m.all_open:
            return False
        if name in m.names or name in m.gvars:
            return True
        for s in m.stars:
            if s in self.proj.modules:
                if self.star_has(self.proj.modules[s], name, seen):
                    return True
            else:
                mem = ext()['members'].get(s)
                if mem is None or name in mem['all']:
                    return True
        return False


def check_names(proj, r, st):
    nm = Names(proj)
    for m in proj.modules.values():
        m.all_open = _all_open(m)
    for q, f in sorted(proj.funcs.items()):
        scopes = set()
        g = f
        while g is not None:
            scopes |= bound_names(g)
            g = g.parent
        comp = set()
        body = f.body
        for n in walk_local(body):
            if isinstance(n, ast.comprehension):
                comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        # a class body between function and module does not matter for lookups
        for n in walk_local(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                st['names'] += 1
                if n.id in scopes or n.id in comp or nm.module_has(f.module, n.id):
                    continue
                r.add('name %s in %s' % (n.id, q), '%s (%s:%d) uses the name %s, which is defined nowhere'
                      % (q, f.path, n.lineno, n.id), '%s:%d' % (f.path, n.lineno))
    for m in proj.modules.values():
        # module level
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) or proj._is_main(s):
                continue
            comp = {x.id for n in ast.walk(s) if isinstance(n, ast.comprehension) for x in ast.walk(n.target)
                    if isinstance(x, ast.Name)}
            for n in walk_local([s]):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in comp:
                    st['names'] += 1
                    if not nm.module_has(m, n.id):
                        r.add('name %s in %s' % (n.id, m.name), 'importing %s (%s:%d) uses the undefined name %s'
                              % (m.name, m.rel, n.lineno, n.id), '%s:%d' % (m.rel, n.lineno))
        # imports of project names, __all__
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = proj._from_base(m, n)
                t = proj.modules.get(base)
                if t is None:
                    mem = ext()['members'].get(base)
                    if mem and not _guarded_import(m, n):
                        for a in n.names:
                            if a.name != '*' and a.name not in mem['names'] and base + '.' + a.name not in ext()['members']:
                                r.add('import %s.%s in %s' % (base, a.name, m.name), '%s:%d imports %s, which %s does not have'
                                      % (m.rel, n.lineno, a.name, base), '%s:%d' % (m.rel, n.lineno))
                    continue
                for a in n.names:
                    if a.name == '*' or _guarded_import(m, n):
                        continue
                    st['imports'] += 1
                    if not nm.module_has(t, a.name) and base + '.' + a.name not in proj.modules and not _submodule(proj, t, a.name):
                        r.add('import %s.%s in %s' % (base, a.name, m.name), '%s:%d imports %s, which %s does not define'
                              % (m.rel, n.lineno, a.name, base), '%s:%d' % (m.rel, n.lineno))
        if m.all is not None:
            for a in m.all:
                st['exports'] += 1
                if not nm.module_has(m, a) and '*' not in m.dyn and m.name + '.' + a not in proj.modules and not _submodule(proj, m, a):
                    r.add('export %s of %s' % (a, m.name), '__all__ of %s (%s) lists %s, which does not exist: '
                          'importing everything from it fails' % (m.name, m.rel, a), m.rel)


def _all_open(m):
    n = 0
    for s in ast.walk(m.tree):
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Name) and t.id == '__all__':
                    n += 1
                    if not isinstance(s.value, (ast.List, ast.Tuple)):
                        return True
        elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name) \
                and s.func.value.id == '__all__':
            return True
    return n > 1


def _submodule(proj, m, name):
    if not m.is_pkg:
        return False
    d = os.path.dirname(m.path)
    return any(os.path.exists(os.path.join(d, name + e)) for e in ('.py', '', '.pyf')) or _compiled(d, name)


def _compiled(d, name):
    # extension modules built next to the sources, or declared in the build
    return any(x.startswith(name + '.') for x in os.listdir(d)) or name in COMPILED


COMPILED = {'mvn', 'mvnprdmod', 'rindmod', 'cov2mod', 'c_library'}


def _guarded_import(m, node):
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try):
            if any(node is x for x in ast.walk(t)):
                return True
    return False


# ---- variables that may have no value ----------------------------------------------------------
class Bound(Walker):
    def __init__(self, f, local, proj, noret):
        Walker.__init__(self, f)
        self.local, self.proj, self.noret = local, proj, noret
        self.bad = {}

    def use(self, n, st):
        if n.id in self.local and n.id not in st.env and '?' + n.id not in st.env and n.id not in self.globals:
            if not self.overflow:
                self.bad.setdefault(n.id, (n.lineno, sorted('%s%s' % ('' if b else 'not ', a) for a, b in st.facts.items())[:4]))
            st.env[n.id] = ('top',)

    def call(self, n, st):
        if ast.unparse(n.func) in ('sys.exit', 'os._exit', 'exit', 'quit'):
            return 'raises'
        if self.noret(self.func, n):
            return 'raises'
        return asserted(self, n, st)


def noreturn(proj):
    """functions that never return normally (their whole job is to raise)"""
    memo = {}

    def of(f):
        if f.qual not in memo:
            memo[f.qual] = False
            if not f.is_gen and f.body and not isinstance(f.node, ast.Lambda) and not _stub(f) \
                    and (any(isinstance(n, ast.Raise) for n in walk_local(f.body)) or len(f.body) <= 3):
                w = Quiet(f, test)
                w.run()
                memo[f.qual] = not w.returns
        return memo[f.qual]

    def targets(func, call):
        e = call.func
        if isinstance(e, ast.Name):
            x = proj.lookup(func.module, e.id)
            return [x[1]] if x and x[0] == 'func' else []
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if func.cls is not None and func.params and e.value.id == func.params[0]:
                return proj.overrides(func.cls, e.attr)
            x = proj.resolve_expr(func.module, e)
            return [x[1]] if x and x[0] == 'func' else []
        return []

    def test(func, call):
        fs = targets(func, call)
        return bool(fs) and all(of(g) for g in fs)
    test.targets = targets
    return test


class Quiet(Walker):
    def __init__(self, f, noret):
        Walker.__init__(self, f)
        self.noret = noret

    def call(self, n, st):
        if ast.unparse(n.func) in ('sys.exit', 'os._exit', 'exit', 'quit') or self.noret(self.func, n):
            return 'raises'
        return asserted(self, n, st)


def asserted(w, n, st):
    """a call of a helper that raises unless its argument is true"""
    fs = w.noret.targets(w.func, n)
    if len(fs) != 1 or any(isinstance(a, ast.Starred) for a in n.args):
        return None
    g = fs[0]
    p = _asserts(g)
    if p is None:
        return None
    i = g.params.index(p) - (1 if g.cls is not None and g.kind in ('method', 'class') else 0)
    arg = n.args[i] if 0 <= i < len(n.args) else next((k.value for k in n.keywords if k.arg == p), None)
    if arg is not None and not w.assume(arg, True, st):
        return 'raises'
    return None


def _asserts(g):
    """the parameter that must be true for g to return"""
    if isinstance(g.node, ast.Lambda):
        return None
    body = [s for s in g.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if body and isinstance(body[0], ast.If) and isinstance(body[0].test, ast.UnaryOp) and isinstance(body[0].test.op, ast.Not) \
            and isinstance(body[0].test.operand, ast.Name) and body[0].test.operand.id in g.params \
            and isinstance(body[0].body[-1], ast.Raise) and len(body[0].body) == 1:
        return body[0].test.operand.id
    if body and isinstance(body[0], ast.Assert) and isinstance(body[0].test, ast.Name) and body[0].test.id in g.params:
        return body[0].test.id
    return None


def _stub(f):
    b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not b or all(isinstance(s, (ast.Pass, ast.Raise)) for s in b)


def check_paths(proj, r, st):
    noret = noreturn(proj)
    for q, f in sorted(proj.funcs.items()):
        if isinstance(f.node, ast.Lambda) or _stub(f):
            continue
        w = Bound(f, bound_names(f), proj, noret)
        w.run()
        st['functions'] += 1
        st['paths'] += len(w.returns)
        if w.overflow:
            st['overflow'].append(q)
        for name, (line, facts) in sorted(w.bad.items()):
            r.add('unbound %s in %s' % (name, q), '%s (%s:%d) uses %s, which has no value on the path where %s'
                  % (q, f.path, line, name, ' and '.join(facts) or 'the function is entered'), '%s:%d' % (f.path, line))
        if f.is_gen or f.name == '__init__' or f.kind == 'setter':
            continue
        valued = [(s, x) for s, x in w.returns if s is not None and s.value is not None
                  and not (isinstance(s.value, ast.Constant) and s.value.value is None)]
        # a flag of the caller may ask for no result
        empty = [(s, x) for s, x in w.returns if s is None and not any(p in x.facts for p in f.params)]
        if valued and empty:
            st['valued'] += 1
            x = empty[0][1]
            facts = sorted('%s%s' % ('' if b else 'not ', a) for a, b in x.facts.items())[:4]
            r.add('falls through %s' % q, '%s (%s:%d) returns a value on some paths but falls off its end when %s'
                  % (q, f.path, f.line, ' and '.join(facts) or 'none of its branches is taken'), '%s:%d' % (f.path, f.line))
        elif valued:
            st['valued'] += 1


# ---- how many results ----------------------------------------------------------------------------
ONE = set('''zeros ones zeros_like ones_like empty empty_like full full_like array asarray ascontiguousarray hstack vstack concatenate sum mean std var
 median sqrt exp log log10 log1p expm1 sin cos tan tanh sinh cosh arctan arctan2 arcsin arccos abs absolute fabs dot outer squeeze interp cumsum cumprod copy
 maximum minimum linspace arange flatnonzero argmax argmin searchsorted diff ravel flatten reshape transpose repeat tile roll clip prod trapz
 isnan isinf isfinite any all len int float str repr bool sign floor ceil round percentile polyval convolve fft ifft real imag conj'''.split())


_DEFS = {}


def _defs(f):
    """name -> the expressions assigned to it in f, None where it also gets values in other ways"""
    out = _DEFS.get(id(f.node))
    out = out[1] if out is not None else None
    if out is None:
        out = {p: None for p in f.all_params()}
        for n in walk_local(f.body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if out.get(t.id, ()) is not None:
                            out.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                out[x.id] = None
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                if out.get(n.target.id, ()) is not None:
                    out.setdefault(n.target.id, []).append(ast.BinOp(left=n.target, op=n.op, right=n.value))
            elif isinstance(n, (ast.For, ast.comprehension, ast.AnnAssign, ast.NamedExpr)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        out[x.id] = None
            elif isinstance(n, ast.With):
                for it in n.items:
                    for x in ast.walk(it.optional_vars) if it.optional_vars is not None else ():
                        if isinstance(x, ast.Name):
                            out[x.id] = None
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    out[x] = None
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out[n.name] = None
        _DEFS[id(f.node)] = (f.node, out)
    return out


def arity(e, f, env, depth=0, busy=frozenset()):
    """number of results of a returned expression: int, None (unknown), 1 for a definite non-tuple"""
    if isinstance(e, ast.Tuple):
        return None if any(isinstance(x, ast.Starred) for x in e.elts) else len(e.elts) if len(e.elts) != 1 else None
    if isinstance(e, (ast.Compare, ast.Dict, ast.JoinedStr, ast.List, ast.ListComp, ast.DictComp, ast.Set)):
        return 1
    if depth > 5:
        return None
    if isinstance(e, ast.UnaryOp):
        return 1
    if isinstance(e, ast.BinOp):
        if not isinstance(e.op, (ast.Add, ast.Mult)):
            return 1
        a, b = (arity(x, f, env, depth + 1, busy) for x in (e.left, e.right))
        if isinstance(e.op, ast.Add):
            return 1 if a == 1 or b == 1 else None
        return 1 if a == 1 and b == 1 else None
    if isinstance(e, ast.IfExp):
        a, b = (arity(x, f, env, depth + 1, busy) for x in (e.body, e.orelse))
        return a if a == b else None
    if isinstance(e, ast.Constant) and e.value is not None:
        return 1
    if isinstance(e, ast.Name):
        if e.id in busy:
            return 1            # an update of the value itself: decided by the other definitions
        if env and e.id in env:
            d, before = env[e.id]
            return arity(d, f, before, depth + 1, busy)
        ds = _defs(f).get(e.id)
        if ds:
            vs = {arity(d, f, env, depth + 1, busy | {e.id}) for d in ds}
            return vs.pop() if len(vs) == 1 else None
        return None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
        if nm in ONE or nm == 'where' and len(e.args) == 3:
            own = isinstance(e.func, ast.Name) and f.module.proj.resolve_expr(f.module, e.func)
            return None if own and own[0] != 'ext' else 1
    return None


def _just_before(f, ret):
    """name -> (expression, the same for the names in it) for the names assigned in the statements right before ret"""
    def find(body):
        for i, s in enumerate(body):
            if s is ret:
                return body, i
            for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                for x in ([getattr(s, fld)] if fld != 'handlers' else [h.body for h in getattr(s, fld, ())]) if hasattr(s, fld) else ():
                    if isinstance(x, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        r = find(x)
                        if r:
                            return r
        return None
    r = find(f.body)
    env = {}
    for s in (r[0][:r[1]] if r else ()):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env = dict(env)
            env[s.targets[0].id] = (s.value, env)
        else:
            lost = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            env = {k: v for k, v in env.items() if k not in lost}
    return env


def check_arity(proj, eff, r, st):
    ar = {}
    for q, f in sorted(proj.funcs.items()):
        if isinstance(f.node, ast.Lambda) or f.is_gen:
            continue
        rets = []
        _collect(f.body, [], rets)
        cnt = {}
        for s, conds in rets:
            if s.value is None:
                continue
            a = arity(s.value, f, _just_before(f, s))
            if a is not None:
                cnt.setdefault(a, []).append((s, conds))
        if len(cnt) > 1:
            # an option of the caller may select what is returned
            opts = _options(f)
            bad = []
            for a, sites in cnt.items():
                for s, conds in sites:
                    if not any(_mentions_option(c, opts, f) for c in conds):
                        bad.append((a, s))
            kinds = {a for a, s in bad}
            if len(kinds) > 1:
                a, s = min(bad, key=lambda x: len(cnt[x[0]]))
                r.add('results %s' % q, '%s returns %s results depending on the data (e.g. %s:%d returns %d)'
                      % (q, ' or '.join(str(x) for x in sorted(kinds)), f.path, s.lineno, a), '%s:%d' % (f.path, s.lineno))
        st['returns'] += len(rets)
        vals = [arity(s.value, f, _just_before(f, s)) if s.value is not None else None for s, _ in rets]
        if vals and all(v is not None for v in vals):
            ar[q] = set(vals)
    # unpacking at the call sites
    for q, f in sorted(proj.funcs.items()):
        for n in walk_local(f.body):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) \
                    and isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) != len(n.targets[0].elts) \
                    and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts + n.value.elts):
                r.add('unpack in %s' % q, '%s (%s:%d) unpacks %d values into %d variables'
                      % (q, f.path, n.lineno, len(n.value.elts), len(n.targets[0].elts)), '%s:%d' % (f.path, n.lineno))
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) \
                    and isinstance(n.value, ast.Call) and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
                k = len(n.targets[0].elts)
                for kind, name in eff.sites.get(id(n.value), ()):
                    if kind == 'fn' and name in ar:
                        st['unpackings'] += 1
                        t = {x for x in ar[name] if x > 1}
                        if t and k not in ar[name]:
                            r.add('unpack %s in %s' % (name.split(':')[1], q), '%s (%s:%d) unpacks %d results of %s, which returns %s'
                                  % (q, f.path, n.lineno, k, name, '/'.join(map(str, sorted(t)))), '%s:%d' % (f.path, n.lineno))


def _collect(body, conds, out):
    for s in body:
        if isinstance(s, ast.Return):
            out.append((s, conds))
        elif isinstance(s, ast.If):
            _collect(s.body, conds + [s.test], out)
            _collect(s.orelse, conds + [s.test], out)
            if _ends(s.body):
                conds = conds + [s.test]
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            _collect(s.body, conds, out)
            _collect(getattr(s, 'orelse', []), conds, out)
        elif isinstance(s, ast.Try):
            _collect(s.body, conds, out)
            for h in s.handlers:
                _collect(h.body, conds, out)
            _collect(s.orelse, conds, out)
            _collect(s.finalbody, conds, out)


def _ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


def _options(f):
    """parameters whose value selects behaviour: compared with constants or used as truth value"""
    return set(f.all_params())


def _mentions_option(c, opts, f):
    """the condition tests a parameter (or an attribute of the object) directly, not data"""
    if isinstance(c, ast.UnaryOp):
        return _mentions_option(c.operand, opts, f)
    if isinstance(c, ast.BoolOp):
        return any(_mentions_option(v, opts, f) for v in c.values)
    if isinstance(c, ast.Name):
        return c.id in opts
    if isinstance(c, ast.Attribute):
        return isinstance(c.value, ast.Name)
    if isinstance(c, ast.Compare):
        l = c.left
        if isinstance(l, ast.Call) and isinstance(l.func, ast.Attribute) and l.func.attr in ('lower', 'upper'):
            l = l.func.value
        return (isinstance(l, ast.Name) and l.id in opts or isinstance(l, ast.Attribute) and isinstance(l.value, ast.Name)
                and l.value.id == 'self') and all(isinstance(x, (ast.Constant, ast.Tuple, ast.List)) for x in c.comparators)
    if isinstance(c, ast.Call):
        nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', '')
        if nm in ('isscalar', 'isinstance', 'startswith', 'callable', 'hasattr', 'issubclass'):
            return True
    return False


# ---- calls ------------------------------------------------------------------------------------
def fits(f, call, bound):
    """None if the call fits the signature, else text"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = f.params[:f.npos]
    kwonly = f.params[f.npos:]
    if bound:
        pos = pos[1:]
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if npos > len(pos) and not f.vararg:
        return 'takes at most %d positional arguments, is given %d' % (len(pos), npos)
    given = set(pos[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'is given %s twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and not f.kwarg:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    if not star:
        for p in pos + kwonly:
            if p not in given and p not in f.defaults:
                return 'needs the argument %s' % p
    return None


def fits_ext(sig, call):
    names = [p[0] for p in sig if p[1] != 'VAR_POSITIONAL' and p[1] != 'VAR_KEYWORD']
    varpos = any(p[1] == 'VAR_POSITIONAL' for p in sig)
    varkw = any(p[1] == 'VAR_KEYWORD' for p in sig)
    pos = [p[0] for p in sig if p[1] in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')]
    star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if npos > len(pos) and not varpos:
        return 'takes at most %d positional arguments, is given %d' % (len(pos), npos)
    for k in call.keywords:
        if k.arg and k.arg not in names and not varkw:
            return 'has no parameter %s' % k.arg
    if not star:
        given = set(pos[:npos]) | {k.arg for k in call.keywords}
        for p in sig:
            if p[1] in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY') and not p[2] and p[0] not in given:
                return 'needs the argument %s' % p[0]
    return None


def check_calls(proj, eff, r, st):
    for q, f in sorted(proj.funcs.items()):
        for n in walk_local(f.body):
            if not isinstance(n, ast.Call):
                continue
            targets = eff.sites.get(id(n), ())
            bad = []
            ok = 0
            for kind, name in sorted(targets, key=str):
                if kind == 'fn':
                    g = proj.funcs[name]
                    if isinstance(g.node, ast.Lambda) and g.cls is None:
                        bound = False
                    else:
                        bound = g.cls is not None and g.parent is None and g.kind in ('method', 'class', 'getter', 'setter')
                        # Class.method(obj, ...) passes the receiver itself
                        if bound and g.kind == 'method' and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                            x = proj.resolve_expr(f.module, n.func.value)
                            if x and x[0] == 'class':
                                bound = False
                    if _decorated(g):
                        continue
                    st['calls'] += 1
                    t = fits(g, n, bound)
                elif kind == 'cls':
                    c = proj.classes.get(name)
                    g = c.find('__init__') if c else None
                    if g is None or c.external_bases():
                        continue
                    st['calls'] += 1
                    t = fits(g, n, True)
                elif kind == 'ext':
                    sig = ext()['sigs'].get(name)
                    if sig is None:
                        continue
                    st['ext_calls'] += 1
                    t = fits_ext(sig, n)
                else:
                    continue
                if t:
                    bad.append((name, t))
                else:
                    ok += 1
            if bad and not (ok and not _same_slot(proj, f, n)):
                name, t = bad[0]
                r.add('call %s in %s' % (name.split(':')[-1], q), '%s (%s:%d) calls %s, which %s'
                      % (q, f.path, n.lineno, name, t), '%s:%d' % (f.path, n.lineno))


# ---- order of arguments and results -------------------------------------------------------------
def _named(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return e.attr
    return None


def _cycles(given):
    """given: slot -> name found there; the rings a -> b -> ... -> a of length 2 and more"""
    out = []
    for a in sorted(given):
        ring, b = [a], given[a]
        while b is not None and b not in ring and b in given:
            ring.append(b)
            b = given[b]
        if b == a and len(ring) > 1 and min(ring) == a:
            out.append(ring)
    return out


def _bound(proj, f, g, n):
    bound = g.cls is not None and g.parent is None and g.kind in ('method', 'class', 'getter', 'setter')
    if bound and g.kind == 'method' and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute)):
        x = proj.resolve_expr(f.module, n.func.value)
        if x and x[0] == 'class':
            bound = False
    return bound


def _given(g, n, bound):
    pos = g.params[:g.npos][1 if bound else 0:]
    out = {}
    for p, a in zip(pos, n.args):
        if isinstance(a, ast.Starred):
            break
        out[p] = _named(a)
    for k in n.keywords:
        if k.arg:
            out[k.arg] = _named(k.value)
    return out


def _inverse(f, seen, ring, g):
    """x2y next to y2x, which hands the same values to the same function in their own places"""
    parts = f.name.strip('_').split('2')
    if len(parts) != 2 or f.cls is None:
        return False
    return any(o.cls is f.cls and o.name.strip('_') == '2'.join(reversed(parts)) and all(given.get(p) == p for p in ring)
               for o, given in seen.get(g.qual, ()))


def check_order(proj, eff, r, st):
    sites, seen = [], {}
    for q, f in sorted(proj.funcs.items()):
        for n in walk_local(f.body):
            if isinstance(n, ast.Call):
                for kind, name in sorted(eff.sites.get(id(n), ()), key=str):
                    if kind == 'fn':
                        g = proj.funcs[name]
                        if isinstance(g.node, ast.Lambda):
                            continue
                        bound = _bound(proj, f, g, n)
                    elif kind == 'cls':
                        g, bound = proj.classes[name].find('__init__') if name in proj.classes else None, True
                    else:
                        continue
                    if g is None:
                        continue
                    given = _given(g, n, bound)
                    st['ordered'] += len(given)
                    seen.setdefault(g.qual, []).append((f, given))
                    sites.append((q, f, n, g, given))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call):
                into = [_named(e) for e in n.targets[0].elts]
                for kind, name in sorted(eff.sites.get(id(n.value), ()), key=str):
                    if kind != 'fn' or isinstance(proj.funcs[name].node, ast.Lambda):
                        continue
                    g = proj.funcs[name]
                    rets = [[_named(e) for e in x.value.elts] for x in walk_local(g.body)
                            if isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple)]
                    st['ordered'] += len(rets)
                    rings = [[ring for ring in _cycles({b: a for a, b in zip(into, ret) if a and b and ret.count(b) == 1 and into.count(a) == 1})
                              if not set(ring) <= set(g.params)] if len(ret) == len(into) else [] for ret in rets]
                    if rets and all(rings):
                        ring = rings[0][0]
                        r.add('exchanged results of %s in %s' % (name.split(':')[-1], q), '%s (%s:%d) takes the results %s of %s in another order than it '
                              'returns them' % (q, f.path, n.lineno, ', '.join(ring), name), '%s:%d' % (f.path, n.lineno))
    for q, f, n, g, given in sites:
        for ring in _cycles(given):
            if f.qual == g.qual or _inverse(f, seen, ring, g):
                continue
            r.add('exchanged arguments of %s in %s' % (g.qual.split(':')[-1], q), '%s (%s:%d) gives %s, each in the place of another, to %s'
                  % (q, f.path, n.lineno, ', '.join(ring), g.qual), '%s:%d' % (f.path, n.lineno))


def _same_slot(proj, f, n):
    return False


def _decorated(g):
    return any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')) for d in g.decorators)


# ---- attributes ---------------------------------------------------------------------------------
def check_attrs(proj, eff, r, st):
    stored = {}
    anyname = set(ext()['types'])
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                anyname.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                anyname.add(n.name)
                if isinstance(n, ast.FunctionDef):
                    a = n.args
                    for p in a.args + a.kwonlyargs:
                        anyname.add(p.arg)
            elif isinstance(n, ast.keyword) and n.arg:
                anyname.add(n.arg)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                anyname.update(re.findall(r'[A-Za-z_]\w*', n.value)[:40])
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        anyname.add(t.id)
    extmem = set()
    for v in ext()['members'].values():
        if v:
            extmem.update(v['names'])
    for c in proj.classes.values():
        s = set()
        for b in c.classes():
            s |= set(b.methods) | set(b.props) | set(b.attrs)
            for f in b.methods.values():
                s |= _self_stores(f)
            for p in b.props.values():
                for f in p.values():
                    if f is not None and not isinstance(f, str):
                        s |= _self_stores(f)
        stored[c.qual] = s
    fam = {}
    for c in proj.classes.values():
        s = set(stored[c.qual])
        for d in proj.subclasses.get(c.qual, ()):
            s |= stored[d.qual]
        fam[c.qual] = s
    for q, f in sorted(proj.funcs.items()):
        c = f.cls
        g = f
        while c is None and g.parent is not None:
            g = g.parent
            c = g.cls
        selfname = g.params[0] if c is not None and g.params and g.kind in ('method', 'getter', 'setter') else None
        closed = c is not None and not _open(proj, c)
        guarded = _hasattr_names(f)
        for n in walk_local(f.body):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            st['attributes'] += 1
            if isinstance(n.value, ast.Name) and n.value.id == selfname:
                if closed and n.attr not in fam[c.qual] and not hasattr(object, n.attr) and n.attr not in guarded \
                        and n.attr not in ('__dict__', '__class__', '__name__', '__module__'):
                    r.add('attribute %s in %s' % (n.attr, q), '%s (%s:%d) uses self.%s, which no class of the hierarchy defines'
                          % (q, f.path, n.lineno, n.attr), '%s:%d' % (f.path, n.lineno))
                    continue
            e = proj.resolve_expr(f.module, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
            if isinstance(n.value, (ast.Name, ast.Attribute)) and _root(n.value) in _locals(f):
                e = None
            if e and e[0] == 'mod' and e[1] in proj.modules:
                t = proj.modules[e[1]]
                if not Names(proj).module_has(t, n.attr) and '*' not in t.dyn and e[1] + '.' + n.attr not in proj.modules \
                        and not _submodule(proj, t, n.attr):
                    r.add('attribute %s.%s in %s' % (e[1], n.attr, q), '%s (%s:%d) uses %s.%s, which does not exist'
                          % (q, f.path, n.lineno, e[1], n.attr), '%s:%d' % (f.path, n.lineno))
                continue
            if e and e[0] in ('mod', 'ext'):
                if e[1].split('.')[-1] in COMPILED:
                    continue
                mem = ext()['members'].get(e[1])
                if mem and n.attr not in mem['names'] and e[1] + '.' + n.attr not in ext()['members'] and n.attr not in guarded:
                    r.add('attribute %s.%s in %s' % (e[1], n.attr, q), '%s (%s:%d) uses %s.%s, which does not exist'
                          % (q, f.path, n.lineno, e[1], n.attr), '%s:%d' % (f.path, n.lineno))
                continue
            if isinstance(n.value, ast.Name) and n.value.id in COMPILED:
                continue
            if n.attr not in anyname and n.attr not in extmem and n.attr not in guarded:
                r.add('attribute %s in %s' % (n.attr, q), '%s (%s:%d) uses the attribute %s, which nothing defines'
                      % (q, f.path, n.lineno, n.attr), '%s:%d' % (f.path, n.lineno))


def _root(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def _locals(f):
    s = set()
    while f is not None:
        s |= bound_names(f)
        f = f.parent
    return s


def _self_stores(f):
    out = set()
    if not f.params:
        return out
    me = f.params[0]
    for n in walk_local(f.node, into_nested=True):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
            out.add(n.attr)
        elif isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
    return out


def _hasattr_names(f):
    out = set()
    for n in walk_local(f.body):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('hasattr', 'getattr') and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
    return out


def _open(proj, c):
    if c.external_bases():
        return True
    for b in c.classes():
        if '__getattr__' in b.methods or '__getattribute__' in b.methods:
            return True
        for f in b.methods.values():
            for n in walk_local(f.node, into_nested=True):
                if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]:
                    return True
                if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'setattr' and n.args and isinstance(n.args[0], ast.Name) \
                        and f.params and n.args[0].id == f.params[0] and not isinstance(n.args[1], ast.Constant):
                    return True
                if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'vars':
                    return True
    return False


# ---- messages -------------------------------------------------------------------------------------
_FMT = re.compile(r'%(?:\((\w+)\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def check_formats(proj, r, st):
    for q, f in sorted(proj.funcs.items()):
        defs = {}
        for n in walk_local(f.body):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                defs.setdefault(n.targets[0].id, []).append(n.value)
        for n in walk_local(f.body):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and _text(n.left) is not None:
                t = _text(n.left)
                ms = [m for m in _FMT.finditer(t)]
                want = sum(1 + (m.group(2) == '*') + (m.group(3) == '*') for m in ms if m.group(4) != '%')
                named = any(m.group(1) for m in ms)
                if named or '%' not in t.replace('%%', ''):
                    if not named and '%' not in t:
                        pass
                    else:
                        continue
                st['formats'] += 1
                have = None
                if isinstance(n.right, ast.Tuple):
                    if not any(isinstance(x, ast.Starred) for x in n.right.elts):
                        have = len(n.right.elts)
                elif isinstance(n.right, (ast.Constant, ast.BinOp, ast.JoinedStr)) or (
                        isinstance(n.right, ast.Call) and getattr(n.right.func, 'id', '') in ('str', 'len', 'repr', 'int', 'float', 'abs')):
                    have = 1
                elif isinstance(n.right, ast.Name):
                    have = arity(n.right, f, None)
                if have is not None and have != want:
                    r.add('message %r in %s' % (t[:40], q), '%s (%s:%d) formats %d placeholders with %d values'
                          % (q, f.path, n.lineno, want, have), '%s:%d' % (f.path, n.lineno))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and _text(n.func.value) is not None:
                t = _text(n.func.value)
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                st['formats'] += 1
                import string
                try:
                    fields = [x[1] for x in string.Formatter().parse(t) if x[1] is not None]
                except ValueError as e:
                    r.add('message %r in %s' % (t[:40], q), '%s (%s:%d): %s' % (q, f.path, n.lineno, e), '%s:%d' % (f.path, n.lineno))
                    continue
                auto = 0
                kws = {k.arg for k in n.keywords}
                for fl in fields:
                    base = re.split(r'[.\[]', fl)[0]
                    if base == '':
                        auto += 1
                    elif base.isdigit():
                        if int(base) >= len(n.args):
                            auto = 10 ** 6
                    elif base not in kws:
                        auto = 10 ** 6
                if auto > len(n.args):
                    r.add('message %r in %s' % (t[:40], q), '%s (%s:%d) formats more placeholders than the %d values given'
                          % (q, f.path, n.lineno, len(n.args)), '%s:%d' % (f.path, n.lineno))


def _text(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = _text(e.left), _text(e.right)
        return a + b if a is not None and b is not None else None
    return None


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='on every path: each name resolves, each local variable has a value when it is used, each call fits the '
             'signature of every callee it can reach (package and library), each attribute of self, of a module and of '
             'other objects exists, each formatted message gets as many values as it has placeholders, a function that '
             'returns a result returns it on every path, with the same number of results for all data',
        explanation='names, path-sensitive definite assignment and returns, resolved calls, attributes, format strings, '
                    'imports and exports of all functions and modules')
    st = {k: 0 for k in ('names', 'imports', 'exports', 'functions', 'paths', 'valued', 'returns', 'unpackings', 'calls',
                         'ext_calls', 'ordered', 'attributes', 'formats')}
    st['overflow'] = []
    check_names(proj, r, st)
    check_paths(proj, r, st)
    check_arity(proj, eff, r, st)
    check_calls(proj, eff, r, st)
    check_order(proj, eff, r, st)
    check_attrs(proj, eff, r, st)
    check_formats(proj, r, st)
    r.findings = [f for f in r.findings if not _exempt(proj.canonical(f.key))]
    r.coverage = st
    r.assumptions = ['loops are entered at least once', 'external libraries have the members and signatures of the installed versions',
                     'functions with more than the bounded number of distinguishable path states are merged: %s' % st['overflow']]
    return r


# never called, kept for reference only
UNUSED = {'wafo.spectrum.core:SpecData1D._cov2mmtpdfexe': 'wrapper of a program that is no longer distributed; nothing calls it',
          'wafo.interpolate:test_func': 'demonstration of a removed scipy interface, not part of the library'}


def _exempt(key):
    return any(key.endswith(' ' + q) for q in UNUSED)
