"""Front end: parse /repo/src/wafo, resolve names, classes, methods and callees.

Nothing of the analysed code is imported or executed: everything is read from the
syntax trees of the files as they are in the working tree now.
"""
import ast
import json
import os
import re
import builtins
from .inline import inline
from .normalize import normalize

REPO = os.environ.get('WAFO_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

# Not library behaviour: tests, tutorial and demo scripts, Windows window
# management, the f2py build helper, and data listings.
EXCLUDE_DIRS = {'tests', 'doc', 'data', '__pycache__'}
EXCLUDE_FILES = {'conftest.py', 'demo.py', 'demos.py', 'win32_utils.py',
                 'f2py_tools.py', 'testing.py', 'license.py', 'info.py', 'fig.py',
                 'wavemodels.py',          # not valid Python 3 source, never imported
                 '_continuous_distns.py'}  # never imported: wafo.stats re-exports scipy's
BUILTINS = set(dir(builtins))


class AnalysisError(Exception):
    """The analysis lost what it reads (file missing, unparsable source)."""


class Func(object):
    __slots__ = ('qual', 'name', 'node', 'module', 'cls', 'parent', 'kind',
                 'params', 'defaults', 'vararg', 'kwarg', 'locals_', 'decorators',
                 'npos', 'globals_', 'nonlocals_', 'is_gen')

    def __init__(self, qual, name, node, module, cls=None, parent=None):
        self.qual, self.name, self.node = qual, name, node
        self.module, self.cls, self.parent = module, cls, parent
        self.kind = 'function'     # function|method|static|class|getter|setter
        a = node.args
        pos = list(getattr(a, 'posonlyargs', [])) + list(a.args)
        self.params = [p.arg for p in pos] + [p.arg for p in a.kwonlyargs]
        self.npos = len(pos)
        self.defaults = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decorators = list(getattr(node, 'decorator_list', []))
        self.locals_ = None
        self.is_gen = False

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    @property
    def line(self):
        return self.node.lineno

    @property
    def path(self):
        return self.module.rel

    @property
    def is_method(self):
        return self.cls is not None and self.kind in ('method', 'getter', 'setter', 'class')

    def all_params(self):
        out = list(self.params)
        if self.vararg:
            out.append(self.vararg)
        if self.kwarg:
            out.append(self.kwarg)
        return out

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class(object):
    def __init__(self, qual, name, node, module):
        self.qual, self.name, self.node, self.module = qual, name, node, module
        self.methods = {}       # name -> Func
        self.props = {}         # name -> {'get': Func, 'set': Func}
        self.attrs = {}         # class-level assigned name -> value node
        self.base_exprs = node.bases
        self.bases = []         # Class | dotted str (external)
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                if isinstance(b, Class):
                    for c in b.mro():
                        if c in out:
                            out.remove(c)
                        out.append(c)
                elif b not in out:
                    out.append(b)
            self._mro = out
        return self._mro

    def classes(self):
        return [c for c in self.mro() if isinstance(c, Class)]

    def external_bases(self):
        return [c for c in self.mro() if not isinstance(c, Class) and c not in ('object', 'builtins.object')]

    def find(self, name):
        for c in self.classes():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, name):
        for c in self.classes():
            if name in c.props:
                return c.props[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def find_attr(self, name):
        for c in self.classes():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module(object):
    def __init__(self, name, path, known=None):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, REPO)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        with open(path, 'rb') as f:
            raw = f.read()
        try:
            self.text = raw.decode('utf-8')
        except UnicodeDecodeError:
            self.text = raw.decode('latin-1')
        try:
            self.tree = ast.parse(self.text, path)
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (path, e))
        if known is not None:
            self.tree = inline(name, self.tree, known)
        self.tree = normalize(self.tree)
        self.names = {}      # top-level name -> binding tuple
        self.stars = []      # dotted modules star-imported
        self.all = None
        self.gvars = {}      # module-level variable -> [value nodes]
        self.main_nodes = set()

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


def _strings(e):
    if isinstance(e, (ast.List, ast.Tuple)):
        return [c.value for c in e.elts if isinstance(c, ast.Constant) and isinstance(c.value, str)]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return _strings(e.left) + _strings(e.right)
    return []


def _known_functions():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'functions.json')) as fh:
        return set(json.load(fh))


class Project(object):
    def __init__(self, src=None, minimum=30, inlining=True):
        self.inlining = inlining
        self.src = src or SRC
        self.minimum = minimum
        self.modules = {}
        self.funcs = {}      # qual -> Func
        self.classes = {}    # qual -> Class
        self.by_node = {}    # id(node) -> Func
        self.method_index = {}   # method name -> [Func]
        self.subclasses = {}
        self._origin = self._users = None
        self._load()

    # ---- loading -------------------------------------------------------
    def _load(self):
        root = os.path.join(self.src, 'wafo')
        if not os.path.isdir(root):
            raise AnalysisError('no package directory %s' % root)
        known = _known_functions() if self.inlining else None
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in EXCLUDE_DIRS)
            for fn in sorted(files):
                if not fn.endswith('.py') or fn in EXCLUDE_FILES:
                    continue
                p = os.path.join(d, fn)
                rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                self.modules[rel] = Module(rel, p, known)
                self.modules[rel].proj = self
        if len(self.modules) < self.minimum:
            raise AnalysisError('only %d modules found under %s' % (len(self.modules), root))
        for m in self.modules.values():
            self._bind(m, m.tree.body)
        for c in self.classes.values():
            for b in c.base_exprs:
                e = self.resolve_expr(c.module, b)
                c.bases.append(e[1] if e and e[0] in ('class',) else
                               (e[1] if e and e[0] == 'ext' else ast.unparse(b)))
        for c in self.classes.values():
            for b in c.mro():
                if isinstance(b, Class) and b is not c:
                    self.subclasses.setdefault(b.qual, []).append(c)
            for n, f in c.methods.items():
                self.method_index.setdefault(n, []).append(f)
            for n, p in c.props.items():
                for f in p.values():
                    pass

    def _is_main(self, node):
        return (isinstance(node, ast.If) and isinstance(node.test, ast.Compare)
                and isinstance(node.test.left, ast.Name) and node.test.left.id == '__name__')

    def _bind(self, m, body):
        for node in body:
            if self._is_main(node):
                continue
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._def_func(m, node, m.name + ':' + node.name)
            elif isinstance(node, ast.ClassDef):
                self._def_class(m, node)
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.names[a.asname] = ('mod', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                base = self._from_base(m, node)
                for a in node.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(node, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = node.targets if isinstance(node, ast.Assign) else [node.target]
                for t in targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            if n.id == '__all__' and node.value is not None:
                                m.all = (m.all or []) + _strings(node.value)
                            v = node.value
                            if (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                    and v.func.id == 'JITImport' and v.args
                                    and isinstance(v.args[0], ast.Constant)):
                                m.names[n.id] = ('mod', v.args[0].value)
                            elif (isinstance(v, ast.Lambda) and t is n):
                                f = self._def_func(m, v, m.name + ':' + n.id, name=n.id)
                            else:
                                m.gvars.setdefault(n.id, []).append(v)
                                if n.id not in m.names or m.names[n.id][0] == 'var':
                                    m.names[n.id] = ('var', n.id)
                                elif isinstance(v, ast.Constant) and v.value is None:
                                    pass        # "except ImportError: mod = None"
                                else:
                                    m.names[n.id] = ('var', n.id)
            elif isinstance(node, (ast.If, ast.For, ast.While)):
                if isinstance(node, ast.For):
                    for n in ast.walk(node.target):
                        if isinstance(n, ast.Name):
                            m.gvars.setdefault(n.id, []).append(node.iter)
                            m.names.setdefault(n.id, ('var', n.id))
                self._bind(m, node.body)
                self._bind(m, node.orelse)
            elif isinstance(node, ast.Try):
                self._bind(m, node.body)
                for h in node.handlers:
                    # keep the first binding: handler is the fallback
                    saved = dict(m.names)
                    self._bind(m, h.body)
                    for k, v in saved.items():
                        m.names[k] = v
                self._bind(m, node.orelse)
                self._bind(m, node.finalbody)
            elif isinstance(node, ast.With):
                self._bind(m, node.body)

    def _from_base(self, m, node):
        if node.level:
            parts = m.package().split('.')
            if node.level > 1:
                parts = parts[:-(node.level - 1)]
            return '.'.join(parts + ([node.module] if node.module else []))
        return node.module or ''

    def _def_func(self, m, node, qual, cls=None, parent=None, name=None):
        name = name or getattr(node, 'name', '<lambda>')
        if qual in self.funcs and self.funcs[qual].node is not node:
            k = 2
            while '%s#%d' % (qual, k) in self.funcs:
                k += 1
            q = '%s#%d' % (qual, k)
        else:
            q = qual
        f = Func(q, name, node, m, cls, parent)
        self.funcs[q] = f
        self.by_node[id(node)] = f
        if cls is None and parent is None:
            m.names[name] = ('func', f)
        f.is_gen = _is_generator(node)
        self._nested(f)
        return f

    def _nested(self, f):
        """Register functions, lambdas and classes nested in f."""
        def visit(node):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for d in ch.decorator_list + ch.args.defaults:
                        visit_expr(d)
                    self._def_func(f.module, ch, '%s.<%s>' % (f.qual, ch.name), parent=f)
                elif isinstance(ch, ast.Lambda):
                    self._def_func(f.module, ch, '%s.<lambda>' % f.qual, parent=f)
                elif isinstance(ch, ast.ClassDef):
                    pass
                else:
                    visit(ch)

        def visit_expr(e):
            visit(ast.Expr(value=e))
        if isinstance(f.node, ast.Lambda):
            visit_expr(f.node.body)
        else:
            for s in f.node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._def_func(f.module, s, '%s.<%s>' % (f.qual, s.name), parent=f)
                elif isinstance(s, ast.ClassDef):
                    pass
                else:
                    visit(s)

    def _def_class(self, m, node):
        c = Class(m.name + ':' + node.name, node.name, node, m)
        self.classes[c.qual] = c
        m.names[node.name] = ('class', c)

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kind = 'method'
                    prop = None
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id == 'staticmethod':
                            kind = 'static'
                        elif isinstance(d, ast.Name) and d.id == 'classmethod':
                            kind = 'class'
                        elif isinstance(d, ast.Name) and d.id in ('property', 'cached_property', 'lazyproperty'):
                            kind, prop = 'getter', 'get'
                        elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                            kind, prop = 'setter', 'set'
                        elif isinstance(d, ast.Attribute) and d.attr == 'getter':
                            kind, prop = 'getter', 'get'
                        elif isinstance(d, ast.Attribute) and d.attr == 'deleter':
                            kind, prop = 'setter', 'del'
                    suffix = {'set': '@setter', 'del': '@deleter'}.get(prop, '')
                    f = self._def_func(m, s, '%s.%s%s' % (c.qual, s.name, suffix), cls=c)
                    f.kind = kind
                    if prop:
                        c.props.setdefault(s.name, {})[prop] = f
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if not isinstance(t, ast.Name):
                            continue
                        v = s.value
                        if (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                and v.func.id == 'property'):
                            d = c.props.setdefault(t.id, {})
                            for slot, a in zip(('get', 'set', 'del'), v.args):
                                if isinstance(a, ast.Name) and a.id in c.methods:
                                    d[slot] = c.methods[a.id]
                            for k in v.keywords:
                                slot = {'fget': 'get', 'fset': 'set', 'fdel': 'del'}.get(k.arg)
                                if slot and isinstance(k.value, ast.Name) and k.value.id in c.methods:
                                    d[slot] = c.methods[k.value.id]
                        elif isinstance(v, ast.Name) and v.id in c.methods:
                            c.methods[t.id] = c.methods[v.id]
                        elif isinstance(v, ast.Lambda):
                            f = self._def_func(m, v, '%s.%s' % (c.qual, t.id), cls=c, name=t.id)
                            f.kind = 'method'
                            c.methods[t.id] = f
                        elif (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                              and v.func.id in ('staticmethod', 'classmethod') and v.args
                              and isinstance(v.args[0], ast.Name)
                              and v.args[0].id in c.methods):
                            c.methods[t.id] = c.methods[v.args[0].id]
                        else:
                            c.attrs[t.id] = v
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.attrs[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    body(s.body)
                    body(s.orelse)
        body(node.body)
        # class-level lambdas inside expressions (dict tables, ...)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Lambda) and id(n) not in self.by_node:
                    self._def_func(m, n, '%s.<lambda>' % c.qual, parent=None,
                                   cls=None, name='<lambda>%d' % n.lineno)

    # ---- resolution ----------------------------------------------------
    def lookup(self, m, name, seen=None):
        """Entity bound to a module-level name, or None.
        ('func',Func) ('class',Class) ('mod',dotted) ('gvar',Module,name) ('ext',dotted)"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        b = m.names.get(name)
        if b is None:
            for s in m.stars:
                sm = self.modules.get(s)
                if sm is not None:
                    if sm.all is not None:
                        if name not in sm.all:
                            continue
                    elif name.startswith('_'):
                        continue
                    e = self.lookup(sm, name, seen)
                    if e:
                        return e
                elif s and not s.startswith('wafo'):
                    if name in _STAR.get(s, ()):
                        return ('ext', s + '.' + name)
            sub = m.name + '.' + name
            if m.is_pkg and sub in self.modules:
                return ('mod', sub)
            return None
        if b[0] == 'func':
            return ('func', b[1])
        if b[0] == 'class':
            return ('class', b[1])
        if b[0] == 'mod':
            return ('mod', b[1])
        if b[0] == 'var':
            # alias of a function/class/module?
            vals = m.gvars.get(name, [])
            if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                e = self.resolve_expr(m, vals[0], seen)
                if e and e[0] in ('func', 'class', 'ext', 'mod'):
                    return e
            return ('gvar', m, name)
        if b[0] == 'from':
            return self.resolve_dotted(b[1], b[2], seen)
        return None

    def resolve_dotted(self, base, name, seen=None):
        if base + '.' + name in self.modules:
            m2 = self.modules.get(base)
            if m2 is not None and name in m2.names:
                e = self.lookup(m2, name, seen)
                if e:
                    return e
            return ('mod', base + '.' + name)
        m2 = self.modules.get(base)
        if m2 is not None:
            e = self.lookup(m2, name, seen)
            if e:
                return e
            ext = [x for x in self._ext_stars(m2)]
            if not ext:
                return ('missing', base + '.' + name)
            return ('ext', canon(ext[0] + '.' + name))
        return ('ext', canon(base + '.' + name))

    def _ext_stars(self, m, seen=()):
        for x in m.stars:
            if x not in self.modules:
                if not x.startswith('wafo'):
                    yield x
            elif x not in seen:
                for y in self._ext_stars(self.modules[x], seen + (m.name,)):
                    yield y

    def resolve_expr(self, m, e, seen=None):
        """Resolve a Name/Attribute chain at module scope."""
        if isinstance(e, ast.Name):
            r = self.lookup(m, e.id, seen)
            if r is None and e.id in BUILTINS:
                return ('ext', 'builtins.' + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, seen)
            return self.member(b, e.attr)
        return None

    def member(self, b, attr):
        if b is None:
            return None
        if b[0] == 'mod':
            if b[1] in self.modules:
                r = self.resolve_dotted(b[1], attr)
                return r
            return ('ext', canon(b[1] + '.' + attr))
        if b[0] == 'ext':
            return ('ext', canon(b[1] + '.' + attr))
        if b[0] == 'class':
            f = b[1].find(attr)
            if f:
                return ('func', f)
            a = b[1].find_attr(attr)
            if a:
                return ('cattr', a[0], attr)
            return None
        return None

    # ---- helpers split off a function ------------------------------------
    def origin(self, q):
        """The function a helper was split off: q itself if the package had it when the tables of the rules were written,
        otherwise its only caller (followed upwards)."""
        if self._origin is None:
            self._origin = _known_functions()
            self._users = {}
            for g in self.funcs.values():
                if g.parent is not None:
                    continue
                for n in ast.walk(g.node):
                    nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                    if nm is not None and isinstance(n.ctx, ast.Load):
                        self._users.setdefault(nm, set()).add(g.qual)
        if not any(q.startswith(k) for k in ('wafo.',)) or q in self._origin:
            return q
        seen = set()
        while q not in self._origin and q not in seen:
            seen.add(q)
            f = self.funcs.get(q)
            if f is None:
                return q
            if f.parent is not None:
                if f.parent.qual in self._origin:
                    return q
                o = self.origin(f.parent.qual)
                return o + q[len(f.parent.qual):]
            ups = {u for u in self._users.get(f.name, ()) if u != q and self.funcs[u].module is f.module}
            if len(ups) != 1:
                return q
            q = ups.pop()
        return q

    def canonical(self, key):
        """a finding's key with the names of split-off helpers replaced by the functions they come from"""
        def rep(m):
            w = m.group(0)
            t = w.rstrip(':,')
            return self.origin(t) + w[len(t):] if t in self.funcs else w
        return re.sub(r'wafo\.[\w.]*:[\w.<>#@]+:?', rep, key)

    def overrides(self, cls, name):
        """All implementations a call self.name() in cls may reach."""
        out = []
        f = cls.find(name)
        if f:
            out.append(f)
        for s in self.subclasses.get(cls.qual, []):
            g = s.methods.get(name)
            if g is not None and g not in out:
                out.append(g)
        return out


_CANON = {'np': 'numpy'}
_STAR = {}


def canon(d):
    for p, q in (('numpy.lib.scimath.', 'numpy.'), ('numpy.core.', 'numpy.'),
                 ('numpy.ma.core.', 'numpy.ma.')):
        if d.startswith(p):
            return q + d[len(p):]
    return d


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def walk_local(node, into_nested=False):
    """Walk statements/expressions of one function without nested defs."""
    stack = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while stack:
        n = stack.pop(0)
        yield n
        if not into_nested and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack = list(ast.iter_child_nodes(n)) + stack


DUNDER = ('__init__', '__call__', '__add__', '__sub__', '__mul__', '__getitem__', '__div__', '__truediv__',
          '__iter__', '__len__', '__str__', '__repr__', '__eq__', '__next__', '__setitem__', '__radd__')


def public_class(proj, c):
    """A class users can hold an instance of: public name, a public subclass, or a
    public module-level instance."""
    memo = proj.__dict__.setdefault('_pubcls', {})
    if c.qual in memo:
        return memo[c.qual]
    memo[c.qual] = False
    r = not c.name.startswith('_')
    if not r:
        r = any(public_class(proj, s) for s in proj.subclasses.get(c.qual, ()))
    if not r:
        for n, vals in c.module.gvars.items():
            for v in vals:
                if (not n.startswith('_') and isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                        and v.func.id == c.name):
                    r = True
    memo[c.qual] = r
    return r


def address_taken(proj):
    """Private functions stored in module-level tables or assigned onto classes:
    reached by dispatch, so they count as entry points."""
    r = proj.__dict__.get('_addr')
    if r is None:
        r = set()
        for m in proj.modules.values():
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)) or proj._is_main(s):
                    continue
                calls = {id(n.func) for n in ast.walk(s) if isinstance(n, ast.Call)}
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in calls:
                        e = proj.lookup(m, n.id)
                        if e and e[0] == 'func':
                            r.add(e[1].qual)
        proj._addr = r
    return r


def is_public(f, proj=None):
    """Part of the surface a user calls."""
    if f.parent is not None:
        return False
    if proj is not None and f.cls is None and f.qual in address_taken(proj):
        return True
    name = f.name
    if name.startswith('_') and name not in DUNDER:
        return False
    if f.cls is not None:
        return public_class(proj, f.cls) if proj is not None else not f.cls.name.startswith('_')
    return True
