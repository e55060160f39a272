"""C03: a result depends on the arguments (and the receiver), not on earlier calls."""
import ast
from ..effects import root, show, ELEM, is_cached, RNG, is_mutable_expr
from ..framework import Result
from ..interp import Interp
from ..localdeps import assigns, depends, injective
from ..project import is_public, walk_local

# compiled modules that keep settings between calls: (configure, use)
CONFIGURED = {'rindmod': ('set_constants', 'rind'), 'cov2mod': ('initinteg', 'cov2mmpdfreg')}
# what a call may learn besides its arguments, and where that is its purpose
AMBIENT = ('time.time', 'time.clock', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.gmtime', 'time.localtime',
           'time.strftime', 'time.ctime', 'time.asctime', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow',
           'datetime.date.today', 'os.getpid', 'os.getppid', 'os.getenv', 'os.environ', 'os.urandom', 'os.getcwd', 'os.listdir',
           'os.times', 'os.cpu_count', 'os.getlogin', 'uuid.', 'platform.', 'getpass.', 'socket.gethostname', 'gc.get_count',
           'threading.get_ident', 'threading.active_count', 'tracemalloc.', 'resource.getrusage', 'sys.getrefcount', 'id', 'hash',
           'sys.getsizeof', 'psutil.', 'random.getstate', 'locale.getlocale', 'glob.glob')
AMBIENT_OK = {'now': 'tells the time', 'is_exe': '', 'which': 'looks a program up', 'f2py_call_str': 'looks a program up'}


def _ambient(proj, eff, r):
    n = 0
    for q, f in sorted(proj.funcs.items()):
        name = f.module.proj.origin(f.qual).replace(':', '.').split('.')[-1]
        if name in AMBIENT_OK or name.startswith(('test', '_test', 'demo')) or name == 'main':
            continue
        for c in walk_local(f.node):
            d = None
            if isinstance(c, ast.Call):
                n += 1
                ext = [x for k, x in eff.sites.get(id(c), ()) if k == 'ext']
                d = next((x for x in ext if any(x == a or a.endswith('.') and x.startswith(a) for a in AMBIENT)), None)
                if d is None and isinstance(c.func, ast.Name) and c.func.id in ('id', 'hash') and c.func.id not in f.all_params() \
                        and proj.lookup(f.module, c.func.id) is None:
                    d = c.func.id
            elif isinstance(c, (ast.Attribute, ast.Name)) and isinstance(c.ctx, ast.Load):
                x = proj.resolve_expr(f.module, c) if isinstance(c, ast.Attribute) or c.id not in f.all_params() else None
                if x and x[0] == 'ext' and x[1] == 'os.environ':
                    d = x[1]
            if d is not None and not (f.name == '__hash__' and d in ('id', 'hash')):
                r.add('ambient %s' % q, '%s (%s:%d) uses %s: its result depends on something that is no argument'
                      % (q, f.path, c.lineno, d), '%s:%d' % (f.path, c.lineno))
    return n


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='no function writes an object that outlives the call (module variable, class attribute, default '
             'argument value, function attribute, cached result) except a memo table whose key distinguishes every '
             'input of the memoised value; no public function returns such an object; settings kept inside a '
             'compiled module are passed again before every use; clock, process, environment and object '
             'identity are not read',
        explanation='effects rooted in long-lived objects over all functions of the package; every memo write, every '
                    'cached function, every use of a configured compiled module is an obligation')
    nfun = nmemo = nret = 0
    for q, f in sorted(proj.funcs.items()):
        s = eff.sums.get(q)
        if s is None:
            continue
        nfun += 1
        for (L, kind), o in sorted(s.effects.items(), key=lambda kv: (str(kv[0]), kv[1].line)):
            b = root(L)
            if b[0] != 'g' or b == RNG:
                continue
            if o.chain:
                own = eff.sums.get(o.func.qual)
                if own is None or any(root(L2) == b for L2, _ in own.effects) or _below(eff, f, b):
                    continue           # reported where it happens
                r.add('state %s' % b[1], '%s passes %s, which outlives the call, to be written at %s' % (q, show(L), o.where()),
                      '%s:%d' % (o.func.path, o.line))
                continue
            memo = _memo(proj, o.func, o.line, b[1])
            if memo is not None:
                nmemo += 1
                ok, why = memo
                if not ok:
                    r.add('memo %s in %s' % (b[1], o.func.qual), why + ' at ' + o.where(), '%s:%d' % (o.func.path, o.line))
                elif len(r.samples) < 10:
                    r.samples.append('memo %s: %s' % (b[1], why))
                continue
            r.add('state %s' % b[1], '%s writes %s, which outlives the call, at %s' % (q, show(L), o.where()),
                  '%s:%d' % (o.func.path, o.line))
        if is_public(f, proj):
            nret += 1
            for L in sorted(s.ret, key=str):
                if root(L)[0] == 'g':
                    r.add('%s returns %s' % (q, root(L)[1]),
                          '%s (%s:%d) may return an object owned by %s: changing the result changes later calls'
                          % (q, f.path, f.line, show(L)), '%s:%d' % (f.path, f.line))
        if is_cached(f):
            nmemo += 1
            if f.is_method and f.kind != 'getter':
                reads = sorted({n.attr for n in walk_local(f.node) if isinstance(n, ast.Attribute)
                                and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]})
                if reads:
                    r.add('cached method %s' % q, 'results of %s are cached per receiver although it reads %s'
                          % (q, ', '.join('self.' + x for x in reads)), '%s:%d' % (f.path, f.line))
    nuse = _configured(proj, r)
    namb = _ambient(proj, eff, r)
    nown = _defaults_kept(proj, eff, r) + _closures(proj, r)
    r.coverage = {'functions': nfun, 'memo_writes': nmemo, 'public_results': nret, 'configured_uses': nuse,
                  'kept_defaults_and_closures': nown, 'calls_checked_for_ambient_inputs': namb}
    r.assumptions = ['state inside numpy/scipy/matplotlib other than random generators is not considered here',
                     'the table of compiled modules with settings: %s' % sorted(CONFIGURED)]
    if not selftest and nuse == 0:
        r.notes.append('no use of a configured compiled module found')
    return r


def _below(eff, f, b):
    """is the write already attributed to a function f calls?"""
    for n in walk_local(f.node):
        if isinstance(n, ast.Call):
            for k, q in eff.sites.get(id(n), ()):
                s = eff.sums.get(q) if k == 'fn' else None
                if s is not None and q != f.qual and any(root(L)[0] == 'g' and root(L) == b for L, _ in s.effects):
                    return True
    return False


def _kept_in(f, p):
    """attributes that hold the parameter's object itself"""
    out = set()
    for n in walk_local(f.node):
        if isinstance(n, ast.Assign):
            v = n.value
            alts = v.values if isinstance(v, ast.BoolOp) else [v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]
            if any(isinstance(a, ast.Name) and a.id == p for a in alts):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0]:
                        out.add(t.attr)
    return out


def _defaults_kept(proj, eff, r):
    """a mutable default value kept in an attribute whose contents some method changes"""
    n = 0
    for q, f in sorted(proj.funcs.items()):
        if f.cls is None or not f.params:
            continue
        for p, d in f.defaults.items():
            if d is None or not is_mutable_expr(d):
                continue
            n += 1
            kept = _kept_in(f, p)
            if not kept:
                continue
            for k in [f.cls] + [c for c in proj.classes.values() if f.cls in c.classes()]:
                for m in k.methods.values():
                    s = eff.sums.get(m.qual)
                    if s is None or not m.params:
                        continue
                    for (L, kind), o in s.effects.items():
                        x = L
                        while x[0] == 'f' and x[1][0] == 'f':
                            x = x[1]
                        if x[0] == 'f' and x[1] == ('p', m.params[0]) and x[2] in kept and (kind == 'write' or L is not x):
                            r.add('state default argument %s of %s' % (p, q),
                                  'the default value of %s in %s is kept in self.%s and changed by %s at %s: later objects see it'
                                  % (p, q, x[2], m.qual, o.where()), '%s:%d' % (o.func.path, o.line))
    return n


MUT = {'append', 'extend', 'insert', 'pop', 'update', 'add', 'clear', 'remove', 'sort', 'setdefault', 'popitem', 'fill', 'put'}


def _closures(proj, r):
    """a nested function that outlives its maker and changes its maker's variables"""
    n = 0
    for q, f in sorted(proj.funcs.items()):
        if f.parent is None or isinstance(f.node, ast.Lambda):
            continue
        g = f.parent
        outer = set(assigns(g)) | set(g.all_params())
        mine = set(assigns(f)) | set(f.all_params())
        nonl = {x for s in walk_local(f.node) if isinstance(s, ast.Nonlocal) for x in s.names}
        wrote = []
        for s in walk_local(f.node):
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    b = t
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name) and (b.id in nonl or b is not t and b.id in outer and b.id not in mine):
                        wrote.append((b.id, s.lineno))
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUT \
                    and isinstance(s.func.value, ast.Name) and s.func.value.id in outer and s.func.value.id not in mine:
                wrote.append((s.func.value.id, s.lineno))
        if not wrote:
            continue
        n += 1
        for s in walk_local(g.node):
            esc = None
            if isinstance(s, ast.Return) and s.value is not None:
                esc = s.value
            elif isinstance(s, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets):
                esc = s.value
            if esc is not None and not isinstance(esc, ast.Call) and any(
                    isinstance(x, ast.Name) and x.id == f.name for x in ast.walk(esc)):
                r.add('state %s kept by %s' % (wrote[0][0], q),
                      '%s is handed out by %s (line %d) and changes %s, which it keeps from call to call, at line %d'
                      % (q, g.qual, s.lineno, wrote[0][0], wrote[0][1]), '%s:%d' % (f.path, wrote[0][1]))
                break
    for q, f in sorted(proj.funcs.items()):
        for s in walk_local(f.node):
            t = None
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                for x in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(x, ast.Subscript):
                        t = x.value
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUT:
                t = s.func.value
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'globals':
                r.add('state globals() in %s' % q, '%s writes module variables through globals() at line %d' % (q, s.lineno),
                      '%s:%d' % (f.path, s.lineno))
    return n


# ---- memo tables ----------------------------------------------------------------------------
def _memo(proj, f, line, gname):
    """(ok, text) if the write at line of f fills a memo table, else None"""
    short = gname.rsplit('.', 1)[-1]
    defs = assigns(f)
    key = val = None
    for n in walk_local(f.node):
        ln = getattr(n, 'lineno', None)
        if ln is None or not (ln <= line <= getattr(n, 'end_lineno', ln)):
            continue
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            if _is_table(t.value, short, defs):
                key, val = t.slice, n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args:
            if n.func.attr == 'setdefault' and _is_table(n.func.value, short, defs) and len(n.args) == 2:
                key, val = n.args
            elif n.func.attr in ('extend', 'append', 'update'):
                k = _entry_key(n.func.value, short, defs)
                if k is not None:
                    key, val = k, n.args[0]
    if key is None:
        return None
    if isinstance(key, ast.Constant):
        return None
    need = depends(f, val, defs)
    have = injective(f, key, defs)
    # helper taking the key ready-made: judge at the call sites
    kdep = depends(f, key, defs)
    if isinstance(key, ast.Name) and key.id in f.params and key.id not in defs and need - have:
        up = _lift(proj, f, key.id, need - have)
        if up is not None:
            return up
    missing = sorted(need - have)
    if missing:
        return False, ('the memo key in %s does not distinguish %s (two calls differing there share an entry)'
                       % (f.qual, ', '.join(missing)))
    return True, '%s: value depends on %s, key distinguishes %s' % (f.qual, sorted(need), sorted(have))


def _lift(proj, f, keyparam, others):
    res = []
    sites = 0
    if is_public(f, proj):
        return None
    for g in proj.funcs.values():
        for n in walk_local(g.node):
            if not isinstance(n, ast.Call):
                continue
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if nm != f.name:
                continue
            ps = f.params[1:] if f.is_method and isinstance(n.func, ast.Attribute) else f.params
            m = dict(zip(ps, n.args))
            m.update({k.arg: k.value for k in n.keywords if k.arg})
            if keyparam not in m:
                continue
            defs = assigns(g)
            need = set()
            for o in others:
                if o in m:
                    need |= depends(g, m[o], defs)
                    # a thunk: what its body reads
                    for x in ast.walk(m[o]):
                        if isinstance(x, ast.Lambda):
                            need |= depends(g, x.body, defs)
            missing = sorted(need - injective(g, m[keyparam], defs))
            sites += 1
            if missing:
                res.append('%s line %d: %s' % (g.qual, n.lineno, ', '.join(missing)))
    if res:
        return False, 'the memo key passed to %s does not distinguish %s' % (f.qual, '; '.join(res))
    if not sites:
        return None
    return True, '%s: keys at its call sites distinguish every input' % f.qual


def _is_table(e, short, defs, depth=0):
    if isinstance(e, ast.Name):
        if e.id == short:
            return True
        return depth < 3 and any(_is_table(d, short, defs, depth + 1) for d in defs.get(e.id, ()))
    return isinstance(e, ast.Attribute) and e.attr == short


def _entry_key(e, short, defs, depth=0):
    if isinstance(e, ast.Subscript) and _is_table(e.value, short, defs):
        return e.slice
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('setdefault', 'get') \
            and e.args and _is_table(e.func.value, short, defs):
        return e.args[0]
    if isinstance(e, ast.Name) and depth < 3:
        for d in defs.get(e.id, ()):
            k = _entry_key(d, short, defs, depth + 1)
            if k is not None:
                return k
    return None


# ---- settings inside compiled modules ----------------------------------------------------------
class _Must(Interp):
    """was a (possibly indirect) configuration call executed on every path so far?"""

    def __init__(self, rule, f):
        Interp.__init__(self)
        self.rule, self.f = rule, f
        self.env = {'done': False}
        self.bare = []          # uses reached without configuration: (line, what)

    def join_val(self, a, b):
        return a and b

    def ev(self, n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, ast.Lambda):
                continue
            if isinstance(ch, (ast.expr, ast.keyword, ast.comprehension)):
                self.ev(ch)
        if isinstance(n, ast.Call):
            kind, what = self.rule.classify(self.f, n)
            if kind == 'use' and not self.env['done']:
                self.bare.append((n.lineno, what))
            if kind == 'config':
                self.env['done'] = True

    def store(self, t, v, node):
        if not isinstance(t, ast.Name):
            self.ev(t)

    def s_AugAssign(self, s):
        self.ev(s.value)

    def s_Delete(self, s):
        pass


class _Rule(object):
    def __init__(self, proj, mod, config, use):
        self.proj, self.mod, self.config, self.use = proj, mod, config, use
        self.may_config, self.bare = set(), {}
        self.uses = 0

    def direct(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.mod:
            if f.attr == self.config:
                return 'config'
            if f.attr == self.use:
                return 'use'
        return None

    def callees(self, f, n):
        e = n.func
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None \
                and f.params and e.value.id == f.params[0]:
            return self.proj.overrides(f.cls, e.attr)
        if isinstance(e, ast.Name):
            r = self.proj.lookup(f.module, e.id)
            if r and r[0] == 'func':
                return [r[1]]
        return []

    def classify(self, f, n):
        d = self.direct(n)
        if d:
            if d == 'use':
                self.uses += 1
            return d, '%s.%s' % (self.mod, self.use)
        for g in self.callees(f, n):
            if g.qual in self.may_config:
                return 'config', g.qual
            if self.bare.get(g.qual):
                return 'use', g.qual
        return None, None

    def solve(self):
        changed = True
        while changed:
            changed = False
            for q, f in self.proj.funcs.items():
                if q in self.may_config:
                    continue
                for n in walk_local(f.node):
                    if isinstance(n, ast.Call) and (self.direct(n) == 'config' or any(
                            g.qual in self.may_config for g in self.callees(f, n))):
                        self.may_config.add(q)
                        changed = True
                        break
        for _ in range(4):
            self.uses = 0
            for q, f in self.proj.funcs.items():
                m = _Must(self, f)
                m.block(f.body)
                self.bare[q] = m.bare


def _configured(proj, r):
    total = 0
    for mod, (config, use) in sorted(CONFIGURED.items()):
        rule = _Rule(proj, mod, config, use)
        rule.solve()
        total += rule.uses
        for q, f in sorted(proj.funcs.items()):
            if is_public(f, proj) and rule.bare.get(q):
                for line, what in rule.bare[q]:
                    r.add('%s uses %s unconfigured' % (q, mod),
                          '%s (%s:%d) runs %s with whatever settings the last %s.%s call of any object left there'
                          % (q, f.path, line, what, mod, config), '%s:%d' % (f.path, line))
    return total
