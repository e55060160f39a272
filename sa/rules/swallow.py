"""C12: an error inside a computation reaches the caller.

Every exception handler (and contextlib.suppress, and finally blocks that leave) is classified:
it raises on every path, it tells (warns), it marks the result as missing (nan), it is the
fallback of an optional import, or it asks a single question (a lookup) by trying.  Anything
else carries on as if nothing had happened.
"""
import ast
from ..framework import Result
from ..project import walk_local

LOOKUP = {'KeyError', 'IndexError', 'AttributeError', 'StopIteration'}
IMPORT = {'ImportError', 'ModuleNotFoundError'}
TELL = {'warn', 'print', 'warning', 'error', 'exception', 'critical', 'info', 'showwarning', '_assert_warn'}
BROAD = {'Exception', 'BaseException', '*'}
# handlers that replace something by design: (module, names called in the try block, exceptions), with the reason
TABLE = [
    ('wafo.containers', {'set_state'}, {'ValueError'}, 'a number instead of a state of the generator'),
    ('wafo.covariance.core', {'set_state'}, BROAD, 'a number instead of a state of the generator'),
    ('wafo.spectrum.core', {'set_state'}, {'KeyError', 'TypeError'}, 'a number instead of a state of the generator'),
    ('wafo.graphutil', {'delete_text_object', 'remove'}, BROAD, 'texts of an earlier plot that are gone already'),
    ('wafo.misc', set(), {'TypeError'}, 'asks whether the argument is a number'),
    ('wafo.misc', {'index'}, {'ValueError', 'KeyError'}, 'no further occurrence'),
    ('wafo.objects', set(), BROAD, 'series without times: the index instead of the time'),
    ('wafo.covariance.estimation', {'flatten', 'sampling_period'}, BROAD, 'an array instead of a time series object'),
    ('wafo.sg_filter._core', {'inv'}, BROAD, 'pseudo inverse of a singular observation matrix, documented'),
    ('wafo.spectrum.core', {'qlevels'}, BROAD, 'contour levels for plotting'),
    ('wafo.stats.estimation', {'flatnonzero', 'isnan'}, {'ValueError', 'TypeError'}, 'no parameter is fixed'),
    ('wafo.stats.estimation', {'format'}, {'TypeError'}, 'text for the plot'),
    ('wafo.stats.estimation', {'_fit_summary_text', 'text'}, {'AttributeError'}, 'text for the plot'),
]


def call_name(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', '')


def types_of(h):
    t = h.type
    if t is None:
        return {'*'}
    ts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
    return {ast.unparse(x).split('.')[-1] for x in ts}


def _local(s):
    yield s
    for x in walk_local(s):
        if x is not s:
            yield x


class Rule(object):
    def __init__(self, ctx, r, tables):
        self.ctx, self.proj, self.eff, self.r, self.tables = ctx, ctx.proj, ctx.effects, r, tables
        self.count = dict.fromkeys(('try_blocks', 'handlers', 'raise', 'tell', 'mark', 'import', 'ask', 'table'), 0)

    def outs(self, body):
        """how a list of statements can end: 'raise', 'leave' (return, break, continue), 'fall'"""
        res = set()
        for s in body:
            if isinstance(s, ast.Raise):
                return res | {'raise'}
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                return res | {'leave'}
            o = {'fall'}
            if isinstance(s, ast.If):
                o = self.outs(s.body) | self.outs(s.orelse)
            elif isinstance(s, ast.With):
                o = self.outs(s.body)
            elif isinstance(s, (ast.For, ast.While)):
                o = {'fall'} | ({'leave'} if any(isinstance(x, ast.Return) for y in s.body for x in _local(y)) else set())
            elif isinstance(s, ast.Try):
                o = self.outs(s.body + s.orelse)
                for h in s.handlers:
                    o = o | self.outs(h.body)
                fin = self.outs(s.finalbody)
                o = o if 'fall' in fin else fin
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    (ast.unparse(s.value.func) in ('sys.exit', 'exit') or self.callee_raises(s.value)):
                o = {'raise'}
            res |= o - {'fall'}
            if 'fall' not in o:
                return res
        return res | {'fall'}

    def always_raises(self, body):
        return self.outs(body) == {'raise'}

    def callee_raises(self, c):
        """a function of the package that never returns, or _assert(False)"""
        ts = [self.proj.funcs[q] for k, q in self.eff.sites.get(id(c), ()) if k == 'fn' and q in self.proj.funcs]
        if ts and all(self.always_raises([s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]) for f in ts):
            return True
        return call_name(c) == '_assert' and c.args and isinstance(c.args[0], ast.Constant) and not c.args[0].value

    def tells(self, body):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                if call_name(s.value) in TELL:
                    return True
                for k, q in self.eff.sites.get(id(s.value), ()):
                    f = self.proj.funcs.get(q) if k == 'fn' else None
                    if f is not None and not f.is_gen and self.tells(f.body):
                        return True
            if isinstance(s, ast.If) and s.orelse and (self.tells(s.body) or self.always_raises(s.body)) and \
                    (self.tells(s.orelse) or self.always_raises(s.orelse)):
                return True
            if isinstance(s, ast.With) and self.tells(s.body):
                return True
            if isinstance(s, ast.Return):
                return False
        return False

    def marks(self, body):
        """the only thing it does is to store or return nan"""
        ok = False
        for s in body:
            if isinstance(s, (ast.Pass,)):
                return False
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                if any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, 'id', '') or x.attr).lower() == 'nan' for x in ast.walk(s.value)) or \
                        any(isinstance(x, ast.Constant) and x.value == 'nan' for x in ast.walk(s.value)):
                    ok = True
                    continue
                return False
            if isinstance(s, (ast.Continue, ast.Expr)):
                continue
            return False
        return ok

    def own_calls(self, body):
        return {call_name(c) for s in body for c in ast.walk(s) if isinstance(c, ast.Call)}

    def asks(self, t, h):
        """one simple statement that looks something up"""
        if not types_of(h) <= LOOKUP or len(t.body) != 1 or not isinstance(t.body[0], (ast.Assign, ast.Return, ast.Expr, ast.Delete, ast.AnnAssign)):
            return False
        for c in ast.walk(t.body[0]):
            if isinstance(c, ast.Call):
                if any(k in ('fn', 'cls') for k, q in self.eff.sites.get(id(c), ())):
                    return False
                if call_name(c) not in ('getattr', 'pop', 'index', 'get', 'next', 'int', 'str', 'remove', 'lower', 'upper', 'strip', 'len'):
                    return False
        return True

    def listed(self, mod, t, h):
        calls = self.own_calls(t.body)
        # helpers of the package that only wrap the calls
        flat = set(calls)
        for s in t.body:
            for c in ast.walk(s):
                if isinstance(c, ast.Call):
                    for k, q in self.eff.sites.get(id(c), ()):
                        f = self.proj.funcs.get(q) if k == 'fn' else None
                        if f is not None and len(f.body) <= 3 and call_name(c) not in {x for e in TABLE for x in e[1]}:
                            flat.discard(call_name(c))
                            flat |= self.own_calls(f.body)
        ty = types_of(h)
        for m, names, types, why in TABLE if self.tables else ():
            if mod != m:
                continue
            if m == 'wafo.objects' and any(isinstance(x, (ast.BinOp, ast.Call)) for s in t.body for x in ast.walk(s)):
                continue
            if (calls <= names or flat <= names) and bool(names) == bool(flat) and ty <= types | LOOKUP:
                return True
        return False

    def imports_only(self, t):
        return any(isinstance(s, (ast.Import, ast.ImportFrom)) for s in t.body)

    def owner(self, m, n):
        best = None
        for f in self.proj.funcs.values():
            if f.module is m or getattr(f.module, 'name', f.module) == m.name:
                if getattr(f.node, 'lineno', 0) <= n.lineno <= getattr(f.node, 'end_lineno', 0):
                    if best is None or f.node.lineno >= best.node.lineno:
                        best = f
        return best.qual if best is not None else m.name

    def run(self):
        for nm, m in sorted(self.proj.modules.items()):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Try):
                    self.count['try_blocks'] += 1
                    self.block(nm, m, n)
                elif isinstance(n, ast.Call) and call_name(n) == 'suppress':
                    self.bad(nm, m, n, 'suppress(%s)' % ', '.join(ast.unparse(a) for a in n.args), 'suppresses errors silently')

    def bad(self, nm, m, n, what, how):
        q = self.owner(m, n)
        self.r.add('%s: %s' % (q, what), '%s (%s:%d) %s' % (q, m.path, n.lineno, how), '%s:%d' % (m.path, n.lineno))

    def block(self, nm, m, t):
        for h in t.handlers:
            self.count['handlers'] += 1
            ty = types_of(h)
            if self.always_raises(h.body):
                kind = 'raise'
            elif self.imports_only(t) and ty <= IMPORT | LOOKUP:
                kind = 'import'
            elif self.tells(h.body):
                kind = 'tell'
            elif self.marks(h.body):
                kind = 'mark'
            elif self.asks(t, h):
                kind = 'ask'
            elif self.listed(nm, t, h):
                kind = 'table'
            else:
                calls = ', '.join(sorted(self.own_calls(t.body))) or ast.unparse(t.body[0])[:40]
                self.bad(nm, m, h, 'except %s around %s' % ('/'.join(sorted(ty)), calls),
                         'goes on without a word after %s in %s' % ('an error' if ty & BROAD else ' or '.join(sorted(ty)), calls))
                continue
            self.count[kind] += 1
        for s in t.finalbody:
            for x in _local(s):
                if isinstance(x, ast.Return):
                    self.bad(nm, m, x, 'return in finally', 'returns in a finally block: errors are lost')
        if any(isinstance(s, (ast.Break, ast.Continue)) for s in t.finalbody):
            self.bad(nm, m, t.finalbody[0], 'break in finally', 'leaves a finally block: errors are lost')


def run(ctx, selftest=False):
    r = Result(
        rule='every exception handler raises, warns, stores or returns nan, is the fallback of an optional import, or tries a single '
             'lookup; the others are listed with the reason',
        explanation='classification of all exception handlers, suppress() and finally blocks of the package')
    a = Rule(ctx, r, not selftest)
    a.run()
    r.coverage = a.count
    r.samples = ['%s: %s' % (e[0], e[3]) for e in TABLE]
    r.assumptions = ['exceptions raised by the Python statements themselves; numerical problems that numpy turns into nan or inf are not errors here']
    return r
