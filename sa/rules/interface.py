"""C19: the interface is the documented one: names, defaults and return values.

The docstrings are read as a specification.  For each public function, method and constructor:
 accepted   each name listed under Parameters can be given under that name,
 default    a default stated as a value is the value used when the argument is left out,
 required   what is documented to have a default can be left out,
 returns    a returned tuple has as many values as are listed under Returns, in that order,
 member     attributes and methods listed in the docstring of a class exist.
What cannot be read with certainty (prose, defaults that are computed) is not judged.
"""
import ast
import math
import re
from ..framework import Result
from ..project import is_public, public_class, walk_local

HEAD = re.compile(r'\s*([A-Z][A-Za-z ]*?)\s*:?\s*$')
RULE = re.compile(r'\s*[-=]{3,}\s*$')
NAME = re.compile(r'^[A-Za-z_]\w*$')
ENTRY = re.compile(r'\s*(\*{0,2}[A-Za-z_]\w*(?:\s*,\s*\*{0,2}[A-Za-z_]\w*)*)\s*(,\s*optional\s*)?(:|=|$)(?:\s|$)?')
MEMBER = re.compile(r'\s*((?:\w+\.)?[A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)\s*(\(.*\))?\s*(:|$)')
RETURN = re.compile(r'\s*([A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)\s*(?::|=)(?:\s|$)(.*)')
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?!\.?\d)'
VALUE = r'''("[^"]*"|'[^']*'|None|True|False|%s|\(\s*%s(?:\s*,\s*%s)*\s*,?\s*\)|\[\s*%s(?:\s*,\s*%s)*\s*\]|\[\]|sqrt\(\d+\)|inf|pi)''' % (NUM, NUM, NUM, NUM, NUM)
# "(default 5)", "default 5.", "Default is 5", "default: 5", "defaults to 5", "Default=5", "default value 5", "default p=5"
DEFAULT = re.compile(r'[Dd]efaults?(?:\s+(?:is|to|value|value\s+is)|\s*[:=])?\s*(?:(?P<name>[A-Za-z_]\w*)\s*=\s*)?' + VALUE +
                     r'\s*(?P<unit>\[?[A-Za-z/]*\^?\*{0,2}\d?\]?)?\s*(?=[);.,\n]|$|\s[(])')

# "(default -1, 1)", "(default [5 -2.5])" for several names
LIST = re.compile(r'[Dd]efaults?\s*(?:is|=|:)?\s*\[?((?:%s)(?:\s*,\s*|\s+)(?:%s)(?:(?:\s*,\s*|\s+)(?:%s))*)\s*\]?' % (VALUE, VALUE, VALUE))
LISTED = re.compile(r'[Dd]efaults?\s*(?:is|=|:)?\s*\[?(?:%s)(?:\s*,\s*|\s+)(?:%s)' % (VALUE, VALUE))
# "'uM' or 2: upcrossings and Maxima (default)"
ITEM = re.compile(r'\s*[=:]?\s*(?:if\s+)?(%s(?:\s*(?:,|or)\s*%s)*)\s*(?:[:=]|\s|,\s+if\b)' % (VALUE, VALUE))


def sections(doc):
    """(title, lines) of the underlined sections of a docstring"""
    lines = doc.expandtabs().splitlines()
    out, cur = [], None
    i = 0
    while i < len(lines):
        l = lines[i]
        if i + 1 < len(lines) and RULE.match(lines[i + 1]) and l.strip() and not RULE.match(l):
            cur = (l.strip().rstrip(':').lower(), [])
            out.append(cur)
            i += 2
            continue
        if cur is not None:
            cur[1].append(l)
        i += 1
    return out


def entries(lines, pattern):
    """the entries of a section: (names, text)"""
    body = [l for l in lines if l.strip()]
    if not body:
        return []
    base = len(body[0]) - len(body[0].lstrip())
    out = []
    for l in lines:
        if not l.strip():
            continue
        ind = len(l) - len(l.lstrip())
        if ind <= base:
            m = pattern.match(l)
            if m is None:
                break                                    # running text from here on
            out.append(([x.strip().lstrip('*') for x in m.group(1).split(',')], l[m.end(1):].strip()))
        elif out:
            out[-1] = (out[-1][0], out[-1][1] + '\n' + l.strip())
    return out


def value(text):
    if text == 'inf':
        return math.inf
    if text == 'pi':
        return math.pi
    if text.startswith('sqrt('):
        return math.sqrt(int(text[5:-1]))
    try:
        v = ast.literal_eval(text)
        return tuple(v) if isinstance(v, list) else v
    except (ValueError, SyntaxError):
        return None


UNKNOWN = object()


class Consts(object):
    def __init__(self, proj):
        self.proj = proj

    def of(self, m, e, depth=0):
        """the value of a constant expression"""
        try:
            return self._of(m, e, depth)
        except (TypeError, ValueError, ZeroDivisionError, OverflowError):
            return UNKNOWN

    def _of(self, m, e, depth):
        if isinstance(e, ast.Constant):
            return e.value
        if depth > 6:
            return UNKNOWN
        if isinstance(e, (ast.Tuple, ast.List)):
            v = [self.of(m, x, depth + 1) for x in e.elts]
            return UNKNOWN if UNKNOWN in v else tuple(v)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = self.of(m, e.operand, depth + 1)
            return v if v is UNKNOWN else -v if isinstance(e.op, ast.USub) else +v
        if isinstance(e, ast.BinOp):
            a, b = self.of(m, e.left, depth + 1), self.of(m, e.right, depth + 1)
            if a is UNKNOWN or b is UNKNOWN:
                return UNKNOWN
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b,
                 ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}.get(type(e.op))
            return f() if f else UNKNOWN
        if isinstance(e, (ast.Name, ast.Attribute)):
            nm = e.id if isinstance(e, ast.Name) else e.attr
            b = self.proj.resolve_expr(m, e)
            if b is not None and b[0] == 'ext':
                return {'inf': math.inf, 'pi': math.pi, 'e': math.e, 'nan': UNKNOWN, 'newaxis': None}.get(str(b[1]).split('.')[-1], UNKNOWN)
            if isinstance(e, ast.Name):
                d = [s.value for s in m.tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1
                     and isinstance(s.targets[0], ast.Name) and s.targets[0].id == nm]
                if len(d) == 1:
                    return self.of(m, d[0], depth + 1)
            return UNKNOWN
        if isinstance(e, ast.Call) and not e.keywords and len(e.args) == 1:
            nm = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, 'attr', None)
            v = self.of(m, e.args[0], depth + 1)
            if v is UNKNOWN:
                return UNKNOWN
            f = {'float': float, 'int': int, 'sqrt': math.sqrt, 'tuple': tuple, 'list': tuple}.get(nm)
            return f(v) if f else UNKNOWN
        return UNKNOWN


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-3 * max(abs(a), abs(b)) and not (isinstance(a, int) and isinstance(b, int))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a.lower() == b.lower()
    if isinstance(a, tuple) != isinstance(b, tuple):
        t, s = (a, b) if isinstance(a, tuple) else (b, a)
        return False
    return a == b


class Rule(object):
    def __init__(self, ctx, r, tables):
        self.ctx, self.proj, self.r, self.tables = ctx, ctx.proj, r, tables
        self.consts = Consts(self.proj)
        self.n = {k: 0 for k in ('functions', 'names', 'defaults', 'returns', 'members')}

    # ---- what there is -------------------------------------------------------------------------
    def run(self):
        for q, f in sorted(self.proj.funcs.items()):
            if f.parent is not None or isinstance(f.node, ast.Lambda) or not is_public(f, self.proj):
                continue
            docs = [ast.get_docstring(f.node)]
            if f.name == '__init__' and f.cls is not None:
                docs.append(ast.get_docstring(f.cls.node))
            docs = [sections(d) for d in docs if d]
            if not docs:
                continue
            self.n['functions'] += 1
            for secs in docs:
                for title, lines in secs:
                    if title in ('parameters', 'parameter', 'other parameters', 'arguments'):
                        self.parameters(q, f, entries(lines, ENTRY))
                    elif title in ('member variables', 'members') and f.name == '__init__':
                        self.parameters(q, f, entries(lines, ENTRY), members=True)
                    elif title in ('returns', 'return') and f.name != '__init__':
                        self.returns(q, f, entries(lines, RETURN))
        for q, c in sorted(self.proj.classes.items()):
            d = ast.get_docstring(c.node)
            if d and public_class(self.proj, c):
                for title, lines in sections(d):
                    if title in ('methods', 'members', 'attributes', 'member variables'):
                        self.members(q, c, entries(lines, MEMBER))

    # ---- parameters -----------------------------------------------------------------------------
    def parameters(self, q, f, ents, members=False):
        if not f.params and f.kwarg is None and f.vararg is None:
            return                                       # only there for its documentation: names of other things
        for names, text in ents:
            if names is None or len(names) > 1 and not all(NAME.match(x) for x in names):
                continue
            for p in names:
                self.n['names'] += 1
                ok = self.accepts(f, p, ())
                if ok is False:
                    if self.elsewhere(f, p) or not text.startswith(':') or members or self.tables and (q, p) in EXCUSED:
                        continue
                    self.r.add('refused %s(%s)' % (q, p), '%s documents the parameter %s and does not accept it' % (q, p), self.at(f))
                    continue
                self.default(q, f, p, names, text)

    def at(self, f):
        return '%s:%d' % (f.path, f.line)

    def elsewhere(self, f, p):
        """the docstring of a class also describes what its objects are called with"""
        if f.name != '__init__':
            return False
        return any(p in g.params for c in f.cls.classes() for g in c.methods.values() if is_public(g, self.proj) or g.name == '__call__')

    def accepts(self, f, p, seen):
        """True, False or None (cannot be told)"""
        if p in f.params or p in (f.vararg, f.kwarg):
            return True
        if f.kwarg is None and f.vararg is None:
            return False
        if f.qual in seen:
            return False
        seen = seen + (f.qual,)
        out = False
        for x in ast.walk(ast.Module(body=f.body, type_ignores=[])):
            if isinstance(x, ast.Constant) and x.value == p and not self.is_doc(f, x):
                return True
        for x in ast.walk(ast.Module(body=f.body, type_ignores=[])):
            if not isinstance(x, ast.Call):
                continue
            handed = any(k.arg is None and self.mentions(k.value, f.kwarg) for k in x.keywords) or \
                any(isinstance(a, ast.Starred) and self.mentions(a.value, f.vararg) for a in x.args) or \
                any(self.mentions(a, f.kwarg) and isinstance(a, ast.Name) for a in x.args)
            if not handed:
                if isinstance(x.func, ast.Name) and x.func.id == 'dict' and any(k.arg == p for k in x.keywords):
                    return True
                continue
            for kind, t in self.ctx.effects.sites.get(id(x), ()) or [('ext', None)]:
                if kind == 'fn':
                    g = self.proj.funcs[t]
                elif kind == 'cls':
                    g = self.proj.classes[t].find('__init__')
                else:
                    g = None
                if g is None:
                    if isinstance(x.func, ast.Attribute) and x.func.attr == 'update':
                        # into the object: does anything know the name?  a dictionary of settings may go anywhere
                        if p in self.known_names():
                            return True
                        if isinstance(x.func.value, ast.Name):
                            out = None
                        continue
                    out = None
                    continue
                a = self.accepts(g, p, seen)
                if a:
                    return True
                if a is None:
                    out = None
        return out

    def known_names(self):
        if not hasattr(self, '_known'):
            self._known = {x.attr for m in self.proj.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)}
        return self._known

    def is_doc(self, f, x):
        b = f.body
        return bool(b) and isinstance(b[0], ast.Expr) and b[0].value is x

    @staticmethod
    def mentions(e, name):
        return name is not None and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e))

    # ---- defaults -------------------------------------------------------------------------------
    def stated(self, p, names, text):
        found = self.stated_at_once(p, names, text)
        if found:
            return found
        # "(default abseps=0, releps=1e-3)": each by its name
        pairs = [value(v) for span in re.findall(r'[Dd]efault[^()]*', text)
                 for v in re.findall(r'(?<![\w.])%s\s*=\s*%s' % (re.escape(p), VALUE), span, re.I)]
        if len(pairs) == 1:
            return pairs
        if len(names) == 1:
            # one "(default 512 ...)" among other uses of the word
            inside = [m.group(1) for m in re.finditer(r'\(\s*[Dd]efaults?\s*(?:is|to|[:=])?\s*%s(?:\s+[A-Za-z][^()]*)?\s*\)' % VALUE, text)]
            rest = re.sub(r'\(\s*[Dd]efault[^()]*\)', '', text)
            if len(inside) == 1 and not re.search(r'[Dd]efault\w*\s+(is|to|value)\b|\([Dd]efault\)|[Dd]efault\s*[:=]', rest) \
                    and len(re.findall(r'\(\s*[Dd]efault', text)) == 1:
                return [value(inside[0])]
            m = re.findall(r'[Dd]efault %s is %s(?=[.,;)\n]|$)' % (re.escape(p), VALUE), text) + \
                re.findall(r'By default,? %s %s is used' % (VALUE, re.escape(p)), text)
            if len(m) == 1:
                return [value(m[0])]
        return []

    def stated_at_once(self, p, names, text):
        """the values the text states as default (several spellings of one), [] if there is none or it is computed"""
        if len(re.findall(r'[Dd]efault', text)) == 1 and len(names) > 1:
            m = LIST.search(text)
            if m:
                vs = [value(x) for x in re.findall(VALUE, m.group(1))]
                if len(vs) == len(names) and len(set(names)) == len(names):
                    return [vs[names.index(p)]]
        found = []
        for m in DEFAULT.finditer(text):
            if m.group('name') and m.group('name').lower() != p.lower():
                continue
            v = value(m.group(2))
            if v is None and m.group(2) != 'None':
                continue
            found.append(v)
        if len(found) == 1 and len(re.findall(r'[Dd]efault', text)) == 1 and len(names) == 1:
            return found
        named = [value(m.group(2)) for m in DEFAULT.finditer(text) if (m.group('name') or '').lower() == p.lower()]
        if len(named) == 1:
            return named
        if len(found) == 1 and len(re.findall(r'[Dd]efault', text)) == 1 and not LISTED.search(text):
            return found
        return self.marked(text) if len(names) == 1 and not found else []

    def marked(self, text):
        """the values of the one item of a list of values that is marked as the default"""
        if len(re.findall(r'[Dd]efault', text)) != 1:
            return []
        items, cur = [], None
        for l in text.split('\n'):
            m = ITEM.match(l)
            if m:
                cur = [[value(x) for x in re.findall(VALUE, m.group(1))], l]
                items.append(cur)
            elif cur is not None:
                cur[1] += ' ' + l
        hit = [vs for vs, l in items if re.search(r'\(\s*[Dd]efault\s*\)', l)]
        return hit[0] if len(hit) == 1 and len(items) > 1 else []

    def default(self, q, f, p, names, text):
        want = self.stated(p, names, text)
        if not want:
            return
        have = self.effective(f, p)
        if have is UNKNOWN:
            return
        self.n['defaults'] += 1
        if have is REQUIRED:
            if not (self.tables and (q, p) in EXCUSED):
                self.r.add('required %s(%s)' % (q, p), '%s documents the default %r of %s, which cannot be left out' % (q, want[0], p), self.at(f))
            return
        if have is None and None not in want:
            return                                   # a placeholder for something computed
        if not any(same(w, have) for w in want) and not (self.tables and (q, p) in EXCUSED):
            self.r.add('default %s(%s)' % (q, p), '%s documents the default %r of %s, but uses %r' % (q, want[0], p, have), self.at(f))

    def effective(self, f, p):
        if p in f.params:
            d = f.defaults.get(p)
            if d is None:
                return REQUIRED
            v = self.consts.of(f.module, d)
            if v is None:
                return self.placeholder(f, p)
            return v
        if f.kwarg is not None:
            got = []
            for x in ast.walk(ast.Module(body=f.body, type_ignores=[])):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'get') and self.mentions(x.func.value, f.kwarg) \
                        and len(x.args) == 2 and isinstance(x.args[0], ast.Constant) and x.args[0].value == p:
                    got.append(self.consts.of(f.module, x.args[1]))
            if len(got) == 1:
                return got[0]
            if not got and f.is_method:
                v = self.preset(f, p)
                if v is not UNKNOWN:
                    return v
            if not got:
                return self.forwarded(f, p)
        return UNKNOWN

    def forwarded(self, f, p, depth=0):
        """the default where the keywords are handed on"""
        to = []
        for x in ast.walk(ast.Module(body=f.body, type_ignores=[])):
            if isinstance(x, ast.Constant) and x.value == p and not self.is_doc(f, x):
                return UNKNOWN                       # looked at on the way
            if isinstance(x, ast.Name) and x.id == f.kwarg:
                to.append(x)
        if len(to) != 1 or depth > 3:
            return UNKNOWN
        for x in ast.walk(ast.Module(body=f.body, type_ignores=[])):
            if isinstance(x, ast.Call) and any(k.arg is None and k.value is to[0] for k in x.keywords):
                gs = [self.proj.funcs[t] if kind == 'fn' else self.proj.classes[t].find('__init__') if kind == 'cls' else None
                      for kind, t in self.ctx.effects.sites.get(id(x), ())]
                if len(gs) != 1 or gs[0] is None or any(k.arg == p for k in x.keywords) or any(isinstance(a, ast.Starred) for a in x.args):
                    return UNKNOWN
                g = gs[0]
                if p in g.params[:len(x.args) + (1 if g.is_method else 0)]:
                    return UNKNOWN
                return self.effective(g, p)
        return UNKNOWN

    def preset(self, f, p):
        """attributes set before the keywords are laid over them"""
        got = []
        for s in f.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == p \
                    and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == f.params[0]:
                got.append(self.consts.of(f.module, s.value))
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and
                   any(self.mentions(k, f.kwarg) for k in x.args + [k.value for k in x.keywords]) for x in ast.walk(s)):
                return got[-1] if got and got[-1] not in (None, '') else UNKNOWN
        return UNKNOWN

    def placeholder(self, f, p):
        """what None stands for, when it is replaced by a constant at once"""
        got = []
        for s in walk_local(f.body):
            if isinstance(s, ast.If) and self.is_none(s.test, p) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) \
                    and len(s.body[0].targets) == 1 and isinstance(s.body[0].targets[0], ast.Name) and s.body[0].targets[0].id == p:
                got.append(s.body[0].value)
            elif isinstance(s, ast.IfExp) and self.is_none(s.test, p):
                got.append(s.body)
        if len(got) != 1:
            return None
        v = self.consts.of(f.module, got[0])
        return None if v is UNKNOWN else v

    @staticmethod
    def is_none(t, p):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == p and len(t.ops) == 1 and \
            isinstance(t.ops[0], ast.Is) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None

    # ---- return values --------------------------------------------------------------------------
    def returns(self, q, f, ents):
        if self.tables and q in EXCUSED:
            return
        names = [x for n, t in ents for x in n]
        if len(names) < 2:
            return                                       # one name may stand for all of it
        # values that are there on request only
        sure = sum(len(n) for n, t in ents if not re.search(r'(?i)\bif\b|optional|only|when', t))
        for x in walk_local(f.body):
            if not (isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple)) or any(isinstance(e, ast.Starred) for e in x.value.elts):
                continue
            self.n['returns'] += 1
            k = len(x.value.elts)
            where = '%s:%d' % (f.path, x.lineno)
            if not sure <= k <= len(names):
                self.r.add('returns %s' % q, '%s documents %d return values (%s) and returns %d' % (q, len(names), ', '.join(names), k), where)
                continue
            low = [n.lower() for n in names]
            for i, e in enumerate(x.value.elts):
                nm = self.named(e)
                if nm in low and low.index(nm) != i and low.count(nm) == 1 and \
                        self.named(x.value.elts[low.index(nm)]) != nm:
                    self.r.add('order %s' % q, '%s documents %s as return value number %d and returns it as number %d' % (
                        q, nm, low.index(nm) + 1, i + 1), where)
                    break

    @staticmethod
    def named(e):
        return e.id.lower() if isinstance(e, ast.Name) else e.attr.lower() if isinstance(e, ast.Attribute) else None

    # ---- members --------------------------------------------------------------------------------
    def members(self, q, c, ents):
        if set(c.external_bases()) - {'object', 'builtins.object'}:
            return
        names = set()
        for k in c.classes():
            names |= set(k.methods) | set(getattr(k, 'attrs', ()) or ()) | set(getattr(k, 'props', ()) or ())
            for x in ast.walk(k.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    names.add(x.attr)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    names.add(x.name)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    names.add(x.value)
        for ns, text in ents:
            for a in ns:
                obj, _, a = a.rpartition('.')
                self.n['members'] += 1
                if not obj and text.startswith('(') and any(x.startswith(a + '.') for n, t in ents for x in n):
                    a = '__call__'                       # kde(x), next to kde.eval_grid(x)
                if a not in names and not (self.tables and (q, a) in EXCUSED):
                    self.r.add('member %s.%s' % (q, a), '%s documents %s, which its objects do not have' % (q, a),
                               '%s:%d' % (c.module.path, c.node.lineno))


REQUIRED = object()
EXCUSED = {}


def run(ctx, selftest=False):
    r = Result(rule='the documented parameters are accepted under their names, have the documented defaults, and calls return the documented values',
               explanation='docstrings in numpydoc form are parsed and compared with signatures, keyword handling and return statements')
    a = Rule(ctx, r, not selftest)
    a.run()
    r.coverage = dict(a.n)
    r.assumptions = ['the docstrings say what is meant', 'defaults described in words or by an expression are not judged']
    return r
