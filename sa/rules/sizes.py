"""C18: sizes, counts and indices are whole numbers by type.

Every function is interpreted over sets of kinds: I (integer or boolean), F (floating point or
complex), U (unknown), D (anything else), sequences of these.  The sets are joined where paths
meet, so F in a set means: floating point on some path.  A quotient is F whatever its operands.
An F that reaches an array size, a repetition, a loop count, a transform length, an index or a
slice bound is a TypeError for the inputs that take that path.
"""
import ast
from ..framework import Result
from ..project import walk_local

I, F, U, D, A = (frozenset(x) for x in 'IFUDA')      # A: an array of unknown kind
NONE = frozenset('N')
MAXSET = 10


def seq(kind, items):
    return frozenset([(kind, tuple(items))])


def T(items):
    return seq('t', items)


def L(v):
    return seq('l', [v])


def depth(v):
    return max([1 + max([depth(x) for x in a[1]] or [0]) for a in v if isinstance(a, tuple)] or [0])


def join(a, b):
    if a == b:
        return a
    out = set(a) | set(b)
    ls = [x for x in out if isinstance(x, tuple) and x[0] == 'l']
    if len(ls) > 1:
        v = ls[0][1][0]
        for x in ls[1:]:
            v = join(v, x[1][0])
        out -= set(ls)
        out.add(('l', (v,)))
    r = frozenset(out)
    if len(r) > MAXSET or depth(r) > 4:
        return U | (F & r)
    return r


def nums(v):
    """kinds of the numbers in a value used as a number or array"""
    out = set()
    for a in v:
        if isinstance(a, tuple):
            for x in a[1]:
                out |= nums(x)
        else:
            out.add(a)
    return frozenset(out)


def comb(*vs):
    """arithmetic: floating point when one operand is"""
    vs = [nums(v) for v in vs]
    out = set()
    if any('F' in v for v in vs):
        out.add('F')
    if all(v - {'F'} for v in vs):
        rest = set().union(*[v - {'F'} for v in vs])
        if rest & set('UDA'):
            out.add('A' if any('A' in v for v in vs) else 'U')
        elif rest <= set('IN'):
            out.add('I')
    return frozenset(out or 'U')


def elem(v):
    """what iterating over or indexing a value gives"""
    out = set()
    for a in v:
        if isinstance(a, tuple):
            for x in a[1]:
                out |= x
        elif a in 'IFA':
            out.add(a)
        else:
            out.add('U')
    r = frozenset(out)
    return r if len(r) <= MAXSET else U


FLOATF = set('''sqrt exp log log10 log2 log1p expm1 sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh arcsinh arccosh arctanh
 hypot mean std var average median percentile quantile trapz simps simpson trapezoid uniform normal standard_normal gamma gammaln beta betaln erf erfc erfinv
 ndtr ndtri gammainc gammaincc expit logit sinc deg2rad rad2deg true_divide divide corrcoef cov cbrt spacing nextafter angle exp2
 nanmean nanstd nanvar float float64 float_ double longdouble float32 factorial0 rand randn fabs pow0 radians degrees asin acos atan atan2 rint fix trunc
 floor ceil interp'''.split())
PYINT = {'math.floor', 'math.ceil', 'math.trunc', 'math.factorial', 'math.gcd', 'math.comb', 'math.isqrt', 'operator.index'}
SAME = set('''array asarray asanyarray ascontiguousarray atleast_1d atleast_2d atleast_3d ravel reshape copy sort unique flipud fliplr flip squeeze
 transpose repeat tile roll abs absolute real conj conjugate negative positive cumsum cumprod sum prod diff max min amax amin nanmax nanmin nansum
 diag diagonal triu tril rollaxis swapaxes moveaxis expand_dims take compress delete trim_zeros ediff1d extract sign square ptp
 rot90 trace broadcast_to sorted reversed list tuple set'''.split())
COMB = set('''maximum minimum fmax fmin add subtract multiply dot outer inner mod fmod remainder clip append floor_divide'''.split())
STACK = set('hstack vstack concatenate column_stack stack dstack'.split())
INTF = set('''argsort argmax argmin flatnonzero searchsorted digitize len size ndim isnan isinf isfinite isscalar nanargmax nanargmin
 any all logical_and logical_or logical_not logical_xor equal not_equal less greater less_equal greater_equal iscomplex isreal in1d isin isclose allclose
 int int_ int8 int16 int32 int64 intp uint8 bool bool_ count_nonzero lexsort hash ord id isinstance hasattr callable index count find bincount0'''.split())
INTL = {'nonzero', 'where', 'argwhere', 'unravel_index', 'shape', 'indices', 'triu_indices', 'tril_indices', 'diag_indices'}
LIKE = {'zeros_like', 'ones_like', 'empty_like', 'full_like'}
SHAPED = {'zeros', 'ones', 'empty', 'full'}
INTT = {'int', 'np.int_', 'np.int64', 'np.int32', "'int'", "'i'", 'bool', 'np.bool_', 'np.int8', "'int64'", 'np.intp', 'np.uint8', "'bool'", 'numpy.int_'}
FLTT = {'float', 'np.float64', 'np.float_', "'float'", "'d'", "'f'", 'complex', 'np.complex128', "'float64'", "'complex'", 'np.double', "'f8'"}
FREE = {'r_', 'c_', 'mgrid', 'ogrid', 's_', 'index_exp'}
# function -> positions and names of arguments that have to be whole numbers
SINKS = {
    'builtins.range': ((0, 1, 2), ()), 'itertools.repeat': ((1,), ('times',)), 'itertools.islice': ((1, 2, 3), ()), 'math.factorial': ((0,), ()),
    'numpy.zeros': ((0,), ('shape',)), 'numpy.ones': ((0,), ('shape',)), 'numpy.empty': ((0,), ('shape',)), 'numpy.full': ((0,), ('shape',)),
    'numpy.eye': ((0, 1, 2), ('N', 'M', 'k')), 'numpy.identity': ((0,), ('n',)), 'numpy.linspace': ((2,), ('num',)), 'numpy.logspace': ((2,), ('num',)),
    'numpy.geomspace': ((2,), ('num',)), 'numpy.reshape': ((1,), ('shape', 'newshape')), 'numpy.resize': ((1,), ('new_shape',)),
    'numpy.tile': ((1,), ('reps',)), 'numpy.repeat': ((1,), ('repeats',)), 'numpy.roll': ((1,), ('shift',)), 'numpy.diff': ((1,), ('n',)),
    'numpy.take': ((1,), ('indices',)), 'numpy.delete': ((1,), ('obj',)), 'numpy.put': ((1,), ('ind',)), 'numpy.broadcast_to': ((1,), ('shape',)),
    'numpy.unravel_index': ((0, 1), ()), 'numpy.bincount': ((0,), ('minlength',)), 'numpy.polyfit': ((2,), ('deg',)), 'numpy.vander': ((1,), ('N',)),
    'numpy.hanning': ((), ()), 'numpy.random.rand': ((0, 1, 2), ()), 'numpy.random.randn': ((0, 1, 2), ()), 'numpy.random.randint': ((2,), ('size',)),
    'numpy.random.normal': ((2,), ('size',)), 'numpy.random.uniform': ((2,), ('size',)), 'numpy.random.standard_normal': ((0,), ('size',)),
    'numpy.split': ((1,), ()), 'numpy.array_split': ((1,), ()), 'numpy.diag': ((1,), ('k',)), 'numpy.triu': ((1,), ('k',)), 'numpy.tril': ((1,), ('k',)),
    'numpy.rot90': ((1,), ('k',)), 'numpy.expand_dims': ((1,), ('axis',)), 'numpy.moveaxis': ((1, 2), ()),
    'numpy.polyder': ((1,), ('m',)), 'numpy.polyint': ((1,), ('m',)), 'numpy.polynomial.chebyshev.chebfit': ((2,), ('deg',)),
    'numpy.insert': ((1,), ('obj',)),
}
for _n in ('fft', 'ifft', 'rfft', 'irfft', 'hfft', 'ihfft'):
    SINKS['numpy.fft.' + _n] = ((1,), ('n',))
    SINKS['scipy.fftpack.' + _n] = ((1,), ('n',))
    SINKS['scipy.fft.' + _n] = ((1,), ('n',))
SINKS.update({
    'scipy.signal.welch': ((), ('nperseg', 'noverlap', 'nfft')), 'scipy.signal.csd': ((), ('nperseg', 'noverlap', 'nfft')),
    'scipy.signal.periodogram': ((), ('nfft',)), 'scipy.signal.get_window': ((1,), ('Nx',)), 'scipy.special.comb0': ((), ()),
    'scipy.signal.savgol_coeffs': ((0, 1), ('window_length', 'polyorder', 'deriv')), 'scipy.integrate.fixed_quad': ((), ('n',)),
    'scipy.special.p_roots': ((0,), ('n',)), 'scipy.special.h_roots': ((0,), ('n',)),
})
for _n in ('dct', 'idct', 'dst', 'idst'):
    SINKS['scipy.fftpack.' + _n] = ((1, 2), ('type', 'n', 'axis'))
SINKS['numpy.linspace.'] = SINKS['numpy.linspace']
METHODS = {'reshape': None, 'repeat': (0,), 'take': (0,), 'put': (0,), 'resize': None}
OPERATOR = {'getitem', 'setitem'}


class Fn(object):
    def __init__(self, an, f, args, closure=None):
        self.an, self.f = an, f
        self.rets, self.report = [], {}
        self.closure = closure or {}
        self.env = {p: args.get(p, U) for p in f.all_params()}
        self.brk, self.cnt = [], []
        self.exits = []

    def run(self):
        if isinstance(self.f.node, ast.Lambda):
            self.rets.append(self.ev(self.f.node.body))
        else:
            self.block(self.f.body)
        return self

    def isself(self, e):
        return isinstance(e, ast.Name) and self.f.cls is not None and self.f.is_method and self.f.params and e.id == self.f.params[0]

    # ---- statements -----------------------------------------------------------------
    def block(self, body):
        for s in body:
            if self.exits:
                self.exits[-1].append(dict(self.env))
            if self.stmt(s) is False:
                return False
        return True

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s)
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return True

    def s_Return(self, s):
        self.rets.append(self.ev(s.value) if s.value is not None else NONE)
        return False

    def s_Raise(self, s):
        if s.exc is not None:
            self.ev(s.exc)
        return False

    def s_Break(self, s):
        if self.brk:
            self.brk[-1].append(dict(self.env))
        return False

    def s_Continue(self, s):
        if self.cnt:
            self.cnt[-1].append(dict(self.env))
        return False

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)
        return True

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
        return True

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.ev(t)
        return True

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, L(elem(v)))
                    continue
                r = set()
                for a in v:
                    if isinstance(a, tuple) and a[0] == 't' and not star:
                        if len(a[1]) == n:
                            r |= a[1][i]
                    else:
                        r |= elem(frozenset([a]))
                self.assign(x, frozenset(r) or U)
        elif isinstance(t, ast.Subscript):
            tgt = self.ev(t.value)
            self.index(t, tgt)
            if isinstance(t.value, ast.Name) and any(isinstance(a, tuple) for a in tgt):
                self.env[t.value.id] = join(tgt, L(elem(v) if isinstance(t.slice, ast.Slice) else v))
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            if self.isself(t.value):
                self.env['.' + t.attr] = v
                self.an.stored(self.f.cls, t.attr, v)
            else:
                self.an.stored(None, t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def s_AugAssign(self, s):
        b = ast.BinOp(left=s.target, op=s.op, right=s.value)
        ast.copy_location(b, s)
        load = self.ev(s.target)
        v = self.binop(b, load, self.ev(s.value))
        t = s.target
        if isinstance(t, ast.Subscript):
            return True
        self.assign(t, v)
        return True

    def merge(self, envs):
        env = envs[0]
        for o in envs[1:]:
            new = {}
            for k in set(env) | set(o):
                if k in env and k in o:
                    new[k] = join(env[k], o[k])
                else:
                    new[k] = env[k] if k in env else o[k]
            env = new
        self.env = dict(env)

    def refine(self, test, truth):
        """what a test tells about the kind of a name; False when it cannot be"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                return all([self.refine(v, truth) is not False for v in test.values])
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in self.env \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            is_ = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
            v = self.env[test.left.id]
            if is_:
                if v & set('NUDA') == frozenset():
                    return False
                self.env[test.left.id] = NONE
            elif v - {'N'}:
                self.env[test.left.id] = v - {'N'}
            else:
                return False
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name) and test.args[0].id in self.env:
            t = ast.unparse(test.args[1])
            n = test.args[0].id
            isint = t in ('int', 'Integral', 'numbers.Integral', '(int, np.integer)', 'np.integer', '(int, int)')
            isflt = t in ('float', 'np.floating', '(float, np.floating)')
            if isint and truth:
                self.env[n] = I
            elif isflt and not truth:
                self.env[n] = self.env[n] - {'F'}
                if not self.env[n]:
                    return False
        return True

    def cond(self, test):
        """constant truth value of a test or None"""
        if isinstance(test, ast.Constant):
            return bool(test.value)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            c = self.cond(test.operand)
            return None if c is None else not c
        if isinstance(test, ast.Name) and test.id in self.an.fixed(self.f):
            return self.an.fixed(self.f)[test.id]
        return None

    def s_If(self, s):
        self.ev(s.test)
        start, outs = self.env, []
        c = self.cond(s.test)
        for truth, body in ((True, s.body), (False, s.orelse)):
            if c is not None and c != truth:
                continue
            self.env = dict(start)
            if self.refine(s.test, truth) is False:
                continue
            if self.block(body):
                outs.append(self.env)
        if not outs:
            self.env = start
            return False
        self.merge(outs)
        return True

    def loop(self, s, pre):
        start = self.env
        env = dict(start)
        brk = []
        for _ in range(6):
            self.env = dict(env)
            self.brk.append([])
            self.cnt.append([])
            pre()
            ends = [dict(self.env)] if self.block(s.body) is not False else []
            if ends:
                ends = [self.env]
            ends += self.cnt.pop()
            brk = self.brk.pop()
            self.merge([env] + ends)
            if self.env == env:
                break
            env = self.env
        always = isinstance(s, ast.While) and self.cond(s.test) is True
        self.env = dict(env)
        ok = True
        if not always:
            ok = self.block(s.orelse) is not False
        else:
            ok = False
        outs = ([self.env] if ok else []) + brk
        if not outs:
            return False
        self.merge(outs)
        return True

    def s_For(self, s):
        def pre():
            self.assign(s.target, self.item(s.iter))
        return self.loop(s, pre)

    s_AsyncFor = s_For

    def s_While(self, s):
        return self.loop(s, lambda: self.ev(s.test))

    def item(self, e):
        if isinstance(e, ast.Call):
            nm = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
            if nm == 'enumerate' and e.args:
                return T([I, self.item(e.args[0])])
            if nm == 'zip' and not any(isinstance(a, ast.Starred) for a in e.args):
                return T([self.item(a) for a in e.args])
            if nm == 'reversed' and e.args:
                return self.item(e.args[0])
        return elem(self.ev(e))

    def s_With(self, s):
        for it in s.items:
            self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, U)
        return self.block(s.body)

    def s_Try(self, s):
        self.exits.append([dict(self.env)])
        a = self.block(s.body)
        mid = self.exits.pop()
        if a:
            mid.append(dict(self.env))
        if a and s.orelse:
            a = self.block(s.orelse)
        envs = [self.env] if a else []
        for h in s.handlers:
            self.merge(mid)
            if h.name:
                self.env[h.name] = D
            if self.block(h.body):
                envs.append(self.env)
        if not envs:
            self.merge(mid)
            self.block(s.finalbody)
            return False
        self.merge(envs)
        return self.block(s.finalbody)

    def s_FunctionDef(self, s):
        self.env[s.name] = D
        g = self.an.nested.get(id(s))
        if g is not None:
            self.an.context(g, {}, dict(self.closure, **self.env))
        return True

    def s_ClassDef(self, s):
        self.env[s.name] = D
        return True

    # ---- expressions ------------------------------------------------------------------
    def ev(self, e):
        if e is None:
            return U
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return U

    def e_Constant(self, e):
        if isinstance(e.value, (float, complex)):
            return F
        if isinstance(e.value, (bool, int)):
            return I
        return NONE if e.value is None else D

    def e_JoinedStr(self, e):
        return D

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.closure:
            return self.closure[e.id]
        return self.an.global_kind(self.f, e)

    def e_Attribute(self, e):
        if e.attr in ('size', 'ndim'):
            self.ev(e.value)
            return I
        if e.attr == 'shape':
            self.ev(e.value)
            return L(I)
        if e.attr in ('T', 'flat', 'real'):
            return self.ev(e.value)
        if self.isself(e.value):
            if '.' + e.attr in self.env:
                return self.env['.' + e.attr]
            return self.an.attr_kind(self.f.cls, e.attr, e)
        self.ev(e.value)
        return self.an.global_kind(self.f, e)

    def e_BinOp(self, e):
        return self.binop(e, self.ev(e.left), self.ev(e.right))

    def binop(self, e, a, b):
        if isinstance(e.op, ast.Mod) and 'D' in a:
            return D
        if isinstance(e.op, ast.Div):
            if 'D' in a or 'D' in b:
                return U
            return F
        if isinstance(e.op, ast.Mult):
            for x, y, node in ((a, b, e.right), (b, a, e.left)):
                s = [t for t in x if isinstance(t, tuple)]
                if s and not any(t in x for t in ('I', 'F', 'U', 'A')):
                    if any(isinstance(t, tuple) for t in y):
                        return U
                    if 'F' in y:
                        self.sink(node, y, 'the number of repetitions of a list')
                    return L(elem(x))
                if 'D' in x:
                    return U
        if isinstance(e.op, ast.Add):
            sa = [t for t in a if isinstance(t, tuple)]
            sb = [t for t in b if isinstance(t, tuple)]
            if sa and sb and len(sa) == len(a) and len(sb) == len(b):
                if len(sa) == len(sb) == 1 and sa[0][0] == sb[0][0] == 't':
                    return T(sa[0][1] + sb[0][1])
                return L(join(elem(a), elem(b)))
        if isinstance(e.op, (ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)):
            for x, n in ((a, e.left), (b, e.right)):
                if 'F' in x:
                    self.sink(n, x, 'an operand of %s' % {'LShift': '<<', 'RShift': '>>', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^'}[type(e.op).__name__])
            return I if a == I and b == I else U
        if isinstance(e.op, ast.Pow):
            if comb(a, b) == I and isinstance(e.right, ast.UnaryOp) and isinstance(e.right.op, ast.USub) and isinstance(e.right.operand, ast.Constant):
                return F
        return comb(a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return I
        if isinstance(e.op, ast.Invert):
            if 'F' in v:
                self.sink(e.operand, v, 'an operand of ~')
                return v - {'F'} or U
            return v
        return nums(v)

    def e_Compare(self, e):
        for x in [e.left] + e.comparators:
            self.ev(x)
        return I

    def e_BoolOp(self, e):
        vs = [self.ev(v) for v in e.values]
        r = vs[0]
        for v in vs[1:]:
            r = join(r, v)
        return r

    def e_IfExp(self, e):
        self.ev(e.test)
        c = self.cond(e.test)
        start, out = dict(self.env), None
        for truth, x in ((True, e.body), (False, e.orelse)):
            if c is not None and c != truth:
                continue
            self.env = dict(start)
            if self.refine(e.test, truth) is False:
                continue
            v = self.ev(x)
            out = v if out is None else join(out, v)
        self.env = start
        return out if out is not None else U

    def sink(self, node, v, what):
        if 'F' in v:
            self.report[(ast.unparse(node), what)] = node

    def index(self, e, base):
        """the subscript of e, with the check of its kind"""
        s = e.slice
        nm = e.value.attr if isinstance(e.value, ast.Attribute) else getattr(e.value, 'id', '')
        if nm in FREE:
            self.ev(s) if not isinstance(s, (ast.Slice, ast.Tuple)) else None
            return
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        keyed = base & set('UD') and not (base & set('IFA')) and not any(isinstance(a, tuple) for a in base)
        for p in parts:
            self.an.n['indices'] += 1
            if isinstance(p, ast.Slice):
                for x in (p.lower, p.upper, p.step):
                    if x is not None:
                        self.sink(x, self.ev(x), 'a slice bound')
            else:
                v = self.ev(p)
                if 'D' in base or keyed and len(parts) == 1 and not self.an.array_like(self, e.value):
                    continue
                if len(parts) == 1 and any(isinstance(a, tuple) for a in v):
                    v = nums(v)
                self.sink(p, v, 'an index')

    def e_Subscript(self, e):
        v = self.ev(e.value)
        nm = e.value.attr if isinstance(e.value, ast.Attribute) else getattr(e.value, 'id', '')
        if nm in ('r_', 'c_'):
            return self.rc(e.slice)
        if nm in FREE:
            self.index(e, v)
            return U
        self.index(e, v)
        if isinstance(e.slice, ast.Slice):
            ts = [a for a in v if isinstance(a, tuple)]
            bounds = [None if x is None else self.an.const(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if ts and all(a[0] == 't' for a in ts) and '?' not in bounds:
                return frozenset(('t', a[1][slice(*bounds)]) for a in ts) | (v - frozenset(ts))
            if ts:
                return join(L(elem(frozenset(ts))), v - frozenset(ts)) if v - frozenset(ts) else L(elem(v))
            return v
        out = set()
        for a in v:
            if isinstance(a, tuple) and a[0] == 't' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                if -len(a[1]) <= e.slice.value < len(a[1]):
                    out |= a[1][e.slice.value]
            elif isinstance(a, tuple):
                out |= elem(frozenset([a]))
            elif a in 'IFA':
                out.add(a)
            else:
                out.add('U')
        return frozenset(out) or U

    def rc(self, s):
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        vs = []
        for p in parts:
            if isinstance(p, ast.Slice):
                if isinstance(p.step, ast.Constant) and isinstance(p.step.value, complex):
                    vs.append(F)
                    for x in (p.lower, p.upper):
                        if x is not None:
                            self.ev(x)
                else:
                    vs.append(comb(*[self.ev(x) for x in (p.lower, p.upper, p.step) if x is not None] or [I]))
            else:
                vs.append(nums(self.ev(p)))
        return comb(*vs)

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.sink(x, self.ev(x), 'a slice bound')
        return D

    def e_Tuple(self, e):
        vs = [self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = frozenset()
            for x, v in zip(e.elts, vs):
                r = join(r, elem(v) if isinstance(x, ast.Starred) else v)
            return L(r or U)
        return T(vs)

    def e_List(self, e):
        vs = [self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
        if not vs:
            return L(frozenset())
        if any(isinstance(x, ast.Starred) for x in e.elts) or len(vs) > 8:
            r = frozenset()
            for x, v in zip(e.elts, vs):
                r = join(r, elem(v) if isinstance(x, ast.Starred) else v)
            return L(r)
        return T(vs)

    def e_Dict(self, e):
        for x in list(e.keys) + list(e.values):
            if x is not None:
                self.ev(x)
        return D


    def comp(self, e, parts):
        old = dict(self.env)
        for g in e.generators:
            self.assign(g.target, self.item(g.iter))
            for c in g.ifs:
                self.ev(c)
                self.refine(c, True)
        vs = [self.ev(p) for p in parts]
        self.env = old
        return vs

    def e_ListComp(self, e):
        return L(self.comp(e, [e.elt])[0])

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e):
        self.comp(e, [e.key, e.value])
        return D

    def e_Lambda(self, e):
        g = self.an.nested.get(id(e))
        if g is not None:
            self.an.context(g, {}, dict(self.closure, **self.env))
        return D

    def e_Starred(self, e):
        self.ev(e.value)
        return U

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.env[e.target.id] = v
        return v

    def dtype(self, e):
        t = ast.unparse(e)
        if t in FLTT:
            return F
        if t in INTT:
            return I
        if isinstance(e, ast.Attribute) and e.attr == 'dtype':
            return nums(self.ev(e.value))
        return U

    def e_Call(self, e):
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
        sites = self.an.eff.sites.get(id(e), ())
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        kwe = {k.arg: k.value for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args) or None in kw
        ext = [n for k, n in sites if k == 'ext']
        proj = [n for k, n in sites if k == 'fn' and n in self.an.proj.funcs]
        cls = [n for k, n in sites if k == 'cls']
        if not sites and isinstance(fn, (ast.Name, ast.Attribute)):
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in self.env:
                x = self.an.proj.resolve_expr(self.f.module, fn)
                if x and x[0] == 'ext':
                    ext = [x[1]]
                elif x is None and isinstance(fn, ast.Name):
                    ext = ['builtins.' + fn.id]
        ext = ['builtins.' + n if '.' not in n else n for n in ext]
        for n in ext:
            self.check(e, n, args, kw)
        if not sites and not ext and isinstance(fn, ast.Attribute):
            proj = sites = self.an.unique.get(nm, ())
        if proj:
            r = None
            for n in proj:
                v = self.an.call(self.an.proj.funcs[n], e, args, kw, star, self)
                r = v if r is None else join(r, v)
            return r if len(proj) == len(sites) else join(r, U)
        if cls:
            for n in cls:
                g = self.an.proj.classes[n].find('__init__')
                if g is not None:
                    self.an.call(g, e, args, kw, star, self)
            return U
        recv = None
        if isinstance(fn, ast.Attribute) and not ext:
            recv = self.ev(fn.value)
        if recv is not None:
            return self.method(e, nm, recv, args, kw, kwe)
        if not ext:
            return U
        x = ext[0]
        if x in PYINT:
            return I
        if 'dtype' in kwe and not (isinstance(kwe['dtype'], ast.Constant) and kwe['dtype'].value is None):
            return self.dtype(kwe['dtype'])
        lib = x.split('.')[0]
        if lib not in ('builtins', 'numpy', 'math', 'scipy', 'cmath', 'functools', 'operator'):
            return U
        if nm in LIKE:
            if len(e.args) > 1 and nm != 'full_like':
                return self.dtype(e.args[1])
            return nums(args[0]) if args else U
        if nm in SHAPED:
            k = 2 if nm == 'full' else 1
            if len(e.args) > k:
                return self.dtype(e.args[k])
            if nm == 'full':
                return nums(args[1]) if len(args) > 1 else U
            return F
        if nm in ('eye', 'identity'):
            return F
        if nm == 'arange':
            return comb(*args) if args and not star else U
        if nm in ('linspace', 'logspace', 'geomspace'):
            if 'retstep' in kw:
                return T([F, F])
            return F
        if nm == 'range':
            return L(I)
        if nm in ('array', 'asarray', 'asanyarray', 'ascontiguousarray') and len(e.args) > 1:
            return self.dtype(e.args[1])
        if nm in ('broadcast_arrays', 'meshgrid', 'atleast_1d', 'atleast_2d') and (len(args) > 1 or nm in ('broadcast_arrays', 'meshgrid')):
            return U if star else T([frozenset('A' if k == 'U' else k for k in nums(a)) for a in args])
        if nm == 'where' and len(args) == 3:
            r = join(nums(args[1]), nums(args[2]))
            return r
        if nm in INTL:
            return L(I)
        if nm == 'round' and lib == 'builtins':
            return I if len(args) == 1 and not kw else nums(args[0]) if args else U
        if nm in ('round', 'around', 'round_'):
            return nums(args[0]) if args else U
        if nm in ('max', 'min') and lib == 'builtins' and not star:
            if len(args) == 1:
                return elem(args[0])
            r = args[0]
            for a in args[1:]:
                r = join(r, a)
            return r
        if nm == 'divmod' and len(args) == 2:
            return T([comb(*args)] * 2)
        if nm == 'modf':
            return T([F, F])
        if nm == 'frexp':
            return T([F, I])
        if nm == 'pow' and len(args) == 2:
            return comb(*args)
        if nm in ('list', 'tuple', 'sorted', 'reversed', 'set') and lib == 'builtins':
            if not args:
                return L(frozenset())
            return args[0] if any(isinstance(a, tuple) for a in args[0]) else L(elem(args[0]))
        if nm == 'sum' and lib == 'builtins' and args:
            return comb(elem(args[0]), I) if nums(args[0]) else U
        if nm == 'map' and len(e.args) == 2:
            f = ast.unparse(e.args[0])
            return L(F if f in ('float',) else I if f in ('int', 'len') else U)
        if nm in STACK:
            return nums(args[0]) if args and args[0] else U
        if nm in COMB and not star and args:
            return comb(*args[:3])
        if nm in FLOATF:
            if lib == 'builtins' and nm != 'float':
                return U
            return F
        if nm in INTF:
            return I
        if nm in SAME and args:
            r = nums(args[0]) or U
            return frozenset('A' if a == 'U' else a for a in r) if lib == 'numpy' else r
        if x.startswith(('scipy.special.', 'numpy.random.', 'numpy.fft.', 'scipy.fft')) and nm not in ('RandomState', 'default_rng', 'seed', 'get_state',
                                                                                                  'randint', 'permutation', 'choice', 'shuffle', 'poisson',
                                                                                                  'binomial', 'geometric', 'next_fast_len'):
            return F
        return U

    def method(self, e, nm, recv, args, kw, kwe):
        if nm == 'astype' and e.args:
            return self.dtype(e.args[0])
        if nm in METHODS and recv & set('IFUA'):
            pos = METHODS[nm]
            for i, (a, v) in enumerate(zip(e.args, args)):
                if pos is None or i in pos:
                    self.sink(a, nums(v), 'an argument of %s' % nm)
        if any(isinstance(a, tuple) for a in recv):
            r = e.func.value
            if nm in ('append', 'insert', 'add', 'extend') and args and isinstance(r, ast.Name):
                v = args[-1]
                self.env[r.id] = join(recv, L(elem(v) if nm == 'extend' else v))
                return NONE
            if nm == 'pop':
                for a, v in zip(e.args, args):
                    self.sink(a, v, 'an index')
                return elem(recv)
            if nm == 'copy':
                return recv
            if nm in ('index', 'count'):
                return I
            return U
        if 'D' in recv:
            return U
        if 'dtype' in kwe:
            return self.dtype(kwe['dtype'])
        if nm in ('argsort', 'argmax', 'argmin', 'searchsorted', 'any', 'all', 'is_integer'):
            return I
        if nm == 'nonzero':
            return L(I)
        if nm in ('mean', 'std', 'var'):
            return F if recv & set('IFUA') else U
        if nm in ('sum', 'prod', 'max', 'min', 'cumsum', 'copy', 'ravel', 'flatten', 'reshape', 'squeeze', 'transpose', 'clip', 'round',
                  'repeat', 'take', 'cumprod', 'diagonal', 'swapaxes', 'conj', 'item', 'view', 'ptp'):
            return nums(recv)
        if nm == 'dot' and args:
            return comb(recv, args[0])
        if nm == 'tolist':
            return L(nums(recv))
        return U

    def check(self, e, name, args, kw):
        if name.startswith('numpy.core.') or name.startswith('numpy.lib.'):
            name = 'numpy.' + name.split('.')[-1]
        k = SINKS.get(name)
        if k is None:
            return
        self.an.n['calls'] += 1
        for i in k[0]:
            if i < len(args) and not any(isinstance(a, ast.Starred) for a in e.args[:i + 1]):
                self.sink(e.args[i], nums(args[i]), 'an argument of ' + name.replace('builtins.', ''))
        for x in e.keywords:
            if x.arg in k[1]:
                self.sink(x.value, nums(kw[x.arg]), 'an argument of ' + name.replace('builtins.', ''))


class Analysis(object):
    def __init__(self, proj, eff):
        self.proj, self.eff = proj, eff
        self.unique = {}                 # methods of objects whose class is not known here, by their name
        for nm in ('get_ste_constant', 'get_amise_constant', 'deriv4_6_8_10', 'psi', 'gauss2dat', 'dat2gauss', 'get_bounds', 'turning_points'):
            self.unique[nm] = tuple(q for q, f in proj.funcs.items() if f.name == nm and f.cls is not None)
        self.memo, self.active = {}, []
        self.attrs, self.newattrs = {}, {}
        self.found, self.globals = {}, {}
        self.n = {'functions': 0, 'contexts': 0, 'indices': 0, 'calls': 0}
        self.nested = {id(f.node): f for f in proj.funcs.values() if f.parent is not None}

    def global_kind(self, f, e):
        x = self.proj.resolve_expr(f.module, e)
        if not x:
            return U
        if x[0] == 'gvar':
            vals = x[1].gvars.get(x[2], [])
            if vals and all(isinstance(v, ast.Constant) for v in vals):
                r = frozenset()
                for v in vals:
                    r = join(r, Fn.e_Constant(None, v))
                return r
            if vals and all(isinstance(v, (ast.Dict,)) for v in vals):
                return D
            return U
        if x[0] == 'ext' and x[1].split('.')[-1] in ('pi', 'inf', 'nan', 'e', 'NaN', 'Inf', 'infty', 'euler_gamma'):
            return F
        return U

    def fixed(self, f):
        """names that are assigned once, a constant -> its truth value"""
        key = ('fixed', f.qual)
        if key not in self.memo:
            out, n = {}, {}
            for x in walk_local(f.body):
                for y in ast.walk(x) if isinstance(x, (ast.For, ast.With, ast.AugAssign)) else [x]:
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        n[y.id] = n.get(y.id, 0) + 1
            for s in f.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                    if n.get(s.targets[0].id) == 1 and s.targets[0].id not in f.all_params():
                        out[s.targets[0].id] = bool(s.value.value)
            self.memo[key] = out
        return self.memo[key]

    @staticmethod
    def const(e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int):
            return -e.operand.value
        return e.value if isinstance(e, ast.Constant) and isinstance(e.value, int) else '?'

    def stored(self, cls, attr, v):
        key = (cls.qual if cls is not None else None, attr)
        self.newattrs[key] = join(self.newattrs[key], v) if key in self.newattrs else v

    def attr_kind(self, cls, attr, e):
        p = cls.find_prop(attr) if hasattr(cls, 'find_prop') else None
        if p is not None:
            return U
        r = frozenset()
        for c in cls.classes():
            if attr in c.props:
                g = c.props[attr].get('get') if isinstance(c.props[attr], dict) else None
                if g is not None and not isinstance(g, str):
                    return self.context(g, {}, {})
                return U
            if (c.qual, attr) in self.attrs:
                r = join(r, self.attrs[(c.qual, attr)])
            if attr in c.attrs:
                v = c.attrs[attr]
                r = join(r, Fn.e_Constant(None, v) if isinstance(v, ast.Constant) else U)
        for q, c in self.proj.classes.items():
            if cls in c.classes() and c is not cls and (q, attr) in self.attrs:
                r = join(r, self.attrs[(q, attr)])
        if (None, attr) in self.attrs:
            r = join(r, U)
        return r or U

    def array_like(self, fn, e):
        """an expression of unknown kind that is an array, not a dictionary, by the way it is used"""
        if isinstance(e, ast.Attribute) and e.attr in ('data', 'args', 'shape'):
            return True
        if not isinstance(e, ast.Name):
            return False
        key = (fn.f.qual, e.id)
        if key not in self.memo:
            r = False
            for n in ast.walk(fn.f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == e.id and \
                        any(isinstance(x, ast.Slice) for x in ast.walk(n.slice)):
                    r = True
                if isinstance(n, ast.BinOp) and any(isinstance(x, ast.Name) and x.id == e.id for x in (n.left, n.right)) and not isinstance(n.op, ast.Mod):
                    r = True
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == e.id and n.attr in ('shape', 'size', 'ravel', 'T'):
                    r = True
            self.memo[key] = r
        return self.memo[key]

    def call(self, g, e, args, kw, star, caller):
        if g.is_gen or _wrapped(g):
            return U
        env = {}
        pos = list(g.params[:g.npos])
        if g.cls is not None and g.parent is None and g.is_method:
            pos = pos[1:]
        if not star:
            for i, a in enumerate(args):
                if i < len(pos):
                    env[pos[i]] = a
            for k, v in kw.items():
                if k in g.params:
                    env[k] = v
        for p, d in g.defaults.items():
            if p not in env:
                v = Fn.e_Constant(None, d) if isinstance(d, ast.Constant) else U
                env[p] = join(v, U) if star else v
        clo = {}
        if g.parent is not None and g.parent is caller.f:
            clo = dict(caller.closure, **caller.env)
        return self.context(g, env, clo)

    def context(self, g, env, clo):
        key = (g.qual, frozenset(env.items()), frozenset((k, v) for k, v in clo.items() if not k.startswith('.')) if clo else None)
        if key in self.memo:
            return self.memo[key]
        if len(self.active) > 14 or g.qual in [k[0] for k in self.active]:
            return U
        self.active.append(key)
        self.n['contexts'] += 1
        w = Fn(self, g, env, clo).run()
        self.active.pop()
        for (txt, what), node in w.report.items():
            self.found.setdefault((g.qual, txt, what), (g, node))
        r = None
        for v in w.rets:
            r = v if r is None else join(r, v)
        if g.is_gen or r is None:
            r = U
        if depth(r) > 3:
            r = U
        self.memo[key] = r
        return r


def _wrapped(g):
    return any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')) for d in g.decorators)


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(rule='no floating point value (quotient, rounded or real number) reaches an array size, repetition, loop count, transform length, '
                    'index, slice bound or bit operation on any path',
               explanation='flow-sensitive abstract interpretation of number kinds of every function, calls followed with the kinds of '
                           'their arguments, attributes as the join of all that is stored in them')
    an = None
    attrs = {}
    for rnd in range(3):
        an = Analysis(proj, eff)
        an.attrs = attrs
        for q, f in sorted(proj.funcs.items()):
            if f.parent is not None:
                continue
            an.n['functions'] += 1
            env = {}
            for p, d in f.defaults.items():
                env[p] = join(U, Fn.e_Constant(None, d)) if isinstance(d, ast.Constant) else U
            an.context(f, env, {})
        if an.newattrs == attrs:
            break
        attrs = an.newattrs
    for (q, txt, what), (g, node) in sorted(an.found.items()):
        r.add('%s: %s is %s' % (q, txt, what), '%s (%s:%d) uses %s, which can be a floating point number, as %s' % (q, g.path, node.lineno, txt, what),
              '%s:%d' % (g.path, node.lineno))
    r.coverage = an.n
    r.assumptions = ['values handed over by the user where whole numbers are asked for are integers', 'functions outside numpy, scipy, math and the builtins '
                     'give values of unknown kind, which are not reported']
    return r
