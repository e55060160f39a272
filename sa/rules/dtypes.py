"""C15: whole numbers given as integers are computed with like floats.

Every function is interpreted over element types: F (surely floating point), N(params) (the element
type of these arguments, integer when the caller passes integers), I (integer or boolean by
construction), U (unknown).  Writing an F value into an N or I array truncates it; an in-place
operation with an F value on such an array fails.  Both make the result depend on how the caller
wrote the numbers.
"""
import ast
from ..framework import Result
from ..project import walk_local, is_public

F, I, U = ('f',), ('i',), ('u',)


def N(params, arr=False):
    return ('n', frozenset(params), arr)


def T(items):
    return ('t', tuple(items))


def isarr(v):
    return v[0] == 'n' and v[2] or v[0] == 'ia'


IA = ('ia',)        # integer array by construction


def base(v):
    return 'i' if v[0] == 'ia' else v[0]


def arr(v):
    if v[0] == 'n':
        return N(v[1], True)
    if v[0] == 'i':
        return IA
    return v


def elem(v):
    if v[0] == 'ia':
        return I
    return v


def comb(*vs):
    """type of an arithmetic combination (numpy promotion)"""
    vs = [v for v in vs]
    if any(v[0] == 'f' for v in vs):
        return F
    if any(v[0] in 'ut' or v[0] == 'l' for v in vs):
        return U
    ns = [v for v in vs if v[0] == 'n']
    if ns:
        return N(frozenset().union(*[v[1] for v in ns]), any(isarr(v) for v in vs))
    return IA if any(isarr(v) for v in vs) else I


def join(a, b, may=True):
    """type at a merge of paths"""
    if a == b:
        return a
    if a[0] == 't' and b[0] == 't' and len(a[1]) == len(b[1]):
        return T(join(x, y, may) for x, y in zip(a[1], b[1]))
    if a[0] == 'n' and b[0] == 'n':
        return N(a[1] | b[1], a[2] and b[2])
    for x, y in ((a, b), (b, a)):
        if x[0] == 't' and y[0] in 'nl' and all(z[0] == 'n' for z in x[1] + (y[1] if y[0] == 'l' else ())):
            # one value or several of the caller's
            vs = list(x[1]) + (list(y[1]) if y[0] == 'l' else [y])
            return ('l', (N(frozenset().union(*[v[1] for v in vs]), all(v[2] for v in vs)),))
    if base(a) == 'i' and base(b) == 'i':
        return I
    if may and b[0] == 'n' and a[0] in 'fu':        # on one of the paths it has the caller's element type
        return b
    if may and a[0] == 'n' and b[0] in 'fu':
        return a
    return U


FLOATF = set('''sqrt exp log log10 log2 log1p expm1 sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh arcsinh arccosh arctanh
 hypot mean std var average median percentile quantile linspace logspace interp trapz simps simpson quad fft ifft rfft irfft fft2 ifft2 fftn ifftn fftfreq
 rand randn random uniform normal standard_normal gamma gammaln beta betaln erf erfc erfinv ndtr ndtri gammainc gammaincc jv kv iv ellipk expit logit sinc
 polyval polyfit roots_legendre deg2rad rad2deg floor ceil true_divide divide reciprocal corrcoef cov cbrt spacing nextafter angle exp2 hanning hamming kaiser
 blackman bartlett solve inv pinv det eigvals eigh eig svd norm lstsq cholesky toeplitz0 gradient nanmean nanstd nanvar cumtrapz float float64 float_
 double longdouble float32 expon_pdf dct idct dctn idctn geomspace i0 i1 k0 k1 sqrt_ factorial comb binom cosm1 sindg csingle cdouble complex complex128'''.split())
SAME = set('''array asarray asanyarray ascontiguousarray atleast_1d atleast_2d atleast_3d ravel reshape copy sort unique flipud fliplr flip squeeze
 transpose repeat tile roll abs absolute fabs0 real conj conjugate negative positive cumsum cumprod sum prod diff max min amax amin nanmax nanmin nansum clip0 round around
 diag diagonal triu tril rollaxis swapaxes moveaxis expand_dims take compress delete trim_zeros nan_to_num ediff1d resize0 asfarray0 extract sign square ptp
 rot90 trace broadcast_to'''.split())
COMB = set('''maximum minimum fmax fmin add subtract multiply dot outer inner kron matmul tensordot vdot mod fmod remainder where0 convolve correlate cross
 append hstack vstack concatenate column_stack stack dstack r_ c_ select0 block einsum0 clip polymul polyadd'''.split())
INTF = set('''arange0 argsort argmax argmin argwhere flatnonzero nonzero searchsorted digitize bincount len size shape ndim indices isnan isinf isfinite isscalar
 any all logical_and logical_or logical_not logical_xor equal not_equal less greater less_equal greater_equal iscomplex isreal in1d isin isclose allclose
 int int_ int8 int16 int32 int64 uint8 bool bool_ range round0 floor_divide nnz count_nonzero ravel_multi_index unravel_index lexsort isneginf isposinf signbit'''.split())
LIKE = {'zeros_like', 'ones_like', 'empty_like', 'full_like'}
STORES = {'place': 2, 'putmask': 2, 'copyto': 1, 'put': 2, 'put_along_axis': 2, 'fill_diagonal': 1}   # function -> position of the values stored
SHAPED = {'zeros', 'ones', 'empty', 'eye', 'identity'}


# arguments for which no other whole number than 0 or 1 is valid, and those need no computed value
UNIT = {'r1': 'first Fourier coefficient of a spreading, in [0, 1): the only whole number, 0, is handled apart'}


class Fn(object):
    """interpret one function for given argument types"""

    def __init__(self, an, f, args, closure=None):
        self.an, self.f = an, f
        self.rets = []
        self.report = []
        self.closure = closure or {}
        env = {}
        for p in f.all_params():
            env[p] = args.get(p, U)
        self.env = env
        self.loopdepth = 0
        self.kinds = {}         # variables that hold an element type

    def run(self):
        self.block(self.f.body)
        return self

    # ---- statements -----------------------------------------------------------------
    def block(self, body):
        """returns False when the end is not reachable"""
        for s in body:
            if self.stmt(s) is False:
                return False
        return True

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s)
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return True

    def s_Return(self, s):
        self.rets.append(self.ev(s.value) if s.value is not None else U)
        return False

    def s_Raise(self, s):
        return False

    def s_Break(self, s):
        return False

    s_Continue = s_Break

    def s_Expr(self, s):
        self.ev(s.value)
        return True

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = self.dtype(s.value) if not isinstance(s.value, (ast.Name, ast.Constant)) or getattr(s.value, 'id', '') in ('float', 'int', 'complex', 'bool') \
                    or getattr(s.value, 'id', '') in self.kinds else U
                old = self.kinds.get(t.id)
                if d is None or d == U:
                    self.kinds.pop(t.id, None)
                else:       # several assignments: any of them may be the one in force
                    self.kinds[t.id] = d if old is None else join(old, d)
            self.assign(t, v, s)
        return True

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)
        return True

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, U, s)
                elif v[0] == 't' and len(v[1]) == len(t.elts):
                    self.assign(x, v[1][i], s)
                elif v[0] in ('n', 'f', 'i', 'ia'):
                    self.assign(x, elem(v) if v[0] != 'n' else N(v[1]), s)
                elif v[0] == 'l' and (len(set(v[1])) == 1 or len(v[1]) == len(t.elts)):
                    self.assign(x, v[1][i if len(v[1]) == len(t.elts) else 0], s)
                else:
                    self.assign(x, U, s)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            tgt = self.ev(t.value)
            self.store(tgt, v, t, s)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            if isinstance(t.value, ast.Name) and self.f.params and t.value.id == self.f.params[0] and self.f.cls is not None:
                self.env['.' + t.attr] = v

    def store(self, tgt, v, t, s):
        if isarr(tgt):
            bad = None
            if v[0] == 'f' and not self.integral(s):
                bad = 'real numbers'
            elif v[0] == 'u' and tgt[0] == 'n' and not tgt[1] <= set(UNIT):
                bad = 'computed values'
            elif v[0] == 'n' and tgt[0] == 'n' and not v[1] <= tgt[1]:
                bad = 'values of ' + ', '.join(sorted(v[1] - tgt[1]))
            if bad:
                self.report.append((t, 'stores %s in %s, an array %s' % (
                    bad, ast.unparse(t.value), 'of integers' if tgt[0] == 'ia' else 'with the element type of ' + ', '.join(sorted(tgt[1])))))

    def integral(self, s):
        """the value stored is a whole number or must not be one (nan) by construction"""
        v = getattr(s, 'value', None)
        if isinstance(v, ast.UnaryOp):
            v = v.operand
        if isinstance(v, ast.Call) and getattr(v.func, 'id', getattr(v.func, 'attr', '')) in ('floor', 'ceil', 'round', 'around', 'rint', 'trunc', 'fix'):
            return True
        return isinstance(v, ast.Constant) and isinstance(v.value, float) and v.value == int(v.value)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        t = s.target
        cur = self.ev(t)
        isdiv = isinstance(s.op, ast.Div)
        if isinstance(t, ast.Name):
            if isarr(cur) and (v[0] == 'f' or isdiv):
                self.report.append((t, 'applies an in-place operation with real numbers to %s, an array %s' % (
                    t.id, 'of integers' if cur[0] == 'ia' else 'with the element type of ' + ', '.join(sorted(cur[1])))))
            self.env[t.id] = F if isdiv and cur[0] in ('n', 'i', 'ia', 'f') else comb(cur, v)
        elif isinstance(t, ast.Subscript):
            tgt = self.ev(t.value)
            res = F if isdiv else comb(cur, v)
            self.store(tgt, F if v[0] == 'f' or isdiv else res, t, s if not isdiv else t)
        elif isinstance(t, ast.Attribute):
            if isarr(cur) and (v[0] == 'f' or isdiv):
                self.report.append((t, 'applies an in-place operation with real numbers to %s, an array %s' % (
                    ast.unparse(t), 'of integers' if cur[0] == 'ia' else 'with the element type of ' + ', '.join(sorted(cur[1])))))
            if isinstance(t.value, ast.Name) and self.f.params and t.value.id == self.f.params[0]:
                self.env['.' + t.attr] = F if isdiv else comb(cur, v)
        return True

    def branch(self, bodies):
        """bodies: list of (test facts fn or None, statements)"""
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            if self.block(b):
                outs.append(self.env)
        if not outs:
            self.env = start
            return False
        env = outs[0]
        for o in outs[1:]:
            new = {}
            for k in set(env) | set(o):
                if k in env and k in o:
                    new[k] = join(env[k], o[k])
                else:
                    new[k] = env.get(k, o.get(k))
            env = new
        self.env = env
        return True

    def s_If(self, s):
        self.ev(s.test)
        return self.branch([s.body, s.orelse])

    def s_For(self, s):
        it = self.ev(s.iter)
        start = dict(self.env)
        for k in range(2):
            self.assign(s.target, self.item(s.iter, it), s)
            self.block(s.body)
            for n in set(self.env) | set(start):
                if n in start and n in self.env:
                    self.env[n] = join(self.env[n], start[n]) if k == 0 else self.env[n]
            if k == 0:
                self.report = [r for r in self.report]
        self.block(s.orelse)
        return True

    def item(self, e, it):
        if isinstance(e, ast.Call):
            nm = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
            if nm == 'range':
                return I
            if nm == 'enumerate' and e.args:
                return T([I, self.item(e.args[0], self.ev(e.args[0]))])
            if nm == 'zip':
                return T([self.item(a, self.ev(a)) for a in e.args])
        if it[0] == 'f':
            return F
        if it[0] == 'n':
            return N(it[1])
        if it[0] in ('i', 'ia'):
            return I
        return U

    def s_While(self, s):
        start = dict(self.env)
        for k in range(2):
            self.ev(s.test)
            self.block(s.body)
            if k == 0:
                for n in list(self.env):
                    if n in start:
                        self.env[n] = join(self.env[n], start[n])
        self.block(s.orelse)
        return True

    def s_With(self, s):
        for it in s.items:
            self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, U, s)
        return self.block(s.body)

    def s_Try(self, s):
        start = dict(self.env)
        a = self.block(s.body)
        if a and s.orelse:
            a = self.block(s.orelse)
        envs = [self.env] if a else []
        after = dict(self.env)
        for h in s.handlers:
            self.env = {k: join(start[k], after[k]) if k in after and k in start else after.get(k, start.get(k)) for k in set(start) | set(after)}
            if self.block(h.body):
                envs.append(self.env)
        if not envs:
            if s.finalbody:
                self.block(s.finalbody)
            return False
        env = envs[0]
        for o in envs[1:]:
            env = {k: join(env[k], o[k]) if k in env and k in o else env.get(k, o.get(k)) for k in set(env) | set(o)}
        self.env = env
        return self.block(s.finalbody)

    def s_FunctionDef(self, s):
        self.env[s.name] = U
        return True

    def s_ClassDef(self, s):
        return True

    # ---- expressions ------------------------------------------------------------------
    def ev(self, e):
        if e is None:
            return U
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return U

    def e_Constant(self, e):
        if isinstance(e.value, (float, complex)):
            return F
        if isinstance(e.value, (bool, int)):
            return I
        return U

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.closure:
            return self.closure[e.id]
        return self.an.global_type(self.f, e)

    def e_Attribute(self, e):
        if e.attr in ('size', 'ndim'):
            self.ev(e.value)
            return I
        if e.attr in ('T', 'real', 'flat'):
            return self.ev(e.value)
        if isinstance(e.value, ast.Name) and self.f.params and e.value.id == self.f.params[0] and self.f.cls is not None:
            if '.' + e.attr in self.env:
                return self.env['.' + e.attr]
            return self.an.attr_type(self.f.cls, e.attr)
        v = self.ev(e.value)
        if e.attr == 'shape':
            return U
        return self.an.global_type(self.f, e)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return U
        if isinstance(e.op, ast.Div):
            return F if a[0] in ('f', 'n', 'i', 'ia') or b[0] in ('f', 'n', 'i', 'ia') else U
        if isinstance(e.op, ast.Mult) and any(isinstance(x, (ast.List, ast.Tuple)) for x in (e.left, e.right)):
            return U
        if isinstance(e.op, ast.Pow) and a[0] == 'n' and isarr(a) and isinstance(e.right, ast.UnaryOp) and isinstance(e.right.op, ast.USub) \
                and isinstance(e.right.operand, ast.Constant) and isinstance(e.right.operand.value, int):
            self.report.append((e, 'raises %s, an array with the element type of %s, to a negative integer power' % (
                ast.unparse(e.left), ', '.join(sorted(a[1])))))
            return F
        if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return arr(comb(a, b)) if 'u' not in (a[0], b[0]) else U
        return comb(a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return I if isinstance(e.op, ast.Not) else v

    def e_Compare(self, e):
        vs = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
        return IA if any(isarr(v) for v in vs) else I

    def e_BoolOp(self, e):
        vs = [self.ev(v) for v in e.values]
        r = vs[0]
        for v in vs[1:]:
            r = join(r, v)
        return r

    def e_IfExp(self, e):
        self.ev(e.test)
        return join(self.ev(e.body), self.ev(e.orelse))

    def e_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice)
        if v[0] == 't':
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v[1]) <= e.slice.value < len(v[1]):
                return v[1][e.slice.value]
            return U
        if v[0] == 'l' and len(set(v[1])) == 1 and not isinstance(e.slice, ast.Slice):
            return v[1][0]
        if v[0] == 'n':
            return v if isinstance(e.slice, ast.Slice) or v[2] else N(v[1])
        nm = ast.unparse(e.value)
        if nm in ('np.r_', 'r_', 'np.c_', 'c_', 'numpy.r_'):
            return self.rc(e.slice)
        if nm in ('np.mgrid', 'mgrid', 'np.ogrid', 'ogrid'):
            return U
        return v

    def rc(self, s):
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        vs = []
        for p in parts:
            if isinstance(p, ast.Slice):
                if p.step is not None and isinstance(p.step, ast.Constant) and isinstance(p.step.value, complex):
                    vs.append(F)
                else:
                    vs.append(comb(*[self.ev(x) for x in (p.lower, p.upper, p.step) if x is not None] or [I]))
            else:
                vs.append(self.ev(p))
        return arr(comb(*vs))

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x)
        return I

    def e_Tuple(self, e):
        return T([self.ev(x) for x in e.elts if not isinstance(x, ast.Starred)]) if not any(isinstance(x, ast.Starred) for x in e.elts) else U

    def e_List(self, e):
        vs = [self.ev(x) for x in e.elts if not isinstance(x, ast.Starred)]
        if not vs or len(vs) != len(e.elts):
            return U
        return ('l', tuple(vs))

    def e_ListComp(self, e):
        old = dict(self.env)
        for g in e.generators:
            it = self.ev(g.iter)
            self.assign(g.target, self.item(g.iter, it), e)
            for c in g.ifs:
                self.ev(c)
        v = self.ev(e.elt)
        self.env = old
        return ('l', (v,)) if v[0] in ('n', 'f', 'i') else U

    e_GeneratorExp = e_ListComp

    def e_Lambda(self, e):
        return U

    def e_Starred(self, e):
        self.ev(e.value)
        return U

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.env[e.target.id] = v
        return v

    def flat(self, v):
        """type of an array made of a (nested) list"""
        if v[0] in ('l', 't'):
            return arr(comb(*[self.flat(x) for x in v[1]])) if v[1] else F
        return arr(v)

    def dtype(self, e):
        """dtype argument -> type or None"""
        t = ast.unparse(e)
        if t in ('float', 'np.float64', 'np.float_', "'float'", "'d'", "'f'", 'complex', 'np.complex128', "'float64'", 'np.complex_', "'complex'", 'numpy.float64', 'np.double', "'f8'"):
            return F
        if t in ('int', 'np.int_', 'np.int64', 'np.int32', "'int'", "'i'", 'bool', 'np.bool_', 'np.int8', "'int64'", 'np.intp', 'np.uint8', "'bool'"):
            return IA
        if isinstance(e, ast.Attribute) and e.attr == 'dtype':
            return arr(self.ev(e.value))
        if isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) in ('result_type', 'promote_types', 'common_type'):
            vs = []
            for a in e.args:
                v = self.ev(a.value) if isinstance(a, ast.Starred) else self.dtype(a)
                if v is None or v == U and not isinstance(a, ast.Starred):
                    v = self.ev(a)
                vs.append(self.flat(v) if v[0] in ('l', 't') else v)
            return arr(comb(*vs))
        if isinstance(e, ast.Constant) and e.value is None:
            return None
        if isinstance(e, ast.Name) and e.id in self.kinds:
            return self.kinds[e.id]
        if isinstance(e, ast.IfExp):
            a, b = self.dtype(e.body), self.dtype(e.orelse)
            return U if a is None or b is None else join(a, b)
        return U

    def e_Call(self, e):
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
        sites = self.an.eff.sites.get(id(e), ())
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: (self.ev(k.value), k.value) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args)
        proj = [n for k, n in sites if k == 'fn' and n in self.an.proj.funcs]
        if proj and len(proj) == len([s for s in sites]) and not star:
            r = None
            for n in proj:
                v = self.an.call(self.an.proj.funcs[n], e, args, kw, self)
                r = v if r is None else join(r, v, False)
            return r if r is not None else U
        if any(k in ('fn', 'cls') for k, n in sites):
            for k, n in sites:
                if k == 'cls':
                    self.an.new(n, e, args, kw, self, star)
            return U
        recv = None
        if isinstance(fn, ast.Attribute):
            x = self.an.proj.resolve_expr(self.f.module, fn) if isinstance(fn.value, (ast.Name, ast.Attribute)) and \
                _rootname(fn.value) not in self.env else None
            ext = [n for k, n in sites if k == 'ext']
            if not (x and x[0] == 'ext') and not ext:
                recv = self.ev(fn.value)
        if recv is not None:
            if nm == 'astype' and e.args:
                d = self.dtype(e.args[0])
                return d if d is not None else F
            if recv[0] not in ('n', 'f', 'i', 'ia'):
                return I if nm in INTF and nm not in ('shape',) else U
            args = [recv] + args
            if nm in ('fill',):
                if isarr(recv) and args[1][0] == 'f':
                    self.report.append((e, 'fills %s, an array of whole numbers, with real numbers' % ast.unparse(fn.value)))
                return U
            if nm in ('sum', 'prod', 'max', 'min', 'cumsum', 'copy', 'ravel', 'flatten', 'reshape', 'squeeze', 'transpose', 'clip', 'round',
                      'repeat', 'take', 'cumprod', 'dot', 'diagonal', 'swapaxes', 'conj', 'item', 'tolist', 'view'):
                if 'dtype' in kw:
                    return self.dtype(kw['dtype'][1]) or recv
                if nm in ('dot', 'clip'):
                    return comb(*args)
                if nm in ('sum', 'prod', 'max', 'min', 'item'):
                    return N(recv[1]) if recv[0] == 'n' else elem(recv) if not e.args and not e.keywords else recv
                return arr(recv)
            if nm in ('mean', 'std', 'var'):
                return F
            if nm in INTF:
                return IA
            return U
        if isinstance(fn, ast.Name) and self.env.get(fn.id, U)[0] == 'n' and not self.env[fn.id][2]:
            return N([x + '()' for x in self.env[fn.id][1]], True)       # a function of the caller may well return whole numbers
        if nm in STORES and len(e.args) > STORES[nm]:
            t = ast.copy_location(ast.Subscript(value=e.args[0], slice=ast.Constant(value=Ellipsis), ctx=ast.Store()), e)
            self.store(args[0], self.flat(args[STORES[nm]]) if args[STORES[nm]][0] in ('l', 't') else args[STORES[nm]], t,
                       ast.Expr(value=e.args[STORES[nm]]))
            return U
        if 'out' in kw and isarr(kw['out'][0]) and nm in (FLOATF | COMB):
            v = F if nm in FLOATF else comb(*args) if args and not star else U
            t = ast.copy_location(ast.Subscript(value=kw['out'][1], slice=ast.Constant(value=Ellipsis), ctx=ast.Store()), e)
            self.store(kw['out'][0], v, t, e)
            return kw['out'][0]
        if nm in LIKE:
            if 'dtype' in kw:
                return self.dtype(kw['dtype'][1]) or U
            if len(e.args) > 1 and nm != 'full_like':
                return self.dtype(e.args[1]) or U
            return self.flat(args[0]) if args else U
        if nm in SHAPED:
            if 'dtype' in kw:
                return self.dtype(kw['dtype'][1]) or F
            if len(e.args) > 1 and nm not in ('eye',):
                return self.dtype(e.args[1]) or F
            return F
        if nm == 'full':
            if 'dtype' in kw:
                return self.dtype(kw['dtype'][1]) or U
            if len(e.args) > 2:
                return self.dtype(e.args[2]) or U
            if len(args) > 1 or 'fill_value' in kw:
                return arr(args[1] if len(args) > 1 else kw['fill_value'][0])
            return U
        if nm == 'arange':
            if 'dtype' in kw:
                return self.dtype(kw['dtype'][1]) or U
            if args and not star:
                return arr(comb(*args))
            return U
        if 'dtype' in kw:
            d = self.dtype(kw['dtype'][1])
            if d is not None:
                return d
        if nm in ('array', 'asarray', 'asanyarray', 'ascontiguousarray') and len(e.args) > 1:
            d = self.dtype(e.args[1])
            if d is not None:
                return d
        if nm == 'asfarray':
            return F
        if nm in ('broadcast_arrays', 'meshgrid', 'atleast_1d', 'atleast_2d') and (len(args) > 1 or nm in ('broadcast_arrays', 'meshgrid')):
            if star:
                v = self.ev(e.args[0].value) if len(e.args) == 1 else U
                if v[0] == 't':
                    return T([self.flat(a) for a in v[1]])
                return ('l', (arr(v if v[0] == 'n' else v[1][0]),)) if v[0] == 'n' or v[0] == 'l' and len(set(v[1])) == 1 else U
            return T([self.flat(a) for a in args])
        if nm == 'where':
            if len(args) == 3:
                return arr(comb(args[1], args[2]))
            return IA
        if nm in ('histogram', 'histogram2d'):
            return U
        if nm == 'max' or nm == 'min' or nm == 'abs' or nm == 'sum' or nm == 'pow':
            if isinstance(fn, ast.Name) and nm != 'sum' and not star and args:
                return comb(*[self.flat(a) if a[0] in ('l', 't') else a for a in args]) if all(a[0] != 'u' for a in args) else (F if len(args) > 1 and all(a[0] == 'f' for a in args) else U)
        if nm in ('list', 'tuple', 'sorted') and len(args) == 1:
            return args[0] if args[0][0] in ('l', 't') else U
        if nm in SAME and args:
            return self.flat(args[0]) if args[0][0] in ('l', 't') else arr(args[0]) if nm not in ('sum', 'prod', 'max', 'min', 'amax', 'amin', 'abs', 'sign', 'square', 'round', 'real') else args[0]
        if nm in COMB and not star:
            vs = [self.flat(a) if a[0] in ('l', 't') else a for a in args if True]
            if nm in ('hstack', 'vstack', 'concatenate', 'column_stack', 'stack', 'dstack', 'block'):
                return self.flat(args[0]) if args and args[0][0] in ('l', 't') else U
            return comb(*vs) if vs else U
        if nm == 'reciprocal' and args and args[0][0] == 'n':
            self.report.append((e, 'takes the integer reciprocal of %s, with the element type of %s' % (
                ast.unparse(e.args[0]), ', '.join(sorted(args[0][1])))))
        if nm in FLOATF:
            return F
        if nm in INTF:
            return IA if nm not in ('len', 'size', 'int', 'range', 'ndim', 'bool', 'any', 'all', 'isscalar', 'shape') else (I if nm != 'shape' else U)
        ext = [n for k, n in sites if k == 'ext']
        if ext and all(n.startswith(('scipy.special.', 'numpy.random.', 'numpy.fft.', 'scipy.fft')) for n in ext):
            return F
        return U


def _rootname(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


class Analysis(object):
    def __init__(self, proj, eff):
        self.proj, self.eff = proj, eff
        self.memo, self.active = {}, set()
        self.attrs = {}
        self.found = {}
        self.stats = {'functions': 0, 'contexts': 0, 'stores': 0}

    def global_type(self, f, e):
        x = self.proj.resolve_expr(f.module, e)
        if x and x[0] == 'gvar':
            vals = x[1].gvars.get(x[2], [])
            if vals and all(isinstance(v, ast.Constant) and isinstance(v.value, float) for v in vals):
                return F
            if vals and all(isinstance(v, ast.Constant) and isinstance(v.value, int) for v in vals):
                return I
        if x and x[0] == 'ext' and x[1].split('.')[-1] in ('pi', 'inf', 'nan', 'e', 'NaN', 'Inf', 'infty', 'euler_gamma'):
            return F
        return U

    def attr_type(self, cls, attr):
        """join of what the methods store in self.attr; a value handed over by the caller keeps its own type"""
        key = (cls.qual, attr)
        if key in self.attrs:
            return self.attrs[key]
        self.attrs[key] = U
        r = None
        for c in cls.classes():
            fs = list(c.methods.values()) + [x for p in c.props.values() for x in p.values() if x is not None and not isinstance(x, str)]
            for f in fs:
                if not f.params:
                    continue
                for n in walk_local(f.body):
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in ts:
                            for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                                if isinstance(y, ast.Attribute) and y.attr == attr and isinstance(y.value, ast.Name) and y.value.id == f.params[0]:
                                    if y is t and isinstance(n, ast.Assign):
                                        v = self.stored(f, n, attr)
                                    else:
                                        v = U
                                    r = v if r is None else join(r, v, False)
            if attr in c.attrs:
                r = U if r is None else r
        r = U if r is None else r
        self.attrs[key] = r
        return r

    def stored(self, f, n, attr):
        w = Fn(self, f, {p: N(['self.' + attr]) for p in f.all_params()[1:]})
        # only straight-line: evaluate the right side where it is a parameter or a conversion of one
        v = w.ev(n.value)
        defs = [x for x in walk_local(f.body) if isinstance(x, ast.Assign)]
        names = {y.id for x in defs for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
        if any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(n.value)):
            return F if v[0] == 'f' and False else U
        if v[0] == 'n':
            return N(['self.' + attr], v[2])
        return v

    def bind(self, g, e, args, kw, how):
        pos = list(g.params[:g.npos])
        if how or g.cls is not None and g.parent is None and g.kind in ('method', 'class', 'getter', 'setter'):
            pos = pos[1:]
        out = {}
        for i, a in enumerate(args):
            if i < len(pos):
                out[pos[i]] = a
        for k, (v, _) in kw.items():
            if k in g.params:
                out[k] = v
        for p, d in g.defaults.items():
            if p not in out and None not in kw:
                out[p] = F if isinstance(d, ast.Constant) and isinstance(d.value, float) else I if isinstance(d, ast.Constant) and isinstance(d.value, int) \
                    else U
        return out

    def call(self, g, e, args, kw, caller):
        if isinstance(g.node, ast.Lambda) or g.is_gen or _wrapped(g):
            return U
        env = self.bind(g, e, args, kw, None)
        return self.summary(g, env)

    def new(self, cname, e, args, kw, caller, star):
        pass

    def summary(self, g, env):
        key = (g.qual, tuple(sorted(env.items(), key=lambda kv: kv[0])))
        if key in self.memo:
            return self.memo[key]
        if key in self.active or len(self.active) > 12:
            return U
        self.active.add(key)
        self.stats['contexts'] += 1
        w = Fn(self, g, env, self.closure(g)).run()
        self.active.discard(key)
        for node, msg in w.report:
            self.found.setdefault((g.qual, node.lineno, msg), (g, node))
        r = None
        for v in w.rets:
            r = v if r is None else join(r, v, False)
        self.memo[key] = r if r is not None else U
        return self.memo[key]

    def closure(self, g):
        return {}


def _wrapped(g):
    return any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')) for d in g.decorators)


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    an = Analysis(proj, eff)
    r = Result(rule='no real value is stored in, or combined in place with, an array whose element type was taken from the '
                    "caller's numbers or is integer by construction",
               explanation='abstract interpretation of element types (float, that of an argument, integer, unknown) of every public '
                           'function and method, following calls with the types of their arguments')
    for q, f in sorted(proj.funcs.items()):
        if isinstance(f.node, ast.Lambda) or f.parent is not None or not is_public(f):
            continue
        an.stats['functions'] += 1
        ps = f.all_params()
        if f.cls is not None and f.kind in ('method', 'class', 'getter', 'setter'):
            ps = ps[1:]
        an.summary(f, {p: N([p]) for p in ps if p not in (f.vararg, f.kwarg)})
    for (q, line, msg), (g, node) in sorted(an.found.items()):
        r.add('%s: %s' % (q, msg), '%s (%s:%d) %s' % (q, g.path, line, msg), '%s:%d' % (g.path, line))
    for g in proj.funcs.values():
        for n in walk_local(g.body):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) or isinstance(n, ast.AugAssign):
                an.stats['stores'] += 1
    r.coverage = an.stats
    return r
