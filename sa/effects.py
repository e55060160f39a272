"""Interprocedural may-alias and side-effect analysis.

Abstract values are sets of locations:
  ('p', n)        the object a parameter n was bound to
  ('f', L, attr)  what attribute attr of L holds on entry ('[]': element or view)
  ('g', q)        an object that outlives the call (module variable, class
                  attribute, default argument value)
  ('a', site, t)  an object allocated in the function
plus resolved callables/modules/constants.  A function's summary lists which
entry locations it may write, what it may return, and what it stores where;
it is instantiated at each resolved call site, so extracting a helper or
inlining one does not change what is concluded about the callers.
"""
import ast
from .interp import Interp
from .project import Func, Class, BUILTINS

EMPTY = frozenset()
ELEM = '[]'

VIEW_FUNCS = {'numpy.' + n for n in (
    'asarray asanyarray ascontiguousarray asfortranarray asfarray atleast_1d atleast_2d '
    'atleast_3d ravel reshape squeeze transpose swapaxes moveaxis rollaxis broadcast_to '
    'broadcast_arrays expand_dims real imag flip fliplr flipud rot90 split array_split hsplit '
    'vsplit dsplit require diagonal trim_zeros real_if_close asmatrix asarray_chkfinite '
    'asanyarray nan_to_num_inplace frombuffer').split()} | {
    'numpy.ma.asarray', 'numpy.ma.getdata', 'numpy.asmatrix', 'scipy.asarray',
    'numpy.lib.stride_tricks.as_strided', 'builtins.memoryview'}
# these may hand back the very same array object; the other view functions make a
# new object over the same data (so assigning its .shape is not seen by the owner)
SAME_OBJECT = {'numpy.' + n for n in (
    'asarray asanyarray ascontiguousarray asfortranarray asfarray atleast_1d atleast_2d atleast_3d '
    'real require trim_zeros real_if_close asmatrix asarray_chkfinite').split()} | {
    'numpy.ma.asarray', 'scipy.asarray'}
# options by which the caller explicitly gives up the copy
OPT_OUT = {'copydata'}
VIEW_METHODS = {'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'view', 'diagonal',
                '__array__', 'getfield', 'toarray_view'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'base', 'data_view'}
SCALAR_ATTRS = {'size', 'shape', 'ndim', 'dtype', 'itemsize', 'nbytes', 'strides', '__name__',
                '__doc__', '__class__', 'flags'}
CONTENT_MUTATORS = {
    'sort', 'fill', 'put', 'resize', 'append', 'extend', 'insert', 'pop', 'remove', 'clear',
    'update', 'setdefault', 'popitem', 'reverse', 'itemset', 'partition', 'setflags', 'setfield',
    'discard', 'add', '__setitem__', '__delitem__', '__iadd__', '__imul__', 'appendleft',
    'popleft', 'difference_update', 'intersection_update', 'byteswap_'}
NP_MUTATORS = {  # function -> indices of mutated positional arguments
    'numpy.put': (0,), 'numpy.place': (0,), 'numpy.putmask': (0,), 'numpy.copyto': (0,),
    'numpy.fill_diagonal': (0,), 'numpy.put_along_axis': (0,), 'numpy.random.shuffle': (0,),
    'random.shuffle': (0,), 'heapq.heappush': (0,), 'heapq.heapify': (0,), 'heapq.heappop': (0,),
    'numpy.ndarray.sort': (0,), 'numpy.ndarray.fill': (0,), 'numpy.add.at': (0,), 'numpy.ndarray.resize': (0,),
    'numpy.subtract.at': (0,), 'numpy.multiply.at': (0,), 'numpy.maximum.at': (0,), 'numpy.minimum.at': (0,),
    'bisect.insort': (0,), 'builtins.setattr': (0,), 'builtins.delattr': (0,)}
OP_MUTATORS = {'iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'iand', 'ior', 'ixor', 'ilshift', 'irshift',
               'iconcat', 'imatmul', 'setitem', 'delitem'}
OUT_POS = {'clip': 2, 'sum': 2, 'cumsum': 2, 'cumprod': 2, 'prod': 2, 'mean': 2, 'round': 1, 'around': 1, 'dot': 1, 'take': 2,
           'max': 1, 'min': 1, 'compress': 2, 'choose': 1, 'std': 2, 'var': 2}     # methods; one further on as functions
UFUNC1 = set('sin cos tan exp log log10 log1p expm1 sqrt abs absolute negative square floor ceil '
             'tanh sinh cosh arctan arcsin arccos conj conjugate sign rint isnan isfinite fabs exp2 log2 '
             'logical_not reciprocal deg2rad rad2deg'.split())
UFUNC2 = set('add subtract multiply divide true_divide floor_divide power maximum minimum fmax fmin '
             'mod remainder arctan2 hypot logaddexp logical_and logical_or greater less equal'.split())
INDEX_FUNCS = {'numpy.' + n for n in (
    'nonzero flatnonzero argsort argwhere where arange r_ isnan isfinite isinf logical_and '
    'logical_or logical_not logical_xor searchsorted unravel_index lexsort digitize triu_indices '
    'tril_indices isreal in1d isin diff sign random.permutation').split()}
CONTAINER_FUNCS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'zip',
                   'enumerate', 'map', 'filter', 'dict'}
NUMPY_METHODS = set(
    'all any argmax argmin argsort astype byteswap choose clip compress conj conjugate copy '
    'cumprod cumsum diagonal dot dump dumps fill flatten getfield item itemset max mean min '
    'newbyteorder nonzero partition prod ptp put ravel repeat reshape resize round searchsorted '
    'setfield setflags sort squeeze std sum swapaxes take tobytes tofile tolist tostring trace '
    'transpose var view get items keys values update pop append extend insert format join split '
    'strip lower upper startswith endswith replace index count encode decode read write readline '
    'readlines close setdefault isdigit T deriv integ '.split())


RNG = ('g', '#rng')
RNG_SEED = {'seed', 'set_state'}
RNG_MAKE = {'RandomState', 'default_rng', 'Generator', 'PCG64', 'MT19937', 'SeedSequence', 'Philox', 'SFC64', 'Random',
            'SystemRandom'}
RNG_DRAWS = set("""rand randn random random_sample ranf sample randint random_integers choice bytes permutation shuffle
    normal standard_normal uniform exponential gamma beta binomial multinomial multivariate_normal poisson rayleigh
    weibull gumbel lognormal laplace logistic chisquare standard_exponential standard_gamma standard_t standard_cauchy
    triangular vonmises wald geometric hypergeometric pareto power zipf integers permuted gauss randrange
    negative_binomial noncentral_chisquare noncentral_f logseries dirichlet f normalvariate betavariate
    expovariate getrandbits""".split())
# other functions that draw from numpy's global generator unless told otherwise
RNG_OTHER = {'scipy.optimize.' + n for n in ('differential_evolution', 'basinhopping', 'dual_annealing', 'anneal')} \
    | {'scipy.cluster.vq.kmeans', 'scipy.cluster.vq.kmeans2', 'scipy.sparse.rand', 'scipy.sparse.random',
       'scipy.stats.bootstrap', 'scipy.stats.permutation_test', 'scipy.stats.monte_carlo_test'}


def rng_kind(d):
    """'draw', 'seed', 'make' or None for a dotted external callable"""
    pkg, _, short = d.rpartition('.')
    if pkg in ('numpy.random', 'random', 'numpy.random.mtrand', 'numpy.random.mtrand._rand', 'scipy.random', 'secrets'):
        if short in RNG_SEED:
            return 'seed'
        if short in RNG_MAKE:
            return 'make'
        if short in ('get_state', 'mtrand', 'getstate', '_rand'):
            return None
        return 'draw'
    if d in ('os.urandom', 'uuid.uuid4', 'uuid.uuid1') or d in RNG_OTHER:
        return 'draw'
    return None


def root(L):
    while L[0] == 'f':
        L = L[1]
    return L


def depth(L):
    d = 0
    while L[0] == 'f':
        L = L[1]
        d += 1
    return d


def fld(L, name):
    if L[0] == 'f' and L[2] == ELEM and name == ELEM:
        return L
    if depth(L) >= 4:
        return L
    return ('f', L, name)


def show(L):
    if L[0] == 'p':
        return L[1]
    if L[0] == 'f':
        return show(L[1]) + ('[...]' if L[2] == ELEM else '.' + L[2])
    if L[0] == 'g':
        return L[1]
    return str(L)


class Origin(object):
    __slots__ = ('func', 'line', 'text', 'chain')

    def __init__(self, func, line, text, chain=()):
        self.func, self.line, self.text, self.chain = func, line, text, chain

    def via(self, func, line):
        if len(self.chain) > 8:
            return self
        return Origin(self.func, self.line, self.text, ((func.qual, line),) + self.chain)

    def where(self):
        s = '%s:%d in %s: %s' % (self.func.path, self.line, self.func.qual.split(':')[1], self.text)
        if self.chain:
            s += '  [reached through ' + ' -> '.join('%s (line %d)' % c for c in self.chain) + ']'
        return s


class Summary(object):
    __slots__ = ('effects', 'ret', 'heap')

    def __init__(self):
        self.effects = {}    # (loc, kind) -> Origin
        self.ret = EMPTY
        self.heap = {}       # (loc, field) -> value

    def sig(self):
        return (frozenset(self.effects), self.ret, frozenset(self.heap.items()))


class Effects(object):
    """Whole-project driver."""

    def __init__(self, proj, passes=6):
        self.proj = proj
        self.sums = {}
        self.attr_types = {}
        self._mut_default = {}
        self.gmut = {}
        self._infer_attr_types()
        self.npass = 0
        self.unknown_calls = 0
        self.ncalls = set()
        self.sites = {}          # id(Call node) -> resolved callees
        self.site_args = {}
        self._flags = {}
        self.wanted = []
        self._known = set()
        self.failed = {}
        todo = [f.qual for f in proj.funcs.values() if f.parent is None]
        self._known |= set(todo)
        deps = {}
        for it in range(passes):
            self.npass += 1
            nxt = {}
            i = 0
            while i < len(todo):
                key = todo[i]
                i += 1
                if isinstance(key, tuple):
                    fi = FI(self, proj.funcs[key[0]], consts=key[1])
                else:
                    fi = FI(self, proj.funcs[key])
                try:
                    s = fi.run()
                except (RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
                    self.failed[str(key)] = '%s: %s' % (type(e).__name__, e)
                    s = Summary()
                if self.wanted:          # newly requested specialisations: do them now
                    todo.extend(self.wanted)
                    self.wanted = []
                for d in fi.called:
                    deps.setdefault(d, set()).add(key)
                old = self.sums.get(key)
                if old is None or old.sig() != s.sig():
                    for d in deps.get(key, ()):
                        nxt[d] = 1
                    if old is not None:
                        # keep monotone
                        for k, o in old.effects.items():
                            s.effects.setdefault(k, o)
                        s.ret |= old.ret
                    self.sums[key] = s
            todo = list(nxt)
            if not todo:
                break

    def want(self, key):
        if key not in self._known:
            self._known.add(key)
            self.wanted.append(key)

    def flag_params(self, f):
        """Parameters that f compares with constants or tests for truth: call
        sites passing a constant get a summary of their own."""
        r = self._flags.get(f.qual)
        if r is None:
            names = set()
            for n in ast.walk(f.node):
                t = None
                if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                    t = n.test
                if t is None:
                    continue
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            r = [p for p in f.params if p in names]
            if f.is_method and r and r[0] == f.params[0]:
                r = r[1:]
            # a parameter handed on to a callee may be a flag there
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        if isinstance(a, ast.Name) and a.id in f.params and a.id not in r and a.id in f.defaults:
                            r.append(a.id)
            self._flags[f.qual] = r
        return r

    def _infer_attr_types(self):
        """class attribute -> project classes assigned to it (self.x = Klass(...))"""
        for c in self.proj.classes.values():
            for f in list(c.methods.values()):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        e = self.proj.resolve_expr(c.module, n.value.func)
                        if e and e[0] == 'class':
                            for t in n.targets:
                                if (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)
                                        and t.value.id == 'self'):
                                    self.attr_types.setdefault((c.qual, t.attr), set()).add(e[1].qual)

        # self.x = method / {..: method} / function: callables kept in attributes
        self.attr_funcs, self.attr_tables = {}, {}
        for c in self.proj.classes.values():
            for f in list(c.methods.values()):
                if not f.params:
                    continue
                for n in ast.walk(f.node):
                    if not isinstance(n, ast.Assign):
                        continue
                    for t in n.targets:
                        if (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)
                                and t.value.id == f.params[0]):
                            v = n.value
                            one = self._fn_ref(c, f, v)
                            if one:
                                self.attr_funcs.setdefault((c.qual, t.attr), set()).add(one)
                            vals = []
                            if isinstance(v, ast.Dict):
                                vals = v.values
                            elif isinstance(v, (ast.List, ast.Tuple)):
                                vals = v.elts
                            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict':
                                vals = [k.value for k in v.keywords]
                            for x in vals:
                                one = self._fn_ref(c, f, x)
                                if one:
                                    self.attr_tables.setdefault((c.qual, t.attr), set()).add(one)

    def _fn_ref(self, c, f, v):
        """('m', name) for a bound method, ('f', qual) for a plain function"""
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == f.params[0]:
            return ('m', v.attr) if c.find(v.attr) else None
        if isinstance(v, ast.Name):
            e = self.proj.lookup(c.module, v.id)
            if e and e[0] == 'func' and v.id not in f.all_params():
                return ('f', e[1].qual)
        return None

    def stored_callables(self, cls, attr, table, recv):
        out = set()
        for k in cls.classes():
            for kind, name in (self.attr_tables if table else self.attr_funcs).get((k.qual, attr), ()):
                if kind == 'm':
                    m = cls.find(name)
                    if m is not None:
                        out.add(('fn', m.qual, frozenset([recv])))
                else:
                    out.add(('fn', name, None))
        return out

    def is_mutable_global(self, key, vals):
        return any(is_mutable_expr(v, self.proj) for v in vals if v is not None)


def is_mutable_expr(v, proj=None):
    if v is None:
        return False
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        f = v.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return n not in ('finfo', 'float', 'int', 'str', 'tuple', 'frozenset', 'namedtuple', 'sqrt',
                         'log', 'exp', 'finfo', 'replace', 'JITImport', 'compile', 'getLogger', 'property',
                         'join', 'format', 'bool', 'abs', 'max', 'min', 'len', 'partial', 'lower')
    if isinstance(v, ast.BinOp):
        if isinstance(v.op, ast.Mod) and isinstance(v.left, ast.Constant):
            return False
        return is_mutable_expr(v.left) or is_mutable_expr(v.right)
    if isinstance(v, ast.Subscript):
        # r_[...] / slices of arrays
        return isinstance(v.value, (ast.Name, ast.Attribute)) and (
            getattr(v.value, 'id', getattr(v.value, 'attr', '')) in ('r_', 'c_', 'mgrid', 'ogrid'))
    return False


class FI(Interp):
    """Analysis of one function."""

    def __init__(self, eff, func, outer=None, stack=(), consts=()):
        Interp.__init__(self)
        self.consts = dict(consts)
        self.eff, self.func, self.outer = eff, func, outer
        self.proj = eff.proj
        self.effects = outer.effects if outer else {}
        self.called = outer.called if outer else set()
        self.stack = stack + (func.qual,)
        self.globals_ = set()
        self.nonlocals_ = set()
        self.yields = EMPTY
        self.depth = (outer.depth + 1) if outer else 0
        self.local_imports = {}

    # ---- running -----------------------------------------------------------
    def run(self):
        f = self.func
        for p in f.params:
            v = {('p', p)}
            d = f.defaults.get(p)
            if d is not None and is_mutable_expr(d):
                v.add(('g', 'default argument %s of %s' % (p, f.qual)))
            if p in self.consts:
                v = {('k', self.consts[p])}
            if f.kind == 'class' and f.cls is not None and p == f.params[0]:
                v = {('cls', f.cls.qual)}
            self.env[p] = frozenset(v)
        for p in (f.vararg, f.kwarg):
            if p:
                self.env[p] = frozenset([('p', p)])
        self.block(f.body)
        s = Summary()
        s.effects = self.effects
        env = self.env if self.alive else None
        ret = EMPTY
        for v, e, _ in self.returns:
            ret |= (v or EMPTY)
            env = self.join_env(env, e)
        if is_cached(f) and any(l[0] in 'a' for l in ret):
            ret = frozenset(l for l in ret if l[0] != 'a') | {('g', 'cached result of ' + f.qual)}
        if f.is_gen:
            a = ('a', (f.qual, f.line, 0), 'list')
            env = env if env is not None else {}
            env[('h', a, ELEM)] = self.yields
            ret = frozenset([a])
        s.ret = frozenset(l for l in ret if l[0] in 'pfga' or l[0] in ('fn', 'cls', 'k', 'clsof', 'dict__', 'ia', 'i', 'sl', 'part', 'ext'))
        if env:
            keep = set()
            work = [l for l in s.ret if l[0] == 'a']
            hk = {}
            for k, v in env.items():
                if isinstance(k, tuple):
                    hk.setdefault(k[1], []).append((k[2], v))
            for L in hk:
                if root(L)[0] in 'pg':
                    work.append(L)
            while work:
                L = work.pop()
                if L in keep:
                    continue
                keep.add(L)
                for fl, v in hk.get(L, ()):
                    s.heap[(L, fl)] = v
                    work.extend(x for x in v if x[0] in 'af')
        return s

    # ---- env -----------------------------------------------------------------
    def join_val(self, a, b):
        r = a | b
        if len(r) > 60:
            r = frozenset(l for l in r if l[0] in 'pfg') | frozenset(list(l for l in r if l[0] not in 'pfg')[:30])
        return r

    def join_env(self, a, b):
        if a is None or b is None or a is b:
            return Interp.join_env(self, a, b)
        h = a.get('#hs', EMPTY) & b.get('#hs', EMPTY)
        out = Interp.join_env(self, a, b)
        out['#hs'] = h
        return out

    def missing(self, key):
        if isinstance(key, tuple):
            L = key[1]
            if root(L)[0] in 'pg':
                return frozenset([fld(L, key[2])])
            if L[0] == 'a' and key[2] == ELEM and L[2] == 'array':
                return frozenset([L])
        return None

    # ---- heap ------------------------------------------------------------------
    def loc_classes(self, L):
        """Project classes a location may be an instance of."""
        if L[0] == 'a' and L[2].startswith('obj:'):
            c = self.proj.classes.get(L[2][4:])
            return [c] if c else []
        if L[0] == 'p' and self.is_self(L):
            return [self.self_class()]
        if L[0] == 'f':
            out = []
            for c in self.loc_classes(L[1]):
                for k in c.classes():
                    for q in self.eff.attr_types.get((k.qual, L[2]), ()):
                        out.append(self.proj.classes[q])
            return out
        if L[0] == 'a' and L[2] == 'copy':
            out = []
            for k in ('*base', '*cls'):
                for b in self.env.get(('h', L, k), EMPTY):
                    if b != L:
                        out += [c for c in self.loc_classes(b) if c not in out]
            return out
        return []

    def self_class(self):
        f = self.func
        while f.parent is not None and f.cls is None:
            f = f.parent
        return f.cls

    def is_self(self, L):
        f = self.func
        while f.parent is not None:
            f = f.parent
        return (f.cls is not None and f.is_method and f.params and L[1] == f.params[0])

    def load(self, L, name):
        v = self.env.get(('h', L, name))
        if v is not None:
            return v
        if L[0] == 'a':
            base = self.env.get(('h', L, '*base'))
            if base is not None:
                out = set()
                for b in base:
                    if b != L:
                        out |= self.load(b, name)
                return frozenset(out)
            if name == ELEM and L[2] == 'array':
                return frozenset([L])
            for c in self.loc_classes(L):
                a = c.find_attr(name)
                if a and is_mutable_expr(a[1]):
                    return frozenset([('g', 'class attribute %s.%s' % (a[0].qual, name))])
            return EMPTY
        if L[0] in 'pfg':
            out = {fld(L, name)}
            for c in self.loc_classes(L):
                a = c.find_attr(name)
                if a and is_mutable_expr(a[1]):
                    out.add(('g', 'class attribute %s.%s' % (a[0].qual, name)))
                if (c.qual, name) in self.eff.attr_funcs or len(c.classes()) > 1:
                    out |= self.eff.stored_callables(c, name, False, L)
            if name == ELEM and L[0] == 'f' and L[2] != ELEM:
                for c in self.loc_classes(L[1]):
                    out |= self.eff.stored_callables(c, L[2], True, L[1])
            return frozenset(out)
        return EMPTY

    def loadv(self, v, name):
        out = set()
        hs = self.env.get('#hs')
        if hs:
            locs = frozenset(L for L in v if L[0] in 'pfga')
            for l2, n2, val in hs:
                if n2 == name and l2 == locs:
                    return val
        for L in v:
            if L[0] in 'pfga':
                out |= self.load(L, name)
        return frozenset(out)

    def put(self, v, name, val, strong=True):
        locs = [L for L in v if L[0] in 'pfga']
        single = strong and len(locs) == 1 and name != ELEM
        hs = self.env.get('#hs')
        if hs:
            ls = set(locs)
            self.env['#hs'] = frozenset(t for t in hs if t[1] != name or not (ls & t[0]))
        if strong and len(locs) > 1 and name != ELEM:
            # the same set of candidate objects read back: it is the value just stored
            self.env['#hs'] = self.env.get('#hs', EMPTY) | {(frozenset(locs), name, val)}
        for L in locs:
            if single:
                self.env[('h', L, name)] = val
            else:
                self.env[('h', L, name)] = self.load(L, name) | val

    def alloc(self, node, typ, **fields):
        a = ('a', (self.func.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)), typ)
        for k, v in fields.items():
            self.env[('h', a, ELEM if k == 'elem' else k)] = v
        return frozenset([a])

    def write(self, v, kind, node, text=None):
        for L in v:
            if L[0] in 'pfg' and root(L)[0] in 'pg' and not L[-1] == '*upd':
                key = (L, kind)
                if key not in self.effects:
                    if text is None:
                        try:
                            text = ast.unparse(node)
                        except Exception:
                            text = '?'
                        text = text.split('\n')[0][:100]
                    self.effects[key] = Origin(self.func, getattr(node, 'lineno', 0), text)

    # ---- names -------------------------------------------------------------------
    def to_loc(self, e):
        if e is None:
            return EMPTY
        k = e[0]
        if k == 'func':
            return frozenset([('fn', e[1].qual, None)])
        if k == 'class':
            return frozenset([('cls', e[1].qual)])
        if k == 'mod':
            return frozenset([('mod', e[1])])
        if k == 'ext' or k == 'missing':
            return frozenset([('ext', e[1])])
        if k == 'gvar':
            m, n = e[1], e[2]
            vals = m.gvars.get(n, [])
            if self.eff.is_mutable_global((m.name, n), vals):
                return frozenset([('g', '%s.%s' % (m.name, n))])
            out = set()
            for v in vals:
                if isinstance(v, ast.Constant) and isinstance(v.value, (str, int, bool)):
                    out.add(('k', v.value))
            return frozenset(out)
        if k == 'cattr':
            c, n = e[1], e[2]
            if is_mutable_expr(c.attrs.get(n)):
                return frozenset([('g', 'class attribute %s.%s' % (c.qual, n))])
        return EMPTY

    def name(self, n):
        fi = self
        while fi is not None:
            if n in fi.globals_:
                return frozenset([('g', '%s.%s' % (self.func.module.name, n))])
            if n in fi.env:
                return fi.env[n]
            if n in fi.local_imports:
                return self.to_loc(fi.local_imports[n])
            fi = fi.outer
        e = self.proj.lookup(self.func.module, n)
        if e is None and n in BUILTINS:
            if n in ('None', 'True', 'False'):
                return EMPTY
            return frozenset([('ext', 'builtins.' + n)])
        return self.to_loc(e)

    def s_Global(self, s):
        self.globals_ |= set(s.names)

    def s_Nonlocal(self, s):
        self.nonlocals_ |= set(s.names)

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.local_imports[a.asname] = ('mod', a.name)
            else:
                self.local_imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])

    def s_ImportFrom(self, s):
        base = self.proj._from_base(self.func.module, s)
        for a in s.names:
            self.local_imports[a.asname or a.name] = self.proj.resolve_dotted(base, a.name)

    def refine(self, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth)
        n = test.id if isinstance(test, ast.Name) else test.attr if isinstance(test, ast.Attribute) else None
        if n in OPT_OUT and not truth:
            return False
        if isinstance(test, ast.Constant):
            return bool(test.value) == truth
        if isinstance(test, ast.Name):
            c = self.const_of(test)
            if c is not None:
                return bool(c[0]) == truth
            return True
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
                return all(self.refine(v, truth) is not False for v in test.values)
            rs = []
            e0 = self.env
            for v in test.values:
                self.env = dict(e0)
                rs.append(self.refine(v, truth) is not False)
            self.env = e0
            return any(rs)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            a, b = self.const_of(test.left), self.const_of(test.comparators[0])
            op = test.ops[0]
            if a is not None and b is not None:
                r = None
                if isinstance(op, ast.Is):
                    r = a[0] is b[0] if (a[0] is None or b[0] is None) else a[0] == b[0]
                elif isinstance(op, ast.IsNot):
                    r = not (a[0] is b[0] if (a[0] is None or b[0] is None) else a[0] == b[0])
                elif isinstance(op, ast.Eq):
                    r = a[0] == b[0]
                elif isinstance(op, ast.NotEq):
                    r = a[0] != b[0]
                else:
                    try:
                        if isinstance(op, ast.Lt):
                            r = a[0] < b[0]
                        elif isinstance(op, ast.LtE):
                            r = a[0] <= b[0]
                        elif isinstance(op, ast.Gt):
                            r = a[0] > b[0]
                        elif isinstance(op, ast.GtE):
                            r = a[0] >= b[0]
                    except TypeError:
                        r = None
                if r is not None and r != truth:
                    return False
            elif b is not None and b[0] is None and isinstance(test.left, ast.Name):
                # x is None: narrow
                isnone = isinstance(op, (ast.Is, ast.Eq)) == truth
                v = self.env.get(test.left.id)
                if v is not None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    if isnone:
                        if v and not any(L[0] in ('p', 'f', 'g') or L == ('k', None) for L in v):
                            return False
                        self.env[test.left.id] = frozenset([('k', None)])
                    else:
                        self.env[test.left.id] = v - {('k', None)}
        return True

    def const_of(self, e):
        if isinstance(e, ast.Constant):
            return (e.value,)
        if isinstance(e, ast.Name):
            v = self.env.get(e.id)
            if v is not None and len(v) == 1:
                x = next(iter(v))
                if x[0] == 'k':
                    return (x[1],)
        return None

    # ---- stores --------------------------------------------------------------------
    def store(self, t, v, node):
        v = v or EMPTY
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.write(frozenset([('g', '%s.%s' % (self.func.module.name, t.id))]), 'rebind', node)
                return
            if t.id in self.nonlocals_ and self.outer is not None:
                fi = self.outer
                while fi is not None:
                    if t.id in fi.env:
                        fi.env[t.id] = fi.env[t.id] | v
                        break
                    fi = fi.outer
                return
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            elem = None
            vals = None
            tup = [L for L in v if L[0] == 'a' and ('h', L, '#0') in self.env]
            rest = frozenset(L for L in v if L not in tup)
            for i, x in enumerate(t.elts):
                star = isinstance(x, ast.Starred)
                xv = set()
                for L in tup:
                    got = None
                    if not star:
                        got = self.env.get(('h', L, '#%d' % i))
                    xv |= got if got is not None else self.load(L, ELEM)
                if rest:
                    xv |= self.iter_elem(rest, None)
                if star:
                    self.store(x.value, self.alloc(node, 'list', elem=frozenset(xv)), node)
                else:
                    self.store(x, frozenset(xv), node)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Attribute) and t.value.attr == 'flags':
                self.write(self.ev(t.value.value), 'write', node)
                return
            b = self.ev(t.value)
            self.set_attr(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            own = frozenset(L[1] for L in b if L[0] == 'dict__')
            if own:                          # vars(x)['a'] = ... sets an attribute
                names = [L[1] for L in k if L[0] == 'k' and isinstance(L[1], str)]
                for nm in names or ['*']:
                    self.write(frozenset(L for L in own if L[0] in 'pfg'), 'set:' + nm, node)
                    if nm != '*':
                        self.put(own, nm, v, strong=False)
            self.write(b, 'write', node)
            self.put(b, ELEM, v, strong=False)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, node)

    def set_attr(self, b, attr, v, node):
        if attr == '__class__':
            for L in b:
                if L[0] == 'a':
                    self.env[('h', L, '*cls')] = frozenset(x[1] for x in v if x[0] == 'clsof')
            return
        if attr == '__dict__':
            for L in b:
                if L[0] in 'pfg':
                    self.write(frozenset([L]), 'set:*', node)
                elif L[0] == 'a':
                    bases = frozenset(x[1] for x in v if x[0] == 'dict__')
                    self.env[('h', L, '*base')] = bases
            return
        for L in b:
            if L[0] in ('cls', 'clsof'):
                for q in [L[1]] if L[0] == 'cls' else [c.qual for c in self.loc_classes(L[1])]:
                    self.write(frozenset([('g', 'class attribute %s.%s' % (q, attr))]), 'rebind', node)
                continue
            if L[0] in ('mod', 'ext'):
                self.write(frozenset([('g', '%s.%s' % (L[1], attr))]), 'rebind', node)
                continue
            if L[0] == 'fn':
                self.write(frozenset([('g', 'function attribute %s.%s' % (L[1], attr))]), 'rebind', node)
                continue
            setters = []
            for c in self.loc_classes(L):
                p = c.find_prop(attr)
                if p and 'set' in p:
                    setters.append(p['set'])
            if setters:
                for s in setters:
                    self.call_func(s, frozenset([L]), [v], {}, node)
                continue
            if attr in ('shape', 'dtype', 'strides'):
                if not (L[0] == 'f' and L[2] == ELEM):
                    self.write(frozenset([L]), 'reshape', node)
                continue
            elif attr in ('flat', 'real', 'imag') and not self.loc_classes(L):
                self.write(frozenset([L]), 'write', node)
                continue
            else:
                self.write(frozenset([L]), 'set:' + attr, node)
        if attr not in ('shape', 'dtype', 'strides', 'flat', 'real', 'imag'):
            self.put(b, attr, v)

    def delete(self, t, s):
        if isinstance(t, ast.Name):
            self.env.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            self.write(self.ev(t.value), 'write', s)
        elif isinstance(t, ast.Attribute):
            self.write(self.ev(t.value), 'set:' + t.attr, s)

    def scalar_param(self, L):
        if L[0] != 'p':
            return False
        f = self.func
        while f is not None:
            if L[1] in f.params:
                d = f.defaults.get(L[1])
                return (isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, bool))
                        and d.value is not None)
            f = f.parent
        return False

    def counter(self, name, s):
        """a number counted up or down by whole steps until a plain comparison ends the loop: numbers are immutable"""
        if not (isinstance(s.value, ast.Constant) and type(s.value.value) is int):
            return False
        memo = self.func.module.__dict__.setdefault('_counters', {})
        c = memo.get(self.func.qual)
        if c is None:
            c = set()
            for n in ast.walk(self.func.node):
                if isinstance(n, ast.While):
                    for m in (n.test.values if isinstance(n.test, ast.BoolOp) else [n.test]):
                        if isinstance(m, ast.Compare) and len(m.ops) == 1 and isinstance(m.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
                            c |= {x.id for x in (m.left, m.comparators[0]) if isinstance(x, ast.Name)}
            memo[self.func.qual] = c
        return name in c

    def s_AugAssign(self, s):
        val = self.ev(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.write(frozenset([('g', '%s.%s' % (self.func.module.name, t.id))]), 'rebind', s)
                return
            cur = self.name(t.id)
            if not self.counter(t.id, s):
                self.write(frozenset(L for L in cur if not self.scalar_param(L)), 'write', s)
            if isinstance(s.op, ast.Add):
                for L in cur:
                    if L[0] == 'a' and L[2] in ('list',):
                        self.put(frozenset([L]), ELEM, self.iter_elem(val, None), strong=False)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            old = self.ev_attr_on(b, t.attr, t)
            self.write(old, 'write', s)
            for L in b:
                if L[0] in ('mod', 'ext', 'cls'):
                    self.set_attr(frozenset([L]), t.attr, EMPTY, s)
                else:
                    setters = [c.find_prop(t.attr)['set'] for c in self.loc_classes(L)
                               if c.find_prop(t.attr) and 'set' in c.find_prop(t.attr)]
                    if setters:
                        for st in setters:
                            self.call_func(st, frozenset([L]), [EMPTY], {}, s)
                    else:
                        self.write(frozenset([L]), 'set:' + t.attr, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.write(b, 'write', s)
            # d[k] += v : the element itself may be an array
            for L in b:
                if L[0] == 'a' and L[2] in ('list', 'dict', 'tuple'):
                    self.write(self.load(L, ELEM), 'write', s)

    def s_ClassDef(self, s):
        bases = set()
        for b in s.bases:
            bases |= self.ev(b)
        self.env[s.name] = frozenset([('lcls', frozenset(bases))])

    def s_FunctionDef(self, s):
        f = self.proj.by_node.get(id(s))
        if f is not None:
            for d in s.args.defaults + s.decorator_list:
                self.ev(d)
            self.env[s.name] = frozenset([('fn', f.qual, None)])

    # ---- iteration -------------------------------------------------------------------
    def iter_elem(self, v, node):
        out = set()
        for L in v or ():
            if L[0] in 'pfga':
                out |= self.load(L, ELEM)
            elif L[0] == 'rng':
                out.add(('i',))
        return frozenset(out)

    def bind_exc(self, h):
        self.env[h.name] = EMPTY

    # ---- expressions ------------------------------------------------------------------
    def ev(self, node):
        if node is None:
            return EMPTY
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is not None:
            return m(node)
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return EMPTY

    def e_Name(self, n):
        return self.name(n.id)

    def e_Constant(self, n):
        if isinstance(n.value, (str, int, bool)) or n.value is None:
            return frozenset([('k', n.value)])
        return EMPTY

    def e_Attribute(self, n):
        b = self.ev(n.value)
        return self.ev_attr_on(b, n.attr, n)

    def ev_attr_on(self, b, attr, n):
        out = set()
        if self.env.get('#hs'):
            locs = frozenset(L for L in b if L[0] in 'pfga')
            for l2, n2, val in self.env['#hs']:
                if n2 == attr and l2 == locs:
                    return val
        for L in b:
            k = L[0]
            if k == 'mod':
                out |= self.to_loc(self.proj.member(('mod', L[1]), attr))
            elif k == 'ext':
                out.add(('ext', L[1] + '.' + attr))
            elif k == 'cls':
                out |= self.to_loc(self.proj.member(('class', self.proj.classes[L[1]]), attr))
                out |= self.env.get(('h', L, attr), EMPTY)
            elif k == 'super':
                f = self.super_method(L, attr)
                if f:
                    out.add(('fn', f.qual, L[2]))
            elif k in 'pfga':
                cs = self.loc_classes(L)
                done = False
                for c in cs:
                    p = c.find_prop(attr)
                    if p and 'get' in p:
                        out |= self.call_func(p['get'], frozenset([L]), [], {}, n)
                        done = True
                        continue
                    fs = self.proj.overrides(c, attr) if (L[0] == 'p') else [x for x in [c.find(attr)] if x]
                    if fs and ('h', L, attr) not in self.env:
                        for f in fs:
                            out.add(('fn', f.qual, None if f.kind == 'static' else frozenset([L])))
                        done = True
                if done:
                    continue
                if not cs and attr in VIEW_ATTRS:
                    out.add(L)
                elif attr == '__class__':
                    out.add(('clsof', L))
                elif not cs and attr in SCALAR_ATTRS:
                    pass
                elif attr == '__dict__':
                    out.add(('dict__', L))
                else:
                    out |= self.load(L, attr)
        return frozenset(out)

    def super_method(self, L, attr):
        c = self.proj.classes.get(L[1])
        if c is None:
            return None
        for k in c.classes()[1:]:
            if attr in k.methods:
                return k.methods[attr]
        return None

    def is_copy_index(self, idx):
        """True when indexing with idx certainly copies an ndarray (advanced
        indexing), or yields nothing writable."""
        if isinstance(idx, ast.Slice):
            return False
        if isinstance(idx, ast.Tuple):
            return any(self.is_copy_index(e) for e in idx.elts
                       if not isinstance(e, (ast.Slice, ast.Constant)))
        if isinstance(idx, ast.Constant):
            return False
        if isinstance(idx, (ast.Compare, ast.List, ast.ListComp)):
            return True
        if isinstance(idx, ast.BoolOp):
            return False
        if isinstance(idx, ast.UnaryOp):
            if isinstance(idx.op, ast.USub) and isinstance(idx.operand, ast.Constant):
                return False
            return self.is_copy_index(idx.operand)
        if isinstance(idx, ast.BinOp):
            if isinstance(idx.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return True
            return self.is_copy_index(idx.left) or self.is_copy_index(idx.right)
        if isinstance(idx, ast.Call):
            r = self.ev(idx.func)
            if any(L[0] == 'ext' and L[1] in INDEX_FUNCS for L in r):
                return True
            v = self.ev(idx)
            if ('sl',) in v or ('i',) in v:
                return False
            return True
        v = self.ev(idx)
        if ('sl',) in v:
            return False
        if ('i',) in v or any(L[0] == 'k' for L in v):
            return False
        if ('ia',) in v:
            return True
        # an index whose kind is unknown: advanced indexing or a scalar element
        return True

    def e_Subscript(self, n):
        b = self.ev(n.value)
        self.ev(n.slice)
        out = set()
        copy_ix = None
        const_ix = None
        sl = n.slice
        if isinstance(sl, ast.Constant) and isinstance(sl.value, int):
            const_ix = sl.value
        elif (isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.USub)
              and isinstance(sl.operand, ast.Constant) and isinstance(sl.operand.value, int)):
            const_ix = -sl.operand.value
        for L in b:
            if L[0] in ('ext', 'mod'):
                if L[0] == 'ext' and L[1] in ('numpy.r_', 'numpy.c_', 'numpy.mgrid', 'numpy.ogrid', 'numpy.s_'):
                    out.add(('ia',))
                continue
            if L[0] == 'ia':
                out.add(('ia',))
                continue
            if L[0] not in 'pfga':
                continue
            if L[0] == 'a' and L[2] in ('list', 'dict', 'tuple', 'copy') or L[0] == 'a' and L[2].startswith('obj:'):
                cs = self.loc_classes(L)
                got = None
                for c in cs:
                    f = c.find('__getitem__')
                    if f:
                        got = self.call_func(f, frozenset([L]), [EMPTY], {}, n)
                if got is not None:
                    out |= got
                    continue
                if isinstance(sl, ast.Slice):
                    a = self.alloc(n, 'list', elem=self.load(L, ELEM))
                    out |= a
                    continue
                got = None
                if const_ix is not None:
                    got = self.env.get(('h', L, '#%d' % const_ix))
                out |= got if got is not None else self.load(L, ELEM)
                continue
            if copy_ix is None:
                copy_ix = self.is_copy_index(sl)
            if L[0] == 'a':
                if not copy_ix:
                    out |= self.load(L, ELEM)
                continue
            if self.loc_classes(L):
                got = EMPTY
                for c in self.loc_classes(L):
                    f = c.find('__getitem__')
                    if f:
                        got |= self.call_func(f, frozenset([L]), [EMPTY], {}, n)
                out |= got
                continue
            if not copy_ix:
                out |= self.load(L, ELEM)
            elif isinstance(sl, (ast.Name, ast.Attribute)) and self.is_mapping(L):
                out |= self.load(L, ELEM)
        return frozenset(out)

    def is_mapping(self, L):
        f = self.func
        while f is not None:
            if L == ('p', f.kwarg) or L == ('p', f.vararg):
                return True
            f = f.parent
        return L[0] == 'g'

    def e_Slice(self, n):
        for x in (n.lower, n.upper, n.step):
            self.ev(x)
        return frozenset([('sl',)])

    def e_Tuple(self, n):
        vals = []
        allv = set()
        star = False
        for e in n.elts:
            if isinstance(e, ast.Starred):
                star = True
                v = self.iter_elem(self.ev(e.value), None)
            else:
                v = self.ev(e)
            vals.append(v)
            allv |= v
        a = self.alloc(n, 'tuple' if isinstance(n, ast.Tuple) else 'list', elem=frozenset(allv))
        L = next(iter(a))
        if not star:
            for i, v in enumerate(vals):
                self.env[('h', L, '#%d' % i)] = v
                self.env[('h', L, '#%d' % (i - len(vals)))] = v
        return a

    e_List = e_Tuple

    def e_Set(self, n):
        allv = set()
        for e in n.elts:
            allv |= self.ev(e)
        return self.alloc(n, 'list', elem=frozenset(allv))

    def e_Dict(self, n):
        allv = set()
        for k, e in zip(n.keys, n.values):
            if k is not None:
                self.ev(k)
                allv |= self.ev(e)
            else:
                allv |= self.iter_elem(self.ev(e), None)
        return self.alloc(n, 'dict', elem=frozenset(allv))

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, ast.Add):
            el = set()
            seq = False
            for L in a | b:
                if L[0] == 'a' and L[2] in ('list', 'tuple') or (L[0] == 'p' and self.is_mapping(L)):
                    seq = True
                    el |= self.load(L, ELEM)
            if seq:
                return self.alloc(n, 'list', elem=frozenset(el))
            ks = [L[1] for L in a if L[0] == 'k'], [L[1] for L in b if L[0] == 'k']
            if ks[0] and ks[1] and all(isinstance(x, str) for x in ks[0] + ks[1]):
                return frozenset(('k', x + y) for x in ks[0] for y in ks[1])
        if ('ia',) in a or ('ia',) in b:
            return frozenset([('ia',)])
        if (('i',) in a or self._ints(a)) and (('i',) in b or self._ints(b)):
            return frozenset([('i',)])
        if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return frozenset([('ia',)])
        if (('i',) in a or ('i',) in b) and (a <= {('i',)} or self._ints(a)) and (b <= {('i',)} or self._ints(b)):
            return frozenset([('i',)])
        return EMPTY

    @staticmethod
    def _ints(v):
        return any(L[0] == 'k' and isinstance(L[1], int) and not isinstance(L[1], bool) for L in v)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        return frozenset(L for L in v if L in (('ia',), ('i',)))

    def e_Compare(self, n):
        self.ev(n.left)
        for c in n.comparators:
            self.ev(c)
        return frozenset([('ia',)])

    def e_BoolOp(self, n):
        out = set()
        for v in n.values:
            out |= self.ev(v)
        return frozenset(out)

    def e_IfExp(self, n):
        self.ev(n.test)
        e0 = self.env
        out = EMPTY
        envs = None
        for part, truth in ((n.body, True), (n.orelse, False)):
            self.env = dict(e0)
            if self.refine(n.test, truth) is not False:
                out |= self.ev(part)
                # keep heap facts only
                heap = dict(e0)
                heap.update((k, v) for k, v in self.env.items() if isinstance(k, tuple))
                envs = self.join_env(envs, heap)
        self.env = envs if envs is not None else e0
        return out

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.store(n.target, v, n)
        return v

    def e_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return EMPTY

    def e_Lambda(self, n):
        f = self.proj.by_node.get(id(n))
        for d in n.args.defaults:
            self.ev(d)
        return frozenset([('fn', f.qual, None)]) if f else EMPTY

    def _comp(self, n, elts, typ):
        saved = dict(self.env)
        for g in n.generators:
            it = self.ev(g.iter)
            self.store(g.target, self.iter_elem(it, g.iter), n)
            for c in g.ifs:
                self.ev(c)
        out = set()
        for e in elts:
            out |= self.ev(e)
        heap = {k: v for k, v in self.env.items() if isinstance(k, tuple)}
        self.env = saved
        self.env.update(heap)
        return self.alloc(n, typ, elem=frozenset(out))

    def e_ListComp(self, n):
        return self._comp(n, [n.elt], 'list')

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n):
        return self._comp(n, [n.key, n.value], 'dict')

    def e_Yield(self, n):
        if n.value is not None:
            self.yields |= self.ev(n.value)
        return EMPTY

    def e_YieldFrom(self, n):
        self.yields |= self.iter_elem(self.ev(n.value), None)
        return EMPTY

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Await(self, n):
        return self.ev(n.value)

    # ---- calls -------------------------------------------------------------------
    def e_Call(self, n):
        fe = n.func
        # super()
        if isinstance(fe, ast.Name) and fe.id == 'super':
            c = self.self_class()
            if n.args and isinstance(n.args[0], ast.Name):
                e = self.proj.lookup(self.func.module, n.args[0].id)
                if e and e[0] == 'class':
                    c = e[1]
            f = self.func
            while f.parent is not None:
                f = f.parent
            s = self.name(f.params[0]) if f.params else EMPTY
            if c is not None:
                return frozenset([('super', c.qual, s)])
            return EMPTY
        base = None
        if isinstance(fe, ast.Attribute):
            base = self.ev(fe.value)
            callees = self.ev_attr_on(base, fe.attr, fe)
        else:
            callees = self.ev(fe)
        args = []
        stars = EMPTY
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                one = [L for L in v if L[0] in 'pfga']
                known = None
                if len(one) == 1 and one[0][0] == 'a':
                    known = []
                    i = 0
                    while ('h', one[0], '#%d' % i) in self.env:
                        known.append(self.env[('h', one[0], '#%d' % i)])
                        i += 1
                if known:
                    args.extend(known)
                else:
                    stars |= self.iter_elem(v, None)
                    args.append(('*', self.iter_elem(v, None)))
            else:
                args.append(self.ev(a))
        kws = {}
        dstar = EMPTY
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                dstar |= self.iter_elem(v, None)
            else:
                kws[k.arg] = v
        out = set()
        hit = False
        self.eff.sites.setdefault(id(n), set()).update(
            (L[0], L[1]) for L in callees if L[0] in ('fn', 'cls', 'ext'))
        for L in callees:
            k = L[0]
            if k == 'fn':
                hit = True
                f = self.proj.funcs[L[1]]
                b = L[2]
                a2 = args
                out |= self.call_func(f, b, a2, kws, n, dstar)
            elif k == 'cls':
                hit = True
                out |= self.construct(self.proj.classes[L[1]], args, kws, n, dstar)
            elif k == 'ext':
                hit = True
                out |= self.call_ext(L[1], args, kws, n, dstar, base)
            elif k == 'clsof':
                hit = True
                for c in self.loc_classes(L[1]):
                    out |= self.construct(c, args, kws, n, dstar)
            elif k == 'lcls':
                hit = True
                a = self.alloc(n, 'copy')
                A = next(iter(a))
                for kk in [kk for kk in self.env if isinstance(kk, tuple) and kk[1] == A]:
                    del self.env[kk]
                self.env[('h', A, '*cls')] = frozenset(x[1] for x in L[1] if x[0] == 'clsof')
                out |= a
            elif k == 'super':
                hit = True
            elif k == 'part':
                hit = True
                out |= self.call_partial(L, args, kws, n, dstar)
        if isinstance(fe, ast.Attribute):
            rec = frozenset(L for L in base if L[0] in 'pfga' or L[0] == 'dict__')
            rec = frozenset(L for L in rec if not (self.loc_classes(L) and any(
                c.find(fe.attr) for c in self.loc_classes(L))) )
            if rec or (not hit):
                out |= self.call_method(rec, fe.attr, args, kws, n, dstar, base)
        elif not hit:
            # call of an unknown callable value (e.g. a parameter): an instance with __call__?
            for L in callees:
                if L[0] == 'f' and L[2] in CONTENT_MUTATORS:     # a bound method of an array or list held in a variable
                    out |= self.call_method(frozenset([L[1]]), L[2], args, kws, n, dstar, None)
                    continue
                for c in self.loc_classes(L):
                    f = c.find('__call__')
                    if f:
                        self.eff.sites[id(n)].add(('fn', f.qual))
                        out |= self.call_func(f, frozenset([L]), args, kws, n, dstar)
            self.eff.unknown_calls += 1
        return frozenset(out)

    def bind(self, f, bound, args, kws, dstar, node):
        """Map parameters of f to argument values."""
        m = {}
        pos = list(f.params[:f.npos])
        vals = list(args)
        if bound is not None and f.kind != 'static':
            vals = [bound] + vals
        extra = set()
        i = 0
        star = EMPTY
        for v in vals:
            if isinstance(v, tuple) and len(v) == 2 and v[0] == '*':
                star |= v[1]
                continue
            if i < len(pos):
                m[pos[i]] = v
            else:
                extra |= v
            i += 1
        if star:
            for p in pos[i:]:
                if p not in kws:
                    m[p] = m.get(p, EMPTY) | star
            extra |= star
        kwextra = set()
        for k, v in kws.items():
            if k in f.params:
                m[k] = v
            else:
                kwextra |= v
        if dstar:
            for p in f.params:
                if p not in m:
                    m[p] = dstar
            kwextra |= dstar
        for p in f.params:
            if p not in m:
                d = f.defaults.get(p)
                if d is not None and is_mutable_expr(d):
                    m[p] = frozenset([('g', 'default argument %s of %s' % (p, f.qual))])
                elif isinstance(d, ast.Constant):
                    m[p] = self.e_Constant(d)
                else:
                    m[p] = EMPTY
        if f.vararg:
            m[f.vararg] = self.alloc(node, 'tuple', elem=frozenset(extra))
        if f.kwarg:
            a = ('a', (self.func.qual, node.lineno, node.col_offset, 'kw'), 'dict')
            self.env[('h', a, ELEM)] = frozenset(kwextra)
            m[f.kwarg] = frozenset([a])
        return m

    def call_func(self, f, bound, args, kws, node, dstar=EMPTY):
        self.eff.ncalls.add((self.func.qual, node.lineno, node.col_offset, f.qual))
        m = self.bind(f, bound, args, kws, dstar, node)
        if f.parent is not None:
            return self.inline(f, m, node)
        spec = []
        for p in self.eff.flag_params(f):
            v = m.get(p, EMPTY)
            if len(v) == 1:
                x = next(iter(v))
                if x[0] == 'k':
                    spec.append((p, x[1]))
        key = f.qual
        if spec:
            key = (f.qual, tuple(spec))
            self.eff.want(key)
        self.called.add(key)
        s = self.eff.sums.get(key)
        if s is None:
            return EMPTY
        memo = {}

        def sub(L):
            if L in memo:
                return memo[L]
            memo[L] = EMPTY
            k = L[0]
            if k == 'p':
                r = m.get(L[1], EMPTY)
            elif k == 'f':
                out = set()
                for b in sub(L[1]):
                    if b[0] in 'pfga':
                        out |= entry_load(b, L[2])
                r = frozenset(out)
            elif k == 'a':
                r = frozenset([('a', (self.func.qual, node.lineno, node.col_offset) + (L[1][:3],), L[2])])
            elif k == 'fn' and L[2]:
                out = set()
                for b in L[2]:
                    out |= sub(b)
                r = frozenset([('fn', L[1], frozenset(out))])
            elif k in ('clsof', 'dict__'):
                r = frozenset((k, x) for x in sub(L[1]))
            elif k == 'part':
                r = frozenset(('part', t, tuple(('*', subv(v[1])) if isinstance(v, tuple) else subv(v) for v in L[2]),
                               tuple((n_, subv(v)) for n_, v in L[3])) for t in sub(L[1]))
            else:
                r = frozenset([L])
            memo[L] = r
            return r

        heap0 = dict((k, v) for k, v in self.env.items() if isinstance(k, tuple))

        def entry_load(b, name):
            v = heap0.get(('h', b, name))
            if v is not None:
                return v
            return self.load(b, name)

        def subv(v):
            out = set()
            for L in v:
                out |= sub(L)
            return frozenset(out)
        # effects
        for (L, kind), o in s.effects.items():
            for x in sub(L):
                if x[0] in 'pfg' and root(x)[0] in 'pg':
                    key = (x, kind)
                    if kind == 'write' and self.scalar_param(x):
                        continue
                    if kind == 'reshape' and x[0] == 'f' and x[2] == ELEM:
                        continue
                    if key not in self.effects:
                        self.effects[key] = o.via(self.func, node.lineno)
        # stores
        new = {}
        for (L, name), v in s.heap.items():
            val = subv(v)
            for x in sub(L):
                if x[0] in 'pfga':
                    new.setdefault(('h', x, name), [set(), L[0] == 'a'])
                    new[('h', x, name)][0].update(val)
        for k, (v, fresh) in new.items():
            x = k[1]
            if fresh:
                self.env[k] = frozenset(v)
            elif x[0] == 'a' and not self.has_field(x, k[2]):
                self.env[k] = frozenset(v)
            else:
                self.env[k] = self.load(x, k[2]) | frozenset(v)
        return subv(s.ret)

    def has_field(self, L, name):
        return ('h', L, name) in self.env or ('h', L, '*base') in self.env

    def inline(self, f, m, node):
        if f.qual in self.stack or len(self.stack) > 6:
            return EMPTY
        # find the frame that defines f
        fi = self
        while fi is not None and fi.func is not f.parent:
            fi = fi.outer
        sub = FI(self.eff, f, outer=self, stack=self.stack)
        if fi is None:
            pass
        sub.env = dict(self.env)
        for p in list(sub.env):
            if isinstance(p, str) and p in f.all_params():
                del sub.env[p]
        sub.env.update(m)
        sub.block(f.body)
        ret = EMPTY
        env = sub.env if sub.alive else None
        for v, e, _ in sub.returns:
            ret |= (v or EMPTY)
            env = self.join_env(env, e)
        if env:
            for k, v in env.items():
                if isinstance(k, tuple):
                    self.env[k] = v
        if f.is_gen:
            return self.alloc(node, 'list', elem=sub.yields)
        return ret

    def construct(self, c, args, kws, node, dstar):
        a = self.alloc(node, 'obj:' + c.qual)
        L = next(iter(a))
        # forget fields from a previous visit of the same site
        for k in [k for k in self.env if isinstance(k, tuple) and k[1] == L]:
            del self.env[k]
        f = c.find('__init__')
        if f is not None:
            self.call_func(f, a, args, kws, node, dstar)
        elif any(b in ('builtins.dict', 'builtins.list') for b in c.external_bases()):
            el = set(dstar)
            for v in args:
                if isinstance(v, tuple):
                    v = v[1]
                el |= self.iter_elem(v, None)
            for v in kws.values():
                el |= v
            self.env[('h', L, ELEM)] = frozenset(el)
        return a

    def call_partial(self, L, args, kws, node, dstar=EMPTY):
        a2 = list(L[2]) + list(args)
        k2 = dict(L[3])
        k2.update(kws)
        t = L[1]
        self.eff.sites.setdefault(id(node), set()).add((t[0], t[1]))
        if t[0] == 'fn':
            return self.call_func(self.proj.funcs[t[1]], t[2], a2, k2, node, dstar)
        if t[0] == 'cls':
            return self.construct(self.proj.classes[t[1]], a2, k2, node, dstar)
        return self.call_ext(t[1], a2, k2, node, dstar, None)

    def run_callbacks(self, args, kws, node):
        extra = []
        av = kws.get('args')
        if av:
            extra = [self.iter_elem(av, None)] * 3
        for v in list(args) + list(kws.values()):
            if isinstance(v, tuple):
                v = v[1]
            for L in v:
                if L[0] == 'fn':
                    f = self.proj.funcs[L[1]]
                    n = f.npos - (1 if L[2] else 0)
                    self.call_func(f, L[2], ([EMPTY] + extra)[:max(n, 0)], {}, node)
                elif L[0] == 'part':
                    self.call_partial(L, [EMPTY], {}, node)

    def call_ext(self, d, args, kws, node, dstar, base):
        plain = [v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == '*' else v for v in args]
        self.run_callbacks(plain, kws, node)
        short = d.rpartition('.')[2]
        pkg = d.rpartition('.')[0]
        k = rng_kind(d)
        if k:
            self.write(frozenset([RNG]), k, node)
        if 'out' in kws:
            self.write(kws['out'], 'write', node)
            o = kws['out']
            self.write(self.iter_elem(frozenset(L for L in o if L[0] == 'a'), None), 'write', node)
        for k in ('overwrite_x', 'overwrite_a', 'overwrite_b', 'overwrite_data', 'overwrite_input',
                  'overwrite_ab'):
            if k in kws and ('k', True) in kws[k]:
                for v in plain[:2]:
                    self.write(v, 'write', node)
        if pkg == 'numpy' and short in UFUNC1 and len(plain) > 1:
            self.write(plain[1], 'write', node)
            return plain[1]
        if pkg == 'numpy' and short in UFUNC2 and len(plain) > 2:
            self.write(plain[2], 'write', node)
            return plain[2]
        i = OUT_POS.get(short)
        if pkg == 'numpy' and i is not None and len(plain) > i + 1:
            self.write(plain[i + 1], 'write', node)
        if pkg == 'operator' and short in OP_MUTATORS and plain:
            self.write(plain[0], 'write', node)
            return plain[0]
        if d in NP_MUTATORS:
            for i in NP_MUTATORS[d]:
                if i < len(plain):
                    self.write(plain[i], 'write' if short != 'setattr' else 'set:?', node)
            if short == 'setattr' and len(plain) > 2:
                names = [L[1] for L in plain[1] if L[0] == 'k']
                for nm in names or ['?']:
                    self.put(plain[0], nm, plain[2], strong=False)
            return EMPTY
        if d == 'numpy.nan_to_num' and ('k', False) in kws.get('copy', EMPTY):
            self.write(plain[0] if plain else EMPTY, 'write', node)
            return plain[0] if plain else EMPTY
        if d == 'numpy.array' or d == 'numpy.ma.array':
            if ('k', False) in kws.get('copy', EMPTY) and plain:
                return plain[0]
            return self.alloc(node, 'array')
        if d == 'numpy.histogram':
            bins = plain[1] if len(plain) > 1 else kws.get('bins', EMPTY)
            r = self.alloc(node, 'tuple', elem=bins)
            R = next(iter(r))
            self.env[('h', R, '#0')] = EMPTY
            self.env[('h', R, '#1')] = self.as_array(bins)
            return r
        if d == 'numpy.meshgrid':
            el = EMPTY
            if ('k', False) in kws.get('copy', EMPTY):
                for v in plain:
                    el |= v
            return self.alloc(node, 'list', elem=el)
        if 'out' in kws and kws['out'] - {('k', None)}:
            return kws['out']
        if d in VIEW_FUNCS:
            many = short in ('atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_arrays') and (
                len(plain) > 1 or any(isinstance(a, ast.Starred) for a in node.args) or short == 'broadcast_arrays')
            out = set()
            for i, v in enumerate(plain):
                if i and not many:
                    break
                out |= self.as_array(v) if d in SAME_OBJECT else self.view(self.as_array(v))
            if many:
                a = self.alloc(node, 'list', elem=frozenset(out))
                L = next(iter(a))
                if not any(isinstance(x, ast.Starred) for x in node.args):
                    for i, v in enumerate(plain):
                        self.env[('h', L, '#%d' % i)] = self.as_array(v)
                        self.env[('h', L, '#%d' % (i - len(plain)))] = self.as_array(v)
                return a
            if short in ('split', 'array_split', 'hsplit', 'vsplit'):
                return self.alloc(node, 'list', elem=frozenset(out))
            return frozenset(out)
        if d in INDEX_FUNCS:
            if short == 'where' and len(plain) > 1:
                return self.alloc(node, 'array')
            return frozenset([('ia',)]) | self.alloc(node, 'array')
        if pkg == 'builtins':
            if short == 'range':
                return frozenset([('rng',)])
            if short == 'int' and plain and len(plain[0]) == 1 and self._ints(plain[0]):
                return plain[0]
            if short in ('int', 'len', 'round', 'float', 'abs', 'sum', 'bool', 'str', 'isinstance', 'hasattr', 'callable'):
                return frozenset([('i',)]) if short in ('int', 'len') else EMPTY
            if short == 'slice':
                return frozenset([('sl',)])
            if short in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'filter'):
                v = plain[-1] if short == 'filter' and plain else (plain[0] if plain else EMPTY)
                el = self.iter_elem(v, None)
                r = self.alloc(node, 'tuple' if short == 'tuple' else 'list', elem=el)
                one = [L for L in v if L[0] == 'a']
                if len(one) == 1 and len(v) == 1 and short in ('list', 'tuple'):
                    R = next(iter(r))
                    i = 0
                    while ('h', one[0], '#%d' % i) in self.env:
                        self.env[('h', R, '#%d' % i)] = self.env[('h', one[0], '#%d' % i)]
                        i += 1
                return r
            if short == 'enumerate':
                el = self.iter_elem(plain[0], None) if plain else EMPTY
                t = self.alloc(node, 'tuple', elem=el | frozenset([('i',)]))
                T = next(iter(t))
                self.env[('h', T, '#0')] = frozenset([('i',)])
                self.env[('h', T, '#1')] = el
                return frozenset([('a', T[1] + ('enum',), 'list')]) if self._set(
                    ('h', ('a', T[1] + ('enum',), 'list'), ELEM), t) else t
            if short == 'zip':
                els = [self.iter_elem(v, None) for v in plain]
                allv = set()
                for e in els:
                    allv |= e
                t = self.alloc(node, 'tuple', elem=frozenset(allv))
                T = next(iter(t))
                if not any(isinstance(x, ast.Starred) for x in node.args):
                    for i, e in enumerate(els):
                        self.env[('h', T, '#%d' % i)] = e
                Z = ('a', T[1] + ('zip',), 'list')
                self.env[('h', Z, ELEM)] = t
                return frozenset([Z])
            if short == 'map':
                fns = plain[0] if plain else EMPTY
                out = set()
                for L in fns:
                    if L[0] == 'fn':
                        f = self.proj.funcs[L[1]]
                        out |= self.call_func(f, L[2], [self.iter_elem(v, None) for v in plain[1:]], {}, node)
                    elif L[0] == 'ext':
                        out |= self.call_ext(L[1], [self.iter_elem(v, None) for v in plain[1:]], {}, node, EMPTY, None)
                return self.alloc(node, 'list', elem=frozenset(out))
            if short == 'dict':
                el = set(dstar)
                for v in plain:
                    el |= self.iter_elem(v, None)
                for v in kws.values():
                    el |= v
                return self.alloc(node, 'dict', elem=frozenset(el))
            if short == 'getattr' and len(plain) > 1:
                return self.dyn_getattr(plain, node)
            if short == 'type' and len(plain) == 1:
                return frozenset(('clsof', L) for L in plain[0] if L[0] in 'pfga')
            if short == 'vars' and plain:
                return frozenset(('dict__', L) for L in plain[0] if L[0] in 'pfga')
            if short in ('max', 'min', 'next'):
                if short == 'next':
                    for v in plain[:1]:
                        self.write(frozenset(L for L in v if root(L)[0] == 'g'), 'write', node)
                    return self.iter_elem(plain[0], None) if plain else EMPTY
                if 'key' in kws:
                    return self.iter_elem(plain[0], None) if len(plain) == 1 else frozenset().union(*plain)
                return EMPTY
            return EMPTY
        if d in ('copy.copy', 'copy.copy.copy'):
            a = self.alloc(node, 'copy')
            L = next(iter(a))
            v = plain[0] if plain else EMPTY
            objs = frozenset(x for x in v if x[0] in 'pfga')
            # an ndarray's copy.copy is a full copy; only objects share their fields
            objs = frozenset(x for x in objs if self.loc_classes(x) or x[0] in 'pf')
            if not objs:
                return self.alloc(node, 'array')
            for k in [k for k in self.env if isinstance(k, tuple) and k[1] == L]:
                del self.env[k]
            self.env[('h', L, '*base')] = objs
            for x in objs:       # snapshot of current fields
                for k in [k for k in self.env if isinstance(k, tuple) and k[1] == x and not k[2].startswith('*')]:
                    self.env[('h', L, k[2])] = self.env[k]
            return a
        if d == 'copy.deepcopy':
            out = set()
            for x in (plain[0] if plain else EMPTY):
                for c in self.loc_classes(x):
                    out |= self.alloc(node, 'obj:' + c.qual)
            return frozenset(out) or self.alloc(node, 'array')
        if d.startswith('functools.partial'):
            return frozenset(('part', L, tuple(args[1:]), tuple(sorted(kws.items(), key=lambda kv: kv[0])))
                             for L in (plain[0] if plain else EMPTY) if L[0] in ('fn', 'ext', 'cls'))
        if pkg == 'itertools' or pkg == 'itertools.chain':
            el = set()
            for v in plain:
                el |= self.iter_elem(v, None)
            if short in ('product', 'zip_longest', 'combinations', 'permutations', 'tee', 'groupby', 'pairwise'):
                return self.alloc(node, 'list', elem=self.alloc(node, 'tuple', elem=frozenset(el)))
            if short == 'from_iterable':
                el = self.iter_elem(frozenset(el), None)
            return self.alloc(node, 'list', elem=frozenset(el))
        if d == 'numpy.nditer' and plain:
            return self.alloc(node, 'list', elem=self.view(plain[0]))
        if d in ('numpy.apply_along_axis', 'numpy.apply_over_axes') and len(plain) > 2:
            for L in plain[0]:
                if L[0] == 'fn':
                    i = 2 if short == 'apply_along_axis' else 1
                    self.call_func(self.proj.funcs[L[1]], L[2], [self.view(plain[i])] + plain[3:], {}, node)
        if d.endswith('warnings.warn') or d.startswith('logging'):
            return EMPTY
        if short in ('argsort', 'nonzero', 'flatnonzero', 'searchsorted'):
            return frozenset([('ia',)])
        if short in ('floor', 'ceil', 'round', 'fix', 'rint'):
            return EMPTY
        return self.alloc(node, 'array')

    def _set(self, k, v):
        self.env[k] = v
        return True

    def view(self, v):
        return frozenset(fld(L, ELEM) if L[0] in 'pfg' else L for L in v)

    def as_array(self, v):
        """asarray: arrays pass through, lists are converted (fresh)."""
        out = set()
        for L in v:
            if L[0] in 'pfg':
                out.add(L)
            elif L[0] == 'a':
                if L[2] in ('list', 'tuple', 'dict'):
                    continue
                out.add(L)
            elif L in (('ia',), ('i',)):
                out.add(L)
        return frozenset(out)

    def dyn_getattr(self, plain, node):
        names = [L[1] for L in plain[1] if L[0] == 'k' and isinstance(L[1], str)]
        out = set()
        if names:
            for nm in names:
                out |= self.ev_attr_on(plain[0], nm, node)
        else:
            for L in plain[0]:
                pat = None
                if len(node.args) > 1:
                    pat = str_pattern(node.args[1])
                for c in self.loc_classes(L):
                    for k in c.classes():
                        for nm, f in k.methods.items():
                            if pat and nm.startswith(pat[0]) and nm.endswith(pat[1]) and (pat[0] or pat[1]):
                                out.add(('fn', f.qual, frozenset([L])))
                if L[0] in 'pfga':
                    out.add(fld(L, '?') if L[0] != 'a' else L)
        if len(plain) > 2:
            out |= plain[2]
        return frozenset(out)

    def call_method(self, rec, name, args, kws, node, dstar, base):
        """Method on a receiver whose class is unknown (array, list, dict, ...)."""
        plain = [v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == '*' else v for v in args]
        self.run_callbacks(plain, kws, node)
        dd = [L[1] for L in rec if L[0] == 'dict__']
        rec = frozenset(L for L in rec if L[0] != 'dict__')
        out = set()
        if dd:
            if name in ('update', 'clear', 'pop', 'setdefault'):
                self.write(frozenset(dd), 'set:*', node)
                el = set(dstar)
                for v in kws.values():
                    el |= v
                for v in plain:
                    el |= self.iter_elem(v, None)
                bases = set()
                for v in plain:
                    bases |= {x[1] for x in v if x[0] == 'dict__'}
                for k in node.keywords:
                    if k.arg is None:
                        bases |= {x[1] for x in self.ev(k.value) if x[0] == 'dict__'}
                for L in dd:
                    if L[0] == 'a' and bases:
                        self.env[('h', L, '*base')] = frozenset(b for b in bases if b != L)
                        for b in bases:
                            for kk in [kk for kk in self.env if isinstance(kk, tuple) and kk[1] == b
                                       and not kk[2].startswith('*')]:
                                self.env[('h', L, kk[2])] = self.env[kk]
                    elif L[0] in 'pfga':
                        self.env[('h', L, '*upd')] = frozenset(el)
            elif name in ('copy', 'items', 'values', 'get'):
                el = set()
                for L in dd:
                    el.add(fld(L, '?') if L[0] != 'a' else L)
                out |= self.alloc(node, 'dict', elem=frozenset(el))
        if 'out' in kws:
            self.write(kws['out'], 'write', node)
        i = OUT_POS.get(name)
        if i is not None and len(plain) > i and not any(self.loc_classes(L) for L in rec):
            self.write(plain[i], 'write', node)
        if name == 'byteswap' and (('k', True) in kws.get('inplace', EMPTY) or plain and ('k', True) in plain[0]):
            self.write(rec, 'write', node)
        typed = [L for L in rec if self.loc_classes(L)]
        cls_hit = False
        for L in typed:
            for c in self.loc_classes(L):
                if any(b in ('builtins.dict', 'builtins.list') for b in c.external_bases()):
                    cls_hit = True
        if name in CONTENT_MUTATORS:
            targets = frozenset(L for L in rec if not (L[0] == 'p' and self.is_self(L) and not cls_hit))
            self.write(targets, 'write', node)
            if name in ('append', 'add', 'insert', 'appendleft'):
                for v in plain[-1:]:
                    self.put(rec, ELEM, v, strong=False)
            elif name in ('extend', 'update'):
                el = set(dstar)
                for v in plain:
                    el |= self.iter_elem(v, None)
                for v in kws.values():
                    el |= v
                self.put(rec, ELEM, frozenset(el), strong=False)
            elif name == 'setdefault':
                for v in plain[1:2]:
                    self.put(rec, ELEM, v, strong=False)
            if name in ('pop', 'setdefault', 'popitem'):
                out |= self.iter_elem(rec, None)
                for v in plain[1:2]:
                    out |= v
            return frozenset(out)
        if name in VIEW_METHODS:
            return frozenset(out) | self.view(rec)
        if name == 'astype':
            if ('k', False) in kws.get('copy', EMPTY):
                return rec
            return self.alloc(node, 'array')
        if name in ('items', 'values', 'keys', 'get'):
            el = self.iter_elem(rec, None)
            if name == 'get':
                out |= el
                for v in plain[1:2]:
                    out |= v
                return frozenset(out)
            if name == 'keys':
                return self.alloc(node, 'list', elem=EMPTY)
            if name == 'values':
                return self.alloc(node, 'list', elem=el)
            t = self.alloc(node, 'tuple', elem=el)
            T = next(iter(t))
            self.env[('h', T, '#0')] = EMPTY
            self.env[('h', T, '#1')] = el
            Z = ('a', T[1] + ('items',), 'list')
            self.env[('h', Z, ELEM)] = t
            return frozenset([Z])
        if name == 'copy':
            el = set()
            dicts = [L for L in rec if (L[0] == 'a' and L[2] in ('list', 'dict')) or (L[0] == 'p' and self.is_mapping(L))]
            for L in dicts:
                el |= self.load(L, ELEM)
            if dicts:
                return self.alloc(node, 'dict', elem=frozenset(el))
            return self.alloc(node, 'array')
        if name in ('nonzero', 'argsort', 'searchsorted', 'argmax', 'argmin'):
            return frozenset([('ia',)])
        # name-based resolution within the project
        if name not in NUMPY_METHODS and rec and not typed:
            cands = self.proj.method_index.get(name, [])
            if 0 < len(cands) <= 12:
                for f in cands:
                    if f.kind in ('method',):
                        out |= self.call_func(f, rec, args, kws, node, dstar)
                return frozenset(out)
        return frozenset(out) | self.alloc(node, 'array')


def is_cached(f):
    for d in f.decorators:
        x = d.func if isinstance(d, ast.Call) else d
        n = x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '')
        if n in ('lru_cache', 'cache', 'memoize', 'memoized', 'memo'):
            return True
    return False


def str_pattern(e):
    """(prefix, suffix) known of a computed string."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return (e.value, e.value)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = str_pattern(e.left), str_pattern(e.right)
        return (a[0] if a else '', b[1] if b else '')
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
        s = e.left.value
        i = s.find('%')
        j = s.rfind('%')
        return (s[:i], s[j + 2:]) if i >= 0 else (s, s)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant):
        s = str(e.func.value.value)
        i, j = s.find('{'), s.rfind('}')
        return (s[:i], s[j + 1:])
    if isinstance(e, ast.JoinedStr):
        a = e.values[0].value if e.values and isinstance(e.values[0], ast.Constant) else ''
        b = e.values[-1].value if e.values and isinstance(e.values[-1], ast.Constant) else ''
        return (a, b)
    return ('', '')
