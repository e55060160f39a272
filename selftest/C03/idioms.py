import functools
import numpy as np
_CACHE = {}
_LAST = None
_LIST = []
_CFG = dict(tol=1e-3)
_ARR = np.zeros(10)
def b_glob(x):  # BAD b_glob
    global _LAST
    _LAST = x
    return x
def ok_readlast(x):
    return _LAST if _LAST is not None else x
def b_cachepart(x, y):  # BAD b_cachepart
    if x not in _CACHE:
        _CACHE[x] = x * y
    return _CACHE[x]
def b_cacheid(x):  # BAD b_cacheid
    k = id(x)
    if k not in _CACHE:
        _CACHE[k] = np.sin(x)
    return _CACHE[k]
def b_cacheround(x):  # BAD b_cacheround
    k = round(x, 3)
    if k not in _CACHE:
        _CACHE[k] = np.sin(x)
    return _CACHE[k]
def b_cachelen(x):  # BAD b_cachelen
    k = len(x)
    if k not in _CACHE:
        _CACHE[k] = np.sin(x)
    return _CACHE[k]
def b_cacheshape(x):  # BAD b_cacheshape
    k = x.shape
    v = _CACHE.get(k)
    if v is None:
        v = np.sin(x)
        _CACHE[k] = v
    return v
def b_try(x, n):  # BAD b_try
    try:
        return _CACHE[n]
    except KeyError:
        _CACHE[n] = r = x + n
        return r
def b_default(x, memo={}):  # BAD b_default
    if x not in memo:
        memo[x] = len(memo)
    return memo[x]
def b_default2(x, acc=[]):  # BAD b_default2
    acc.append(x)
    return acc
def b_defarr(x, buf=np.zeros(3)):  # BAD b_defarr
    buf[:] = x
    return buf * 2
def b_listapp(x):  # BAD b_listapp
    _LIST.append(x)
    return len(_LIST)
def b_cfg(tol=1e-3):  # BAD b_cfg
    _CFG['tol'] = tol
    return tol
def b_cfgupd(**kw):  # BAD b_cfgupd
    _CFG.update(kw)
    return _CFG['tol']
def b_arr(x):  # BAD b_arr
    _ARR[:] = x
    return _ARR.sum()
def b_arrview(x):  # BAD b_arrview
    a = _ARR[2:4]
    a += x
    return a
def b_fnattr(x):  # BAD b_fnattr
    b_fnattr.count = getattr(b_fnattr, 'count', 0) + 1
    return x * b_fnattr.count
@functools.lru_cache()
def _grid(n):
    return np.linspace(0, 1, n)
def b_lru(n):  # BAD b_lru
    return _grid(n)
def b_lrumut(n):  # BAD b_lrumut
    g = _grid(n)
    g *= 2
    return g.copy()
class K(object):
    table = {}
    count = 0
    last = None
    def b_cls(self, x):  # BAD b_cls
        K.count += 1
        return x + K.count
    def b_clstab(self, x, y):  # BAD b_clstab
        self.table[x] = y
        return self.table
    def b_clsattr(self, x):  # BAD b_clsattr
        self.__class__.last = x
        return x
    def b_clstype(self, x):  # BAD b_clstype
        type(self).last = x
        return x
    @classmethod
    def b_clsm(cls, x):  # BAD b_clsm
        cls.last = x
        return x
    @functools.lru_cache()
    def b_lrumeth(self, n):  # BAD b_lrumeth
        return self.scale * n
class D(object):
    def __init__(self, opts={}):
        self.opts = opts
    def b_optset(self, v):  # BAD b_optset
        self.opts['v'] = v
        return v
def make():
    state = [0]
    def b_clos(x):  # BAD b_clos
        state[0] += 1
        return x + state[0]
    return b_clos
_COUNTER = make()
def ok_usecounter(x):
    return _COUNTER(x)
def b_retglobal():  # BAD b_retglobal
    return _ARR
def b_retcfg():  # BAD b_retcfg
    return _CFG
def b_globals(x):  # BAD b_globals
    globals()['_LAST'] = x
    return x
def b_module(x):  # BAD b_module
    import wafo.idioms as m
    m._LAST = x
    return x
def b_gen(x):  # BAD b_gen
    return next(_IT) + x
_IT = iter(range(10))
def b_alias(x):  # BAD b_alias
    c = _CACHE
    c['a'] = x
    return x
def b_helper(x):  # BAD b_helper
    _remember(_LIST, x)
    return len(_LIST)
def _remember(l, x):
    l.append(x)
def b_pop(x):  # BAD b_pop
    return _LIST.pop()
def b_sort():  # BAD b_sort
    _LIST.sort()
    return _LIST[0]
def b_del():  # BAD b_del
    _CACHE.clear()
    return 1
