import copy
import functools
import itertools
import operator
import numpy as np
from numpy import asarray, ravel, broadcast_arrays, squeeze, ascontiguousarray
import scipy.signal as ss
import scipy.linalg as sl


def b_put(x): np.put(x, [0], 1); return 0  # BAD b_put
def b_place(x): np.place(x, x > 0, 1)  # BAD b_place
def b_copyto(x): np.copyto(x, 3)  # BAD b_copyto
def b_fill(x): x.fill(0)  # BAD b_fill
def b_itemset(x): x.itemset(0, 1)  # BAD b_itemset
def b_filldiag(x): np.fill_diagonal(x, 1)  # BAD b_filldiag
def b_flat(x): x.flat[0] = 1  # BAD b_flat
def b_flat2(x): x.flat = 1  # BAD b_flat2
def b_real(x): x.real[...] = 1  # BAD b_real
def b_real2(x): x.imag = 0  # BAD b_real2
def b_setattr(x): setattr(x, 'a', 1)  # BAD b_setattr
def b_dict(x): x.__dict__.update(a=1)  # BAD b_dict
def b_dict2(x): x.__dict__['a'] = 1  # BAD b_dict2
def b_vars(x): vars(x)['a'] = 1  # BAD b_vars
def b_vars2(x): vars(x).update(b=1)  # BAD b_vars2
def b_ndsort(x): np.ndarray.sort(x)  # BAD b_ndsort
def b_iadd(x): operator.iadd(x, 1)  # BAD b_iadd
def b_setitem(x): operator.setitem(x, 0, 1)  # BAD b_setitem
def b_nan(x): return np.nan_to_num(x, copy=False)  # BAD b_nan
def b_clip(x): return np.clip(x, 0, 1, out=x)  # BAD b_clip
def b_clip2(x): return x.clip(0, 1, x)  # BAD b_clip2
def b_rows(x):  # BAD b_rows
    for row in x:
        row *= 2
def b_rows2(x):  # BAD b_rows2
    for i, row in enumerate(np.atleast_2d(x)):
        row[:] = row / i
def b_zip(x, y):  # BAD b_zip
    for a, b in zip(x, y):
        a += b
def b_T(x): x.T[0] = 1  # BAD b_T
def b_resh(x): x.reshape(-1)[0] = 1  # BAD b_resh
def b_unpack(x):  # BAD b_unpack
    a, b = x
    a *= 2
def b_unpack2(x):  # BAD b_unpack2
    a, b = np.asarray(x)
    a[0] = 2
def b_star(*xs):  # BAD b_star
    for x in xs:
        x[0] = 1
def b_star2(*xs):  # BAD b_star2
    xs = np.atleast_1d(*xs)
    xs[0][:] = 0
def b_kw(**kw):  # BAD b_kw
    kw['x'][0] = 1
def b_kw2(**kw):  # BAD b_kw2
    y = kw.get('x', None)
    y[0] = 1
def b_listarg(x, lst):  # BAD b_listarg
    lst[0][0] = 1
def b_ba(x, y):  # BAD b_ba
    a, b = broadcast_arrays(x, y)
    a[0] = 1
def b_ix(x): x[np.ix_([0], [1])] = 1  # BAD b_ix
def b_view(x): x.view()[0] = 1  # BAD b_view
def b_viewm(x): x.view(float)[0] = 1  # BAD b_viewm
def b_sq(x): squeeze(x)[0] = 1  # BAD b_sq
def b_cont(x): ascontiguousarray(x)[0] = 1  # BAD b_cont
def b_copyfalse(x): np.array(x, copy=False)[0] = 1  # BAD b_copyfalse
def b_astype(x): x.astype(float, copy=False)[0] = 1  # BAD b_astype
def b_req(x): np.require(x, float)[0] = 1  # BAD b_req
def b_diag(x): np.diagonal(x)[0] = 1  # BAD b_diag
def b_roll(x): np.rollaxis(x, 1)[0] = 1  # BAD b_roll
def b_split(x): np.split(x, 2)[0][:] = 1  # BAD b_split
def b_split2(x):  # BAD b_split2
    a, b = np.array_split(x, 2)
    a[0] = 1
def b_flip(x): np.flipud(x)[0] = 1  # BAD b_flip
def b_rev(x): x[::-1][0] = 1  # BAD b_rev
def b_rev2(x): x.reverse()  # BAD b_rev2
def b_exp(x): np.expand_dims(x, 0)[0] = 1  # BAD b_exp
def b_rot(x): np.rot90(x)[0] = 1  # BAD b_rot
def b_mv(x): np.moveaxis(x, 0, 1)[0] = 1  # BAD b_mv
def b_del(x): del x[0]  # BAD b_del
def b_delattr(x): del x.a  # BAD b_delattr
def b_delattr2(x): delattr(x, 'a')  # BAD b_delattr2
def b_pop(x): x.pop('a')  # BAD b_pop
def b_pop2(x): x.popitem()  # BAD b_pop2
def b_upd(x): x.update(a=1)  # BAD b_upd
def b_setd(x): x.setdefault('a', 1)  # BAD b_setd
def b_ext(x): x.extend([1])  # BAD b_ext
def b_ins(x): x.insert(0, 1)  # BAD b_ins
def b_rem(x): x.remove(0)  # BAD b_rem
def b_clear(x): x.clear()  # BAD b_clear
def b_setadd(x): x.add(0)  # BAD b_setadd
def b_iaddl(x):  # BAD b_iaddl
    x += [1]
def b_shuf(x): np.random.shuffle(x)  # BAD b_shuf
def b_resize(x): x.resize((3,))  # BAD b_resize
def b_part(x): x.partition(2)  # BAD b_part
def b_setfl(x): x.setflags(write=False)  # BAD b_setfl
def b_flags(x): x.flags.writeable = False  # BAD b_flags
def b_dtype(x): x.dtype = float  # BAD b_dtype
def b_bytes(x): x.byteswap(True)  # BAD b_bytes
def b_ufunc_at(x): np.add.at(x, [0], 1)  # BAD b_ufunc_at
def b_outpos(x): np.sqrt(x, x)  # BAD b_outpos
def b_outtup(x): np.sqrt(x, out=(x,))  # BAD b_outtup
def b_cumsum(x): np.cumsum(x, out=x)  # BAD b_cumsum
def b_dot(x, y): np.dot(x, y, out=x)  # BAD b_dot
def b_take(x): np.take(x, [0], out=x)  # BAD b_take
def b_detr(x): ss.detrend(x, overwrite_data=True)  # BAD b_detr
def b_over(x): sl.solve(x, x, overwrite_a=True)  # BAD b_over
def b_over2(x): sl.lstsq(x, x, overwrite_b=True)  # BAD b_over2
def b_closure(x):  # BAD b_closure
    def inner():
        x[0] = 1
    inner()
def b_lambda(x):  # BAD b_lambda
    f = lambda v: v.sort()
    f(x)
def b_partial(x):  # BAD b_partial
    f = functools.partial(np.copyto, x)
    f(3)
def b_map(x):  # BAD b_map
    def f(r):
        r[0] = 1
    list(map(f, x))
def b_apply(x):  # BAD b_apply
    def f(r):
        r[0] = 1
        return r
    return np.apply_along_axis(f, 0, x)
def b_bound(x):  # BAD b_bound
    f = x.sort
    f()
def b_bound2(x):  # BAD b_bound2
    f = x.append
    for i in range(3):
        f(i)
def b_ternary(x, flag=True):  # BAD b_ternary
    y = x if flag else x.copy()
    y[0] = 1
def b_or(x):  # BAD b_or
    y = x or [0]
    y[0] = 1
def b_try(x):  # BAD b_try
    try:
        y = np.asarray(x)
    except Exception:
        y = np.array(x)
    y[0] = 1
def b_shallow(x):  # BAD b_shallow
    y = copy.copy(x)
    y.data[0] = 1
def b_shallow2(x):  # BAD b_shallow2
    y = list(x)
    y[0][0] = 1
def b_shallow3(x):  # BAD b_shallow3
    y = dict(x)
    y['a'][0] = 1
def b_shallow4(x):  # BAD b_shallow4
    y = x[:]
    y[0] = 1
def b_comp(x):  # BAD b_comp
    ys = [np.asarray(v) for v in x]
    ys[0][0] = 1
def b_tuple(x, y):  # BAD b_tuple
    t = (x, y)
    t[0][0] = 1
def b_dictst(x):  # BAD b_dictst
    d = {'a': x}
    d['a'][0] = 1
def b_dictst2(x):  # BAD b_dictst2
    d = dict(a=x)
    for k in d:
        d[k] *= 2
def b_obj(x):  # BAD b_obj
    class A(object):
        pass
    a = A()
    a.x = x
    a.x[0] = 1
class Holder(object):
    def __init__(self, v):
        self.v = np.asarray(v)
    def norm(self):
        self.v /= self.v.sum()
        return self.v
def b_holder(x):  # BAD b_holder
    return Holder(x).norm()
def b_gen(x):  # BAD b_gen
    def g():
        for r in x:
            yield r
    for r in g():
        r[0] = 1
def b_chain(x, y):  # BAD b_chain
    for r in itertools.chain(x, y):
        r[0] = 1
def b_walrus(x):  # BAD b_walrus
    if (y := np.asarray(x)).size:
        y[0] = 1
def b_while(x):  # BAD b_while
    y = None
    while y is None:
        y = x
    y[0] = 1
def b_meshsp(x, y):  # BAD b_meshsp
    X, Y = np.meshgrid(x, y, copy=False)
    X[0] = 1
def b_trunc(x):  # BAD b_trunc
    y = np.real(x)
    y[0] = 1
def b_where(x):  # BAD b_where
    y = np.atleast_1d(x)[...]
    y[y < 0] = 0
def b_newaxis(x):  # BAD b_newaxis
    y = x[:, None]
    y *= 2
def b_masked(x):  # BAD b_masked
    m = np.ma.array(x, copy=False)
    m[0] = 1
def b_asm(x):  # BAD b_asm
    m = np.asmatrix(x)
    m[0] = 1
def b_asany(x):  # BAD b_asany
    m = np.asanyarray(x)
    m[0] = 1
def b_frombuf(x):  # BAD b_frombuf
    m = np.frombuffer(x)
    m[0] = 1
def b_memv(x):  # BAD b_memv
    m = memoryview(x)
    m[0] = 1
def b_nditer(x):  # BAD b_nditer
    for v in np.nditer(x, op_flags=['readwrite']):
        v[...] = 2 * v
def b_getattr(x):  # BAD b_getattr
    getattr(x, 'sort')()
def b_getattr2(x):  # BAD b_getattr2
    getattr(x, 'data')[0] = 1
def b_attr(x):  # BAD b_attr
    x.args[0] = 2
def b_attr2(x):  # BAD b_attr2
    y = x.args
    y -= 1
def b_dict_values(x):  # BAD b_dict_values
    for v in x.values():
        v[0] = 1
def b_items(x):  # BAD b_items
    for k, v in sorted(x.items()):
        v *= 2
def b_rec(x, n=3):  # BAD b_rec
    if n == 0:
        x[0] = 1
        return x
    return b_rec(x, n - 1)
def b_ret(x):  # BAD b_ret
    def ident(v):
        return v
    ident(x)[0] = 1
def b_conv(x):  # BAD b_conv
    y = np.squeeze(np.atleast_2d(x)).ravel().reshape(1, -1)
    y[0, 0] = 1
def b_heap(x):  # BAD b_heap
    import heapq
    heapq.heapify(x)
def b_bisect(x):  # BAD b_bisect
    import bisect
    bisect.insort(x, 1)
def b_swap(x):  # BAD b_swap
    x[0], x[1] = x[1], x[0]
def b_with(x):  # BAD b_with
    with np.errstate(all='ignore') as e:
        x /= 2
def b_fortarget(x):  # BAD b_fortarget
    for x[0] in range(3):
        pass
def b_starun(x):  # BAD b_starun
    a, *b = x
    a[0] = 1
def b_min(x, y):  # BAD b_min
    m = max(x, y, key=len)
    m[0] = 1
def b_next(x):  # BAD b_next
    r = next(iter(x))
    r[0] = 1
def b_sorted(x):  # BAD b_sorted
    r = sorted(x, key=len)[0]
    r[0] = 1
def b_reversed(x):  # BAD b_reversed
    for r in reversed(x):
        r[0] = 1
def b_intern(x):  # BAD b_intern
    y = x
    z = y
    z[0] = 1
def b_imul(x):  # BAD b_imul
    x *= 2
def b_lsolve(x):  # BAD b_lsolve
    np.negative(x, out=x)
def b_decorated(x):  # BAD b_decorated
    @np.vectorize
    def f(v):
        x[0] = v
        return v
    f([1, 2])
