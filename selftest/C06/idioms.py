import numpy as np
import random, time, os
import scipy.stats as st
from scipy import stats
from numpy.random import randn, shuffle
from numpy import random as nr
from functools import partial
_R = np.random.RandomState(1)
def b_01(x): return x + randn(3)  # BAD b_01
def b_02(x): np.random.seed(0); return x  # BAD b_02
def b_03(x): np.random.seed(int(x[0])); return x  # BAD b_03
def b_04(x):  # BAD b_04
    s = np.random.get_state(); y = randn(3); np.random.set_state(s); return y
def b_05(x): return _R.randn(3)  # BAD b_05
def b_06(x): return st.norm.rvs(size=3)  # BAD b_06
def b_07(x): return stats.norm(0, 1).rvs(3)  # BAD b_07
def b_08(x): d = stats.norm; return d.rvs(3)  # BAD b_08
def b_09(x): return np.random.default_rng(0).normal(size=3)  # BAD b_09
def b_10(x): return np.random.RandomState(0).rand(3)  # BAD b_10
def b_11(x): return random.random()  # BAD b_11
def b_12(x): random.seed(1); return x  # BAD b_12
def b_13(x): shuffle(x.copy()); return x  # BAD b_13
def b_14(x): return nr.permutation(x)  # BAD b_14
def b_15(x): return np.random.choice(x)  # BAD b_15
def b_16(x):  # BAD b_16
    def f(n): return randn(n)
    return f(3)
def b_17(x): return list(map(lambda i: randn(), x))  # BAD b_17
def b_18(x): f = partial(randn, 3); return f()  # BAD b_18
def b_19(x): return b_01(x)  # BAD b_19
class A(object):
    def __init__(self): self.z = randn(3)  # BAD draw wafo.idioms:A.__init__
    def b_20(self, x): return self._h(x)  # BAD b_20
    def _h(self, x): return nr.normal(size=x)
    @property
    def b_21(self): return randn(1)  # BAD b_21
def b_22(x): return A()  # BAD b_22
def b_23(x): return np.random.mtrand._rand.randn(3)  # BAD b_23
def b_24(x): f = getattr(np.random, 'randn'); return f(2)  # BAD b_24
def b_25(x, jitter=None):  # BAD b_25
    if jitter:
        x = x + jitter * randn(len(x))
    return x
def b_26(x, method='a'):  # BAD b_26
    return {'a': np.mean, 'b': lambda z: z[nr.randint(len(z))]}[method](x)
def b_27(x): np.random.set_state(_S); return x  # BAD b_27
_S = None
def b_28(x): return int.from_bytes(os.urandom(3), 'little')  # BAD b_28
def b_29(x): return st.multivariate_normal.rvs(np.zeros(3))  # BAD b_29
def b_30(x): return st.gaussian_kde(x).resample(3)  # BAD b_30
def b_31(x): return st.bootstrap((x,), np.mean)  # BAD b_31
def b_32(x):  # BAD b_32
    from scipy.optimize import differential_evolution
    return differential_evolution(x, [(0, 1)])
def b_33(x):  # BAD b_33
    from scipy.optimize import basinhopping
    return basinhopping(x, 0)
def b_34(x):  # BAD b_34
    from scipy.optimize import dual_annealing
    return dual_annealing(x, [(0, 1)])
def b_35(x):  # BAD b_35
    from scipy.cluster.vq import kmeans
    return kmeans(x, 3)
def b_36(x):  # BAD b_36
    import scipy.sparse
    return scipy.sparse.rand(3, 3)
def b_37(x): return nr.RandomState().normal()  # BAD b_37
def ok_1(x): return np.sort(x)  # OK
def ok_2(x): return st.norm.pdf(x)  # OK
def ok_3(x): s = np.random.get_state(); return s is not None  # OK
def ok_4(x): return st.gamma.fit(x)  # OK
def ok_5(x, gamma=1.0): return np.power(x, gamma) + st.gamma(2).pdf(x)  # OK
