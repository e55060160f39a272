import numpy as np
import numpy
import time, os, random, uuid, datetime
import scipy.stats as st
from numpy import random as nr
from numpy.random import randn, RandomState
from scipy.stats import norm
from functools import partial, lru_cache

_RNG = RandomState(0)
_GEN = np.random.default_rng(3)
_CACHE = {}


def b_01(n, iseed=None):  # BAD b_01
    if iseed:
        np.random.seed(iseed)
    return randn(n)
def b_02(n, iseed=None):  # BAD b_02
    if iseed is not None and iseed > 0:
        np.random.seed(iseed)
    return randn(n)
def b_03(n, iseed=None):  # BAD b_03
    if iseed is not None:
        np.random.seed(iseed)
    return _RNG.randn(n)
def b_04(n, iseed=None):  # BAD b_04
    if iseed is not None:
        np.random.seed(iseed)
    return _GEN.standard_normal(n)
def b_05(n, iseed=None):  # BAD b_05
    rng = np.random.RandomState(iseed)
    return rng.randn(n) + np.random.randn(n)
def b_06(n, iseed=None):  # BAD b_06
    np.random.seed(iseed)
    np.random.seed(0)
    return randn(n)
def b_07(n, iseed=None):  # BAD b_07
    np.random.seed(iseed)
    np.random.seed()
    return randn(n)
def b_08(n, iseed=None):  # BAD b_08
    np.random.seed(iseed)
    rng = np.random.default_rng(0)
    return rng.standard_normal(n)
def b_09(n, iseed=None):  # BAD b_09
    return norm.rvs(size=n)
def b_10(n, iseed=None):  # BAD b_10
    rng = np.random.RandomState(iseed)
    return norm.rvs(size=n)
def b_11(n, iseed=None):  # BAD b_11
    np.random.seed(iseed)
    return norm.rvs(size=n, random_state=0)
def b_12(n, iseed=None):  # BAD b_12
    np.random.seed(iseed)
    np.random.set_state(_CACHE['s'])
    return randn(n)
def b_13(n, iseed=None):  # BAD b_13
    np.random.seed(iseed)
    return np.array([random.random() for i in range(n)])
def b_14(n, iseed=None):  # BAD b_14
    random.seed(iseed)
    return randn(n)
def b_15(n, cases, iseed=None):  # BAD b_15
    out = np.zeros((n, cases))
    for i in range(cases):
        if iseed is not None:
            np.random.seed(iseed)
        out[:, i] = randn(n)
    return out
def b_16(n, cases, iseed=None):  # BAD b_16
    return [_one(n, iseed) for i in range(cases)]
def _one(n, iseed=None):
    if iseed is not None:
        np.random.seed(iseed)
    return randn(n)
def b_17(n, cases, iseed=None):  # BAD b_17
    x = _one(n, iseed)
    y = _one(n, iseed)
    return x, y
def b_18(n, iseed=None, method='a'):  # BAD b_18
    if method == 'a':
        return _one(n, iseed)
    return _one(n)
def b_19(n, iseed=None, method='a'):  # BAD b_19
    if method == 'a':
        np.random.seed(iseed)
    f = randn if method == 'a' else nr.rand
    return f(n)
def b_20(n, iseed=None):  # BAD b_20
    f = partial(randn, n)
    return f()
def b_21(n, iseed=None):  # BAD b_21
    def g():
        return randn(n)
    y = g()
    np.random.seed(iseed)
    return y
def b_22(n, iseed=None):  # BAD b_22
    y = list(map(lambda i: randn(), range(n)))
    np.random.seed(iseed)
    return y
def b_23(n, iseed=None):  # BAD b_23
    try:
        np.random.seed(iseed)
    except ValueError:
        pass
    return randn(n) * time.time()
def b_24(n, iseed=None):  # BAD b_24
    np.random.seed(iseed + os.getpid())
    return randn(n)
def b_25(n, iseed=None):  # BAD b_25
    np.random.seed(hash(str(iseed)))
    return randn(n)
def b_26(n, iseed=None):  # BAD b_26
    iseed = None
    np.random.seed(iseed)
    return randn(n)
def b_27(n, iseed=None):  # BAD b_27
    iseed = 1
    np.random.seed(iseed)
    return randn(n)

def b_29(n, seed=None):  # BAD b_29
    if n > 10:
        np.random.seed(seed)
    return np.random.uniform(size=n)
class K(object):
    def __init__(self):  # BAD entropy wafo.idioms:K.__init__
        self.rng = np.random.RandomState()
    def b_30(self, n, iseed=None):  # BAD b_30
        np.random.seed(iseed)
        return self.rng.randn(n)
    def b_31(self, n, iseed=None):  # BAD b_31
        return self._w(n)
    def _w(self, n):
        return np.random.standard_normal(n)
    def b_32(self, n, iseed=None):  # BAD b_32
        if not hasattr(self, '_z'):
            np.random.seed(iseed)
        return randn(n)
def b_33(n, iseed=None):  # BAD b_33
    a = nr.normal(0, 1, n)
    np.random.seed(iseed)
    return a + nr.normal(0, 1, n)
def b_34(n, iseed=None):  # BAD b_34
    for k in range(n):
        x = randn(n)
        if k == 0:
            np.random.seed(iseed)
    return x
def b_35(n, iseed=None):  # BAD b_35
    with_seed = iseed is not None
    if with_seed and n < 100:
        np.random.seed(iseed)
    return randn(n)
def b_36(n, iseed=None):  # BAD b_36
    rng = np.random.mtrand._rand
    return rng.randn(n)
def b_37(n, iseed=None):  # BAD b_37
    rng = np.random.default_rng()
    return rng.normal(size=n)
def b_38(n, iseed=None):  # BAD b_38
    rng = np.random.default_rng(iseed)
    y = rng.normal(size=n)
    z = np.random.default_rng().normal(size=n)
    return y + z
def b_39(n, iseed=None):  # BAD b_39
    return _two(n)
def _two(n, iseed=None, shift=0):
    np.random.seed(iseed)
    return randn(n)
def b_40(n, iseed=None):  # BAD b_40
    return _two(n, shift=iseed)
def b_41(n, iseed=None):  # BAD b_41
    np.random.seed(iseed)
    return randn(n) + len(os.listdir('.')) * int.from_bytes(os.urandom(2), 'big')
def b_42(n, iseed=None):  # BAD b_42
    np.random.seed(iseed)
    return randn(n) + uuid.uuid4().int
def b_43(n, iseed=None):  # BAD b_43
    np.random.seed(datetime.datetime.now().microsecond)
    return randn(n)
def b_44(n, iseed=None):  # BAD b_44
    np.random.seed(int(iseed) if iseed else None)
    return randn(n)
def b_45(n, iseed=None):  # BAD b_45
    np.random.seed(iseed or None)
    return randn(n)
def b_46(n, iseed=None):  # BAD b_46
    gen = getattr(np.random, 'randn')
    return gen(n)

def ok_1(n, iseed=None):  # OK
    np.random.seed(iseed)
    return randn(n)
def ok_2(n, iseed=None):  # OK
    rng = np.random.RandomState(iseed)
    return rng.randn(n)
def ok_3(n, iseed=None):  # OK
    rng = np.random.default_rng(iseed)
    return rng.standard_normal(n) + norm.rvs(size=n, random_state=rng)
def ok_4(n, iseed=None):  # OK
    try:
        np.random.seed(iseed)
    except ValueError:
        raise
    return randn(n)
def ok_5(n, iseed=None):  # OK
    rng = np.random.RandomState(iseed)
    return _help(rng, n)
def _help(rng, n):
    return rng.randn(n)
def ok_6(n, cases, iseed=None):  # OK
    x = _one(n, iseed)
    return [_one(n) for i in range(cases)] + [x]
def ok_7(n, iseed=None):  # OK
    if iseed is None:
        return randn(n)
    state = np.random.get_state()
    np.random.seed(iseed)
    y = randn(n)
    np.random.set_state(state)
    return y
def ok_8(n, iseed=None):  # OK
    if isinstance(iseed, (tuple, list)):
        np.random.set_state(iseed)
    else:
        np.random.seed(iseed)
    return randn(n)
def ok_9(n, iseed=None):  # OK
    if iseed is not None:
        np.random.seed(iseed)
    f = partial(randn, n)
    return f()
def ok_10(n, iseed=None):  # OK
    if iseed is None:
        rng = np.random
    else:
        rng = np.random.RandomState(iseed)
    return rng.randn(n)
def ok_11(n, iseed=None):  # OK
    rng = np.random if iseed is None else np.random.RandomState(iseed)
    return rng.randn(n)
def ok_12(n, iseed=None):  # OK
    _setseed(iseed)
    return randn(n)
def _setseed(s):
    if s is not None:
        np.random.seed(s)
def ok_13(n, iseed=None):  # OK
    seeds = np.random.RandomState(iseed).randint(0, 1000, n)
    return [np.random.RandomState(s).randn() for s in seeds]
