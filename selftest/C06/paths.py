import numpy as np
from numpy import random


def _set_seed(iseed):
    if iseed is not None:
        try:
            random.set_state(iseed)
        except (KeyError, TypeError):
            random.seed(iseed)


def _always(iseed):                     # BAD seed wafo.paths:_always
    if True:
        random.seed(iseed)


def _entropy(iseed):                    # BAD seed wafo.paths:_entropy
    if iseed is None:
        random.seed()
    else:
        random.seed(iseed)


def sim(n, iseed=None):                 # OK
    _set_seed(iseed)
    return random.randn(n)


def _early(iseed):                      # OK
    if iseed is None:
        return
    random.seed(iseed)


def _truth(iseed):                      # OK
    if iseed or iseed == 0:
        random.seed(iseed)


class A(object):
    def __init__(self, seed=None):
        self.seed = seed

    def sim(self, n):                   # OK
        if self.seed is not None:
            random.seed(self.seed)
        return sim(n)

    def sim_nl(self, n, iseed=None):    # BAD seed wafo.paths:A.sim_nl
        _set_seed(iseed or 0)
        return random.randn(n)

    def simcond(self, n, iseed=None):   # BAD seed wafo.paths:A.simcond
        seed = hash(str(n)) if iseed is None else iseed
        _set_seed(seed)
        return random.randn(n)

    def rvs(self, n, iseed=None):       # OK
        seed = 3 if iseed is None else iseed
        if iseed is not None:
            _set_seed(int(seed))
        return random.randn(n)

    def _rvs(self, n, **kwds):          # OK
        return sim(n, **kwds)

    def reconstruct(self, n, **kwds):   # OK
        iseed = kwds.pop('iseed', None)
        if iseed is not None:
            np.random.seed(iseed)
        return sim(n)


class B(A):
    def sim(self, n):                   # BAD seed wafo.paths:B.sim
        random.seed(self.seed)
        return sim(n)

    def testgaussian(self, n, iseed=0):  # BAD default wafo.paths:B.testgaussian
        _set_seed(iseed)
        return sim(n)

    def rvs(self, n):                   # BAD seed wafo.paths:B.rvs
        seed = self.seed
        if seed is None:
            seed = int(random.rand(1) * 10)
        else:
            seed = int(seed)
        random.seed(seed)
        return sim(n)
