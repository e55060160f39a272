import numpy as np
import time
import random
from numpy.random import randn


def sim_ok(n, iseed=None):               # OK
    if iseed is not None:
        np.random.seed(iseed)
    return np.random.randn(n)


def _draw(n):
    return randn(n)


def sim_bad_order(n, iseed=None):        # BAD unseeded wafo.ex:sim_bad_order
    a = _draw(n)
    if iseed is not None:
        np.random.seed(iseed)
    return a


def sim_bad_branch(n, iseed=None, fast=False):   # BAD unseeded wafo.ex:sim_bad_branch
    if not fast:
        np.random.seed(iseed)
    return np.random.randn(n)


def _inner(n, iseed=None):
    if iseed is not None:
        np.random.seed(iseed)
    return _draw(n)


def sim_ok_inner(n, iseed=None):         # OK
    return _inner(n, iseed=iseed) + _draw(n)


def sim_bad_inner(n, iseed=None):        # BAD unseeded wafo.ex:sim_bad_inner
    return _inner(n)


def sim_bad_reseed(n, cases, iseed=None):        # BAD reseed wafo.ex:sim_bad_reseed
    out = []
    for i in range(cases):
        np.random.seed(iseed)
        out.append(np.random.randn(n))
    return out


def noise_bad(n):                        # BAD entropy wafo.ex:noise_bad
    rng = np.random.RandomState(int(time.time()))
    return rng.randn(n)


def noise_bad2(n):                       # BAD entropy wafo.ex:noise_bad2
    return random.random()


def noise_bad3(n):                       # BAD entropy wafo.ex:noise_bad3
    return np.random.default_rng().standard_normal(n)
