import numpy as np


def _jitter(x):
    return x + 1e-9 * np.random.rand(len(x))


def bad_mean(x):                 # BAD draw wafo.ex:bad_mean
    return _jitter(x).mean()


def bad_seed(x):                 # BAD seed wafo.ex:bad_seed
    np.random.seed(0)
    return x.mean()


def ok_mean(x):                  # OK
    return x.mean()


def sim(n, iseed=None):          # OK
    if iseed is not None:
        np.random.seed(iseed)
    return np.random.randn(n)


def bad_wrapper(n):              # BAD draw wafo.ex:bad_wrapper
    return sim(n).mean()
