import numpy as np
from functools import lru_cache
_COUNT = 0
_TABLE = {}
_NODES = {}
_GOOD = {}
_DEFAULTS = np.ones(3)


def bad_global(x):
    global _COUNT
    _COUNT += 1                 # BAD state wafo.ex._COUNT
    return x + _COUNT


def bad_key(n, alpha):
    key = '%d_%g' % (n, alpha)
    if key not in _NODES:
        _NODES[key] = np.arange(n) * alpha      # BAD memo wafo.ex._NODES
    return _NODES[key] * 1.0


def good_key(n, alpha):          # OK
    key = (n, alpha)
    if key not in _GOOD:
        _GOOD[key] = np.arange(n) * alpha
    return _GOOD[key] * 1.0


def bad_default(x, acc=[]):
    acc.append(x)                # BAD default argument acc
    return len(acc)


def bad_return():                # BAD wafo.ex:bad_return returns wafo.ex._DEFAULTS
    return _DEFAULTS


def ok_return():                 # OK
    return _DEFAULTS.copy()


@lru_cache(None)
def _roots(n):
    return np.arange(n)


def bad_cached(n):               # BAD wafo.ex:bad_cached returns cached result
    return _roots(n)


def ok_cached(n):                # OK
    return _roots(n) * 2


class A(object):
    cache = {}

    def bad_class_state(self, k):
        self.cache['last'] = k   # BAD class attribute wafo.ex:A.cache
        return k
