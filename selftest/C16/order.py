import numpy as np


def _target(mean, sigma, size=1):
    return mean + sigma * size


def in_order(mean, sigma, size):                # OK
    return _target(mean, sigma, size)


def swapped(mean, sigma):                       # BAD exchanged arguments of _target in wafo.order:swapped
    return _target(sigma, mean)


def rotated(mean, sigma, size):                 # BAD exchanged arguments of _target in wafo.order:rotated
    return _target(size, mean, size=sigma)


def shifted(mean, size):                        # OK
    return _target(size, mean)


def _split(x):
    low = np.min(x)
    high = np.max(x)
    return low, high, len(x)


def takes(x):                                   # OK
    low, high, n = _split(x)
    return high - low, n


def takes_wrong(x):                             # BAD exchanged results of _split in wafo.order:takes_wrong
    high, low, n = _split(x)
    return high - low, n


def _ordered(a, b):
    if a > b:
        return b, a
    return a, b


def _turned(a, b):
    return b, a


def limits(a, b):                               # OK
    a, b = _ordered(a, b)
    a, b = _turned(a, b)
    return a, b


class Tr(object):
    def __init__(self, mean, ymean):
        self.mean, self.ymean = mean, ymean

    def _map(self, x, mean, ymean):
        return x - mean + ymean

    def dat2gauss(self, x):                     # OK
        return self._map(x, self.mean, self.ymean)

    def gauss2dat(self, x):                     # OK
        return self._map(x, self.ymean, self.mean)

    def other(self, x):                         # BAD exchanged arguments of Tr._map in wafo.order:Tr.other
        return self._map(x, self.ymean, self.mean)
