import math
import numpy as np
from numpy import zeros, linspace, fft, r_, floor, ceil


def bad_half(x):
    n = len(x) / 2
    return np.zeros(n)                              # BAD bad_half: n is


def ok_half(x):                                     # OK
    n = len(x) // 2
    return np.zeros((n, 2)), x[:n], x[n:], range(n)


def bad_slice(x):
    return x[:len(x) / 2]                           # BAD bad_slice: len(x) / 2


def bad_branch(x, n=None):
    if n is None:
        n = len(x) // 2
    elif n < 0:
        n = -n / 2
    return [i for i in range(n)]                    # BAD bad_branch: n is


def ok_none(x, n=None):                             # OK
    if n is None:
        n = x.size
    return linspace(0, 1, n)


def bad_round(x, dt):
    k = np.round(x.max() / dt)
    return zeros((3, k))                            # BAD bad_round: (3, k)


def ok_round(x, dt):                                # OK
    k = int(np.round(x.max() / dt))
    j = round(x.max() / dt)
    m = math.floor(x.max() / dt)
    q = np.floor(x / dt).astype(int)
    return zeros((3, k)), x[j], x[m:], x[q]


def bad_limit(h):
    m = max(min(np.floor(h), 30), 3)
    for i in range(m):                              # BAD bad_limit: m is
        h += i
    return h


def bad_transform(x):
    nfft = 2.0 ** 10
    return fft.fft(x, nfft)                         # BAD bad_transform: nfft


def _middle(x):
    return ceil(len(x) / 2)


def bad_helper(x):
    x = np.atleast_1d(x)
    return x[_middle(x)]                            # BAD bad_helper: _middle(x)


def ok_key(d, x):                                   # OK
    return d[x / 2], r_[0:1:0.1], {0.5: 1}[0.5]


def bad_repeat(n):
    return [0] * (n / 2)                            # BAD bad_repeat: n / 2


def ok_scale(n):                                    # OK
    return 3 * (n / 2), np.array([1, 2]) * (n / 2)


class Filter(object):
    def __init__(self, n):
        self.n = n
        self.half = n / 2
        self.whole = n // 2

    def bad_attr(self, x):
        x = np.asarray(x)
        return x[self.half:]                        # BAD bad_attr: self.half

    def ok_attr(self, x):                           # OK
        return x[self.whole:], x[:self.n]


def bad_step(x, n=10):
    while n > 1:
        x = x[:n]                                   # BAD bad_step: n is
        n /= 2
    return x


def ok_step(x, n=10):                               # OK
    while n > 1:
        x = x[:n]
        n //= 2
    return x


def ok_refined(n):                                  # OK
    n = n / 3
    if isinstance(n, float):
        n = int(n)
    return range(n)


def bad_tuple(x):
    a, b = x.sum() / 2, len(x)
    return np.reshape(x, (b, a))                    # BAD bad_tuple: (b, a)


def ok_tuple(x, p=None):                            # OK
    if p is None:
        p = [0, x.max() / 2, 43]
    a, n = p[1:]
    return linspace(0, a, n), np.zeros(p[2])


def bad_mask(x):
    return x[~(x / 2)]                              # BAD bad_mask: x / 2


def ok_mask(x):                                     # OK
    return x[~(x / 2 > 1) & (x > 0)]


def bad_default(x, width=2.5):
    return x[width:]                                # BAD bad_default: width


def bad_position(x):
    x = np.asarray(x)
    i = np.linspace(0, len(x) - 1, 5)
    return x[i]                                     # BAD bad_position: i is


def ok_position(x):                                 # OK
    x = np.asarray(x)
    i = np.linspace(0, len(x) - 1, 5).astype(int)
    j, = np.where(x > 0)
    return x[i], x[j], x[x.argmax()], x[np.argsort(x)[0]], x[np.arange(3)]


def bad_nested(x):
    n = len(x) / 4

    def inner(k):
        return k[:n]                                # BAD n is a slice bound
    return inner(x)


def ok_dead(x):                                     # OK
    debug = 0
    if debug:
        return x[len(x) / 2]
    return x
