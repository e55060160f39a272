"""Arrays made without values."""
from itertools import product
import numpy as np


def whole(x):                # OK
    y = np.empty(len(x))
    y[:] = x
    return y


def ell(x):                  # OK
    y = np.empty_like(x)
    y[...] = 3
    return y


def fill(n):                 # OK
    y = np.empty(n)
    y.fill(0)
    return y


def loop(x):                 # OK
    n = len(x)
    y = np.empty(n)
    for i in range(n):
        y[i] = x[i] ** 2
    return y


def loop_enum(x):            # OK
    y = np.empty(len(x))
    for i, v in enumerate(x):
        y[i] = v
    return y


def loop_len(x):             # OK
    y = np.empty(x.shape[0])
    for i in range(len(x)):
        if x[i] > 0:
            y[i] = 1
        else:
            y[i] = -1
    return y


def recur(x):                # OK
    y = np.empty(len(x))
    y[0] = x[0]
    for i in range(1, len(x)):
        y[i] = y[i - 1] + x[i]
    return y


def recur_bad(x):            # BAD wafo.idioms:recur_bad: y
    y = np.empty(len(x))
    for i in range(1, len(x)):
        y[i] = x[i - 1] + x[i]
    return y


def ends(x):                 # OK
    y = np.empty(x.size + 2)
    y[1:-1] = x
    y[0] = 0
    y[-1] = 1
    return y


def ends_bad(x):             # BAD wafo.idioms:ends_bad: y
    y = np.empty(x.size + 2)
    y[1:-1] = x
    y[0] = 0
    return y


def mask(x):                 # OK
    y = np.empty(x.shape)
    m = x > 0
    y[m] = 1
    y[~m] = 0
    return y


def mask2(x):                # OK
    y = np.empty(x.shape)
    y[x > 0] = 1
    y[x <= 0] = 0
    return y


def mask_bad(x):             # BAD wafo.idioms:mask_bad: y
    y = np.empty(x.shape)
    y[x > 0] = np.log(x[x > 0])
    return y


def place(x):                # OK
    y = np.empty(np.shape(x))
    k = x > 0
    np.place(y, k, 1.0)
    np.place(y, ~k, 2.0)
    return y


def branch_bad(x, flag):     # BAD wafo.idioms:branch_bad: y
    y = np.empty(len(x))
    if flag:
        y[:] = 1
    return y


def branch(x, flag):         # OK
    y = np.empty(len(x))
    if flag:
        y[:] = 1
    else:
        y[:] = x
    return y


def early(x, flag):          # OK
    y = np.empty(len(x))
    if flag:
        raise ValueError('x')
    y[:] = x
    return y


def cond_loop_bad(x):        # BAD wafo.idioms:cond_loop_bad: y
    y = np.empty(len(x))
    for i in range(len(x)):
        if x[i] > 0:
            y[i] = 1
    return y


def continue_bad(x):         # BAD wafo.idioms:continue_bad: y
    y = np.empty(len(x))
    for i in range(len(x)):
        if x[i] > 0:
            continue
        y[i] = 1
    return y


def short_bad(x):            # BAD wafo.idioms:short_bad: y
    n = len(x)
    y = np.empty(n)
    for i in range(n - 1):
        y[i] = 1
    return y


def accumulate_bad(x):       # BAD wafo.idioms:accumulate_bad: y
    y = np.empty(3)
    for v in x:
        y += v
    return y


def accumulate_item_bad(x, k):   # BAD wafo.idioms:accumulate_item_bad: y
    y = np.empty(len(x))
    for i in k:
        y[i] += x[i]
    return y


def direct_bad(n):           # BAD wafo.idioms:direct_bad: np.empty
    return np.empty(n)


def counted(x):              # OK
    y = np.empty(len(x))
    n = 0
    for v in x:
        if v > 0:
            y[n] = v
            n += 1
    return y[:n]


def cols(x, n):              # OK
    y = np.empty((len(x), n))
    for j in range(n):
        y[:, j] = x * j
    return y


def prod(shape):             # OK
    y = np.empty(shape)
    for s in product(*[range(k) for k in shape]):
        y[s] = sum(s)
    return y


def evenodd(a, b):           # OK
    y = np.empty(2 * len(a))
    y[::2] = a
    y[1::2] = b
    return y


def even_bad(a):             # BAD wafo.idioms:even_bad: y
    y = np.empty(2 * len(a))
    y[::2] = a
    return y


def out(a, b):               # OK
    y = np.empty(len(a))
    np.add(a, b, out=y)
    return y


def where_bad(a, b):         # BAD wafo.idioms:where_bad: np.divide without out
    return np.divide(a, b, where=b != 0)


def where_ok(a, b):          # OK
    return np.divide(a, b, where=b != 0, out=np.zeros(len(a)))


def nothing():               # OK
    return np.empty(0)


class Keeps(object):
    def __init__(self, n):
        self.a = np.empty(n)         # BAD wafo.idioms:Keeps.__init__: self.a

    def set(self, n):                # OK
        self.b = np.empty(n)
        self.b[:] = 0


def helper(buf, x):
    k = 0
    for v in x:
        buf[k] = v
        k += 1
    return k


def buffer(x):               # OK
    b = np.empty(len(x))
    n = helper(b, x)
    return b[:n]


def try_bad(x):              # BAD wafo.idioms:try_bad: y
    y = np.empty(len(x))
    try:
        y[:] = 1 / x
    except ZeroDivisionError:
        pass
    return y


def two_parts(x, k):         # OK
    n = len(x)
    y = np.empty(n)
    y[:k] = 1
    y[k:] = 2
    return y


def two_parts_bad(x, k):     # BAD wafo.idioms:two_parts_bad: y
    n = len(x)
    y = np.empty(n)
    y[:k] = 1
    y[k + 1:] = 2
    return y


def comp(x):                 # OK
    y = np.empty(len(x))
    y[:] = [v for v in x]
    return [v for v in y]
