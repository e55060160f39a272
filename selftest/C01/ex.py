import numpy as np


def bad_slice(x):            # BAD wafo.ex:bad_slice(x)
    y = np.asarray(x)
    y[0] = 1
    return y


def _helper(v):
    v.sort()
    return v


def bad_helper(data, n=3):   # BAD wafo.ex:bad_helper(data)
    z = np.atleast_1d(data).ravel()
    return _helper(z)[:n]


def bad_shape(t):            # BAD wafo.ex:bad_shape(t)
    t.shape = (1, -1)
    return t * 2


def bad_aug(x):              # BAD wafo.ex:bad_aug(x)
    x = np.asarray(x)
    x -= x.mean()
    return x


def bad_out(a, b):           # BAD wafo.ex:bad_out(a)
    return np.add(a, b, out=a)


def bad_list(opts):          # BAD wafo.ex:bad_list(opts)
    opts.append(1)
    return opts


class Box(object):
    def __init__(self, data):
        self.data = data


def bad_attr(box):           # BAD wafo.ex:bad_attr(box)
    box.data = 0


def bad_view(x, mask):       # BAD wafo.ex:bad_view(x)
    y = x.reshape(-1)
    y[mask] = 0
    return y


def ok_copy(x):              # OK
    y = np.array(x, dtype=float)
    y[0] = 1
    y.sort()
    return y


def ok_rebind(x):            # OK
    x = x - x.mean()
    x -= 3
    x[0] = 1
    return x


def ok_fancy(x, ind):        # OK
    y = x[np.flatnonzero(ind)]
    y[0] = 2
    return y


def ok_sorted(x):            # OK
    return _helper(np.sort(x))


def ok_none(x, w=None):      # OK
    if w is None:
        w = np.ones(3)
        w[0] = 2
    return w * x
