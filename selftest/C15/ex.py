import numpy as np


def bad_like(x):
    y = np.zeros_like(x)
    y[0] = np.sqrt(x[0])                # BAD bad_like
    return y


def ok_like(x):                         # OK
    y = np.zeros_like(x, dtype=float)
    y[0] = np.sqrt(x[0])
    return y


def ok_shape(x):                        # OK
    x = np.atleast_1d(x)
    y = np.zeros(x.shape)
    y[:] = x / 3
    return y


def bad_copy(x):
    y = np.array(x)
    y[y > 3] = 0.5 * y.mean()           # BAD bad_copy
    return y


def bad_inplace(x, c):
    y = np.atleast_1d(x).copy()
    y *= 0.5                            # BAD bad_inplace
    return y * c


def ok_scaled(x):                       # OK
    y = 1.0 * np.atleast_1d(x)
    y /= 3
    return y


def _smooth(z):
    z = np.array(z)
    z[1:-1] = (z[:-2] + z[2:]) / 2      # BAD _smooth
    return z


def bad_through_helper(x):
    return _smooth(x)


def ok_helper(x):                       # OK
    w = np.asarray(x, dtype=float)
    w2 = w.copy()
    w2[0] = w.mean()
    return w2


def bad_mixed(x, y):
    z = np.copy(x)
    z[0] = y[0]                         # BAD bad_mixed
    return z


def bad_int_array(x):
    z = np.arange(len(x))
    z[0] = np.mean(x)                   # BAD bad_int_array
    return z


def ok_index(x):                        # OK
    ix = np.zeros(len(x), dtype=int)
    ix[0] = np.floor(np.mean(x))
    return ix


def bad_power(x):
    return np.atleast_1d(x) ** -2       # BAD bad_power


def ok_default(x, h=None):              # OK
    x = np.atleast_1d(x)
    if h is None:
        h = np.zeros(x.shape)
    h = np.where(x > 0, h, 0.0)
    h[0] = 1.5
    return h


class A(object):
    def __init__(self, data):
        self.data = data

    def bad_method(self):
        d = np.atleast_1d(self.data).copy()
        d[0] = d.mean()                 # BAD A.bad_method
        return d

    def ok_method(self):                # OK
        d = np.atleast_1d(self.data).astype(float)
        d[0] = d.mean()
        return d


def bad_place(cond, x, f):
    out = np.full(np.shape(x), 0, dtype=np.asarray(x).dtype)
    np.place(out, cond, f(x))           # BAD bad_place
    return out


def ok_place(cond, x, f):               # OK
    out = np.full(np.shape(x), 0, dtype=np.result_type(float, x))
    np.place(out, cond, f(x))
    return out


def bad_fill_type(cond, x, f, fill=0):
    out = np.full(np.shape(x), fill)
    out[cond] = f(x)                    # BAD bad_fill_type
    return out


def bad_kind_in_variable(xi, f):
    arrays = np.broadcast_arrays(*xi)
    kind = np.result_type(*arrays)
    out = np.zeros(arrays[0].shape, kind)
    np.putmask(out, out == 0, f(*arrays))     # BAD bad_kind_in_variable
    return out


def ok_kind_in_variable(xi, f):         # OK
    arrays = np.broadcast_arrays(*xi)
    kind = np.result_type(float, *arrays)
    out = np.zeros(arrays[0].shape, kind)
    np.putmask(out, out == 0, f(*arrays))
    return out


def bad_typed_by_function(fun, x):
    y = fun(x)
    w = np.zeros(2 * len(y), dtype=y.dtype)
    w[::2] = y / 3                      # BAD bad_typed_by_function
    return w


def bad_out(x):
    y = np.array(x)
    np.sqrt(x, out=y)                   # BAD bad_out
    return y
