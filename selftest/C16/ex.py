import numpy as np

__all__ = ['ok_select', 'missing_function']      # BAD export missing_function


def _check(cond, msg):
    if not cond:
        raise ValueError(msg)


def _fail(kind):
    if kind == 0:
        raise NotImplementedError(kind)
    else:
        raise ValueError(kind)


def bad_name(x):
    return squareroot(x)                         # BAD name squareroot


def bad_unbound(x, kind='a'):
    if kind == 'a':
        y = x + 1
    elif kind == 'b':
        y = x + 2
    return y                                     # BAD unbound y in wafo.ex:bad_unbound


def ok_select(x, kind='a'):                      # OK
    if kind not in ('a', 'b'):
        raise ValueError(kind)
    if kind == 'a':
        y = x + 1
    elif kind == 'b':
        y = x + 2
    return y


def ok_select2(x, kind='a'):                     # OK
    _check(kind in ('a', 'b'), 'kind')
    if kind == 'a':
        y = x + 1
    elif kind == 'b':
        y = x + 2
    return y


def ok_select3(x, kind=1):                       # OK
    if kind == 1:
        y = x
    elif kind == 11:
        y = -x
    else:
        _fail(kind)
    return y


def ok_numbers(x, nr=0):                         # OK
    if 0 <= nr <= 2:
        t = x + 1
    if nr == 0 or nr == 1:
        return t
    return x


def ok_flags(x, full=False):                     # OK
    if full:
        extra = x * 2
    y = x + 1
    if full:
        return y, extra
    return y


def bad_fall(x, p):                              # BAD falls through wafo.ex:bad_fall
    if p == 0:
        return x
    elif p == 1:
        return x * 2


def bad_count(x):                                # BAD results wafo.ex:bad_count
    x = np.atleast_1d(x)
    if x.size == 0:
        return np.zeros_like(x)
    return np.sin(x), np.cos(x)


def bad_call(x):
    return ok_flags(x, whole=True)               # BAD call ok_flags


def bad_call2(x):
    return np.linspace(0, 1, 5, endpont=False)   # BAD call numpy.linspace


def bad_attr(x):
    return np.squareroot(x)                      # BAD attribute numpy.squareroot


def bad_unpack(x):
    a, b, c = ok_pair(x)                         # BAD unpack ok_pair
    return a + b + c


def ok_pair(x):                                  # OK
    return np.sin(x), np.cos(x)


def bad_msg(x):
    raise ValueError('x = %d of %d' % (x,))      # BAD message


class A(object):
    def __init__(self, n):
        self.n = n

    def size(self):                              # OK
        return self.n

    def bad(self):
        return self.m                            # BAD attribute m in wafo.ex:A.bad

    def bad2(self):
        return self.sise()                       # BAD attribute sise


def ok_loop(xs):                                 # OK
    for x in xs:
        last = x
    return last


def ok_try(x):                                   # OK
    try:
        y = float(x)
    except ValueError:
        y = 0.0
    return y


def bad_try(x):
    try:
        y = float(x)
    except ValueError:
        pass
    return y                                     # BAD unbound y in wafo.ex:bad_try


def bad_results_early(a, b):                     # BAD results wafo.ex:bad_results_early
    if np.any(a == b):
        q = b - a
        return q
    q, err = divmod(a, b)
    return q, err


def ok_results_held(a, b):                       # OK
    if np.any(a == b):
        q = b - a, 0
        return q
    q, err = divmod(a, b)
    return q, err


def bad_message(x):
    k = np.flatnonzero(x)
    return 'found %s in %s' % k                  # BAD message 'found %s in %s'


def ok_message(x):                               # OK
    k = (x, 2)
    return 'found %s in %s' % k
