"""Parameters with and without effect, options handed on and dropped."""
import warnings
import numpy as np


def plain(x, scale=1.0):          # OK
    return scale * x


def unread(x, scale=1.0):         # BAD unused wafo.idioms:unread(scale)
    return x


def overwritten(x, scale=1.0):    # BAD unused wafo.idioms:overwritten(scale)
    scale = 2.0
    return scale * x


def only_defaulted(x, dt=None):   # BAD unused wafo.idioms:only_defaulted(dt)
    if dt is None:
        dt = 1.0
    return x


def only_checked(x, n=3):         # BAD unused wafo.idioms:only_checked(n)
    if n < 0:
        raise ValueError('n must be positive')
    return x


def only_told(x, n=3):            # BAD unused wafo.idioms:only_told(n)
    if n > 10:
        warnings.warn('n is large: %d' % n)
    return x


def dead_local(x, w=None):        # BAD unused wafo.idioms:dead_local(w)
    y = 2 * w
    z = y + 1                     # noqa
    return x


def chooses(x, kind='a'):         # OK control dependence
    if kind == 'a':
        return x
    return -x


def stops(x, tol=1e-3):           # OK number of rounds
    for i in range(100):
        y = 0.5 * (x + 2 / x)
        done = abs(x - y) < tol
        x = y
        if i > 2:
            if done:
                break
    return x


def loop_limit(x, n=10):          # OK
    s = 0
    while s < n:
        s = s + x
    return s


def fills(x, value=0.0):          # OK written into an array
    y = np.zeros(len(x))
    y[1:] = value
    return y


def fills_alias(x, value=0.0):    # OK through another name
    y = np.zeros(len(x))
    z = y[1:]
    z[:] = value
    return y


def closure(x, a=1):              # OK
    def f(t):
        return t + a
    return f(x)


def lam(x, a=1):                  # OK
    return sorted(x, key=lambda t: t * a)


def comp(x, a=1):                 # OK
    return [a * t for t in x]


def table(x, kind='a'):           # OK
    return {'a': plain, 'b': fills}[kind](x)


def kw(x, **kwds):
    return plain(x, **kwds)


def opts(x, scale=2.0):           # OK handed on in a dictionary
    d = dict(scale=scale)
    return plain(x, **d)


def seeds(n, iseed=None):         # OK an effect outside
    np.random.seed(iseed)
    return np.random.rand(n)


def raises_only(x, n=3):          # abstract
    raise NotImplementedError


def helper_ignores(x, level=0):   # BAD unused wafo.idioms:helper_ignores(level)
    return x + 1


def through_helper(x, height=0):  # BAD unused wafo.idioms:through_helper(height)
    return helper_ignores(x, height)


def in_branch(x, method='a', dt=1.0):        # BAD unused wafo.idioms:in_branch(dt) with method='b'
    if method == 'a':
        return x * dt
    elif method == 'b':
        return x
    raise ValueError(method)


def in_branch_none(x, w=None, n=5):          # BAD unused wafo.idioms:in_branch_none(x) with w=given
    if w is None:
        return x * n
    return w * n


def flag(x, full=False, h=0.5):              # BAD unused wafo.idioms:flag(h) with full=True
    y = x if full else x * h
    return y


def drops(x, scale=3.0):                     # BAD dropped wafo.idioms:drops -> wafo.idioms:plain(scale)
    return plain(x) + scale


def replaces(x, scale=3.0):                  # BAD replaced wafo.idioms:replaces -> wafo.idioms:plain(scale)
    return plain(x, scale=1.0) + scale


def replaces_positional(x, scale=3.0):       # BAD replaced wafo.idioms:replaces_positional -> wafo.idioms:plain(scale)
    return plain(x, 2.0) + scale


def replaces_external(x, axis_=3, rtol=0.1):  # BAD replaced wafo.idioms:replaces_external -> numpy.allclose(rtol)
    return np.allclose(x, axis_, rtol=0.5) + rtol


def hands_on(x, scale=3.0):                  # OK
    return plain(x, scale=0.5 * scale)


def hands_on_default(x, scale=None):         # OK
    if scale is None:
        return plain(x)
    return plain(x, scale)


def hands_on_derived(x, scale=None):         # OK
    s = 1.0 if scale is None else scale
    return plain(x, s)


class Model(object):
    def __init__(self, x, scale=1.0, extra=None):     # BAD unused wafo.idioms:Model.__init__(extra)
        self.x = x
        self.scale = scale
        self.extra_never_used = extra

    def value(self):                         # OK
        return plain(self.x, self.scale)

    def other(self):                         # BAD dropped wafo.idioms:Model.other -> wafo.idioms:plain(scale)
        return plain(self.x)

    def fixed(self):                         # BAD replaced wafo.idioms:Model.fixed -> wafo.idioms:plain(scale)
        return plain(np.arange(3), scale=4)

    def local(self):                         # OK
        s = self.scale
        return plain(self.x, s)

    def nested(self):                        # OK
        return [plain(t, scale=self.scale) for t in self.x]


class Base(object):
    def pdf(self, x, n=2):                   # OK: a subclass uses n
        return x


class Sub(Base):
    def pdf(self, x, n=2):
        return x * n


def attribute_of_result(x, h=1.0):           # OK
    m = Model(x)
    m.h = h
    return m


def list_append(x, a=0):                     # OK
    out = []
    for t in x:
        out.append(t + a)
    return out


def out_arg(x, a=0):                         # OK
    y = np.empty(len(x))
    np.add(x, a, out=y)
    return y


def try_except(x, a=0):                      # OK
    try:
        y = x / a
    except ZeroDivisionError:
        y = 0
    return y


def gen(x, a=0):                             # OK
    for t in x:
        yield t + a


def loc(x, a=0):                             # OK
    return '%(a)s %(x)s' % locals()


def mutate_helper(d, key):                   # OK: documented change of d
    d[key] = 1


def via_mutation(x, key='a'):                # OK
    d = {}
    mutate_helper(d, key)
    return d, x


def open_handed(x, method='clib'):           # OK
    if method == 'clib':
        return plain(x)
    return np.percentile(x, 50, method=method)


def open_lost(x, method='clib'):             # BAD unused wafo.idioms:open_lost(method) beyond the named values
    if method == 'clib':
        return plain(x)
    return np.percentile(x, 50)


def open_refused(x, method='clib'):          # OK
    if method == 'clib':
        return plain(x)
    raise ValueError(method)


def one_of_two(x, method='linear'):          # BAD dropped wafo.idioms:one_of_two -> percentile(method)
    a = np.percentile(x, 25, method=method)
    return np.percentile(x, 75) - a


def two_of_two(x, method='linear'):          # OK
    a = np.percentile(x, 25, method=method)
    return np.percentile(x, 75, method=method) - a


class Taker(object):
    def __init__(self, x, **kwds):
        self.mean = kwds.pop('mean', 0.0)
        self.data = x - self.mean
        self.kids = []

    def total(self, weight=1.0):             # BAD dropped wafo.idioms:Taker.total -> wafo.idioms:Taker.total(weight)
        return weight * sum(c.total() for c in self.kids) + self.data


def takes(x, mean=0.0):                      # OK
    return Taker(x, mean=mean)


def takes_later(x, mean=0.0):                # OK
    t = Taker(x)
    t.mean = mean
    return t


def takes_not(x, mean=0.0):                  # BAD dropped wafo.idioms:takes_not -> wafo.idioms:Taker.__init__(mean)
    return Taker(x), mean
