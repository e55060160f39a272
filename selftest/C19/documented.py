"""docstrings as specification"""
import numpy as np

_SIZE = 12


def names(data, n=5):                     # BAD refused wafo.documented:names(size)
    """
    Parameters
    ----------
    data : array
        values
    size : int
        how many
    """
    return data[:n]


def defaults(data, n=5, rel=0.1, kind='a', size=_SIZE, m=None, point=(0, 0), lim=np.inf):     # OK
    """
    Parameters
    ----------
    data : array
    n : int
        how many (default 5)
    rel, size : scalars
        tolerance and size (default rel=0.1, size=12)
    kind : string
        'a' : the first (default)
        'b' : the second
    m : int
        (default 3)
    point : default [0, 0]
    lim : scalar
        default is inf.
    """
    if m is None:
        m = 3
    return data, n, rel, kind, size, m, point, lim


def other_number(data, n=6):              # BAD default wafo.documented:other_number(n)
    """
    Parameters
    ----------
    n : int
        how many (default 5)
    """
    return data[:n]


def other_item(data, kind='b'):           # BAD default wafo.documented:other_item(kind)
    """
    Parameters
    ----------
    data : array
    kind : string
        'a' : the first (default)
        'b' : the second
    """
    return data, kind


def other_of_two(data, abseps=0, releps=1e-4):     # BAD default wafo.documented:other_of_two(releps)
    """
    Parameters
    ----------
    abseps, releps : scalars
        tolerances (default abseps=0, releps=1e-3)
    """
    return data, abseps, releps


def placeholder(data, m=None):            # BAD default wafo.documented:placeholder(m)
    """
    Parameters
    ----------
    m : int, optional
        (default 3)
    """
    if m is None:
        m = 4
    return data, m


def computed(data, m=None):               # OK
    """
    Parameters
    ----------
    m : int
        (default 3 for short data)
    n : int
        (default len(data))
    """ if False else None
    return data, m


def must(data, n):                        # BAD required wafo.documented:must(n)
    """
    Parameters
    ----------
    n : int
        how many (default 5)
    """
    return data[:n]


def by_key(data, **kwds):                 # BAD default wafo.documented:by_key(n)
    """
    Parameters
    ----------
    n : int
        how many (default 5)
    """
    n = kwds.pop('n', 4)
    return data[:n]


def other_key(data, **kwds):              # BAD refused wafo.documented:other_key(size)
    """
    Parameters
    ----------
    size : int
        how many
    """
    n = kwds.pop('n', 4)
    return data[:n]


def _target(data, n=5, size=2):
    return data[:n], size


def handed(data, **kwds):                 # OK
    """
    Parameters
    ----------
    n : int
        how many (default 5)
    size : int
        (default 2)
    """
    return _target(data, **kwds)


def handed_other(data, **kwds):           # BAD default wafo.documented:handed_other(n)
    """
    Parameters
    ----------
    n : int
        how many (default 7)
    """
    return _target(data, **kwds)


def handed_unknown(data, **kwds):         # BAD refused wafo.documented:handed_unknown(step)
    """
    Parameters
    ----------
    step : int
        which
    """
    return _target(data, **kwds)


def handed_away(data, **kwds):            # OK
    """
    Parameters
    ----------
    step : int
        which
    """
    return np.sum(data, **kwds)


def two_values(data):                     # OK
    """
    Returns
    -------
    mean : float
    std : float
    """
    mean = np.mean(data)
    std = np.std(data)
    return mean, std


def swapped(data):                        # BAD order wafo.documented:swapped
    """
    Returns
    -------
    mean : float
    std : float
    """
    mean = np.mean(data)
    std = np.std(data)
    return std, mean


def three_values(data):                   # BAD returns wafo.documented:three_values
    """
    Returns
    -------
    mean : float
    std : float
    """
    return np.mean(data), np.std(data), len(data)


def on_request(data, full=False):         # OK
    """
    Returns
    -------
    mean, std : float
    n : int
        number, if full is True
    """
    mean, std = np.mean(data), np.std(data)
    if full:
        return mean, std, len(data)
    return mean, std


def the_same_twice(data):                 # OK
    """
    Returns
    -------
    low, high : float
    """
    low = np.min(data)
    return low, low


class Documented(object):                 # BAD member wafo.documented:Documented.size
    """
    Parameters
    ----------
    data : array
    x : array
        what it is called with

    Members
    -------
    n : int
    size : int

    Methods
    -------
    total() : the sum
    """

    def __init__(self, data):
        self.data = data
        self.n = len(data)

    def total(self):
        return np.sum(self.data)

    def __call__(self, x):
        return x


class Settings(object):
    def __init__(self, **kwds):           # BAD default wafo.documented:Settings.__init__(nit)
        """
        Parameters
        ----------
        nit : int
            (default 1000)
        eps : scalar
            (default 1e-3)
        """
        self.nit = 100
        self.eps = 1e-3
        self.__dict__.update(kwds)

    def product(self):
        return self.nit * self.eps
