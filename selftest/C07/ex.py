_KINDS = dict(a=1, b=2)


def _check(cond, msg):
    if not cond:
        raise ValueError(msg)


def ok_chain(x, kind='a'):            # OK
    if kind == 'a':
        return x
    elif kind == 'b':
        return -x
    raise ValueError(kind)


def ok_table(x, kind='a'):            # OK
    return x * _KINDS[kind]


def ok_checked(x, kind='a'):          # OK
    _check(kind in ('a', 'b'), 'kind')
    return x if kind == 'a' else -x


def ok_caught(x, kind='a'):           # OK
    try:
        n = _KINDS[kind.lower()]
    except KeyError:
        raise ValueError(kind)
    return n * x


def ok_delegate(x, kind='a'):         # OK
    if len(x) == 0:
        return x
    return ok_chain(x, kind=kind)


def ok_code_n(x, kind=1):             # OK
    if kind == 1:
        return x
    if kind in (2, 3):
        return -x
    raise NotImplementedError(kind)


def bad_else(x, kind='a'):            # BAD bad_else(kind)
    if kind == 'a':
        return x
    else:
        return -x


def bad_get(x, kind='a'):             # BAD bad_get(kind)
    return x * _KINDS.get(kind, 1)


def bad_caught(x, kind='a'):          # BAD bad_caught(kind)
    try:
        n = _KINDS[kind]
    except KeyError:
        n = 1
    return n * x


def bad_prefix(x, kind='a'):          # BAD bad_prefix(kind)
    if kind.startswith('a'):
        x = x + 1
    return x


def bad_delegate(x, kind='a'):        # BAD bad_delegate(kind)
    return bad_else(x, kind)


def bad_code_n(x, kind=1):            # BAD bad_code_n(kind)
    if kind == 1:
        return x
    return -x


class Freq(object):
    def __init__(self, kind='w'):
        self._k = kind

    @property
    def fkind(self):
        return self._k

    @fkind.setter
    def fkind(self, kind):
        if self._k == kind:
            return
        if kind not in ('w', 'f'):
            raise ValueError(kind)
        self._k = kind


class Loose(object):
    @property
    def lkind(self):
        return self._k

    @lkind.setter
    def lkind(self, kind):
        self._k = 'w' if kind == 'w' else 'f'


def ok_setter(x, kind='w'):           # OK
    fac = 2 if kind == 'f' else 1
    o = Freq()
    o.fkind = kind
    return o, fac * x


def bad_setter(x, kind='w'):          # BAD bad_setter(kind)
    fac = 2 if kind == 'f' else 1
    o = Loose()
    o.lkind = kind
    return o, fac * x


def bad_plain_attr(x, kind='w'):      # BAD bad_plain_attr(kind)
    fac = 2 if kind == 'f' else 1
    o = Freq()
    o.kind = kind
    return o, fac * x


def ok_dct_n(x, kind=2):              # OK
    from scipy.fftpack import dct
    y = x if kind != 1 else 2 * x
    return dct(y, kind)


def bad_dct_n(x, kind=2):             # BAD bad_dct_n(kind)
    from scipy.fftpack import dct
    return dct(x, kind if kind in (1, 2) else 3)
