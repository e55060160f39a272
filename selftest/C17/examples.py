from functools import partial

_KINDS = dict(a=1, b=2)
_NAMES = {'a': 'first', 'b': 'second', 1: 'first'}


def _check(cond, msg):
    if not cond:
        raise ValueError(msg)


def helper(x, flag):
    if flag == 'a':
        return x
    _check(flag in ('b', 'c'), 'flag')
    return -x


def swap(x, how):
    return x if how else -x


def ok_chain(x, kind='a'):            # OK
    """[['a'], ['b'], ['c']]"""
    if kind == 'a':
        return x
    elif kind in ('b', 'c'):
        return -x if kind == 'b' else x * x
    raise ValueError(kind)


def ok_table(x, kind='a'):            # OK
    """[['a'], ['b']]"""
    return x * _KINDS[kind]


def ok_alias(x, kind='a'):            # OK
    """[['a', 1], ['b']]"""
    name = _NAMES[kind]
    if name == 'first':
        return x
    return -x


def ok_prefix(x, kind='linear'):      # OK
    """[['linear'], ['cubic']]"""
    up = kind.lower().startswith('l')
    return swap(x, up)


def ok_delegate(x, kind='a'):         # OK
    """[['a'], ['b']]"""
    return helper(x, flag=kind)


def ok_dispatch(x, kind='a'):         # OK
    """[['a'], ['b']]"""
    def fa(x):
        return x

    def fb(x):
        return -x
    return {'a': fa, 'b': fb}[kind](x)


def ok_number(x, kind=1):             # OK
    """[[1], [2], [-1]]"""
    if not -1 <= kind <= 2:
        raise ValueError(kind)
    return x * 2. ** kind


def ok_mixed(x, kind='a'):            # OK
    """[['a'], ['b'], [None]]"""
    if kind is None:
        return x
    return (x > 0) != kind.startswith('b')


def ok_handed_on(x, f, kind='a'):     # OK
    """[['a'], ['b']]"""
    return f(x, kind=kind)


class ok_Store(object):
    def __init__(self, kind='a'):
        """[['a'], ['b']]"""
        self.kind = kind

    def use(self, x):
        return x if self.kind == 'a' else -x


def bad_typo(x, kind='a'):            # BAD bad_typo(kind='b') refused
    """[['a'], ['b']]"""
    if kind == 'a':
        return x
    if kind == 'bb':
        return -x
    raise ValueError(kind)


def bad_key(x, kind='c'):             # BAD bad_key(kind='c') refused
    """[['a'], ['b'], ['c']]"""
    return x * _KINDS[kind]


def bad_case(x, kind='Box'):          # BAD bad_case(kind='Box') refused
    """[['Box'], ['cos']]"""
    return {'b': x, 'c': -x}[kind[0]]


def bad_default(x, kind='uM'):        # BAD bad_default(kind='uM') refused
    """[['u'], ['m']]"""
    _check(kind in ('u', 'm'), kind)
    return x if kind == 'u' else -x


def bad_shadow(x, kind='a'):          # BAD bad_shadow(kind='b' and 'c') alike
    """[['a'], ['b'], ['c']]"""
    if kind == 'a':
        return x
    elif kind in ('b', 'c'):
        return -x
    raise ValueError(kind)


def bad_helper(x, kind='a'):          # BAD bad_helper(kind='b' and 'c') alike
    """[['a'], ['b'], ['c']]"""
    return helper(x, kind)


def bad_ignored(x, kind=1):           # BAD bad_ignored(kind=1 and 2) alike
    """[[1], [2]]"""
    if kind not in (1, 2):
        raise ValueError(kind)
    return x


def bad_entry(x, kind='a'):           # BAD bad_entry(kind='a' and 'b') alike
    """[['a'], ['b']]"""
    return x * {'a': 1, 'b': 1}[kind]


def bad_prefix(x, kind='cubic'):      # BAD bad_prefix(kind='cubic' and 'constant') alike
    """[['cubic'], ['constant']]"""
    if kind.startswith('c'):
        return x
    raise ValueError(kind)


def bad_alias(x, kind='gen'):         # BAD bad_alias(kind='gen' and 'genpareto') differ
    """[['gen', 'genpareto'], ['exp']]"""
    if kind == 'genpareto':
        return x
    if kind in ('gen', 'exp'):
        y = -x
        return y if kind == 'gen' else y * y
    raise ValueError(kind)


def bad_message(x, kind='a'):         # BAD bad_message(kind='a' and 'b') alike
    """[['a'], ['b']]"""
    _check(kind in ('a', 'b'), 'unknown %s' % kind)
    print('using {}'.format(kind))
    return x


class bad_Setter(object):             # BAD bad_Setter.__init__(kind=1 and 'a') differ
    # BAD (kind=1 and 2) alike
    # BAD (kind=1 and 'b') alike
    def __init__(self, kind='a'):
        """[[1, 'a'], [2, 'b']]"""
        self._kind = {1: 'b', 2: 'b', 'a': 'a', 'b': 'b'}[kind]

    def use(self, x):
        return x if self._kind == 'a' else -x


class bad_Unread(object):             # BAD bad_Unread.__init__(kind='a' and 'b') alike
    def __init__(self, kind='a'):
        """[['a'], ['b']]"""
        self._unread = kind

    @property
    def unread(self):
        return self._unread


def bad_same_branches(x, kind='a'):   # BAD bad_same_branches(kind='a' and 'b') alike
    """[['a'], ['b']]"""
    return x.transform('a' if kind == 'a' else 'a')


def ok_tested_late(x, kind='a'):            # OK
    """[['a'], ['b']]"""
    if len(x) == 0:
        return x
    if kind == 'a':
        return x + 1
    elif kind == 'b':
        return x + 2
    raise ValueError(kind)


def bad_tested_late(x, kind='a'):            # BAD bad_tested_late(kind='b') refused
    """[['a'], ['b']]"""
    if len(x) == 0:
        return x
    if kind == 'a':
        return x + 1
    elif kind == 'bb':
        return x + 2
    raise ValueError(kind)
