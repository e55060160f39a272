import functools
import warnings
from collections import OrderedDict
from enum import Enum


class Kind(Enum):
    A = 'a'
    B = 'b'


_TAB = {'a': 1, 'b': 2}
_VALID = ('a', 'b')
_NAMES = ['a', 'b', 'c']
_SET = frozenset(['a', 'b'])
_FUNS = OrderedDict([('a', abs), ('b', len)])
_DISPATCH = {}
_DISPATCH['a'] = abs
_DISPATCH['b'] = len


def _fa(x):
    return x


def _fb(x):
    return -x


def _validate(value, allowed):
    if value not in allowed:
        raise ValueError('%s not in %s' % (value, allowed))
    return value


def _complain(kind):
    raise ValueError('unknown %s' % kind)


def _warn(kind):
    warnings.warn('unknown %s' % kind)


def _lookup(kind):
    return {'a': _fa, 'b': _fb}[kind]


def _soft(kind):
    return {'a': _fa, 'b': _fb}.get(kind)


def _first(kind):
    return 'a' if kind.startswith('a') else 'b'


def ok_validate(x, kind='a'):            # OK
    _validate(kind, _VALID)
    return x if kind == 'a' else -x


def ok_validated_value(x, kind='a'):            # OK
    kind = _validate(kind.lower(), ('a', 'b'))
    if kind == 'a':
        return x
    return -x


def ok_complain(x, kind='a'):            # OK
    if kind == 'a':
        y = x
    elif kind == 'b':
        y = -x
    else:
        _complain(kind)
    return y


def ok_lookup(x, kind='a'):            # OK
    return _lookup(kind)(x)


def ok_none_called(x, kind='a'):            # OK
    fun = _soft(kind)
    return fun(x)


def ok_none_checked(x, kind='a'):            # OK
    fun = _TAB.get(kind)
    if fun is None:
        raise ValueError(kind)
    return fun * x


def ok_none_checked2(x, kind='a'):            # OK
    fun = _soft(kind)
    if not fun:
        raise ValueError(kind)
    return fun(x)


def ok_assert(x, kind='a'):            # OK
    assert kind in ('a', 'b'), 'unknown'
    return x if kind == 'a' else -x


def ok_index(x, kind='a'):            # OK
    return x * _NAMES.index(kind)


def ok_frozen(x, kind='a'):            # OK
    if kind not in _SET:
        raise ValueError(kind)
    return x if kind == 'a' else -x


def ok_first_letter(x, kind='a'):            # OK
    k = kind[0].lower()
    if k == 'a':
        return x
    if k == 'b':
        return -x
    raise ValueError(kind)


def ok_first_table(x, kind='a'):            # OK
    return dict(a=_fa, b=_fb)[kind[:1]](x)


def ok_loop(x, kind='a'):            # OK
    for name, f in (('a', _fa), ('b', _fb)):
        if kind == name:
            return f(x)
    raise ValueError(kind)


def ok_getattr(x, kind='a'):            # OK
    return getattr(x, '_do_' + kind)()


def ok_flag(x, kind='a'):            # OK
    known = kind in _VALID
    if not known:
        raise ValueError(kind)
    return x if kind == 'a' else -x


def ok_flags(x, kind='a'):            # OK
    is_a = kind == 'a'
    is_b = kind == 'b'
    if is_a:
        return x
    if is_b:
        return -x
    raise ValueError(kind)


def ok_number(x, kind='a'):            # OK
    code = {'a': 1, 'b': 2}.get(kind, 0)
    if code == 0:
        raise ValueError(kind)
    return x * code


def ok_minus(x, kind='a'):            # OK
    code = {'a': 1, 'b': 2}.get(kind, -1)
    if code < 0:
        raise ValueError(kind)
    return x * code


def ok_none_default(x, kind=None):            # OK
    if kind is None:
        kind = 'a'
    if kind == 'a':
        return x
    elif kind == 'b':
        return -x
    raise ValueError(kind)


def ok_caught_all(x, kind='a'):            # OK
    try:
        return _TAB[kind] * x
    except (KeyError, TypeError) as e:
        raise ValueError(kind) from e


def ok_module_dispatch(x, kind='a'):            # OK
    return _DISPATCH[kind](x)


def ok_match(x, kind='a'):            # OK
    match kind:
        case 'a':
            return x
        case 'b' | 'c':
            return -x
        case _:
            raise ValueError(kind)


def ok_match2(x, kind='a'):            # OK
    match kind.lower():
        case 'a':
            y = x
        case 'b':
            y = -x
        case other:
            raise ValueError(other)
    return y


def ok_inner(x, kind='a'):            # OK
    def pick():
        if kind == 'a':
            return 1
        if kind == 'b':
            return 2
        raise ValueError(kind)
    return x * pick()


def ok_class(x, kind='a'):            # OK
    return Holder(kind).run(x)


def ok_range_n(x, kind=1):            # OK
    if not (0 < kind < 3):
        raise ValueError(kind)
    return x * kind


def ok_range2_n(x, kind=1):            # OK
    if kind < 1 or kind > 2:
        raise ValueError(kind)
    return [None, _fa, _fb][kind](x)


def ok_range3_n(x, kind=1):            # OK
    if kind not in range(1, 3):
        raise ValueError(kind)
    return [None, _fa, _fb][kind](x)


def ok_dict_n(x, kind=1):            # OK
    return {1: _fa, 2: _fb}[kind](x)


def ok_prefixes(x, kind='a'):            # OK
    if not kind.startswith(('a', 'b')):
        raise ValueError(kind)
    return x if kind.startswith('a') else -x


def ok_any(x, kind='a'):            # OK
    if not any(kind == k for k in _VALID):
        raise ValueError(kind)
    return x if kind == 'a' else -x


def ok_enum(x, kind='a'):            # OK
    k = Kind(kind)
    return x if k is Kind.A else -x


class Holder(object):
    def __init__(self, kind):
        if kind not in _VALID:
            raise ValueError(kind)
        self.kind = kind

    def run(self, x):
        return x if self.kind == 'a' else -x


def bad_warn(x, kind='a'):            # BAD bad_warn(kind)
    if kind == 'a':
        y = x
    elif kind == 'b':
        y = -x
    else:
        _warn(kind)
        y = x
    return y


def bad_soft(x, kind='a'):            # BAD bad_soft(kind)
    fun = _soft(kind) or _fa
    return fun(x)


def bad_soft2(x, kind='a'):            # BAD bad_soft2(kind)
    fun = _soft(kind)
    if fun is None:
        fun = _fb
    return fun(x)


def bad_first(x, kind='a'):            # BAD bad_first(kind)
    return x if _first(kind) == 'a' else -x


def bad_ifexp(x, kind='a'):            # BAD bad_ifexp(kind)
    f = _fa if kind == 'a' else _fb
    return f(x)


def bad_none(x, kind='a'):            # BAD bad_none(kind)
    if kind == 'a':
        return x
    elif kind == 'b':
        return -x


def bad_half(x, kind='a'):            # BAD bad_half(kind)
    y = 0
    if kind == 'a':
        y = x
    elif kind == 'b':
        y = -x
    return y


def bad_loop(x, kind='a'):            # BAD bad_loop(kind)
    for name, f in (('a', _fa), ('b', _fb)):
        if kind == name:
            return f(x)
    return x


def bad_setdefault(x, kind='a'):            # BAD bad_setdefault(kind)
    return dict(a=1, b=2).setdefault(kind, 1) * x


def bad_default_table(x, kind='a'):            # BAD bad_default_table(kind)
    n = _TAB[kind] if kind in _TAB else 1
    return n * x


def bad_caught_pass(x, kind='a'):            # BAD bad_caught_pass(kind)
    n = 1
    try:
        n = _TAB[kind]
    except KeyError:
        pass
    return n * x


def bad_caught_check(x, kind='a'):            # BAD bad_caught_check(kind)
    try:
        _validate(kind, _VALID)
    except ValueError as e:
        warnings.warn(str(e))
    return x if kind == 'a' else -x


def bad_cond_check(x, kind='a', strict=True):            # BAD bad_cond_check(kind)
    if strict:
        _validate(kind, _VALID)
    return x if kind == 'a' else -x


def bad_late(x, kind='a'):            # BAD bad_late(kind)
    if len(x) > 3 and kind not in _VALID:
        raise ValueError(kind)
    return x if kind == 'a' else -x


def bad_or(x, kind='a'):            # BAD bad_or(kind)
    kind = kind if kind in ('a', 'b') else 'a'
    return x if kind == 'a' else -x


def bad_getattr(x, kind='a'):            # BAD bad_getattr(kind)
    return getattr(x, '_do_' + kind, x.copy)()


def bad_match(x, kind='a'):            # BAD bad_match(kind)
    match kind:
        case 'a':
            return x
        case _:
            return -x


def bad_match2(x, kind='a'):            # BAD bad_match2(kind)
    y = x
    match kind:
        case 'a':
            y = x
        case 'b':
            y = -x
    return y


def bad_range_n(x, kind=1):            # BAD bad_range_n(kind)
    if kind > 2:
        raise ValueError(kind)
    return [None, _fa, _fb][kind](x)


def bad_range2_n(x, kind=1):            # BAD bad_range2_n(kind)
    if kind < 1:
        raise ValueError(kind)
    return x if kind == 1 else -x


def bad_clip_n(x, kind=1):            # BAD bad_clip_n(kind)
    kind = min(max(kind, 1), 2)
    return [None, _fa, _fb][kind](x)


def bad_index(x, kind='a'):            # BAD bad_index(kind)
    return x * 'abc'.find(kind)


def bad_inner(x, kind='a'):            # BAD bad_inner(kind)
    def pick():
        if kind == 'a':
            return 1
        return 2
    return x * pick()


def bad_lambda(x, kind='a'):            # BAD bad_lambda(kind)
    pick = lambda: 1 if kind == 'a' else 2
    return x * pick()


def bad_bool(x, kind='a'):            # BAD bad_bool(kind)
    return x * (kind == 'a') - x * (kind != 'a')


def bad_flag(x, kind='a'):            # BAD bad_flag(kind)
    is_a = kind == 'a'
    return x if is_a else -x


def bad_class(x, kind='a'):            # BAD bad_class(kind)
    return Loose(kind).run(x)


class Loose(object):
    def __init__(self, kind):
        self.kind = kind

    def run(self, x):
        if self.kind == 'a':
            return x
        return -x


def bad_partial(x, kind='a'):            # BAD bad_partial(kind)
    return functools.partial(bad_ifexp, kind=kind)(x)


def bad_kwargs(x, kind='a'):            # BAD bad_kwargs(kind)
    opts = dict(kind=kind)
    return bad_ifexp(x, **opts)


def bad_next(x, kind='a'):            # BAD bad_next(kind)
    f = next((f for n, f in (('a', _fa), ('b', _fb)) if n == kind), _fa)
    return f(x)


def bad_bool_index(x, kind='a'):            # BAD bad_bool_index(kind)
    return (_fa, _fb)[kind == 'a'](x)


def bad_in_str(x, kind='a'):            # BAD bad_in_str(kind)
    return x if kind in 'ab' else -x


class ok_Kwds(object):                # OK
    def __init__(self, x, **kwds):
        self.x = x
        self.kind = kwds.pop('kind', 'a')
        if self.kind not in ('a', 'b'):
            raise ValueError(self.kind)


class ok_Dict(object):                # OK
    def __init__(self, x, **kwds):
        self.__dict__.update(kwds)
        if self.kind not in ('a', 'b'):
            raise ValueError(self.kind)


class bad_Kwds(object):                # BAD bad_Kwds.__init__(**kind)
    def __init__(self, x, **kwds):
        self.x = x
        self.kind = kwds.pop('kind', 'a')


class bad_Dict(object):                # BAD bad_Dict.__init__(**kind)
    def __init__(self, x, **kwds):
        self.__dict__.update(kwds)
        if self.kind == 'a':
            self.x = x
        else:
            self.x = -x


def ok_handed_on(x, f, kind='a'):            # OK
    return f(x, kind)


def bad_not_looked_at(x, kind='a'):            # BAD bad_not_looked_at(kind)
    print(x)
    return x


class ok_Table(object):
    def __init__(self, x):
        self.table = {'a': x, 'b': -x}

    def ok_table_of_init(self, x, kind='a'):            # OK
        return self.table[kind] + x

    def bad_table_of_init(self, x, kind='a'):            # BAD bad_table_of_init(kind)
        return self.table.get(kind, x)
