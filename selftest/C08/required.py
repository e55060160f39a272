def _fit(x, method, dist):
    return [method] + [dist] + x


def both_tails(x, method='ml', dist='genpareto'):       # BAD replaced wafo.required:both_tails -> wafo.required:_fit(method)
    low = _fit(x, 'ml', dist)
    return low, _fit(x, method, dist)


def one_tail(x, method='ml', dist='genpareto'):         # OK
    return _fit(x, method, dist=dist)


def by_case(x, method='ml', dist='genpareto'):          # OK
    if method == 'mps':
        return _fit(x, 'mps', dist)
    return _fit(x, method, dist)


def by_name(x, method='ml', dist='genpareto'):          # BAD replaced wafo.required:by_name -> wafo.required:_fit(dist)
    if dist is None:
        return x
    return _fit(x, method, dist='expon') + _fit(x, method, dist)
