import warnings
import numpy as np


def _assert_warn(cond, msg):
    if not cond:
        warnings.warn(msg)


def _tell(done, msg):
    if done:
        return
    raise ValueError(msg)


def ok_flag(f, x, tol, max_iter=10):           # OK
    for _i in range(max_iter):
        dx = f(x)
        x = x - dx
        converged = not np.any(np.abs(dx) > tol)
        if converged:
            break
    _assert_warn(converged, 'no')
    return x


def ok_else(f, x, tol, max_iter=10):           # OK
    for _i in range(max_iter):
        dx = f(x)
        x = x - dx
        if abs(dx) < tol:
            break
    else:
        warnings.warn('no')
    return x


def ok_return(f, x, tol, max_iter=10):         # OK
    for _i in range(max_iter):
        dx = f(x)
        x = x - dx
        if abs(dx) < tol:
            return x
    raise ValueError('no')


def ok_again(f, x, tol, max_iter=10):          # OK
    for _i in range(max_iter):
        dx = f(x)
        x = x - dx
        if abs(dx) < tol:
            break
    if abs(dx) >= tol:
        warnings.warn('no')
    return x


def ok_helper(f, x, tol, max_iter=10):         # OK
    i = 0
    done = False
    while i < max_iter and not done:
        i += 1
        dx = f(x)
        x = x - dx
        done = abs(dx) < tol
    _tell(done, 'no')
    return x


def ok_count(f, x, tol, maxit=10):             # OK
    count, dx = 0, 1
    while abs(dx) > tol and count < maxit:
        dx = f(x)
        x = x - dx
        count += 1
    _assert_warn(count < maxit, 'no')
    return x


def ok_forever(f, x, tol, maxit=10):           # OK
    k = 0
    while True:
        k += 1
        dx = f(x)
        x = x - dx
        if abs(dx) < tol:
            break
        if k >= maxit:
            warnings.warn('no')
            break
    return x


def _solve(f, x, tol, maxit=10):               # OK
    for _i in range(maxit):
        dx = f(x)
        x = x - dx
        converged = abs(dx) < tol
        if converged:
            break
    return x, converged


def ok_uses(f, x):                             # OK
    x, ok = _solve(f, x, 1e-3)
    if not ok:
        warnings.warn('no')
    return x


def bad_uses(f, x):
    x, ok = _solve(f, x, 1e-3)                 # BAD bad_uses: drops
    return x


def bad_none(f, x, tol, max_iter=10):          # BAD bad_none: iteration
    for _i in range(max_iter):
        dx = f(x)
        x = x - dx
        if abs(dx) < tol:
            break
    return x


def bad_option(f, x, tol, max_iter=10, verbose=False):    # BAD bad_option: iteration
    for _i in range(max_iter):
        dx = f(x)
        x = x - dx
        converged = abs(dx) < tol
        if converged:
            break
    if verbose:
        _assert_warn(converged, 'no')
    return x


def bad_never(f, x, tol, maxit=10):            # BAD bad_never: iteration
    for count in range(maxit):
        dx = f(x)
        x = x - dx
        if abs(dx) < tol:
            break
    _assert_warn(count < maxit, 'no')
    return x


def bad_other(f, x, tol, maxit=10):            # BAD bad_other: iteration
    for count in range(maxit):
        dx = f(x)
        x = x - dx
        converged = (abs(dx) < tol) | ~np.isfinite(x)
        if converged:
            break
    _assert_warn(np.isfinite(x), 'no')
    return x


def bad_forever(f, x, tol, maxit=10):          # BAD bad_forever: iteration
    k = 0
    while True:
        k += 1
        dx = f(x)
        x = x - dx
        if abs(dx) < tol:
            break
        if k >= maxit:
            break
    return x


def bad_reset(f, x, tol, maxit=10):            # BAD bad_reset: iteration
    converged = False
    for count in range(maxit):
        dx = f(x)
        x = x - dx
        converged = abs(dx) < tol
        if converged:
            break
    converged = converged or abs(x) < 1
    _assert_warn(converged, 'no')
    return x


def bad_budget(f, x, tol, maxiter=50):           # BAD bad_budget: budget
    calls = 0
    for k in range(maxiter):
        calls += 2 ** k
        new = f(x)
        done = abs(new - x) < tol or calls > 1000
        x = new
        if done:
            break
    else:
        warnings.warn('no convergence')
    return x


def ok_budget(f, x, tol, maxiter=50):            # OK
    calls = 0
    for k in range(maxiter):
        calls += 2 ** k
        new = f(x)
        err = abs(new - x)
        x = new
        if err < tol or calls > 1000:
            break
    if not err < tol:
        warnings.warn('no convergence')
    return x


def bad_budget_while(f, x, tol):                 # BAD bad_budget_while: budget
    done = False
    k = 0
    while not done:
        k += 1
        new = f(x)
        done = abs(new - x) < tol or k >= 100
        x = new
    return x
