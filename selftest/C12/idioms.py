"""Exception handlers."""
import contextlib
import warnings
import numpy as np
try:
    import something_optional
except ImportError:                    # OK
    something_optional = None


def compute(x):
    return 1 / x


def silent(x):
    try:
        return compute(x)
    except Exception:                  # BAD wafo.idioms:silent: except Exception around compute
        return 0


def silent_pass(x):
    y = 0
    try:
        y = np.linalg.inv(x)
    except np.linalg.LinAlgError:      # BAD wafo.idioms:silent_pass: except LinAlgError around inv
        pass
    return y


def silent_bare(x):
    try:
        y = compute(x)
    except:                            # BAD wafo.idioms:silent_bare: except * around compute
        y = None
    return y


def silent_loop(xs):
    out = []
    for x in xs:
        try:
            out.append(compute(x))
        except ZeroDivisionError:      # BAD wafo.idioms:silent_loop: except ZeroDivisionError around append, compute
            continue
    return out


def told(x):                           # OK
    try:
        return compute(x)
    except Exception as e:
        warnings.warn(str(e))
        return 0


def told_sometimes(x, verbose=False):
    try:
        return compute(x)
    except ZeroDivisionError:          # BAD wafo.idioms:told_sometimes: except ZeroDivisionError around compute
        if verbose:
            warnings.warn('no')
        return 0


def reraised(x):                       # OK
    try:
        return compute(x)
    except Exception as e:
        raise ValueError(str(e))


def reraised_branches(x):              # OK
    try:
        return compute(x)
    except Exception as e:
        if x is None:
            raise TypeError('x')
        raise ValueError(str(e))


def reraised_not(x):
    try:
        return compute(x)
    except Exception as e:             # BAD wafo.idioms:reraised_not: except Exception around compute
        if x is None:
            return 0
        raise ValueError(str(e))


def marked(x):                         # OK
    try:
        y = compute(x)
    except ZeroDivisionError:
        y = np.nan
    return y


def asked(d, k):                       # OK
    try:
        return d[k]
    except KeyError:
        return None


def asked_much(d, k):
    try:
        return compute(d[k])
    except KeyError:                   # BAD wafo.idioms:asked_much: except KeyError around compute
        return None


def suppressed(x):
    with contextlib.suppress(ValueError):      # BAD wafo.idioms:suppressed: suppress(ValueError)
        return compute(x)


def final(x):
    try:
        y = compute(x)
    finally:
        return 0                       # BAD wafo.idioms:final: return in finally


def cleaned(x, f):                     # OK
    try:
        y = compute(x)
    finally:
        f.close()
    return y


def tell(e):
    warnings.warn(str(e))


def told_by_helper(x):                 # OK
    try:
        return compute(x)
    except Exception as e:
        tell(e)
        return 0


def fail(e):
    raise ValueError(str(e))


def raised_by_helper(x):               # OK
    try:
        return compute(x)
    except Exception as e:
        fail(e)
