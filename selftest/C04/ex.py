import os
import warnings
import numpy as np


def bad_err(x):
    np.seterr(all='ignore')              # BAD wafo.ex:bad_err: numpy error handling
    return np.log(x)


def ok_err(x):                           # OK
    with np.errstate(all='ignore'):
        return np.log(x)


def ok_err2(x):                          # OK
    old = np.seterr(all='ignore')
    try:
        return np.log(x)
    finally:
        np.seterr(**old)


def bad_filter(x):
    warnings.simplefilter('ignore')      # BAD wafo.ex:bad_filter: warning filters
    return x


def ok_filter(x):                        # OK
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return x


def bad_env(x):
    os.environ['X'] = x                  # BAD wafo.ex:bad_env: environment
    e = os.environ
    return e


def bad_file(x):
    with open('log.txt', 'w') as f:      # BAD wafo.ex:bad_file: files
        f.write(x)


def bad_print(x):
    opts = np.set_printoptions
    opts(precision=x)                    # BAD wafo.ex:bad_print: numpy print options
