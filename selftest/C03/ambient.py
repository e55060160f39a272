import time
import os
from time import time as now_s, perf_counter
from datetime import datetime
import datetime as dt


def b_1(x): return x + time.time()  # BAD wafo.ambient:b_1
def b_2(x): return x + now_s()  # BAD wafo.ambient:b_2
def b_3(x): return datetime.now().year + x  # BAD wafo.ambient:b_3
def b_4(x): return dt.datetime.now()  # BAD wafo.ambient:b_4
def b_5(x): return os.environ.get('WAFO', x)  # BAD wafo.ambient:b_5
def b_6(x): return os.getenv('WAFO') or x  # BAD wafo.ambient:b_6
def b_7(x): return x if os.environ['A'] else 0  # BAD wafo.ambient:b_7
def b_8(x): return hash(x) % 7  # BAD wafo.ambient:b_8
def b_9(x):  # BAD wafo.ambient:b_9
    t0 = perf_counter()
    while perf_counter() - t0 < 1:
        x = x / 2
    return x


def ok_1(x, time=0):  # OK
    return x + time


def ok_2(hash, x):  # OK
    return hash(x)


def ok_3(x):  # OK
    return os.path.join('a', x)
