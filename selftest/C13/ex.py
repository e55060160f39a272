import itertools

LIMIT = 50


def ok_count(x, limit=10):                       # OK
    i = 0
    while i < limit and x > 1:
        x = x / 2
        i += 1
    return x


def ok_swapped(x, limit=10):                     # OK
    i, done = 0, False
    while not (done or limit <= i):
        i, x = i + 1, x / 2
        done = x < 1
    return x


def ok_break(x):                                 # OK
    n = 0
    while True:
        x = x / 2
        n = n + 1
        if n >= LIMIT:
            break
    return x


def ok_continue(y):                              # OK
    i = 0
    while i < len(y):
        v = y[i]
        i += 1
        if v < 0:
            continue
        y = y + 0
    return i


def bad_continue(y):                             # BAD bad_continue
    i = 0
    while i < len(y):
        if y[i] < 0:
            continue
        i += 1
    return i


def bad_branch(y, tol):                          # BAD bad_branch
    i, err = 0, 1.0
    while i < 10:
        err = err / 2
        if err > tol:
            i += 1
    return err


def bad_converge(f, x, tol):                     # BAD bad_converge
    err = 1.0
    while err > tol:
        xn = f(x)
        err = abs(xn - x)
        x = xn
    return x


def bad_or(f, x, tol):                           # BAD bad_or
    i, err = 0, 1.0
    while err > tol or i < 10:
        err = f(x)
        i += 1
    return err


def bad_moving(y):                               # BAD bad_moving
    i = 0
    n = len(y)
    while i < n:
        i += 1
        if y.has(i):
            n += 1
    return i


def bad_step(x, dx):                             # BAD bad_step
    while x < 10:
        x += dx
    return x


def bad_reset(y):                                # BAD bad_reset
    k = 0
    while k < 10:
        k += 1
        if y[k] > 0:
            k = 0
    return k


def ok_halve(h):                                 # OK
    k = 1.0
    while k > 1e-8:
        k /= 2
    return k * h


def bad_halve(h):                                # BAD bad_halve
    k = 1.0
    while k > 0.0 and h(k) or k >= 0:
        k /= 2
    return k


def ok_names(names):                             # OK
    names = list(names)
    while len(names) > 0:
        print(names[:2])
        names = names[2:]


def ok_pop(st):                                  # OK
    st = list(st)
    while st:
        st.pop()


def bad_pop(st, f):                              # BAD bad_pop
    st = list(st)
    while st:
        x = st.pop()
        if x:
            st.append(f(x))


def bad_endless(x):                              # BAD bad_endless
    for k in itertools.count():
        x = x / 2
        if x < 1e-3:
            break
    return x


def ok_endless(x, maxit=5):                      # OK
    for k in itertools.count():
        x = x / 2
        if x < 1e-3 or k >= maxit:
            break
    return x


def bad_extend(items):                           # BAD bad_extend
    items = list(items)
    for it in items:
        if it:
            items.append(it)
    return items


def ok_fact(n):                                  # OK
    return 1 if n <= 1 else n * ok_fact(n - 1)


def bad_rec(x, tol):                             # BAD bad_rec
    if x < tol:
        return x
    return bad_rec(x * 0.5 + tol, tol)


def ok_two(y):                                   # OK
    lo, hi = 0, len(y)
    while lo < hi:
        if y[lo] > 0:
            lo += 1
        else:
            lo += 1
            hi -= 1
    return lo
