import copy


class A(object):
    def __init__(self, g=9.81, h=1.0):
        self.g = g
        self.h = h
        self.other = Other()

    def uses_g(self, x):                # OK
        return x * self.g

    def uses_g_and_h(self, x):          # BAD unused wafo.receiver:A.uses_g_and_h: g
        return x * self.other.g * self.h

    def _depth(self):
        return self.h

    def uses_h(self, x):                # OK
        return x + self._depth()


class Other(object):
    def __init__(self, p=1, q=2):
        self.g = p
        self.h = q

    def uses_h(self):                   # OK
        me = copy.copy(self)
        return me.h

    def uses_g(self):                   # OK
        return _gravity(self)

    def depth(self):
        return self.h


class B(A):
    def uses_h(self, x):                # BAD unused wafo.receiver:B.uses_h: h
        o = Other()
        return x + o.depth() + self.g

    def uses_g(self, x):                # OK
        return super(B, self).uses_g(x)


def _gravity(o):
    return o.g
