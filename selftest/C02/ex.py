import copy
import numpy as np


class Data(object):
    def __init__(self, data, args):
        self.data = data
        self.args = args
        self._scale = 1

    def copy(self):              # OK
        return copy.copy(self)

    def bad_write(self):         # BAD Data.bad_write changes self.data
        d = self.data.ravel()
        d[0] = 0
        return d

    def bad_copy(self):          # BAD Data.bad_copy changes self.data
        S = self.copy()
        S.data[0] = 0
        return S

    def bad_set(self, k):        # BAD Data.bad_set changes self._scale
        self._scale = k
        return self.data * k

    def _inner(self):
        self.args.sort()

    def bad_indirect(self):      # BAD Data.bad_indirect changes self.args
        self._inner()
        return self.args

    @property
    def scale(self):
        return self._scale

    @scale.setter
    def scale(self, k):          # BAD Data.scale@setter changes self.data
        self.data *= k
        self._scale = k

    @property
    def kind(self):
        return self._kind

    @kind.setter
    def kind(self, k):           # OK
        self._kind = k
        self.data = self.data * 2

    def ok_copy(self):           # OK
        S = self.copy()
        S.data = S.data.copy()
        S.data[0] = 0
        S.args = S.args * 2
        return S

    def ok_local(self):          # OK
        d = self.data * 1.0
        d[0] = 0
        d.shape = (-1, 1)
        return d
