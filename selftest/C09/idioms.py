"""Objects that are converted into each other."""
import copy
import numpy as np


def empty_copy(obj):
    class Empty(obj.__class__):
        def __init__(self):
            pass
    new = Empty()
    new.__class__ = obj.__class__
    return new


def sub_dict_select(somedict, somekeys):
    return dict((k, somedict[k]) for k in set(somekeys).intersection(somedict))


class Base(object):
    def __init__(self, data=None, args=None, **kwds):
        """keep plotter"""
        self.data = data
        self.args = args
        self.plotter = kwds.pop('plotter', None)

    def copy(self):
        """carry data=self.data args=self.args"""
        c = empty_copy(self)                       # OK
        c.__dict__.update(self.__dict__)
        return c


class Cov(Base):
    def __init__(self, *args, **kwds):
        """keep tr h norm lagtype"""
        super(Cov, self).__init__(*args, **kwds)   # OK
        self.tr = None
        self.h = np.inf
        self.norm = 0
        self.lagtype = 't'
        self.__dict__.update(sub_dict_select(kwds, ['tr', 'h', 'norm', 'lagtype']))

    def to_spec(self):
        """carry type=self.lagtype tr=self.tr"""
        if self.lagtype == 't':                    # OK
            kind = 'freq'
        else:
            kind = 'k1d'
        s = Spec(self.data * 2, self.args, type=kind)
        s.tr = self.tr
        return s

    def to_spec_two_returns(self):
        """carry type=self.lagtype tr=self.tr"""
        if self.lagtype == 't':                    # OK
            return Spec(self.data, self.args, type='freq', tr=self.tr)
        return Spec(self.data, self.args, type='k1d', tr=self.tr)

    def to_spec_one_forgets(self):
        """carry type=self.lagtype tr=self.tr"""
        if self.lagtype == 't':                    # BAD Cov.to_spec_one_forgets: tr
            return Spec(self.data, self.args, type='freq', tr=self.tr)
        return Spec(self.data, self.args, type='k1d')


class Forgetful(Base):
    def __init__(self, *args, **kwds):
        """keep tr h"""
        super(Forgetful, self).__init__(*args, **kwds)
        self.tr = kwds.get('tr')
        self.h = np.inf                            # BAD Forgetful(h)


class Misnamed(Base):
    def __init__(self, *args, **kwds):
        """keep tr h"""
        super(Misnamed, self).__init__(*args, **kwds)
        self.tr = kwds.get('tr')
        self.h = kwds.get('H', np.inf)             # BAD Misnamed(h)


class Estimating(Base):
    def __init__(self, *args, **kwds):
        """keep mean sigma"""
        options = dict(plotter=1)                  # OK
        options.update(**kwds)
        super(Estimating, self).__init__(*args, **options)
        self.mean = kwds.get('mean')
        self.sigma = kwds.get('sigma')
        if self.sigma is None or self.mean is None:
            m, s = self.data.mean(), self.data.std()
            if self.mean is None:
                self.mean = m
            if self.sigma is None:
                self.sigma = s


class Spec(Base):
    def __init__(self, *args, **kwds):
        """keep tr h norm type freqtype"""
        super(Spec, self).__init__(*args, **kwds)  # OK
        self.type = kwds.pop('type', 'freq')
        self._freqtype = kwds.pop('freqtype', 'w')
        self.h = kwds.pop('h', np.inf)
        self.tr = kwds.pop('tr', None)
        self.norm = kwds.pop('norm', False)

    @property
    def freqtype(self):
        return self._freqtype

    @freqtype.setter
    def freqtype(self, v):
        self._freqtype = v

    def plain(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        r = np.fft.fft(self.data)                  # OK
        acf = Cov(r, self.args)
        acf.tr = self.tr
        acf.h = self.h
        acf.norm = self.norm
        return acf

    def keywords(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        return Cov(self.data, self.args, tr=self.tr, h=self.h, norm=self.norm)     # OK

    def loop(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        acf = Cov(self.data, self.args)            # OK
        for name in ('tr', 'h', 'norm'):
            setattr(acf, name, getattr(self, name))
        return acf

    def unpacked(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        opts = {k: getattr(self, k) for k in ('tr', 'h', 'norm')}                  # OK
        return Cov(self.data, self.args, **opts)

    def updated(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        acf = Cov(self.data, self.args)            # OK
        acf.__dict__.update(tr=self.tr, h=self.h)
        vars(acf)['norm'] = self.norm
        return acf

    def helper(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        acf = Cov(self.data, self.args)            # OK
        self._describe(acf)
        return acf

    def _describe(self, acf):
        acf.tr, acf.h, acf.norm = self.tr, self.h, self.norm

    def helper2(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        return _make(self.data, self)              # OK

    def copied(self):
        """carry tr=self.tr h=self.h norm=self.norm data=self.data"""
        s = self.copy()                            # OK
        s.data = s.data / 2
        return s

    def copied2(self):
        """carry tr=self.tr h=self.h norm=self.norm freqtype=self.freqtype"""
        s = copy.deepcopy(self)                    # OK
        s.data = s.data / 2
        return s

    def own_class(self):
        """carry tr=self.tr h=self.h data=self.data"""
        s = type(self)(self.data, self.args, tr=self.tr, h=self.h)                 # OK
        return s

    def optional(self, h=None):
        """carry tr=self.tr h=self.h,h"""
        if h is None:                              # OK
            h = self.h
        return Cov(self.data, self.args, tr=self.tr, h=h)

    def given_only(self):
        """carry h=self.h"""
        acf = Cov(self.data, self.args)            # OK
        if self.h is not None:
            acf.h = self.h
        return acf

    def branches(self, fast):
        """carry tr=self.tr h=self.h"""
        if fast:                                   # OK
            acf = Cov(self.data, self.args)
        else:
            acf = Cov(self.data * 1.0, self.args)
        acf.tr = self.tr
        acf.h = self.h
        return acf

    def attempt(self):
        """carry tr=self.tr h=self.h"""
        acf = Cov(self.data, self.args, tr=self.tr)                                # OK
        try:
            acf.h = self.h
        except AttributeError:
            pass
        return acf

    def pair(self):
        """carry (0, 1) h=self.h"""
        a, b = Cov(self.data, self.args, h=self.h), Cov(self.data, self.args, h=self.h)     # OK
        return a, b

    def bad_pair(self):
        """carry (0, 1) h=self.h"""
        a, b = Cov(self.data, self.args, h=self.h), Cov(self.data, self.args)      # BAD Spec.bad_pair: h of result 1
        return a, b

    def forgotten(self):
        """carry tr=self.tr h=self.h"""
        acf = Cov(self.data, self.args)            # BAD Spec.forgotten: h
        acf.tr = self.tr
        return acf

    def mixed_up(self):
        """carry tr=self.tr h=self.h"""
        acf = Cov(self.data, self.args, h=self.h)
        acf.tr = self.h                            # BAD Spec.mixed_up: tr
        return acf

    def one_branch(self, nr):
        """carry tr=self.tr"""
        acf = Cov(self.data, self.args)            # BAD Spec.one_branch: tr
        if nr > 0:
            acf.tr = self.tr
        return acf

    def overwritten(self):
        """carry norm=self.norm"""
        acf = Cov(self.data, self.args, norm=self.norm)
        acf.norm = False                           # BAD Spec.overwritten: norm
        return acf

    def short_loop(self):
        """carry tr=self.tr norm=self.norm"""
        acf = Cov(self.data, self.args)            # BAD Spec.short_loop: norm
        for name in ('tr', 'h'):
            setattr(acf, name, getattr(self, name))
        return acf

    def rebuilt(self, rate):
        """carry tr=self.tr"""
        acf = Cov(self.data, self.args, tr=self.tr)        # BAD Spec.rebuilt: tr
        if rate > 1:
            acf = Cov(acf.data * 2, acf.args)
        return acf

    def early(self):
        """carry tr=self.tr"""
        if len(self.data) < 2:                     # BAD Spec.early: tr
            return Cov(self.data, self.args)
        return Cov(self.data, self.args, tr=self.tr)

    def by_helper(self):
        """carry tr=self.tr"""
        acf = Cov(self.data, self.args, tr=self.tr)        # BAD Spec.by_helper: tr
        return _reset(acf)


def _make(data, spec):
    return Cov(data, spec.args, tr=spec.tr, h=spec.h, norm=spec.norm)


def _reset(acf):
    acf.tr = None
    return acf
