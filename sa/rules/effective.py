"""C08: every parameter takes effect, and options are handed on to the functions that do the work."""
import ast
import json
import os
from ..framework import Result
from ..influence import Influence, GIVEN, OTHER, EMPTY
from ..project import is_public, walk_local

# only what is told to the user, or where it is drawn
TALK = {'verbose', 'debug', 'trace', 'chk_seastate', 'monitor', 'disp'}
PLOT = {'axis', 'ax', 'axes', 'fig', 'figure', 'plotter'}


def quiet(f):
    """parameters that only say how much is told or where is drawn"""
    return TALK | PLOT if 'plot' in f.qual.lower() or f.qual.split(':')[0] in ('wafo.graphutil', 'wafo.containers') else TALK


UNUSED_OK = {
    # (function, parameter): reason
    ('wafo.graphutil:cltext', 'zs'): 'kept for the signature of the three-dimensional version',
    ('wafo.integrate_oscillating:chebyshev_extrema', 'delta'): 'common signature of the point set functions',
    ('wafo.integrate_oscillating:chebyshev_roots', 'delta'): 'common signature of the point set functions',
    ('wafo.integrate_oscillating:tanh_sinh_nodes', 'delta'): 'common signature of the point set functions',
    ('wafo.integrate_oscillating:tanh_sinh_open_nodes', 'delta'): 'common signature of the point set functions',
    ('wafo.kdetools.kernels:_Kernel.norm_factor', 'n'): 'common signature of the kernels',
    ('wafo.kdetools.kernels:_KernelGaussian.norm_factor', 'n'): 'common signature of the kernels',
    ('wafo.kdetools.kernels:_KernelLaplace.norm_factor', 'n'): 'common signature of the kernels',
    ('wafo.kdetools.kernels:_KernelMulti.norm_factor', 'n'): 'common signature of the kernels',
    ('wafo.kdetools.kernels:_KernelProduct.norm_factor', 'n'): 'common signature of the kernels',
    ('wafo.kdetools.kernels:_KernelRectangular.norm_factor', 'n'): 'common signature of the kernels',
    ('wafo.markov:arfm2mctp', 'Frfc'): 'unfinished: fails for every input',
    ('wafo.markov:cmatplot', 'clevels'): 'unfinished: the kinds of plot it applies to are not there',
    ('wafo.markov:mc2rfc', 'paramv'): 'fails for every input',
    ('wafo.markov:mc2rfc', 'paramu'): 'fails for every input',
    ('wafo.polynomial:chebinterpolate', 'domain'): 'not documented, kept for later',
}
STUBS = {'wafo.objects:TimeSeries.reconstruct', 'wafo.spectrum.core:SpecData2D.tospecdata', 'wafo.spectrum.core:plotspec'}
# parameters without effect for some value of another option
WITH_OK = {
    ('wafo.integrate:qrule', 'wfun=1'): 'alpha beta', ('wafo.integrate:qrule', 'wfun=3'): 'beta',
    ('wafo.interpolate:CubicHermiteSpline.__init__', 'yp=given'): 'method', ('wafo.interpolate:Pchip.__init__', 'yp=given'): 'method',
    ('wafo.interpolate:StinemanInterp.__init__', 'yp=given'): 'method monotone scale',
    ('wafo.kdetools.kdetools:BKRegression.prb_empirical', 'xi=given'): 'hs_e',
    ('wafo.kdetools.kdetools:BKRegression.prb_search_best', 'hsvec=given'): 'hsfun',
    ('wafo.kdetools.kernels:Kernel.hscv', 'hvec=given'): 'maxit',
    ('wafo.markov:cmatplot', 'method=15'): 'cmat ux uy', ('wafo.markov:cmatplot', 'method=5'): 'cmat ux uy',
    ('wafo.objects:TimeSeries.tospecdata', "method='cov'"): 'noverlap',
    ('wafo.objects:TimeSeries.wave_periods', 'index=given'): 'wdef',
    ('wafo.objects:TimeSeries.wave_periods', "pdef='M'"): 'wdef', ('wafo.objects:TimeSeries.wave_periods', "pdef='d'"): 'wdef',
    ('wafo.objects:TimeSeries.wave_periods', "pdef='m'"): 'wdef', ('wafo.objects:TimeSeries.wave_periods', "pdef='u'"): 'wdef',
    ('wafo.objects:TurningPoints.cycle_pairs', 'h=0'): 'method',
    ('wafo.spectrum.core:SpecData2D.rotate', 'rotateGrid=False'): 'method',
    ('wafo.spectrum.models:McCormick.__init__', 'M=given'): 'Tz',
    ('wafo.spectrum.models:ModelSpectrum.tospecdata', 'w=given'): 'wc nw',
    ('wafo.spectrum.models:Spreading.tospecdata2d', 'theta=given'): 'nt',
    ('wafo.spectrum.models:jonswap_seastate', "method='3'"): 'u10 fetch g output',
    ('wafo.stats.core:RegLogit.predict', 'fulloutput=False'): 'alpha',
    ('wafo.stats.core:dispersion_idx', 'u=given'): 'nu', ('wafo.stats.core:reslife', 'u=given'): 'nu',
    ('wafo.transform.core:TrCommon.dist2gauss', 'x=given'): 'xnmin xnmax n',
    ('wafo.transform.models:TrCommon2.trdata', 'x=given'): 'xnmin xnmax n',
}
# options that name something of another library or function: values the code does not mention make a difference too
OPEN = {
    'wafo.covariance.core:CovData1D.tospecdata': 'method', 'wafo.kdetools.kdetools:BKRegression.prb_search_best': 'hsfun color label',
    'wafo.kdetools.kdetools:BKRegression.prb_empirical': 'color', 'wafo.kdetools.kdetools:BKRegression.prb_smoothed': 'color label',
    'wafo.interpolate:interp3': 'method', 'wafo.interpolate:slopes': 'method', 'wafo.misc:index2sub': 'order',
    'wafo.misc:plot_histgrm': 'lintype', 'wafo.objects:LevelCrossings.extrapolate': 'method',
    'wafo.objects:TimeSeries.tocovdata': 'window', 'wafo.objects:TimeSeries.tospecdata': 'window', 'wafo.objects:TimeSeries.trdata': 'method',
    'wafo.objects:TimeSeries.plot_wave': 'sym1 sym2', 'wafo.polynomial:poly2hstr': 'variable', 'wafo.polynomial:poly2str': 'variable',
    'wafo.spectrum.core:SpecData1D.resample': 'method', 'wafo.spectrum.core:SpecData1D.testgaussian': 'method',
    'wafo.spectrum.core:SpecData2D.rotate': 'method', 'wafo.stats.plot:plotqq': 'method',
}
# what an object was made with and the computations it has to matter for
_SPREAD = 'theta0 m_a m_b s_a s_b wn_lo wn_c wn_up method type'
USES = {
    'wafo.containers:PlotData.eval_points': 'data args', 'wafo.containers:PlotData.integrate': 'data args', 'wafo.containers:PlotData.to_cdf': 'data args',
    'wafo.covariance.core:CovData1D.sim': 'data args tr', 'wafo.covariance.core:CovData1D.simcond': 'data args tr',
    'wafo.covariance.core:CovData1D.tospecdata': 'data args lagtype',
    'wafo.covariance.estimation:CovarianceEstimator.tocovdata': 'detrend dt flag lag norm tr window',
    'wafo.interpolate:PPform.__call__': 'breaks coeffs a b fill', 'wafo.interpolate:PPform.derivative': 'breaks coeffs',
    'wafo.interpolate:PPform.integrate': 'breaks coeffs', 'wafo.interpolate:PPform.linear_extrapolate': 'breaks coeffs',
    'wafo.interpolate:StinemanInterp.__call__': 'x y yp',
    'wafo.integrate_oscillating:AdaptiveLevin.__call__': 'a b f g dg basis precision s endpoints full_output',
    'wafo.integrate_oscillating:QuadOsc.__call__': 'a b f g dg basis precision s maxiter full_output endpoints',
    'wafo.objects:CyclePairs.level_crossings': 'data args mean sigma time', 'wafo.objects:CyclePairs.damage': 'data args',
    'wafo.objects:LevelCrossings.extrapolate': 'data args mean sigma', 'wafo.objects:LevelCrossings.trdata': 'data args mean sigma',
    'wafo.objects:LevelCrossings.sim': 'data args mean sigma',
    'wafo.objects:TurningPoints.cycle_pairs': 'data args mean sigma', 'wafo.objects:TurningPoints.rainflow_filter': 'data args mean sigma',
    'wafo.objects:TimeSeries.tocovdata': 'data args', 'wafo.objects:TimeSeries.tospecdata': 'data args', 'wafo.objects:TimeSeries.trdata': 'data args',
    'wafo.objects:TimeSeries.turning_points': 'data args', 'wafo.objects:TimeSeries.trough_crest': 'data args',
    'wafo.objects:TimeSeries.wave_periods': 'data args', 'wafo.objects:TimeSeries.wave_parameters': 'data args',
    'wafo.objects:TimeSeries.wave_height_steepness': 'data args',
    'wafo.sg_filter._core:SavitzkyGolay.smooth': '_coeff axis cval mode', 'wafo.sg_filter._core:HampelFilter.__call__': 'adaptive dx t fulloutput',
    'wafo.sg_filter._core:HodrickPrescott.__call__': 'w', 'wafo.sg_filter._core:Kalman.__call__': 'A B H P Q R x',
    'wafo.sg_filter._core:SmoothNd.__call__': 'fulloutput maxiter robust s tolz weight z0',
    'wafo.spectrum.core:SpecData1D.moment': 'data args', 'wafo.spectrum.core:SpecData1D.characteristic': 'data args',
    'wafo.spectrum.core:SpecData1D.bandwidth': 'data args', 'wafo.spectrum.core:SpecData1D.sim': 'data args tr',
    'wafo.spectrum.core:SpecData1D.sim_nl': 'data args h', 'wafo.spectrum.core:SpecData1D.stats_nl': 'data args h',
    'wafo.spectrum.core:SpecData1D.to_linspec': 'data args h', 'wafo.spectrum.core:SpecData1D.to_mm_pdf': 'data args tr',
    'wafo.spectrum.core:SpecData1D.to_t_pdf': 'data args tr', 'wafo.spectrum.core:SpecData1D.to_mmt_pdf': 'data args tr',
    'wafo.spectrum.core:SpecData1D.tocovdata': 'data args', 'wafo.spectrum.core:SpecData1D.tocov_matrix': 'data args',
    'wafo.spectrum.core:SpecData2D.moment': 'data args phi type', 'wafo.spectrum.core:SpecData2D.rotate': 'data args phi type',
    'wafo.spectrum.models:Bretschneider.__call__': 'Hm0 Tp N M', 'wafo.spectrum.models:Jonswap.__call__': 'Hm0 Tp gamma sigmaA sigmaB Ag N M',
    'wafo.spectrum.models:Tmaspec.__call__': 'Hm0 Tp gamma sigmaA sigmaB Ag N M h g', 'wafo.spectrum.models:Tmaspec.phi': 'h g',
    'wafo.spectrum.models:OchiHubble.__call__': 'wind swell', 'wafo.spectrum.models:Torsethaugen.__call__': 'wind swell',
    'wafo.spectrum.models:ModelSpectrum.tospecdata': 'Tp h type',
    'wafo.spectrum.models:Spreading.box': _SPREAD, 'wafo.spectrum.models:Spreading.cos2s': _SPREAD, 'wafo.spectrum.models:Spreading.mises': _SPREAD,
    'wafo.spectrum.models:Spreading.poisson': _SPREAD, 'wafo.spectrum.models:Spreading.sech2': _SPREAD, 'wafo.spectrum.models:Spreading.wrap_norm': _SPREAD,
    'wafo.stats.core:RegLogit.fit': 'accuracy deletecolinear maxiter', 'wafo.stats.estimation:FitDistribution.fit': 'data i_notfixed par_fix',
    'wafo.transform.core:TrCommon.dat2gauss': 'mean sigma ymean ysigma', 'wafo.transform.core:TrCommon.gauss2dat': 'mean sigma ymean ysigma',
    'wafo.transform.core:TrCommon.dist2gauss': 'mean sigma', 'wafo.transform.models:TrCommon2.trdata': 'mean sigma ymean ysigma',
    'wafo.transform.models:TrHermite.set_poly': 'mean sigma skew kurt',
    'wafo.transform.estimation:TransformEstimator.trdata': 'chkder gvar linextrap method ne ntr param plotflag gsm',
    'wafo.wave_theory.core:TransferFunction.tran': 'g h igam sensortype bet x y z thetax thetay rho convention',
    'wafo.gaussian:Rind.__call__': 'abseps releps coveps maxpts seed method nc1c2 xcutoff xcscale nit',
    'wafo.kdetools.kdetools:KDE.eval_points': 'dataset kernel hs alpha', 'wafo.kdetools.kdetools:KDE.eval_grid': 'dataset kernel hs alpha inc xmin xmax',
    'wafo.kdetools.kdetools:KDE.eval_grid_fast': 'dataset kernel hs inc xmin xmax', 'wafo.kdetools.kdetools:TKDE.eval_grid_fast': 'tkde L2',
    'wafo.kdetools.kdetools:TKDE.eval_points': 'tkde L2', 'wafo.kdetools.kdetools:TKDE.eval_grid': 'tkde L2',
    'wafo.kdetools.kdetools:KRegression.eval_grid_fast': 'tkde p', 'wafo.kdetools.kdetools:KRegression.eval_grid': 'tkde p',
}
# options of a callee that are not the option of the same name of the caller
OTHER_OK = {
    # (caller, callee, option): reason
    ('wafo.integrate:qrule', 'wafo.integrate:la_roots', 'alpha'): 'the weight function with alpha is handled before',
    ('wafo.objects:TimeSeries.tospecdata', 'wafo.objects:TimeSeries.tocovdata', 'tr'): 'the data are transformed before',
    ('wafo.objects:TimeSeries.tospecdata', 'wafo.objects:TimeSeries.tocovdata', 'detrend'): 'the data are detrended before',
    ('wafo.objects:TimeSeries.tospecdata', 'wafo.covariance.core:CovData1D.tospecdata', 'method'): 'another kind of method',
    ('wafo.objects:TimeSeries.wave_height_steepness', 'wafo.misc:findtc', 'kind'): 'another kind',
    ('wafo.spectrum.core:SpecData1D.resample', 'wafo.misc:discretize', 'method'): 'another kind of method',
    ('wafo.spectrum.core:SpecData1D.sim', 'wafo.spectrum.core:SpecData1D.resample', 'method'): 'another kind of method',
    ('wafo.spectrum.core:SpecData1D.sim', 'wafo.covariance.core:CovData1D.sim', 'dt'): 'the spectrum is resampled before',
    ('wafo.spectrum.core:SpecData1D.sim_nl', 'wafo.spectrum.core:SpecData1D.resample', 'method'): 'another kind of method',
    ('wafo.spectrum.core:SpecData1D.stats_nl', 'wafo.spectrum.core:qtf', 'method'): 'another kind of method',
    ('wafo.spectrum.core:SpecData1D.to_linspec', 'wafo.spectrum.core:SpecData1D.sim_nl', 'dt'): 'the spectrum is interpolated before',
    ('wafo.spectrum.models:phi1', 'wafo.wave_theory.dispersion_relation:w2k', 'h'): 'the ratio to infinite water depth',
    ('wafo.transform.estimation:TransformEstimator._trdata_cdf', 'wafo.stats.core:edf', 'method'): 'another kind of method',
    ('wafo.kdetools.kdetools:BKRegression.prb_smoothed', 'builtins.dict', 'alpha'): 'transparency in the plot',
    ('wafo.wave_theory.core:TransferFunction.tran', 'wafo.wave_theory.dispersion_relation:w2k', 'theta'): 'wave numbers along the direction of travel',
    ('wafo.spectrum.core:SpecData1D.to_mmt_pdf', 'wafo.containers:PlotData.__init__', 'data'): 'the data of the result',
}


def _default_values(f):
    """option -> values it is compared with, plus its default"""
    vals = {}
    for p, d in f.defaults.items():
        if isinstance(d, ast.Constant):
            if d.value is None:
                vals[p] = [None, GIVEN]
            elif isinstance(d.value, bool):
                vals[p] = [True, False]
            elif isinstance(d.value, (str, int)):
                vals.setdefault(p, []).append(d.value)
    for n in walk_local(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            x = n.left
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not x.args:
                x = x.func.value
            if isinstance(x, ast.Name) and x.id in f.defaults:
                for c in ast.walk(n.comparators[0]):
                    if isinstance(c, ast.Constant) and isinstance(c.value, (str, int)) and not isinstance(c.value, bool):
                        v = vals.setdefault(x.id, [])
                        if c.value not in v:
                            v.append(c.value)
    return vals


def _taken(f):
    """options taken out of the keyword arguments: name -> default"""
    out = {}
    if f.kwarg:
        for n in walk_local(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'get') \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == f.kwarg and len(n.args) == 2 \
                    and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                out[n.args[0].value] = n.args[1]
    return out


def _own(f):
    out = set()
    while f is not None:
        out |= set(f.all_params())
        out |= set(_taken(f))
        f = f.parent
    return out


USES_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'uses.json')


def own_uses(rule, f):
    """attributes of the receiver that influence what f returns or does; None if they cannot be told"""
    e = rule.effective(rule.sums[f.qual])
    for a, L in rule.sums[f.qual].attrs.items():
        if not a.startswith('_'):
            e |= set(L)
    if ('a', '*') in e:
        return None
    return {x[1].lstrip('_') for x in e if isinstance(x, tuple) and x[0] == 'sa'}


def derived(rule, f, names):
    """... and the constructor arguments these are computed from"""
    out, todo = set(), set(names)
    init = f.cls.find('__init__')
    attrs = rule.sums[init.qual].attrs if init is not None and init.qual in rule.sums else {}
    while todo:
        a = todo.pop()
        out.add(a)
        for b in (a, '_' + a):
            for x in attrs.get(b, ()):
                n = x if isinstance(x, str) else x[1].lstrip('_') if x[0] == 'sa' else None
                if n is not None and n not in out:
                    todo.add(n)
    return out


def _local_uses(rule):
    """examples: the comment of a method says what it has to use"""
    out = {}
    for q, f in rule.proj.funcs.items():
        if f.cls is not None and f.parent is None and f.name.startswith('uses_'):
            out[q] = f.name[5:].replace('_and_', ' ')
    return out


class Rule(object):
    def __init__(self, ctx, r, selftest):
        self.ctx, self.proj, self.eff, self.r = ctx, ctx.proj, ctx.effects, r
        self.inf = Influence(ctx)
        self.tables = not selftest
        for m in self.proj.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    n.value._isstmt = True
        self.sums = {q: self.inf.get(f) for q, f in sorted(self.proj.funcs.items()) if f.parent is None}
        self.read = self.attributes()
        self.npar = self.nwith = self.nsite = self.nobj = 0

    def attributes(self):
        """attributes whose value reaches the result or an effect of some function"""
        out = set()
        for q, s in self.sums.items():
            for L in (s.ret, s.out) + tuple(s.muts.values()):
                out |= {x[1] for x in L if isinstance(x, tuple)}
            for a, L in s.attrs.items():
                out |= {x[1] for x in L if isinstance(x, tuple) and x[1] != a}
        return out

    def effective(self, s):
        e = set(s.ret) | set(s.out) | set(s.muts)
        for L in s.muts.values():
            e |= set(L)
        for a, L in s.attrs.items():
            if a in self.read or a == '*':
                e |= set(L)
        return e

    # ---- each parameter ---------------------------------------------------------------------
    def interface(self, f, p):
        """a parameter other implementations of the same method use"""
        if f.cls is None:
            return False
        base = [c for c in f.cls.classes() if f.name in c.methods]
        same = [c for c in self.proj.classes.values() if c is not f.cls and f.name in c.methods and set(c.classes()) & set(base)]
        for c in same:
            g = c.methods[f.name]
            if p in g.params and g.qual in self.sums and p in self.effective(self.sums[g.qual]):
                return True
        return False

    def abstract(self, f):
        body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)

    def parameters(self):
        addr = self.addressed()
        for q, f in sorted(self.proj.funcs.items()):
            if f.parent is not None or not is_public(f, self.proj) or self.abstract(f):
                continue
            if self.tables and q in STUBS or q in addr:
                continue
            base = self.effective(self.sums[q])
            pars = [p for p in f.params if not (f.is_method and p == f.params[0]) and p not in quiet(f)]
            for p in pars:
                self.npar += 1
                if p in base or self.interface(f, p):
                    continue
                if self.tables and (q, p) in UNUSED_OK:
                    continue
                held = sorted(a for a, L in self.sums[q].attrs.items() if p in L)
                self.r.add('unused %s(%s)' % (q, p),
                           'parameter %s of %s has no influence on the result or effect of the call%s' % (
                               p, q, ' (stored in .%s, which nothing uses)' % ', .'.join(held) if held else ''),
                           '%s:%d' % (f.path, f.line))
            self.combinations(q, f, base, pars)
            self.residual(q, f, base, _default_values(f))

    def addressed(self):
        """functions called through a table: their signature is common"""
        from ..project import address_taken
        return {q for q in address_taken(self.proj) if self.proj.funcs[q].name.startswith('_')}

    def combinations(self, q, f, base, pars):
        vals = _default_values(f)
        for o, d in _taken(f).items():
            if isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (bool, str, int))):
                vals['**' + o] = [True, False] if isinstance(d.value, bool) else [None, GIVEN] if d.value is None else [d.value]
        for o, vs in sorted(vals.items()):
            if o.lstrip('*') in quiet(f):
                continue
            for v in vs:
                e = self.effective(self.inf.get(f, ((o, v),)))
                nm = o.lstrip('*')
                for p in pars:
                    if p == o or p not in base:
                        continue
                    self.nwith += 1
                    w = '%s=%r' % (nm, v)
                    if p in e or self.tables and p in WITH_OK.get((q, w), '').split():
                        continue
                    self.r.add('unused %s(%s) with %s' % (q, p, w),
                               'with %s the parameter %s of %s has no influence on the result or effect of the call' % (w, p, q),
                               '%s:%d' % (f.path, f.line))

    def residual(self, q, f, base, vals):
        """an option with some named values whose other values are handed on: they have to make a difference"""
        for o, vs in sorted(vals.items()):
            if o not in base or not any(isinstance(v, str) for v in vs) or self.tables and o not in OPEN.get(q, '').split():
                continue
            s = self.inf.get(f, ((o, OTHER),))
            self.nwith += 1
            if not s.ends or o in self.effective(s) or not self.tables and not f.name.startswith('open_'):
                continue
            self.r.add('unused %s(%s) beyond the named values' % (q, o),
                       'all values of %s other than those %s compares it with give the same result' % (o, q), '%s:%d' % (f.path, f.line))

    def objects(self):
        """what an object was made with matters for its computations"""
        for q, names in sorted(USES.items()) if self.tables else ():
            mod, name = q.split(':')
            c = self.proj.classes.get('%s:%s' % (mod, name.split('.')[0])) or self.proj.classes.get('%s.%s' % (mod, name.split('.')[0]))
            f = c.find(name.split('.')[1]) if c is not None else None
            if f is None or f.qual not in self.sums:
                continue
            e = self.effective(self.sums[f.qual])
            if ('a', '*') in e:
                continue
            for a in names.split():
                self.nobj += 1
                if ('a', a) not in e and ('a', '_' + a) not in e:
                    self.r.add('unused %s: %s' % (q, a), '%s of the object has no influence on what %s returns or does' % (a, q), '%s:%d' % (f.path, f.line))

        self.receivers()

    def receivers(self):
        """the same method by method, for the attributes of the receiver itself: uses.json holds what matters where"""
        table = json.load(open(USES_FILE)) if self.tables else _local_uses(self)
        for key, names in sorted(table.items()):
            q, _, pars = key.partition('(')
            mod, name = q.split(':')
            c = self.proj.classes.get('%s:%s' % (mod, name.split('.')[0])) or self.proj.classes.get('%s.%s' % (mod, name.split('.')[0]))
            f = c.find(name.split('.')[1]) if c is not None else None
            if f is None or f.qual not in self.sums:
                continue
            if pars and pars != ','.join(f.params[1:]) + ')':
                continue                      # a method of its own that now gets them as arguments
            have = own_uses(self, f)
            if have is None:
                continue
            have = derived(self, f, have)
            for a in names.split():
                self.nobj += 1
                if a not in have:
                    self.r.add('unused %s: %s' % (q, a), '%s of the object has no influence on what %s returns or does' % (a, q), '%s:%d' % (f.path, f.line))

    # ---- handing on --------------------------------------------------------------------------
    def sites(self):
        for q, f in sorted(self.proj.funcs.items()):
            own = _own(f)
            attrs = self.own_options(f)
            if not own and not attrs:
                continue
            self.parents, self.fnode = {}, f.node
            for n in walk_local(f.node if not isinstance(f.node, ast.Lambda) else [f.node.body]):
                for ch in ast.iter_child_nodes(n):
                    self.parents[id(ch)] = n
            calls = [n for n in walk_local(f.node if not isinstance(f.node, ast.Lambda) else [f.node.body]) if isinstance(n, ast.Call)]
            for n in calls:
                self.site(q, f, n, own, attrs)
            self.siblings(q, f, calls, own)

    def siblings(self, q, f, calls, own):
        """calls of the same function outside the package (or of methods of that name): what one call hands on, the others do"""
        groups = {}
        for n in calls:
            if any(k in ('fn', 'cls') for k, t in self.eff.sites.get(id(n), ())) or any(isinstance(a, ast.Starred) for a in n.args):
                continue
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if nm is not None and not any(k.arg is None for k in n.keywords):
                groups.setdefault(nm, []).append(n)
        for nm, ns in sorted(groups.items()):
            for p in sorted({k.arg for n in ns for k in n.keywords if k.arg in own} - quiet(f)):
                on = [n for n in ns if any(k.arg == p for k in n.keywords) and
                      p in self.inf.passed.get((q, id(n), None, p), EMPTY)]
                off = [n for n in ns if not any(k.arg == p for k in n.keywords)]
                for n in off if on else ():
                    if len(n.args) > max(len(m.args) for m in on):
                        continue             # by position
                    self.nsite += 1
                    if self.tables and (q, nm, p) in OTHER_OK or self.tested(n, p, None):
                        continue
                    self.r.add('dropped %s -> %s(%s)' % (q, nm, p),
                               '%s hands its %s on to %s in one call (line %d) and not in another' % (q, p, ast.unparse(n.func), on[0].lineno),
                               '%s:%d' % (f.path, n.lineno))

    def own_options(self, f):
        """constructor parameters kept as attributes of the same name"""
        g = f
        while g.parent is not None:
            g = g.parent
        if g.cls is None or not g.is_method or not g.params:
            return {}
        out = set()
        for c in g.cls.classes():
            i = c.methods.get('__init__')
            if i is None or i is g:
                continue
            s = self.sums.get(i.qual)
            if s is not None:
                out |= {a for a, L in s.attrs.items() if a in L and a in i.params}
        return {a: g.params[0] for a in out}

    def tested(self, n, p, selfname):
        """the call is in a branch chosen by p"""
        tests = []
        while id(n) in self.parents:
            m = self.parents[id(n)]
            t = getattr(m, 'test', None) if isinstance(m, (ast.If, ast.IfExp, ast.While)) else None
            if t is not None and n is not t:
                tests.append(t)
            n = m
        names = {p}
        for s in ast.walk(self.fnode) if tests else ():
            # a local of any name that takes the option out of the keywords
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.value
                key = v.args[0] if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('pop', 'get') \
                    and v.args else v.slice if isinstance(v, ast.Subscript) else None
                if isinstance(key, ast.Constant) and key.value == p:
                    names.add(s.targets[0].id)
        return any(isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Attribute) and x.attr == p
                   for t in tests for x in ast.walk(t))

    def site(self, q, f, n, own, attrs):
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        targets = [t for t in self.eff.sites.get(id(n), ())]
        if not any(k in ('fn', 'cls') for k, t in targets) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and f.is_method and not f.name.startswith('__'):
            targets = [('fn', f.qual)]         # another object of the same kind
        top = f.qual.split('.<')[0]
        for kind, t in sorted(targets):
            if kind == 'ext':
                self.external(q, f, n, own, t)
                continue
            if kind == 'cls':
                g = self.proj.classes[t].find('__init__')
            else:
                g = self.proj.funcs[t]
            if g is None or g.parent is not None or star:
                continue
            pos = list(g.params[:g.npos])
            if g.is_method and pos:
                pos = pos[1:]
            given = set(pos[:len(n.args)]) | {k.arg for k in n.keywords}
            eff = self.effective(self.sums[g.qual])
            named = dict(g.defaults)
            taken = _taken(g)
            named.update(taken)
            for p, d in sorted(named.items()):
                if p in quiet(f) or p not in eff and p not in taken:
                    continue
                mine = p in own
                if not mine and (p not in attrs or g.is_method and kind == 'fn'):
                    continue
                self.nsite += 1
                if self.tables and (q, g.qual, p) in OTHER_OK or self.tested(n, p, None):
                    continue
                if p not in given:
                    if p in taken and self.set_later(f, p):
                        continue
                    self.r.add('dropped %s -> %s(%s)' % (q, g.qual, p),
                               '%s calls %s without handing on %s: the default %s is used whatever was asked for' % (
                                   q, g.qual, ('its %s' if mine else 'self.%s') % p, ast.unparse(d)),
                               '%s:%d' % (f.path, n.lineno))
                    continue
                L = self.inf.passed.get((q, id(n), g.qual, p))
                if L is None or self.hands(L, p, f):
                    continue
                self.r.add('replaced %s -> %s(%s)' % (q, g.qual, p),
                           '%s calls %s with a value of %s that has nothing to do with %s' % (
                               q, g.qual, p, ('its own %s' if mine else 'self.%s') % p),
                           '%s:%d' % (f.path, n.lineno))

            for p, a in list(zip(pos, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                # an argument g cannot do without: options have words for names, letters are mathematics (a sphere in d=1 dimension)
                if p in named or p not in own or len(p) < 3 or p in quiet(f) or p not in eff:
                    continue
                self.nsite += 1
                if self.tables and (q, g.qual, p) in OTHER_OK or self.tested(n, p, None):
                    continue
                if self.inf.passed.get((q, id(n), g.qual, p)) == EMPTY:
                    self.r.add('replaced %s -> %s(%s)' % (q, g.qual, p),
                               '%s calls %s with %s=%s, which has nothing to do with its own %s' % (q, g.qual, p, ast.unparse(a), p),
                               '%s:%d' % (f.path, n.lineno))

    def set_later(self, f, p):
        """p is stored in an attribute of that name"""
        return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == p for x in ast.walk(f.node))

    def hands(self, L, p, f):
        if p in L or f.is_method and f.params and f.params[0] in L or ('a', p) in L:
            return True
        while f is not None:
            if f.kwarg in L:
                return True
            f = f.parent
        return False

    def external(self, q, f, n, own, t):
        for k in n.keywords:
            p = k.arg
            if p is None or p not in own or p in quiet(f):
                continue
            L = self.inf.passed.get((q, id(n), None, p))
            if L is None:
                continue
            self.nsite += 1
            if self.hands(L, p, f) or self.tested(n, p, None) or self.tables and (q, t, p) in OTHER_OK:
                continue
            self.r.add('replaced %s -> %s(%s)' % (q, t, p),
                       '%s calls %s with %s=%s, which has nothing to do with its own %s' % (q, t, p, ast.unparse(k.value), p),
                       '%s:%d' % (f.path, n.lineno))


def run(ctx, selftest=False):
    r = Result(
        rule='interprocedural data and control dependence: each parameter reaches the result, an attribute that is used, or '
             'another effect - for each value of each option it is combined with; and a call of a function with an option the '
             'caller has under the same name hands the caller\'s value over',
        explanation='flow-sensitive influence sets with summaries for all callees, specialised for the constants options are '
                    'compared with; the sets are over-approximated, so a reported parameter cannot matter')
    a = Rule(ctx, r, selftest)
    a.parameters()
    a.sites()
    a.objects()
    r.samples = ['%s: %s' % (q, ', '.join(sorted(x for x in a.effective(s) if isinstance(x, str))))
                 for q, s in sorted(a.sums.items())[::60]]
    r.coverage = {'parameters': a.npar, 'parameter_and_option_value_pairs': a.nwith, 'handing_on_sites': a.nsite, 'object_options': a.nobj,
                  'functions_summarised': len(a.sums), 'specialised_summaries': len(a.inf.sums), 'call_sites': len(a.inf.ncalls)}
    r.assumptions = ['what is only printed, warned about or refused (%s) counts as no effect' % ', '.join(sorted(TALK)),
                     'an attribute counts as used when any function of the package uses an attribute of that name']
    return r
