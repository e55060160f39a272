"""The documented values of options: (function, option, [values that mean the same], ...), from the docstrings."""
L14 = ['epanechnikov', 'biweight', 'triweight', 'p1epanechnikov', 'p1biweight', 'p1triweight', 'triangular', 'gaussian', 'rectangular', 'laplace', 'logistic']


def each(*vals):
    return [[v] for v in vals]


DOCUMENTED = [
    ('wafo.misc:findcross', 'kind', each('dw', 'uw', 'cw', 'tw', 'd', 'u', None)),
    ('wafo.misc:findtc', 'kind', each('dw', 'uw', 'cw', 'tw', None)),
    ('wafo.misc:findtp', 'kind', each('astm', 'mw', 'Mw') + [[None, 'none']]),
    ('wafo.misc:rfcfilter', 'method', each(0, 1)),
    ('wafo._misc_numba:findrfc', 'method', each(0, 1, 2)),
    ('wafo.misc:discretize', 'method', each('linear', 'adaptive')),
    ('wafo.misc:fourier', 'method', each('trapz', 'simps')),
    ('wafo.objects:CyclePairs.level_crossings', 'kind', [[0, 'u'], [1, 'uM'], [2, 'umM'], [3, 'um']]),
    ('wafo.objects:CyclePairs.cycle_matrix', 'method', each(0, 1, 2)),
    ('wafo.objects:CyclePairs.cycle_matrix', 'ddef', each(0, 1, -1)),
    ('wafo.objects:LevelCrossings.extrapolate', 'dist', [['genpareto', 'genpar'], ['expon'], ['rayleigh']]),
    ('wafo.objects:TimeSeries.tospecdata', 'method', each('cov', 'psd', 'psdo')),
    ('wafo.objects:TimeSeries.tospecdata', 'ftype', each('w', 'f')),
    ('wafo.objects:TimeSeries.wave_height_steepness', 'kind', each(0, 1, -1, 2, -2, 3, -3) + [['Vcf']]),
    ('wafo.objects:TimeSeries.wave_periods', 'pdef', each('t2c', 'c2t', 't2t', 'c2c', 'd2d', 'u2u', 'd2u', 'u2d', 'm2M', 'M2m', 'm2m', 'M2M',
                                                         'u2c', 'c2d', 'd2t', 't2u')),
    ('wafo.objects:TimeSeries.wave_periods', 'wdef', each('mw', 'Mw', 'dw', 'uw', 'cw', 'tw', None)),
    ('wafo.objects:TimeSeries.trough_crest', 'wavetype', each('dw', 'uw', 'cw', 'tw', None)),
    ('wafo.objects:TimeSeries.turning_points', 'wavetype', each('astm', 'mw', 'Mw') + [[None, 'none']]),
    ('wafo.objects:TimeSeries.trdata', 'method', each('nonlinear', 'mnonlinear', 'hermite', 'ochi', 'linear')),
    ('wafo.objects:TurningPoints.cycle_pairs', 'kind', each('min2max', 'max2min')),
    ('wafo.objects:TurningPoints.cycle_pairs', 'method', each('clib', 'None')),
    ('wafo.transform.estimation:TransformEstimator.trdata', 'self.method', each('nonlinear', 'mnonlinear', 'hermite', 'ochi', 'linear')),
    ('wafo.spectrum.core:SpecData1D.testgaussian', 'method', each('nonlinear', 'mnonlinear')),
    ('wafo.spectrum.core:SpecData1D.stats_nl', 'method', each('approximate', 'eigenvalue')),
    ('wafo.spectrum.core:SpecData1D.to_t_pdf', 'kind', each('Tc', 'Tt', 'Lc', 'Lt')),
    ('wafo.spectrum.core:SpecData1D.sim', 'method', each('exact', 'random')),
    ('wafo.spectrum.core:SpecData1D.sim_nl', 'method', each('apStochastic', 'aDeterministic', 'apDeterministic')),
    ('wafo.spectrum.core:SpecData1D.resample', 'method', each('linear', 'cubic', 'stineman')),
    ('wafo.spectrum.core:SpecData1D.freqtype@setter', 'freqtype', each('w', 'f')),
    ('wafo.spectrum.core:SpecData1D.__init__', '**freqtype', each('w', 'f', 'k')),
    ('wafo.spectrum.core:SpecData2D.__init__', '**freqtype', each('w', 'f', 'k')),
    ('wafo.spectrum.core:qtf', 'method', each('winterstein', 'langley')),
    ('wafo.covariance.core:CovData1D.__init__', '**lagtype', each('x', 'y', 't')),
    ('wafo.covariance.core:CovData1D.tospecdata', 'method', each('stineman', 'linear', 'cubic', 'fft')),
    ('wafo.covariance.core:CovData1D.simcond', 'method', [['approx', 'approximate'], ['exact']]),
    ('wafo.covariance.estimation:CovarianceEstimator.tocovdata', 'self.flag', each('biased', 'unbiased')),
    ('wafo.spectrum.models:Jonswap.__init__', 'method', each('integration', 'parametric', 'custom')),
    ('wafo.spectrum.models:Tmaspec.__init__', 'method', [['integrate', 'integration'], ['parametric'], ['custom']]),
    ('wafo.spectrum.models:Torsethaugen.__init__', 'method', [['integrate', 'integration'], ['parametric']]),
    ('wafo.spectrum.models:Spreading.method@setter', 'method', [[0, None], [1, 'mitsuyasu'], [2, 'donelan'], [3, 'banner']]),
    ('wafo.spectrum.models:Spreading.__call__', 'self.type', each('cos-2s', 'Box-car', 'von-Mises', 'Poisson', 'sech-2', 'wrapped-normal')),
    ('wafo.spectrum.models:jonswap_seastate', 'method', each('hasselman73', 'hasselman76', 'lewis')),
    ('wafo.interpolate:slopes', 'method', each('Catmull-Rom', 'Cardinal', 'parabola', 'secant', 'akima', 'pchip', 'stineman', 'steffen')),
    ('wafo.interpolate:sgolay2d', 'derivative', each(None, 'col', 'row', 'both')),
    ('wafo.kdetools.kernels:Kernel.__init__', 'name', each(*L14)),
    ('wafo.kdetools.kernels:mkernel', 'kernel', each(*L14)),
    ('wafo.kdetools.kernels:Kernel.__init__', 'fun', each('hste', 'hisj', 'hns', 'hos', 'hstt', 'hscv', 'hldpi')),
    ('wafo.kdetools.kernels:qlevels2', 'method', each(1, 2, 3, 4)),
    ('wafo.kdetools.kdetools:BKRegression.prb_ci', 'self.method', each('beta', 'wilson')),
    ('wafo.integrate:qrule', 'wfun', each(*range(1, 10))),
    ('wafo.integrate:_Gaussq.__call__', 'wfun', each(*range(1, 10))),
    ('wafo.integrate:h_roots', 'method', each('newton', 'eigenvalue')), ('wafo.integrate:j_roots', 'method', each('newton', 'eigenvalue')),
    ('wafo.integrate:la_roots', 'method', each('newton', 'eigenvalue')), ('wafo.integrate:p_roots', 'method', each('newton', 'eigenvalue')),
    ('wafo.markov:cmat2nt', 'kind', each(1, 0, -1)), ('wafo.markov:nt2cmat', 'kind', each(1, 0, -1)), ('wafo.markov:nt2fr', 'kind', each(0, 1)),
    ('wafo.polynomial:chebpoly', 'kind', each(1, 2)), ('wafo.polynomial:chebroot', 'kind', each(1, 2)),
    ('wafo.stats.core:edf', 'method', each(1, 2, 3)), ('wafo.stats.core:edfcnd', 'method', each(1, 2, 3)),
    ('wafo.stats.estimation:FitDistribution.method@setter', 'method', each('ml', 'mps')),
    ('wafo.wave_theory.core:TransferFunction._get_zk', 'self.igam', each(1, 2, 3)),
    ('wafo.wave_theory.core:TransferFunction.tran', 'self.sensortype', each(
        'n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy') + [[x, x.lower()] for x in ('P', 'U', 'V', 'W', 'U_t', 'V_t', 'W_t', 'X_p', 'Y_p', 'Z_p')]),
    ('wafo.wave_theory.core:TransferFunction.__init__', 'sensortype', each(*(list(range(18)) + [
        'n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'P', 'U', 'V', 'W', 'U_t', 'V_t', 'W_t', 'X_p', 'Y_p', 'Z_p']))),
    ('wafo.misc:findrfc', 'method', each('clib', 'None', 0, 1)),
    ('wafo.objects:TurningPoints.rainflow_filter', 'method', each('clib', 'None', 0, 1)),
    ('wafo.interpolate:CubicHermiteSpline.__init__', 'method', each('Catmull-Rom', 'Cardinal', 'parabola', 'secant', 'akima', 'pchip', 'stineman', 'steffen')),
    ('wafo.interpolate:Pchip.__init__', 'method', each('parabola', 'secant')),
    ('wafo.interpolate:StinemanInterp.__init__', 'method', each('parabola', 'stineman')),
    ('wafo.interpolate:interp3', 'method', each('linear', 'cubic', 'nearest')),
    ('wafo.spectrum.core:SpecData2D.rotate', 'method', each('linear', 'cubic')),
    ('wafo.kdetools.kdetools:BKRegression.prb_search_best', 'hsfun', each('hste', 'hisj', 'hns', 'hos', 'hstt', 'hscv')),
    ('wafo.kdetools.kdetools:KRegression._eval_gridfun', 'self.p', each(0, 1)),
    ('wafo.kdetools.kdetools:KRegression.__init__', 'p', each(0, 1)),
    ('wafo.transform.models:TrHermite.pardef@setter', 'pardef', each(1, 2)),
    ('wafo.transform.models:TrHermite.__init__', '**pardef', each(1, 2)),
    ('wafo.spectrum.models:OchiHubble._init_spec', 'self.par', each(*range(11))), ('wafo.spectrum.models:OchiHubble._chk_extra_param', 'self.par', [list(range(11))]),
    ('wafo.spectrum.models:Spreading.__init__', 'method', [[0], [None], [1, 'mitsuyasu'], [2, 'donelan'], [3, 'banner']]),
    ('wafo.spectrum.models:Spreading.fourier2distpar', 'self.type', each('Box-car', 'von-Mises', 'Poisson', 'sech-2', 'wrapped-normal')),
    ('wafo.dctpack:dct', 'type', each(1, 2, 3)), ('wafo.dctpack:idct', 'type', each(1, 2, 3)),
    ('wafo.dctpack:dst', 'type', each(1, 2, 3)), ('wafo.dctpack:idst', 'type', each(1, 2, 3)),
    ('wafo.dctpack:dct', 'norm', each(None, 'ortho')), ('wafo.dctpack:idct', 'norm', each(None, 'ortho')),
    ('wafo.dctpack:dst', 'norm', each(None, 'ortho')), ('wafo.dctpack:idst', 'norm', each(None, 'ortho')),
    ('wafo.containers:transform_id2plotflag2', 'transform_id', [['', 'None', 'f']] + each(
        '1-f', 'cumtrapz(f)', '1-cumtrapz(f)', 'log(f)', 'log(1-f)', 'log(cumtrapz(f))', 'log(1-cumtrapz(f))', '10log10(f)')),
    ('wafo.containers:transformdata_1d', 'plotflag', each(0, 10, 20, 30, 40, 50, 60, 70, 80)),
    ('wafo.stats.estimation:_CommonProfile._search_p_min_max', 'direction', each('min', 'max')),
    ('wafo.stats.estimation:_burr_link', 'i', each(0, 1, 2, 3)), ('wafo.stats.estimation:_expon_link', 'i', each(0, 1)),
    ('wafo.stats.estimation:_weibull_min_link', 'i', each(0, 1, 2)), ('wafo.stats.estimation:_exponweib_link', 'i', each(0, 1, 2, 3)),
    ('wafo.stats.estimation:_genpareto_link', 'i', each(1, 2)), ('wafo.stats.estimation:_gumbel_r_link', 'i', each(0, 1)),
    ('wafo.stats.estimation:_genextreme_link', 'i', each(1, 2)), ('wafo.stats.estimation:_genexpon_link', 'i', each(0, 1)),
    ('wafo.stats.estimation:_rayleigh_link', 'i', each(0, 1)), ('wafo.stats.estimation:_trunclayleigh_link', 'i', each(0, 1, 2)),
    ('wafo.sg_filter._core:_Filter.robust_weights', 'self.weightstr', each('bisquare', 'talworth', 'cauchy')),
]

# pairs documented as different that cannot come out differently in this function
SAME = set()
