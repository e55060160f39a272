"""C02: query and conversion methods leave the object as it was; the methods that are meant to
change it replace attributes instead of overwriting arrays that may be shared."""
from ..effects import root, show, depth
from ..framework import Result
from ..project import is_public
from .purity_args import _kind

ANY = '*'
# (class, method) -> (attributes it may (re)assign, may it also write contents?, reason)
MUTATORS = {
    ('PlotData', 'setplotter'): ({'plotter'}, False, 'chooses the plot method'),
    ('CovData1D', 'setlabels'): ({'labels'}, False, 'sets the axis labels'),
    ('SpecData1D', 'setlabels'): ({'labels'}, False, 'sets the axis labels'),
    ('SpecData2D', 'setlabels'): ({'labels'}, False, 'sets the axis labels'),
    ('SpecData1D', 'normalize'): (ANY, False, 'documented in-place normalisation'),
    ('SpecData1D', 'resample'): ({'args', 'data'}, False, 'documented in-place resampling'),
    ('SpecData2D', 'rotate'): (ANY, False, 'documented in-place rotation'),
    ('SpecData2D', 'normalize'): (ANY, False, 'documented in-place normalisation'),
    ('Rind', '__call__'): (ANY, False, 'keyword options are documented to stick'),
    ('Rind', 'initialize'): (ANY, False, 'configures the integrator'),
    ('Rind', 'set_constants'): ({'nc1c2', 'xcutoff'}, False, 'configures the integrator'),
    ('_Gaussq', '__call__'): ({'trace', 'x_trace', 'y_trace'}, True, 'points of the last traced run'),
    ('PPform', 'linear_extrapolate'): (ANY, False, 'documented: output=False changes the object'),
    ('_KDE', 'eval_grid'): ({'args'}, False, 'remembers the last grid'),
    ('_KDE', 'eval_grid_fast'): ({'args'}, False, 'remembers the last grid'),
    ('_KDE', 'eval_grid_fun'): ({'args'}, False, 'remembers the last grid'),
    ('KRegression', 'eval_grid'): ({'_grdfun', 'tkde', 'args'}, False, 'remembers the last grid'),
    ('KRegression', 'eval_grid_fast'): ({'_grdfun', 'tkde', 'args'}, False, 'remembers the last grid'),
    ('BKRegression', 'prb_smoothed'): ({'kreg'}, False, 'sets the smoothing parameter it is given'),
    ('BKRegression', 'prb_search_best'): ({'kreg'}, False, 'sets the smoothing parameter it finds'),
    ('Bunch', 'update'): (ANY, False, 'updates the namespace'),
    ('HampelFilter', '__call__'): ({'UB', 'LB', 'outliers', 'num_outliers', 'ADX', 'Y0'}, False, 'outputs of the filter'),
    ('Kalman', 'reset'): ({'_filter'}, False, 'restarts the filter'),
    ('Kalman', '__call__'): (ANY, False, 'a filter step advances the state'),
    ('RegLogit', 'fit'): (ANY, False, 'fits the model'),
    ('FitDistribution', 'fit'): (ANY, False, 'fits the model'),
    ('TrHermite', 'set_poly'): ({'_forward', '_backward', '_x_limit'}, False, 'configures the model'),
}


def allowed(f):
    for c in f.cls.classes():
        a = MUTATORS.get((c.name, f.name))
        if a:
            return a
    return None


def first_field(L):
    prev = None
    while L[0] == 'f':
        prev = L
        L = L[1]
    return prev[2] if prev else None


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='interprocedural may-alias effect analysis: a public method other than a constructor writes nothing '
             'reachable from its receiver; listed mutators and property setters only rebind attributes and never '
             'write array contents or shapes in place',
        explanation='every public method and setter of every class is an obligation; effects of all callees are '
                    'substituted at each call site')
    nmeth = nmut = nset = 0
    for q, f in sorted(proj.funcs.items()):
        if not f.is_method or f.kind == 'class' or not f.params or f.parent is not None:
            continue
        if not is_public(f, proj) or f.name in ('__init__', '__setitem__', '__new__', '__exit__', '__enter__', '__next__'):
            continue
        s = eff.sums.get(q)
        if s is None:
            continue
        a = allowed(f)
        if f.kind == 'setter':
            nset += 1
        elif a:
            nmut += 1
        else:
            nmeth += 1
            if nmeth % 15 == 0:
                r.samples.append('%s leaves its receiver unchanged' % q)
        for (L, kind), o in sorted(s.effects.items(), key=lambda kv: (str(kv[0]), kv[1].line)):
            if root(L) != ('p', f.params[0]):
                continue
            attr = first_field(L) or (kind[4:] if kind.startswith('set:') else '')
            content = kind in ('write', 'reshape')
            if kind == 'rebind':
                continue
            if f.kind == 'setter' and not content:
                continue
            if a:
                attrs, contents_ok, _ = a
                if (attrs == ANY or attr in attrs or (attr == '' and kind == 'set:*')) and (not content or contents_ok):
                    continue
            r.add('%s changes self.%s' % (q, attr or '*'),
                  '%s changes the object it is called on (%s of %s) at %s' % (q, _kind(kind), show(L), o.where()),
                  '%s:%d' % (o.func.path, o.line))
    r.coverage = {'query_methods': nmeth, 'mutator_methods': nmut, 'property_setters': nset,
                  'functions_summarised': len([k for k in eff.sums if isinstance(k, str)]),
                  'call_sites': len(eff.ncalls)}
    r.assumptions = ['external functions write only to the arguments the model lists',
                     'the table of methods that exist to change the object: ' + ', '.join(
                         '%s.%s (%s)' % (k[0], k[1], v[2]) for k, v in sorted(MUTATORS.items()))]
    return r
