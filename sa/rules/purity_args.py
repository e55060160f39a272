"""C01: calling a public function or method leaves the caller's arguments as they were."""
from ..effects import root, show
from ..framework import Result
from ..project import is_public

# Parameters that are handed over in order to be changed.
MATPLOTLIB = {'axis', 'ax', 'fig', 'figure', 'plotter', 'handle', 'handles'}
EXEMPT = {
    # (function, parameter): why the parameter is not protected
    ('wafo.misc:parse_kwargs', 'options'): 'documented: updates and returns the options dictionary',
    ('wafo.stats.estimation:plot_all_profiles', 'phats'): 'documented: refits phats when a profile finds a better optimum',
    ('wafo.stats._distn_infrastructure:_reduce_func2', 'kwds'): 'hook of scipy: it is given the fit method\'s own keyword dictionary',
    ('wafo.graphutil:tallibing', 'kwds'): 'the axis to draw in may be given as a keyword',
}


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='interprocedural may-alias effect analysis: no path from a public entry point writes '
             '(element/slice/augmented assignment, mutating method, out=, numpy in-place function, shape/dtype '
             'assignment, attribute assignment) to a location reachable from one of its parameters',
        explanation='every public function, method, property setter and constructor of the package is an obligation; '
                    'each parameter is tracked through aliases, views, containers, attributes and calls')
    npar = 0
    nent = 0
    for q, f in sorted(proj.funcs.items()):
        if not is_public(f, proj):
            continue
        s = eff.sums.get(q)
        if s is None:
            continue
        nent += 1
        selfname = f.params[0] if f.is_method and f.params else None
        pars = [p for p in f.all_params() if p != selfname]
        npar += len(pars)
        if len(r.samples) < 20 and pars and nent % 25 == 0:
            r.samples.append('%s(%s): no write reaches %s' % (q, ', '.join(pars), ', '.join(pars)))
        for (L, kind), o in sorted(s.effects.items(), key=lambda kv: (str(kv[0]), kv[1].line)):
            b = root(L)
            if b[0] != 'p' or b[1] == selfname:
                continue
            p = b[1]
            if p in (f.kwarg, f.vararg) and L == b:
                continue
            if p in MATPLOTLIB or (q, p) in EXEMPT:
                continue
            r.add('%s(%s)' % (q, p),
                  'argument %s of %s is modified (%s of %s) at %s' % (p, q, _kind(kind), show(L), o.where()),
                  '%s:%d' % (o.func.path, o.line))
    r.coverage = {'entry_points': nent, 'parameters': npar, 'functions_summarised': len(
        [k for k in eff.sums if isinstance(k, str)]), 'specialised_summaries': len(
        [k for k in eff.sums if not isinstance(k, str)]), 'call_sites': len(eff.ncalls)}
    r.assumptions = ['external functions (numpy, scipy, matplotlib) write only to the arguments the model lists '
                     '(out=, in-place functions); user callbacks are not followed',
                     'demo/plot objects passed as %s are meant to be changed' % ', '.join(sorted(MATPLOTLIB))]
    return r


def _kind(k):
    return {'write': 'content overwritten', 'reshape': 'shape/dtype overwritten',
            'rebind': 'rebound'}.get(k, 'attribute %s assigned' % k[4:] if k.startswith('set:') else k)
