"""C06: computations that are not simulations use no randomness, and the random generator is
only reseeded when the caller passes a seed."""
import ast
import re
from ..effects import RNG, RNG_DRAWS, rng_kind
from ..framework import Result
from ..project import is_public, walk_local
from .seeding import seed_params, GEN_METHODS, Rule, Unasked, SEED_NAMES

# entry points whose documented job is to produce random numbers (matched by method name too,
# so that a simulation added to a sibling class is not an alarm)
STOCHASTIC = {
    'sim': 'simulation', 'sim_nl': 'simulation', 'simcond': 'conditional simulation', 'rndnormnd': 'random numbers',
    'testgaussian': 'Monte Carlo test', 'to_linspec': 'estimated from simulated records',
    'rvs': 'random numbers', '_rvs': 'random numbers', 'reconstruct': 'conditional simulation',
    'check_random_state': 'hands out generators',
}
# randomised integration: a random start point is drawn only if no seed is configured
RANDOMISED = {'wafo.gaussian:Rind.__call__', 'wafo.spectrum.core:SpecData1D.to_t_pdf',
              'wafo.spectrum.core:SpecData1D.to_mmt_pdf', 'wafo.spectrum.core:SpecData1D.to_mm_pdf'}


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='transitive draw/seed effects on random generators over the resolved call graph: only simulation entry '
             'points may draw, and seeding happens only with a value that comes from the caller',
        explanation='every public entry point is an obligation; draw effects propagate from numpy.random through all '
                    'resolved calls')
    n = nd = 0
    mdraw = _method_draws(proj, eff)
    for q, f in sorted(proj.funcs.items()):
        if not is_public(f, proj) or _helper(f):
            continue
        s = eff.sums.get(q)
        if s is None:
            continue
        n += 1
        for (L, kind), o in sorted(s.effects.items(), key=lambda kv: str(kv[0])):
            if L != RNG:
                continue
            if kind == 'draw':
                nd += 1
                if f.name in STOCHASTIC or q in RANDOMISED:
                    r.samples.append('%s draws (%s)' % (q, STOCHASTIC.get(f.name, 'randomised integration')))
                    continue
                r.add('draw %s' % q, '%s draws random numbers at %s' % (q, o.where()), '%s:%d' % (o.func.path, o.line))
            elif kind == 'seed':
                if not _takes_seed(f):
                    r.add('seed %s' % q, '%s reseeds the global random generator at %s although it was given no seed'
                          % (q, o.where()), '%s:%d' % (o.func.path, o.line))
        if q in mdraw and f.name not in STOCHASTIC:
            line, what = mdraw[q]
            r.add('draw %s' % q, '%s draws random numbers (%s) at %s:%d' % (q, what, f.path, line), '%s:%d' % (f.path, line))
    # path by path: without a seed no generator is seeded
    rule = Rule(ctx, r)
    rule.Walk = Unasked
    nw = 0
    for q, f in sorted(proj.funcs.items()):
        s = eff.sums.get(q)
        if f.parent is not None or s is None or _helper(f):
            continue
        for p in seed_params(f):
            d = f.defaults.get(p)
            if d is not None and not (isinstance(d, ast.Constant) and d.value is None):
                r.add('default %s' % q, '%s (%s:%d) takes %s for its seed when it is given none' % (q, f.path, f.line, ast.unparse(d)),
                      '%s:%d' % (f.path, f.line))
        if not any(L == RNG and k == 'seed' for L, k in s.effects):
            continue
        nw += 1
        rule.entry = f
        w = Unasked(rule, f, (), [('', False)], (f.qual,))
        for p in f.all_params():
            w.env[p] = frozenset(['none']) if p in SEED_NAMES else Unasked.OTHER
        w.block(f.body)
    # seeding with constants, anywhere in library code, at import time included
    ns = 0
    for q, f in sorted(proj.funcs.items()):
        if _helper(f):
            continue
        for c in walk_local(f.node):
            if isinstance(c, ast.Call):
                for k, name in eff.sites.get(id(c), ()):
                    if k == 'ext' and rng_kind(name) == 'seed':
                        ns += 1
                        if c.args and all(isinstance(a, ast.Constant) for a in c.args):
                            r.add('seed %s' % q, '%s (%s:%d) sets the global random generator to a fixed state'
                                  % (q, f.path, c.lineno), '%s:%d' % (f.path, c.lineno))
    for m in proj.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) or proj._is_main(st):
                continue
            for c in ast.walk(st):
                if isinstance(c, ast.Call):
                    e = proj.resolve_expr(m, c.func)
                    if e and e[0] == 'ext' and rng_kind(e[1]) in ('seed', 'draw'):
                        r.add('import %s' % m.name, 'importing %s (%s:%d) calls %s' % (m.name, m.rel, c.lineno, e[1]),
                              '%s:%d' % (m.rel, c.lineno))
    r.coverage = {'entry_points': n, 'functions_walked_without_a_seed': nw, 'seeding_calls_on_those_walks': len(rule.nseed), 'entry_points_that_draw': nd, 'seeding_sites': ns}
    r.assumptions = ['the simulation entry points are those named ' + ', '.join(sorted(STOCHASTIC)),
                     'randomised integration entry points: ' + ', '.join(sorted(RANDOMISED))]
    return r


def _helper(f):
    name = re.split('[.:]', f.module.proj.origin(f.qual))[-1]
    return name.startswith(('test_', 'demo')) or name in ('main', 'test', 'test1', 'test2')


def _takes_seed(f):
    return bool(seed_params(f)) or f.kwarg is not None or any(p in ('opt', 'options', 'opts') for p in f.params) \
        or f.name in STOCHASTIC


def _isgen(proj, eff, f, e):
    """a generator made here"""
    if isinstance(e, ast.Call):
        return any(k == 'ext' and rng_kind(n) == 'make' for k, n in eff.sites.get(id(e), ()))
    if isinstance(e, ast.Name):
        for n in walk_local(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) \
                    and isinstance(n.value, ast.Call) and _isgen(proj, eff, f, n.value):
                return True
        x = proj.lookup(f.module, e.id)
        if x and x[0] == 'gvar' and e.id not in f.all_params():
            for v in x[1].gvars.get(x[2], []):
                if isinstance(v, ast.Call):
                    y = proj.resolve_expr(x[1], v.func)
                    if y and y[0] == 'ext' and rng_kind(y[1]) == 'make':
                        return True
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and f.params and e.value.id == f.params[0]:
        for c in f.cls.classes():
            for m in c.methods.values():
                for n in walk_local(m.body):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(
                            isinstance(t, ast.Attribute) and t.attr == e.attr for t in n.targets) and _isgen(proj, eff, m, n.value):
                        return True
    return False


def _method_draws(proj, eff):
    """draws through generator objects and distributions (x.rvs(...)), propagated to callers"""
    direct = {}
    for q, f in proj.funcs.items():
        for c in walk_local(f.node):
            if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                    and (c.func.attr in GEN_METHODS or _isgen(proj, eff, f, c.func.value) and c.func.attr in RNG_DRAWS)
                    and not any(k == 'fn' for k, _ in eff.sites.get(id(c), ()))):
                if any(k == 'ext' and (rng_kind(n2) or not n2.endswith('rvs')) for k, n2 in eff.sites.get(id(c), ())):
                    continue
                direct[q] = (c.lineno, ast.unparse(c.func))
                break
    out = dict(direct)
    calls = {}
    for (cq, line, col, fq) in eff.ncalls:
        calls.setdefault(fq, set()).add((cq, line))
    work = list(direct)
    while work:
        q = work.pop()
        g = proj.funcs[q]
        ups = set(calls.get(q, ()))
        if g.parent is not None:
            ups.add((g.parent.qual, g.line))
        for cq, line in ups:
            if cq not in out and proj.funcs[q].name not in STOCHASTIC:
                out[cq] = (line, 'through ' + q)
                work.append(cq)
    return out
