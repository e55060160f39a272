"""C05: with the same seed a simulation is reproducible."""
import ast
from ..effects import RNG, rng_kind, RNG_DRAWS
from ..framework import Result
from ..interp import Interp
from ..project import is_public, walk_local

SEED_NAMES = ('iseed', 'seed', 'random_state', 'rng')
# methods that only random generators have
GEN_METHODS = (RNG_DRAWS - {'power', 'gamma', 'beta', 'f', 'choice', 'sample', 'random', 'bytes', 'normal', 'shuffle'}) \
    | {'rvs', '_rvs', 'resample'}
# fixed-point iteration over one and the same random sample (common random numbers)
RESEED_OK = {'to_linspec': 'every iteration deliberately reuses the same random sample'}
CLOCK = ('time.', 'datetime.', 'os.getpid', 'os.urandom', 'uuid.', 'secrets.', 'builtins.id', 'builtins.hash')


class Walk(Interp):
    """states: pairs (seeded, drawn); seeded is also True where no seed was given"""

    def __init__(self, rule, func, seeds, states, stack=()):
        Interp.__init__(self)
        self.rule, self.func, self.stack = rule, func, stack
        self.env = {'#st': frozenset(states)}
        for s in seeds:
            self.env[s] = frozenset(['seed'])
        self.given = bool(seeds)

    def join_val(self, a, b):
        return a | b

    # ---- events ---------------------------------------------------------------------
    def draw(self, node, what):
        st = self.env['#st']
        if any(not s for s, d in st):
            self.rule.report('unseeded', self, node, 'draws random numbers (%s) before the seed is set' % what)
        self.env['#st'] = frozenset((s, True) for s, d in st)
        self.rule.ndraw.add(id(node))

    def seed(self, node, what):
        st = self.env['#st']
        if any(s == 'given' and d for s, d in st):
            self.rule.report('reseed', self, node, 'sets the same seed again after numbers have been drawn (%s), so the '
                             'cases repeat each other' % what)
        self.env['#st'] = frozenset(('given' if s != 'none' else 'none', d) for s, d in st)
        self.rule.nseed.add(id(node))

    # ---- values -----------------------------------------------------------------------
    def ev(self, n):
        if n is None or isinstance(n, ast.Lambda):
            return frozenset()
        if isinstance(n, ast.Name):
            if n.id not in self.env and self.rule.foreign(self.func, n):
                return frozenset(['foreign'])
            return self.env.get(n.id, frozenset())
        if isinstance(n, ast.Attribute) and self.rule.foreign(self.func, n):
            return frozenset(['foreign'])
        if isinstance(n, ast.Attribute) and '@' + n.attr in self.env and own_attr(self.func, n):
            return self.env['@' + n.attr]
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                self.store(g.target, self.ev(g.iter), n)
            out = frozenset()
            for k in range(2):                       # a second round sees what the first one left
                e0 = dict(self.env)
                for g in n.generators:
                    for c in g.ifs:
                        self.ev(c)
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    out |= self.ev(x)
                self.env = self.join_env(e0, self.env)
            return out
        if isinstance(n, ast.Constant) and n.value is None:
            return frozenset(['none'])
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, ast.BoolOp):
            v = self.ev(n.values[0])
            for x in n.values[1:]:
                e0 = dict(self.env)
                u = self.ev(x)
                if isinstance(n.op, ast.Or) and 'seed' in v and 'seed' not in u:
                    v |= frozenset(['lost'])         # seed 0 counts as no seed
                v |= u
                self.env = self.join_env(e0, self.env)
            return v
        if isinstance(n, ast.IfExp):
            self.ev(n.test)
            e0 = self.env
            self.env = dict(e0)
            self.refine(n.test, True)
            a = self.ev(n.body)
            e1 = self.env
            self.env = dict(e0)
            self.refine(n.test, False)
            b = self.ev(n.orelse)
            self.env = self.join_env(e1, self.env)
            if ('seed' in a) != ('seed' in b) and not _none_test(n.test):
                return a | b | frozenset(['lost'])
            return a | b
        out = frozenset()
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.expr, ast.comprehension)):
                out |= self.ev(ch)
            elif isinstance(ch, ast.keyword):
                out |= self.ev(ch.value)
        if isinstance(n, ast.Compare):
            return frozenset()
        return out

    def call(self, n):
        fe = n.func
        fv = self.ev(fe.value) if isinstance(fe, ast.Attribute) else frozenset()
        args = [self.ev(a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        anyseed = any('seed' in a for a in args) or any('seed' in a for a in kws.values())
        anygen = any('gen' in a for a in args) or any('gen' in a for a in kws.values())
        lost = any('lost' in a for a in args) or any('lost' in a for a in kws.values())
        for a in list(n.args) + [k.value for k in n.keywords]:
            if isinstance(a, ast.Lambda):
                self.ev(a.body)
        out = frozenset()
        if any('seed' in a for a in args) or any('seed' in v for v in kws.values()):
            out |= frozenset(['seed'])
        if isinstance(fe, ast.Attribute) and 'gen' in fv and (fe.attr in RNG_DRAWS or fe.attr == 'rvs'):
            st = self.env['#st']
            self.env['#st'] = frozenset((s, True) for s, d in st)
            self.rule.ndraw.add(id(n))
            return frozenset(['gen'])                 # numbers from the seeded generator may seed others
        if isinstance(fe, ast.Attribute) and 'foreign' in fv and (fe.attr in RNG_DRAWS or fe.attr == 'rvs'):
            if any(x != 'none' for x, d in self.env['#st']):
                self.rule.report('unseeded', self, n, 'draws random numbers (%s) from a generator that the seed does not set'
                                 % ast.unparse(fe))
            return frozenset()
        rs = next((k for k in n.keywords if k.arg == 'random_state'), None)
        if rs is not None and isinstance(rs.value, ast.Constant) and rs.value.value is not None \
                and any(x != 'none' for x, d in self.env['#st']):
            self.rule.report('unseeded', self, n, 'draws random numbers with a fixed state (%s)' % ast.unparse(rs.value))
        targets = self.rule.eff.sites.get(id(n), ())
        known = False
        pre = self.env
        post = None
        for kind, name in sorted(targets, key=str):
            self.env = dict(pre)
            if kind == 'ext':
                k = rng_kind(name)
                if k == 'seed':
                    known = True
                    if name.startswith('random.'):
                        pass                          # the other generator
                    elif lost:
                        self.rule.report('unseeded', self, n, 'sets the generator to something else than the seed for some seeds')
                    elif anyseed or (isinstance(fe, ast.Attribute) and 'seed' in fv):
                        self.seed(n, name)
                    else:                             # the seed given before is void
                        self.env['#st'] = frozenset(('' if x != 'none' else x, d) for x, d in self.env['#st'])
                elif k == 'make':
                    known = True
                    out = frozenset(['gen']) if (anyseed or anygen) and not lost else frozenset(['foreign'])
                elif k == 'draw' and name.split('.')[-1] not in ('RandomState',):
                    known = True
                    self.draw(n, name)
            elif kind == 'fn':
                known = True
                out |= self.rule.enter(self, n, self.rule.proj.funcs[name], args, kws)
            elif kind == 'cls':
                c = self.rule.proj.classes[name]
                f = c.find('__init__')
                if f is not None:
                    known = True
                    self.rule.enter(self, n, f, args, kws)
            post = self.join_env(post, self.env)
        if post is not None:
            self.env = post
        if not known and isinstance(fe, ast.Attribute) and fe.attr in GEN_METHODS and 'gen' not in fv:
            if not targets or all(k == 'ext' and not rng_kind(nm) and nm.split('.')[-1] == 'rvs' for k, nm in targets):
                if not (anygen or 'random_state' in kws and 'seed' in kws['random_state']):
                    self.draw(n, ast.unparse(fe))
        return out

    def refine(self, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    if self.refine(v, truth) is False:
                        return False
            return True
        nm = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, (ast.Name, ast.Attribute)) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            nm = test.left.id if isinstance(test.left, ast.Name) else '@' + test.left.attr if own_attr(self.func, test.left) else None
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
        if nm and self.env.get(nm) == frozenset(['none']):
            return isnone
        if nm and 'seed' in self.env.get(nm, ()):
            if isnone:
                self.env['#st'] = frozenset(('none', d) for s, d in self.env['#st'])
            elif all(s == 'none' for s, d in self.env['#st']):
                return False
        return True

    def store(self, t, v, node):
        if isinstance(t, ast.Name):
            self.env[t.id] = v or frozenset()
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, v, node)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, node)
        else:
            for ch in ast.iter_child_nodes(t):
                if isinstance(ch, ast.expr):
                    self.ev(ch)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        if isinstance(s.target, ast.Name):
            self.env[s.target.id] = self.env.get(s.target.id, frozenset()) | v


class Unasked(Walk):
    """walk without a seed: every generator that is seeded on the way is seeded unasked"""
    OTHER = frozenset(['other'])

    def key(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute) and n.attr in SEED_NAMES + ('iseed',):
            return '@' + ast.unparse(n)
        return None

    def ev(self, n):
        if isinstance(n, ast.Name) and n.id in self.env:
            return self.env[n.id] or self.OTHER
        if isinstance(n, ast.Attribute) and n.attr in SEED_NAMES:
            # what the object was given, or nothing
            return self.env.get(self.key(n), frozenset(['caller', 'none']))
        if isinstance(n, ast.Constant):
            return frozenset(['none']) if n.value is None else self.OTHER
        if isinstance(n, ast.IfExp):
            self.ev(n.test)
            e0, out, envs = self.env, frozenset(), None
            for x, truth in ((n.body, True), (n.orelse, False)):
                self.env = dict(e0)
                if self.refine(n.test, truth) is not False:
                    out |= self.ev(x)
                    envs = self.join_env(envs, self.env)
            self.env = envs if envs is not None else e0
            return out or self.OTHER
        if isinstance(n, ast.BoolOp):
            out = frozenset()
            for i, x in enumerate(n.values):
                v = self.ev(x)
                last = i == len(n.values) - 1
                if isinstance(n.op, ast.Or) and not last:
                    out |= v - frozenset(['none'])
                    if v == frozenset(['none']):
                        continue
                else:
                    out |= v
                    if isinstance(n.op, ast.And) and v == frozenset(['none']):
                        break
            return out or self.OTHER
        if isinstance(n, (ast.BinOp, ast.Subscript, ast.UnaryOp, ast.Tuple, ast.List)):
            v = Walk.ev(self, n)
            return frozenset(['caller']) if 'caller' in v else self.OTHER
        return Walk.ev(self, n) or self.OTHER

    def call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop') and n.args and isinstance(n.args[0], ast.Constant) \
                and n.args[0].value in SEED_NAMES:
            v = frozenset(['caller'])
            for a in n.args[1:]:
                v |= self.ev(a)
            return v | (frozenset(['none']) if len(n.args) == 1 else frozenset())
        if isinstance(n.func, ast.Name) and n.func.id in ('int', 'float', 'abs') and n.args:
            return self.ev(n.args[0])
        for kind, name in self.rule.eff.sites.get(id(n), ()):
            if kind == 'ext' and rng_kind(name) == 'seed':
                v = frozenset()
                for a in list(n.args) + [k.value for k in n.keywords]:
                    v |= self.ev(a)
                if v != frozenset(['caller']):
                    self.rule.report('seed', self, n, 'sets the state of the random generator (%s) although no seed was given' % name)
                self.rule.nseed.add(id(n))
        return Walk.call(self, n)

    def draw(self, node, what):
        self.rule.ndraw.add(id(node))

    def seed(self, node, what):
        pass

    def refine(self, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                return all([self.refine(v, truth) is not False for v in test.values])
            return any([self.possible(v, truth) for v in test.values])
        if isinstance(test, ast.Constant):
            return bool(test.value) == truth
        k, isnone = None, None
        x = test.left if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.In, ast.Is)) \
            and not (isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None) \
            else test.args[0] if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ('isinstance', 'callable') \
            and test.args else None
        if x is not None and self.key(x) is not None:       # None equals no number and has no type of interest
            if self.ev(x) == frozenset(['none']):
                return not truth
            if truth and self.key(x) in self.env:
                self.env[self.key(x)] = self.env[self.key(x)] - frozenset(['none'])
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            k = self.key(test.left)
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
            cur = self.ev(test.left)
        else:
            k = self.key(test)
            if k is None:
                return True
            cur = self.ev(test)
            isnone = None if not truth else False     # true values are not None
        if isnone is None:
            return True
        new = cur & frozenset(['none']) if isnone else cur - frozenset(['none'])
        if isnone and 'other' in cur:
            new |= frozenset(['none'])
        if not new:
            return False
        if k is not None:
            self.env[k] = new
        return True

    def possible(self, test, truth):
        e = self.env
        self.env = dict(e)
        ok = self.refine(test, truth) is not False
        self.env = e
        return ok


def own_attr(f, n):
    return isinstance(n.value, ast.Name) and bool(f.params) and (f.is_method or f.cls is not None) and n.value.id == f.params[0]


class Rule(object):
    Walk = Walk

    def __init__(self, ctx, result):
        self.proj, self.eff, self.res = ctx.proj, ctx.effects, result
        self.ndraw, self.nseed = set(), set()
        self.entry = None
        self.fattr = {}
        self.depth = 0

    def relevant(self, f):
        s = self.eff.sums.get(f.qual)
        if s is None:
            return f.parent is not None
        return any(L == RNG for L, k in s.effects) or bool(seed_params(f))

    def enter(self, w, node, f, args, kws):
        if f.qual in w.stack or len(w.stack) > 8 or not self.relevant(f):
            return frozenset()
        ps = f.params[1:] if (f.is_method or (f.cls is not None and f.name == '__init__')) else list(f.params)
        seeds = []
        for p, a in zip(ps, args):
            if 'seed' in a:
                seeds.append(p)
        for k, a in kws.items():
            if 'seed' in a and k in f.params:
                seeds.append(k)
        st = w.env['#st']
        star = isinstance(node, ast.Call) and any(isinstance(a, ast.Starred) for a in node.args)
        sub = self.Walk(self, f, seeds, st, w.stack + (f.qual,))
        given = set(ps[:len(args)]) | set(kws)
        for p, a in list(zip(ps, args)) + list(kws.items()):
            if p in f.params and p not in seeds:
                sub.env[p] = a
        for p, d in f.defaults.items():
            if p not in given and None not in kws and isinstance(d, ast.Constant) and d.value is None:
                sub.env[p] = frozenset(['none'])
        if None in kws or star:                      # whatever the caller's caller gave
            for p in seed_params(f):
                if p not in given and self.Walk is Unasked:
                    sub.env[p] = frozenset(['caller', 'none'])
        sub.block(f.body)
        e = sub.env if sub.alive else None
        ret = frozenset()
        for v, env, _ in sub.returns:
            e = sub.join_env(e, env)
            ret |= v or frozenset()
        if e is not None:
            out = e['#st']
            if not seeds:
                # the callee chose its own ("none") for a seed it was not given
                pass
            w.env['#st'] = frozenset(out)
        return ret

    def foreign(self, f, e):
        """a generator kept in a module variable or attribute"""
        if isinstance(e, ast.Name):
            x = self.proj.lookup(f.module, e.id)
            if x and x[0] == 'gvar' and e.id not in f.all_params():
                return any(self.makes(x[1], v) for v in x[1].gvars.get(x[2], []))
            return False
        if isinstance(e.value, ast.Name) and f.cls is not None and f.params and e.value.id == f.params[0]:
            key = (f.cls.qual, e.attr)
            if key not in self.fattr:
                self.fattr[key] = any(
                    isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == e.attr for t in n.targets)
                    and self.makes(m.module, n.value)
                    for c in f.cls.classes() for m in c.methods.values() for n in walk_local(m.body))
            return self.fattr[key]
        return False

    def makes(self, module, v):
        if isinstance(v, ast.Call):
            x = self.proj.resolve_expr(module, v.func)
            return bool(x and x[0] == 'ext' and rng_kind(x[1]) == 'make')
        return False

    def report(self, kind, w, node, text):
        if kind == 'reseed' and self.entry.name in RESEED_OK:
            return
        f = w.func
        self.res.add('%s %s' % (kind, self.entry.qual),
                     '%s: %s:%d in %s %s' % (self.entry.qual, f.path, node.lineno, f.qual.split(':')[1], text),
                     '%s:%d' % (f.path, node.lineno))


def _none_test(t):
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None


def seed_params(f):
    return [p for p in f.params if p in SEED_NAMES]


def run(ctx, selftest=False):
    proj, eff = ctx.proj, ctx.effects
    r = Result(
        rule='typestate over all paths of every public entry point with a seed parameter, followed into callees: the '
             'seed reaches the generator before the first draw, is handed on to callees that draw, and is not set '
             'again after a draw; everywhere, generators are never created or seeded from the clock, the process or '
             'nothing, and all draws use numpy\'s generator',
        explanation='obligations: entry points taking a seed, draw sites and seeding sites reachable from them, and all '
                    'generator constructions and seedings of the package')
    rule = Rule(ctx, r)
    from .no_random import _method_draws
    mdraw = _method_draws(proj, eff)
    n = 0
    for q, f in sorted(proj.funcs.items()):
        sp = seed_params(f)
        if not sp or f.parent is not None or not (is_public(f, proj) or f.qual in ()):
            continue
        s = eff.sums.get(q)
        if s is None or not (any(L == RNG and k == 'draw' for L, k in s.effects) or q in mdraw):
            if f.name != '__init__' and sp and any(p in ('iseed',) for p in sp):
                n += 1
            continue
        n += 1
        rule.entry = f
        w = Walk(rule, f, sp, [('', False)], (f.qual,))
        w.block(f.body)
        r.samples.append('%s(%s): %d paths end with the seed set before the first draw' % (q, ', '.join(sp), len(w.returns)))
    # objects that keep the seed
    for q, f in sorted(proj.funcs.items()):
        s = eff.sums.get(q)
        if f.parent is not None or f.cls is None or not f.is_method or s is None or not is_public(f, proj) \
                or not (any(L == RNG and k == 'draw' for L, k in s.effects) or q in mdraw):
            continue
        mine = sorted({x.attr for x in walk_local(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)
                       and x.attr in SEED_NAMES and own_attr(f, x)})
        for a in mine:
            n += 1
            rule.entry = f
            w = Walk(rule, f, [], [('', False)], (f.qual,))
            w.given = True
            w.env['@' + a] = frozenset(['seed'])
            w.block(f.body)
            r.samples.append('%s with self.%s: nothing is drawn from the generator where it is given' % (q, a))
    # everywhere: no entropy besides the generator's own state
    nmake = 0
    for q, f in sorted(proj.funcs.items()):
        if f.name.startswith('test_'):
            continue
        for c in walk_local(f.node):
            if not isinstance(c, ast.Call):
                continue
            for kind, name in eff.sites.get(id(c), ()):
                if kind != 'ext':
                    continue
                k = rng_kind(name)
                if k is None:
                    continue
                if name.split('.')[0] in ('random', 'secrets', 'os', 'uuid'):
                    r.add('entropy %s' % q, '%s (%s:%d) draws from %s, which the seed does not control'
                          % (q, f.path, c.lineno, name), '%s:%d' % (f.path, c.lineno))
                if k in ('make', 'seed'):
                    nmake += 1
                    if not c.args and not c.keywords:
                        r.add('entropy %s' % q, '%s (%s:%d) makes %s without a seed: the result cannot be reproduced'
                              % (q, f.path, c.lineno, name), '%s:%d' % (f.path, c.lineno))
                    for a in list(c.args) + [kw.value for kw in c.keywords]:
                        for x in ast.walk(a):
                            if isinstance(x, ast.Call):
                                for k2, n2 in eff.sites.get(id(x), ()):
                                    if k2 == 'ext' and n2.startswith(CLOCK):
                                        r.add('entropy %s' % q, '%s (%s:%d) seeds %s from %s'
                                              % (q, f.path, c.lineno, name, n2), '%s:%d' % (f.path, c.lineno))
    r.coverage = {'seeded_entry_points': n, 'draw_sites_reached': len(rule.ndraw), 'seed_sites_reached': len(rule.nseed),
                  'generator_constructions_and_seedings': nmake, 'functions': len(proj.funcs)}
    r.assumptions = ['a parameter named %s is the seed' % '/'.join(SEED_NAMES),
                     'numpy.random functions draw from the one global generator; Fortran integrators take their seed as an argument']
    return r
