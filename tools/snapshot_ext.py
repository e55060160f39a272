"""Run once with /opt/venv/bin/python: names and signatures of the external libraries the package uses
(the libraries, not the package).  Writes sa/extnames.json."""
import importlib
import inspect
import json
import sys
import warnings
warnings.simplefilter('ignore')
names = json.load(sys.stdin)        # {'mods': [...], 'dotted': [...]}
out = {'members': {}, 'sigs': {}, 'types': []}


def load(d):
    parts = d.split('.')
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            o = getattr(o, p)
        return o
    raise ImportError(d)


for m in names['mods']:
    try:
        o = load(m)
        if inspect.ismodule(o):
            mem = set(dir(o))
            if m == 'numpy':
                mem |= {'random', 'linalg', 'fft', 'ma', 'polynomial', 'testing'}
            al = getattr(o, '__all__', None)
            out['members'][m] = {'names': sorted(mem), 'all': sorted(al) if al else sorted(x for x in mem if not x.startswith('_'))}
    except Exception:
        out['members'][m] = None
for d in names['dotted']:
    try:
        o = load(d)
        s = inspect.signature(o)
        ps = []
        for p in s.parameters.values():
            ps.append([p.name, str(p.kind).split('.')[-1] if '.' in str(p.kind) else p.kind.name, p.default is not p.empty])
        out['sigs'][d] = ps
    except Exception:
        pass
import numpy as np, types  # noqa
t = set()
objs = [np.ones(2), np.float64(1), np.int64(1), 'a', b'', [], {}, (), set(), 1, 1.0, 1j, np.finfo(float), np.dtype(float), lambda: 0,
        np.ma.masked_array([1.]), np.random.RandomState(0), np.poly1d([1]), np.matrix([1]), slice(1), iter([]), types, Exception(), range(3),
        np.s_, np.c_, np.r_, np.add, np.index_exp, np.mgrid, np.iinfo(int), np.random.default_rng(0), property()]
import io, collections, re, fractions, functools, warnings as w  # noqa
objs += [fractions.Fraction(1), io.StringIO(), collections.deque(), collections.defaultdict(list), collections.OrderedDict(), re.compile('a'), re.match('a', 'a'), open('/dev/null')]
import scipy.stats, scipy.sparse, scipy.interpolate, scipy.optimize  # noqa
objs += [scipy.stats.norm, scipy.stats.norm(), scipy.sparse.csr_matrix((2, 2)), scipy.sparse.lil_matrix((2, 2)), scipy.optimize.OptimizeResult(x=1, fun=1, success=1),
         scipy.interpolate.interp1d([0, 1], [0, 1]), scipy.stats.binom, scipy.interpolate.PPoly([[1.]], [0, 1])]
import matplotlib  # noqa
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa
f = plt.figure()
import matplotlib.transforms  # noqa
objs.append(matplotlib.transforms.Bbox([[0, 0], [1, 1]]))
a = f.add_subplot(111)
l, = a.plot([1], [1])
objs += [f, a, l, a.text(0, 0, 'a'), a.get_xaxis(), f.canvas, a.legend([l], ['a']), a.fill_between([0, 1], [0, 1]), a.contourf(np.ones((2, 2)))]
for o in objs:
    t |= set(dir(o))
t |= {'hess_inv', 'nfev', 'message', 'status', 'x', 'fun', 'success', 'warnflag'}
out['types'] = sorted(t)
json.dump(out, open(sys.argv[1], 'w'), indent=0, sort_keys=True)
